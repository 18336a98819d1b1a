// Histories of DEPTH heap operations; every operation and every size class is a choice, sizes are symbolic within it.
#pragma once
#include "heap_model.h"
#ifndef DEPTH
#define DEPTH 4
#endif
#ifndef CLASSES
#define CLASSES (HEAP / 8)
#endif
#ifndef CALLOC
#define CALLOC 0
#endif
#ifndef NULLS
#define NULLS 0    // also deallocate null and blocks freed before
#endif
#ifndef RESETS
#define RESETS 0    // also reset the low-water mark
#endif

#ifndef FRAG
#define FRAG 0    // so many blocks are allocated first, and some of them freed again in one order or the other
#endif

template <class V>
static void
fragment(model& m, V& v)
{
    for (int i = 0; i < FRAG; i++) {
        auto  f = m.h.free_heap_size();
        auto  n = static_cast<std::size_t>(8 + 8 * (i % 3));
        v.before();
        void* p = m.h.allocate(n);
        SX_ASSUME(p != nullptr);
        v.allocated(m.got(p, n, f), f);
    }
    static unsigned const patterns[] = {0x00000000, 0x55555555, 0xaaaaaaaa, 0x49249249, 0xdb6db6db, 0x7ffffffe, 0x80000001, 0xf0f0f0f0};
    auto const free = patterns[sx_choice(8, "blocks freed at first")];
    bool const down = sx_choice(2, "freed from the end") != 0;
    for (int k = 0; k < FRAG; k++) {
        int i = down ? FRAG - 1 - k : k;
        if (!(free >> (i % 32) & 1)) continue;
        auto f = m.h.free_heap_size();
        v.before();
        m.release(m.b[i]);
        v.freed(m.b[i], f);
    }
}

#ifndef AGE
#define AGE 0    // so many blocks are allocated and freed at first
#endif
template <class V>
static void
age(model& m, V& v)
{
    for (int i = 0; i < AGE; i++) {
        auto  f = m.h.free_heap_size();
        auto  n = static_cast<std::size_t>(8 + 8 * (i % 3));
        v.before();
        void* p = m.h.allocate(n);
        if (!p) {
            m.wantFails++;
            v.failed(n, f);
            return;
        }
        auto& x = m.got(p, n, f);
        m.release(x);
        if (i >= AGE - 2) v.freed(x, f - x.taken);
        m.used = 0;
    }
    sx_cover("aged");
}

// V has: before(), allocated(blk&, freeBefore), failed(n, freeBefore), freed(blk&, freeBefore), noop(freeBefore)
template <class V>
static void
history(model& m, V& v, int depth = DEPTH)
{
    if (AGE) age(m, v);
    if (FRAG) fragment(m, v);
    for (int d = 0; d < depth; d++) {
        int stale = 0;
        if (NULLS)
            for (int i = 0; i < m.used; i++) stale += !m.b[i].live && !m.b[i].stale;
        int const nl = m.live();
        int op = sx_choice(1 + CALLOC + RESETS + (NULLS ? 1 + stale : 0) + nl, "operation");
        auto f = m.h.free_heap_size();
        v.before();
        if (op < nl) {
            auto& x = m.pick(op);
            m.release(x);
            v.freed(x, f);
            continue;
        }
        op -= nl;
        if (op == 0 || (CALLOC && op == 1)) {
            std::size_t n = some_size(op == 0 ? CLASSES : 2);
            void* p = op == 0 ? m.h.allocate(n) : m.h.callocate(1, n);
            if (p) v.allocated(m.got(p, n, f), f);
            else { m.wantFails++; sx_cover("an allocation failed"); v.failed(n, f); }
            continue;
        }
        op -= 1 + CALLOC;
        if (RESETS) {
            if (op == 0) {
                m.h.reset_minimum_ever_free_heap_size();
                m.low = f;
                v.noop(f);
                continue;
            }
            op--;
        }
        if (op == 0) { m.h.deallocate(nullptr); v.noop(f); continue; }
        op--;
        for (int i = 0; i < m.used; i++)
            if (!m.b[i].live && !m.b[i].stale && op-- == 0) {
                sx_cover("a freed block was freed again");
                m.h.deallocate(m.b[i].p);
                break;
            }
        v.noop(f);
    }
}
// frees the remaining blocks in every order
template <class V>
static void
free_all(model& m, V& v)
{
    bool const many = FRAG > 0, down = many && sx_choice(2, "freed from the end");    // many blocks: one end first
    while (int nl = m.live()) {
        auto& x = m.pick(many ? (down ? nl - 1 : 0) : static_cast<int>(sx_choice(nl, "free order")));
        auto  f = m.h.free_heap_size();
        m.release(x);
        v.freed(x, f);
    }
}
