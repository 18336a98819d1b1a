// Reference model of a static heap: the live blocks with their places, sizes and contents.
#pragma once
#include "sx.h"
#include <xitren/allocators/static_heap.hpp>

#ifndef HEAP
#define HEAP 128
#endif
#ifndef MAXB
#define MAXB 8
#endif
#ifndef TAIL
#define TAIL 0    // 1: also follow the bytes whose being requested depends on the exact size
#endif
#ifndef MAXN
#define MAXN HEAP
#endif

#ifndef BIG
#define BIG 0    // 1: sizes around powers of two up to the heap's own size; contents are followed at both ends of a block
#endif

using heap_t = xitren::allocators::static_heap<HEAP>;

template <class S>
struct stats_of;
template <class S>
struct stats_of<void (heap_t::*)(S*)> {
    using type = S;
};
using stats_t = typename stats_of<decltype(&heap_t::v_port_get_heap_stats)>::type;

// a request size: its eight-byte class is a choice, the exact size within the class is symbolic
static inline std::size_t
some_size(std::size_t maxClasses)
{
#ifdef ANYSIZE
    std::size_t const n = sx_sym<std::size_t>("bytes");
    SX_ASSUME(n > 0);
    return n;
#endif
#if BIG
    static std::size_t const big[] = {8, 127, 249, 256, 1000, 4080, 32760, 65519, 65528, 65536, 131064, 131072};
    (void)maxClasses;
    return big[sx_choice(12, "size")] ;
#endif
    std::size_t k = sx_choice(2 * maxClasses, "size class");
    return k % 2 ? 8 * (k / 2) + 8 : 8 * (k / 2) + 1 + sx_bits(3, "size in class") % 7;
}

struct blk {
    std::uint8_t* p{};
    std::size_t   n{};        // requested bytes
    std::size_t   taken{};    // bytes the heap took for it
    std::uint8_t  fill{};
    bool          live{};
    bool          painted{};
    bool          stale{};    // freed, and part of its memory was handed out again
};

struct model {
    heap_t        h;
    blk           b[MAXB];
    int           used{0};
    std::size_t   initial, overhead, low, oks{0}, frees{0};
    std::uint8_t* start;
    int           fails{0}, wantFails{0};

    static int* counter;
    model()
    {
        initial = h.free_heap_size();
        {    // the layout constants, measured on a heap of its own
            heap_t t;
            auto   before = t.free_heap_size();
            auto*  q      = static_cast<std::uint8_t*>(t.allocate(8));
            overhead      = before - t.free_heap_size() - 8;
            start = reinterpret_cast<std::uint8_t*>(&h) + (q - overhead - reinterpret_cast<std::uint8_t*>(&t));
        }
        low = initial;
        h.on_fail([this] { fails++; });
    }
    static std::size_t round8(std::size_t n) { return (n + 7) & ~std::size_t(7); }
    std::size_t
    live_bytes() const
    {
        std::size_t s = 0;
        for (int i = 0; i < used; i++)
            if (b[i].live) s += b[i].taken;
        return s;
    }
    int
    live() const
    {
        int c = 0;
        for (int i = 0; i < used; i++) c += b[i].live;
        return c;
    }
    // the free areas: the gaps between the live blocks
    template <class F>
    void
    areas(F f) const
    {
        std::uint8_t* at  = start;
        std::uint8_t* end = start + initial;
        for (;;) {
            blk const* next = nullptr;
            for (int i = 0; i < used; i++)
                if (b[i].live && b[i].p - overhead >= at && (!next || b[i].p < next->p)) next = &b[i];
            std::uint8_t* stop = next ? next->p - overhead : end;
            if (stop != at) f(static_cast<std::size_t>(stop - at));
            if (!next) return;
            at = stop + next->taken;
        }
    }
    std::size_t
    largest() const
    {
        std::size_t m = 0;
        areas([&](std::size_t s) { m = s > m ? s : m; });
        return m;
    }
    bool fits(std::size_t n) const
    {
        std::size_t const m = largest();
        return (n > 0) & (m > overhead) & (n <= ((m - overhead) & ~std::size_t(7)) * (m > overhead));
    }
    // stores the fill pattern in the bytes that were requested
    void
    paint(blk& x)
    {
        x.painted = true;
#if BIG
        for (std::size_t i = 0; i < 8; i++) x.p[i < x.n ? i : 0] = std::uint8_t(x.fill + (i < x.n ? i : 0)), x.p[x.n - 1 - (i < x.n ? i : 0)] = x.fill;
        return;
#endif
        std::size_t const sure = sx_concretize((x.n - 1) / 8) * 8 + 1, top = sure + 7 < x.taken - overhead ? sure + 7 : x.taken - overhead;
        for (std::size_t i = 0; i < sure; i++) x.p[i] = std::uint8_t(x.fill + i);
        if (TAIL)
        for (std::size_t i = sure; i < top; i++) {
            std::uint8_t m = std::uint8_t(0 - std::uint8_t(i < x.n));
            x.p[i] = std::uint8_t(((x.fill + i) & m) | (x.p[i] & ~m));
        }
    }
    bool
    intact(blk const& x) const
    {
#if BIG
        bool fine = x.n > 16;
        for (std::size_t i = 0; i < 8; i++) fine &= (x.p[i] == std::uint8_t(x.fill + i)) & (x.p[x.n - 1 - i] == x.fill);
        return fine | (x.n <= 16);
#endif
        std::size_t const sure = sx_concretize((x.n - 1) / 8) * 8 + 1, top = sure + 7 < x.taken - overhead ? sure + 7 : x.taken - overhead;
        bool ok = true;
        for (std::size_t i = 0; i < sure; i++) ok &= x.p[i] == std::uint8_t(x.fill + i);
        if (TAIL)
            for (std::size_t i = sure; i < top; i++) ok &= (i >= x.n) | (x.p[i] == std::uint8_t(x.fill + i));
        return ok;
    }
    bool
    all_intact() const
    {
        bool ok = true;
        for (int i = 0; i < used; i++)
            if (b[i].live && b[i].painted) ok &= intact(b[i]);
        return ok;
    }
    // records a block the heap returned
    blk&
    got(void* p, std::size_t n, std::size_t freeBefore)
    {
        blk& x  = b[used++];
        x.p     = static_cast<std::uint8_t*>(p);
        x.n     = n;
        x.taken = sx_concretize(freeBefore - h.free_heap_size());
        x.live  = true;
        oks++;
        for (int i = 0; i < used - 1; i++)
            if (!b[i].live && b[i].p - overhead < x.p - overhead + x.taken && b[i].p > x.p - overhead) b[i].stale = true;
        auto f = h.free_heap_size();
        low    = f < low ? f : low;
        return x;
    }
    // the k-th live block
    blk&
    pick(int k)
    {
        for (int i = 0; i < used; i++)
            if (b[i].live && k-- == 0) return b[i];
        return b[0];
    }
    void
    release(blk& x)
    {
        h.deallocate(x.p);
        x.live = false;
        frees++;
    }
    bool
    well_placed(blk const& x) const
    {
        auto a = reinterpret_cast<std::uintptr_t>(x.p), o = reinterpret_cast<std::uintptr_t>(&h);
        return (a % 8 == 0) & (a >= o) & (x.n <= sizeof(h)) & (a + x.n <= o + sizeof(h));
    }
    bool
    disjoint(blk const& x) const
    {
        bool ok = true;
        for (int i = 0; i < used; i++)
            if (b[i].live && &b[i] != &x) {
                auto p = reinterpret_cast<std::uintptr_t>(x.p), q = reinterpret_cast<std::uintptr_t>(b[i].p);
                ok &= (p + x.n <= q) | (q + b[i].n <= p);
            }
        return ok;
    }
};
