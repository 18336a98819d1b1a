// A08: standard containers work unchanged on a static heap.
#include "sx.h"
#include <xitren/allocators/static_heap.hpp>
#include <xitren/allocators/static_heap_allocator.hpp>
#include <deque>
#include <forward_list>
#include <memory>
#include <optional>
#include <list>
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

#ifndef HEAP
#define HEAP 512
#endif
#ifndef FILL
#define FILL 0
#endif
#ifndef NKEYS
#define NKEYS 3
#endif
#ifndef OPS
#define OPS 4
#endif
using namespace xitren::allocators;
template <class T> using al = static_heap_allocator<T, HEAP>;
using heap_t = static_heap<HEAP>;
using val = std::uint16_t;

// the contents the container should have
struct ref {
    val v[24 + 2 * FILL];
    int n{0};
    void insert(int at, val x) { for (int i = n++; i > at; i--) v[i] = v[i - 1]; v[at] = x; }
    void erase(int at) { n--; for (int i = at; i < n; i++) v[i] = v[i + 1]; }
};
template <class C>
static void
match(C const& c, ref const& r)
{
    SX_ASSERT(int(c.size()) == r.n && c.empty() == (r.n == 0), "the container has as many elements as it should");
    int  i = 0;
    bool ok = true;
    for (auto const& x : c) {
        if (i >= r.n) { ok = false; break; }
        ok &= val(x) == r.v[i++];
    }
    SX_ASSERT(ok && i == r.n, "the container has the contents it should have");
}

// F is called; when the heap runs out it must throw bad_alloc and nothing else
template <class F>
static bool
attempt(F f)
{
    try {
        f();
        return true;
    } catch (std::bad_alloc const&) {
        sx_cover("the heap ran out");
        return false;
    } catch (...) {
        SX_ASSERT(false, "running out of heap surfaces as std::bad_alloc");
        return false;
    }
}

template <class C>
static C
make(heap_t& h)
{
    return C(typename C::allocator_type(h));
}

#if KIND == 0
using seq = std::vector<val, al<val>>;
#elif KIND == 1
using seq = std::list<val, al<val>>;
#elif KIND == 2
using seq = std::deque<val, al<val>>;
#elif KIND == 3
using seq = std::basic_string<char16_t, std::char_traits<char16_t>, al<char16_t>>;
#endif

#if KIND == 6
extern "C" int sx_real_buckets() { return 1; }
#endif
#if KIND == 7
// containers and shared objects of different element types on one heap, created and destroyed in any order
template <class T> using vec = std::vector<T, al<T>>;
static void
mixed()
{
    heap_t     h;
    auto const whole = h.free_heap_size();
    {
        std::shared_ptr<val>                                           sp;
        std::optional<std::forward_list<val, al<val>>>                 fl;
        std::optional<std::multiset<val, std::less<val>, al<val>>>     ms;
        std::optional<std::list<vec<val>, al<vec<val>>>>               lv;
        val vsp = 0;
        ref rfl, rms, rlv;    // rlv: the sizes of the vectors; every vector holds 100, 101, ...
        al<val> const a(h);
        auto check = [&] {
            if (sp) SX_ASSERT(*sp == vsp, "the shared object has the value it should have");
            if (fl) {
                int  i  = 0;
                bool ok = true;
                for (auto x : *fl) ok &= i < rfl.n && x == rfl.v[rfl.n - 1 - i], i++;
                SX_ASSERT(ok && i == rfl.n, "the container has the contents it should have");
            }
            if (ms) match(*ms, rms);
            if (lv) {
                int  i  = 0;
                bool ok = int(lv->size()) == rlv.n;
                for (auto& v : *lv) {
                    ok &= i < rlv.n && v.size() == rlv.v[i];
                    for (unsigned j = 0; j < v.size(); j++) ok &= v[j] == 100 + j;
                    i++;
                }
                SX_ASSERT(ok, "the container has the contents it should have");
            }
        };
        for (int i = 0; i < OPS; i++) {
            switch (sx_choice(8, "operation")) {
            case 0:
                vsp = sx_sym<val>("value");
                sp.reset();
                attempt([&] { sp = std::allocate_shared<val>(a, vsp); });
                break;
            case 1: sp.reset(); break;
            case 2: {
                if (!fl) fl.emplace(a), rfl.n = 0;
                val const x = sx_sym<val>("value");
                if (attempt([&] { fl->push_front(x); })) rfl.insert(rfl.n, x);
                break;
            }
            case 3: fl.reset(); break;
            case 4: {
                if (!ms) ms.emplace(a), rms.n = 0;
                val const x = val(sx_choice(2, "key"));
                if (attempt([&] { ms->insert(x); })) {
                    int at = 0;
                    while (at < rms.n && rms.v[at] <= x) at++;
                    rms.insert(at, x);
                }
                break;
            }
            case 5: ms.reset(); break;
            case 6: {
                if (!lv) lv.emplace(al<vec<val>>(h)), rlv.n = 0;
                if (!attempt([&] { lv->emplace_back(a); })) break;
                rlv.insert(rlv.n, 0);
                auto& v = lv->back();
                attempt([&] { for (int k = 0; k < 3; k++) v.push_back(val(100 + k)), rlv.v[rlv.n - 1]++; });
                break;
            }
            case 7:
                if (lv && rlv.n) { lv->pop_front(); rlv.erase(0); }
                break;
            }
            check();
        }
    }
    SX_ASSERT(h.free_heap_size() == whole, "destroying containers gives every byte back to the heap");
}
#elif KIND <= 3
static int
place(int n)
{
    if (!FILL || n < 6) return sx_choice(n, "position");
    int const some[] = {0, 1, n / 2, n - 2, n - 1};
    return some[sx_choice(5, "position")];
}
static void
sequences()
{
    heap_t     h, spare;
    auto const whole = h.free_heap_size(), whole2 = spare.free_heap_size();
    {
        seq c = make<seq>(h), d = make<seq>(h);
        ref rc, rd;
        for (int i = 0; i < FILL; i++) {    // some elements first
            val const x = sx_sym<val>("value");
            if (attempt([&] { c.push_back(x); })) rc.insert(rc.n, x);
        }
        for (int i = 0; i < OPS; i++) {
            val x = sx_sym<val>("value");
            switch (sx_choice(9, "operation")) {
            case 0:
                if (attempt([&] { c.push_back(x); })) rc.insert(rc.n, x);
                break;
            case 1: {
                int at = place(rc.n + 1);
                // inserting in the middle gives the basic guarantee only when it has to reallocate; an end insertion the strong one
                if (attempt([&] { c.insert(std::next(c.begin(), at), x); })) rc.insert(at, x);
                break;
            }
            case 2:
                if (rc.n) { int at = place(rc.n); c.erase(std::next(c.begin(), at)); rc.erase(at); }
                break;
            case 3: c.clear(); rc.n = 0; break;
            case 4: {    // copy
                bool done = attempt([&] { seq e(c); match(e, rc); });
                (void)done;
                break;
            }
            case 5: {    // move within one heap
                seq e(std::move(c));
                match(e, rc);
                c = std::move(e);
                break;
            }
            case 6: std::swap(rc, rd); c.swap(d); break;
            case 7:
                if (attempt([&] { d = c; })) rd = rc;
                else { rd.n = int(d.size()); int k = 0; for (auto const& y : d) rd.v[k++] = val(y); }    // valid, contents unspecified
                break;
            case 8: {    // several elements at once
                ref t = rc;
                val const more[3] = {x, val(x + 1), 7};
                if (attempt([&] { for (int k = 0; k < 3; k++) { c.push_back(more[k]); t.insert(t.n, more[k]); } })) sx_cover("three more elements");
                rc = t;
                break;
            }
            }
            match(c, rc);
            match(d, rd);
        }
        // move to another heap copies the elements
        seq other = make<seq>(spare);
        if (attempt([&] { other = std::move(c); })) match(other, rc);
    }
    SX_ASSERT(h.free_heap_size() == whole, "destroying containers gives every byte back to the heap");
    SX_ASSERT(spare.free_heap_size() == whole2, "destroying containers gives every byte back to the other heap");
}
#else
#if KIND == 4
using assoc = std::map<val, val, std::less<val>, al<std::pair<val const, val>>>;
#else
using assoc = std::unordered_map<val, val, std::hash<val>, std::equal_to<val>, al<std::pair<val const, val>>>;
#endif
static void
associative()
{
    heap_t     h;
    auto const whole = h.free_heap_size();
    {
        assoc c{typename assoc::allocator_type(h)};
        val   keys[OPS + FILL], vals[OPS + FILL];
        int   n = 0;
        for (int i = 0; i < FILL; i++) {    // some keys first
            val const x = sx_sym<val>("value");
            if (!attempt([&] { c.emplace(val(1000 + 7 * i), x); })) break;
            keys[n] = val(1000 + 7 * i); vals[n++] = x;
        }
        auto  find = [&](val k) { for (int i = 0; i < n; i++) if (keys[i] == k) return i; return -1; };
        for (int i = 0; i < OPS; i++) {
#if KIND == 6    // the buckets of libstdc++, so that the table grows; concrete keys
            val const k = val(sx_choice(NKEYS, "key") * 5 + 3), x = sx_sym<val>("value");
#else
            val const k = val(sx_range<val>("key", 0, 5)), x = sx_sym<val>("value");
#endif
            int const at = find(k);
            switch (sx_choice(5, "operation")) {
            case 0: {
                bool ins = false;
                if (attempt([&] { ins = c.insert({k, x}).second; })) {
                    SX_ASSERT(ins == (at < 0), "insert answers whether the key was new");
                    if (at < 0) { keys[n] = k; vals[n++] = x; }
                }
                break;
            }
            case 1:
                if (attempt([&] { c[k] = x; })) {
                    if (at < 0) { keys[n] = k; vals[n++] = x; } else vals[at] = x;
                }
                break;
            case 2: {
                auto e = c.erase(k);
                SX_ASSERT(e == (at >= 0 ? 1u : 0u), "erase answers how many it removed");
                if (at >= 0) { n--; keys[at] = keys[n]; vals[at] = vals[n]; }
                break;
            }
            case 3: c.clear(); n = 0; break;
            case 4: attempt([&] { assoc d(c); SX_ASSERT(d.size() == c.size(), "a copy has the same size"); }); break;
            }
            SX_ASSERT(int(c.size()) == n, "the map has as many keys as it should");
            bool ok = true;
            for (int j = 0; j < n; j++) {
                auto it = c.find(keys[j]);
                ok &= it != c.end() && it->second == vals[j];
            }
            SX_ASSERT(ok, "the map has the contents it should have");
            int cnt = 0;
            for (auto it = c.begin(); it != c.end(); ++it) cnt++;
            SX_ASSERT(cnt == n, "iterating visits every key once");
        }
    }
    SX_ASSERT(h.free_heap_size() == whole, "destroying containers gives every byte back to the heap");
}
#endif
extern "C" void
sx_main()
{
#if KIND == 7
    mixed();
#elif KIND <= 3
    sequences();
#else
    associative();
#endif
}
