// A07: the heap allocator yields storage for n objects or throws bad_alloc.
#include "heap_model.h"
#include <xitren/allocators/static_heap_allocator.hpp>
using namespace xitren::allocators;

struct three { std::uint64_t a, b, c; };
struct odd { std::uint8_t a[5]; };

template <class T> using al = static_heap_allocator<T, HEAP>;

template <class A>
using rebound8 = typename std::allocator_traits<A>::template rebind_alloc<std::uint8_t>;

// one allocation of n objects, checked against the model; returns the block or null
template <class T, class A>
static blk*
take(model& m, A& a, std::size_t n)
{
    unsigned __int128 const wide = static_cast<unsigned __int128>(n) * sizeof(T);
    bool const fits = (wide < 4 * HEAP) & m.fits(static_cast<std::size_t>(wide));
    auto const f = m.h.free_heap_size();
    T* p = nullptr;
    bool threw = false, other = false;
    try {
        p = a.allocate(n);
    } catch (std::bad_alloc const&) {
        threw = true;
    } catch (...) {
        other = true;
    }
    SX_ASSERT(!other, "allocate throws nothing but std::bad_alloc");
    if (threw) {
        sx_cover("bad_alloc");
        if (wide > ~std::uint64_t(0)) sx_cover("bad_alloc for an overflowing size");
        SX_ASSERT(!fits, "allocate throws only when the storage does not fit");
        SX_ASSERT(m.h.free_heap_size() == f, "a throwing allocate changes nothing");
        return nullptr;
    }
    if (n == 0) return nullptr;
    SX_ASSERT(p != nullptr, "allocate never returns null");
    SX_ASSERT(fits, "allocate returns only storage that fits n objects");
    blk& x = m.got(p, static_cast<std::size_t>(wide), f);
    SX_ASSERT(x.taken >= m.overhead + x.n, "the storage holds n objects");
    SX_ASSERT(m.well_placed(x) && m.disjoint(x), "the storage lies inside its heap and belongs to nobody else");
    sx_cover("storage returned");
    return &x;
}
template <class A>
static void
give(model& m, A& a, blk& x, std::size_t n)
{
    auto const f = m.h.free_heap_size();
    a.deallocate(reinterpret_cast<typename A::value_type*>(x.p), n);
    x.live = false;
    SX_ASSERT(m.h.free_heap_size() == f + x.taken, "deallocate gives the storage back to the same heap");
}

template <class T>
static void
any_size()
{
    model m;
    heap_t other;
    auto const of = other.free_heap_size();
    al<T>  a(m.h);
    // some storage in use first
    rebound8<al<T>> b(a);
    if (sx_choice(2, "occupied")) take<std::uint8_t>(m, b, 1 + 8 * sx_choice(3, "bytes in use"));
    std::size_t const n = sx_sym<std::size_t>("objects");
#if HEAP > 1000
    SX_ASSUME(n < 2 || n - 256 / sizeof(T) < 3 || n - 65536 / sizeof(T) < 3 || n > HEAP / sizeof(T) - 6);
#endif
    blk* x = take<T>(m, a, n);
    if (x) {
        // given back through a copy, or the converted allocator
        al<T> copy(a);
        switch (sx_choice(3, "through")) {
        case 0: give(m, copy, *x, n); break;
        case 1: {
            auto const f = m.h.free_heap_size();
            copy.deallocate(static_cast<void*>(x->p));
            x->live = false;
            SX_ASSERT(m.h.free_heap_size() == f + x->taken, "deallocate without a size gives the storage back too");
            break;
        }
        default:
            rebound8<al<T>> c(copy);
            give(m, c, *x, n * sizeof(T));
        }
    }
    SX_ASSERT(other.free_heap_size() == of, "no other heap is touched");
}

template <class A, class B>
static void
same(A const& x, B const& y, bool eq)
{
    SX_ASSERT((x == y) == eq, "allocators are equal exactly when they use the same heap");
    SX_ASSERT((x != y) == !eq, "allocators are unequal exactly when they use different heaps");
    SX_ASSERT((y == x) == eq && (y != x) == !eq, "comparison of allocators is symmetric");
}

extern "C" void
sx_main()
{
    if (sx_choice(2, "part")) {
        any_size<TYPE>();
        return;
    }
    heap_t h1, h2;
    al<int> a(h1), a2(h1), b(h2);
    al<three> t1(h1), t2(h2);
    al<char> r1(a), r2(b);
    al<int> const c(a), d(b);
    same(a, a, true);
    same(a, a2, true);
    same(a, c, true);
    same(a, b, false);
    same(c, d, false);
    same(a, t1, true);
    same(a, t2, false);
    same(b, t2, true);
    same(r1, a, true);
    same(r1, r2, false);
    same(r2, d, true);
    same(r1, t2, false);
    // allocators of one heap are interchangeable, rebound ones stay with their heap
    auto const f1 = h1.free_heap_size(), f2 = h2.free_heap_size();
    int* p = a.allocate(2);
    char* q = r2.allocate(3);
    SX_ASSERT(h1.free_heap_size() < f1 && h2.free_heap_size() < f2, "each allocator uses its own heap");
    a2.deallocate(p, 2);
    b.deallocate(q, 3);
    SX_ASSERT(h1.free_heap_size() == f1 && h2.free_heap_size() == f2, "storage goes back to the heap it came from");
    // the heaps keep no state of one another: exhausting one leaves the other alone
    std::size_t n = 0;
    try { for (;;) { a.allocate(1); n++; } } catch (std::bad_alloc const&) {}
    SX_ASSERT(n > 0 && h2.free_heap_size() == f2, "exhausting one heap leaves the other alone");
    SX_ASSERT(b.allocate(1) != nullptr, "another heap still allocates");
}
