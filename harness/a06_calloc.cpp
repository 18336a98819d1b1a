// A06: callocate gives zeroed memory of the full product or null.
#include "heap_history.h"
#include <cstring>

struct view {
    model& m;
    void before() {}
    void
    allocated(blk& x, std::size_t)
    {
        // dirty the whole block, keep it recognisable
        x.n = x.taken - m.overhead;
        x.fill = sx_sym<std::uint8_t>("fill");
        m.paint(x);
    }
    void failed(std::size_t, std::size_t) {}
    void freed(blk&, std::size_t) {}
    void noop(std::size_t) {}
};
#if KIND == 3
// a large heap whose bytes are all dirty: every byte of the product is zeroed
static void
large()
{
    heap_t         h;
    std::size_t    most = h.free_heap_size();
    auto*          q    = static_cast<std::uint8_t*>(h.allocate(8));
    std::size_t const o = most - h.free_heap_size() - 8;
    h.deallocate(q);
    std::uint8_t const dirt = 0xa5;
    q = static_cast<std::uint8_t*>(h.allocate(most - o));
    SX_ASSERT(q != nullptr, "the whole heap can be allocated");
    std::memset(q, dirt, most - o);
    h.deallocate(q);
    auto* keep = static_cast<std::uint8_t*>(h.allocate(24));
    std::memset(keep, dirt, 24);
    static std::size_t const nums[] = {1, 8, 255, 256, 257, 1000}, sizes[] = {1, 8, 255, 256, 257, 4096, 65537};
    std::size_t const num = nums[sx_choice(6, "num")], size = sizes[sx_choice(7, "size")], n = num * size;
    auto const        f = h.free_heap_size();
    auto*             p = static_cast<std::uint8_t*>(h.callocate(num, size));
    SX_ASSERT((p != nullptr) == (((n + 7) & ~std::size_t(7)) + o <= f), "callocate succeeds exactly when the product is positive and fits");
    for (int i = 0; i < 24; i++) SX_ASSERT(keep[i] == dirt, "callocate touches no other live block");
    if (!p) {
        sx_cover("callocate failed");
        SX_ASSERT(h.free_heap_size() == f, "a failing callocate changes nothing");
        return;
    }
    SX_ASSERT(f - h.free_heap_size() >= n + o, "the block holds the full product");
    std::uint64_t any = 0;
    for (std::size_t i = 0; i + 8 <= n; i += 8) any |= *reinterpret_cast<std::uint64_t*>(p + i);
    for (std::size_t i = n & ~std::size_t(7); i < n; i++) any |= p[i];
    SX_ASSERT(any == 0, "every byte is zero");
    sx_cover("callocate succeeded");
}
#endif

extern "C" void
sx_main()
{
#if KIND == 3
    large();
    return;
#else
    model m;
    view  v{m};
    history(m, v);
    std::size_t num, size;
#if KIND == 0
    num  = sx_range<std::size_t>("num", 0, 40);
    size = sx_range<std::size_t>("size", 0, 40);
#elif KIND == 1
    static std::size_t const odd[] = {0, 1, 2, 3, 7, 16, 1ull << 31, 1ull << 32, (1ull << 32) + 1, 1ull << 61, 1ull << 63, (1ull << 63) + 1, ~0ull / 3, ~0ull};
    num  = odd[sx_choice(14, "num")];
    size = sx_sym<std::size_t>("size");
#else
    static std::size_t const odd[] = {0, 1, 2, 3, 7, 16, 1ull << 31, 1ull << 32, (1ull << 32) + 1, 1ull << 61, 1ull << 63, (1ull << 63) + 1, ~0ull / 3, ~0ull};
    size = odd[sx_choice(14, "size")];
    num  = sx_sym<std::size_t>("num");
#endif
    unsigned __int128 const wide = static_cast<unsigned __int128>(num) * size;
    bool const want = (wide < HEAP) & m.fits(static_cast<std::size_t>(wide));
    auto const f = m.h.free_heap_size();
    void* p = m.h.callocate(num, size);
    SX_ASSERT((p != nullptr) == want, "callocate succeeds exactly when the product is positive and fits");
    if (p) {
        std::size_t const n = static_cast<std::size_t>(wide);
        auto& x = m.got(p, n, f);
        SX_ASSERT(m.well_placed(x) && m.disjoint(x), "callocate returns a block of its own inside the heap");
        SX_ASSERT(x.taken >= n + m.overhead, "the block holds the full product");
        bool zero = true;
        for (std::size_t i = 0; i < x.taken - m.overhead; i++) zero &= (i >= n) | (x.p[i] == 0);
        SX_ASSERT(zero, "every byte is zero");
        sx_cover("callocate succeeded");
    } else {
        SX_ASSERT(m.h.free_heap_size() == f, "a failing callocate changes nothing");
        sx_cover("callocate failed");
        if (wide > ~std::uint64_t(0)) sx_cover("the product overflows");
    }
    for (int i = 0; i < m.used; i++)
        if (m.b[i].live && m.b[i].painted) SX_ASSERT(m.intact(m.b[i]), "callocate touches no other live block");
    if (p) {
        m.h.deallocate(p);
        SX_ASSERT(m.h.free_heap_size() == f, "the block can be given back");
    }
#endif
}
