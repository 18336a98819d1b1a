// A04: deallocating null or a freed block changes nothing.
#include "heap_history.h"

struct view {
    model& m;
    void
    look()
    {
        SX_ASSERT(m.h.free_heap_size() == m.initial - m.live_bytes(), "no free byte is counted twice or lost");
        for (int i = 0; i < m.used; i++)
            if (m.b[i].live && m.b[i].painted) SX_ASSERT(m.intact(m.b[i]), "no live block is disturbed");
    }
    void before() {}
    void
    allocated(blk& x, std::size_t)
    {
        SX_ASSERT(m.well_placed(x) && m.disjoint(x), "later allocations stay inside the heap and disjoint");
        x.fill = sx_sym<std::uint8_t>("fill");
        m.paint(x);
        look();
    }
    void failed(std::size_t n, std::size_t) { SX_ASSERT(!m.fits(n), "no free area is lost"); look(); }
    void freed(blk&, std::size_t) { look(); }
    void
    noop(std::size_t f)
    {
        SX_ASSERT(m.h.free_heap_size() == f, "deallocating null or a freed block changes no free byte");
        look();
    }
};
extern "C" void
sx_main()
{
    model m;
    view  v{m};
    history(m, v);
    free_all(m, v);
    for (int i = 0; i < m.used; i++)
        if (!m.b[i].stale) m.h.deallocate(m.b[i].p);
    m.h.deallocate(nullptr);
    SX_ASSERT(m.h.free_heap_size() == m.initial, "freeing everything again leaves the heap whole");
    SX_ASSERT(m.h.allocate(m.initial - m.overhead) != nullptr, "the whole heap can be allocated afterwards");
    SX_ASSERT(m.h.allocate(1) == nullptr, "and nothing more");
}
