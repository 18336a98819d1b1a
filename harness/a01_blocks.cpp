// A01: live blocks are aligned, in bounds, disjoint and keep their contents.
#include "heap_history.h"

struct view {
    model& m;
    void
    look()
    {
        for (int i = 0; i < m.used; i++)
            if (m.b[i].live && m.b[i].painted) SX_ASSERT(m.intact(m.b[i]), "the contents of live blocks are not changed by heap operations");
    }
    void before() {}
    void
    allocated(blk& x, std::size_t)
    {
        SX_ASSERT(m.well_placed(x), "a returned block is aligned and inside the heap");
        SX_ASSERT(m.disjoint(x), "a returned block overlaps no live block");
        look();
        x.fill = sx_sym<std::uint8_t>("fill");
        m.paint(x);
        look();
        if (m.live() > 2) sx_cover("three live blocks");
    }
    void failed(std::size_t, std::size_t) { look(); }
    void freed(blk&, std::size_t) { look(); }
    void noop(std::size_t) { look(); }
};
extern "C" void
sx_main()
{
    model m;
    view  v{m};
    history(m, v);
}
