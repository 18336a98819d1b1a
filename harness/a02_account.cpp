// A02: free bytes are accounted exactly and freed memory coalesces.
#include "heap_history.h"

struct view {
    model& m;
    void
    look()
    {
        SX_ASSERT(m.h.free_heap_size() == m.initial - m.live_bytes(), "free_heap_size is the initial size minus the bytes taken by live blocks");
    }
    void before() {}
    void
    allocated(blk& x, std::size_t f)
    {
        SX_ASSERT(f - m.h.free_heap_size() >= x.n && f - m.h.free_heap_size() <= f, "an allocation takes at least the bytes requested and at most the bytes free");
        look();
    }
    void failed(std::size_t, std::size_t f) { SX_ASSERT(m.h.free_heap_size() == f, "a failing allocation takes nothing"); }
    void
    freed(blk& x, std::size_t f)
    {
        SX_ASSERT(m.h.free_heap_size() - f == x.taken, "a deallocation returns exactly what the allocation took");
        look();
        if (m.live() == 0) whole();
    }
    void noop(std::size_t f) { SX_ASSERT(m.h.free_heap_size() == f, "a no-op changes no free byte"); }
    void
    whole()
    {
        SX_ASSERT(m.h.free_heap_size() == m.initial, "free_heap_size is back at its initial value once everything is freed");
    }
};
extern "C" void
sx_main()
{
    // the largest request a fresh heap serves
    std::size_t big = 0;
    {
        model t;
        for (std::size_t n = HEAP; n > 0 && !big; n--)
            if (t.h.allocate(n)) big = n;
    }
    SX_ASSERT(big > 0, "a fresh heap serves some request");
    model m;
    SX_ASSERT(m.h.free_heap_size() <= sizeof(m.h), "the initial free size is no more than the heap");
    view v{m};
    history(m, v);
    free_all(m, v);
    v.whole();
    void* p = m.h.allocate(big);
    SX_ASSERT(p != nullptr, "once everything is freed the largest request succeeds again");
    m.h.deallocate(p);
    SX_ASSERT(m.h.free_heap_size() == m.initial, "free_heap_size is back at its initial value after the largest request");
}
