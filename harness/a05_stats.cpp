// A05: the low-water mark and the statistics describe the real heap.
#include "heap_history.h"

struct view {
    model& m;
    void
    look()
    {
        SX_ASSERT(m.h.minimum_ever_free_heap_size() == m.low, "the low-water mark is the minimum of the free size");
        std::size_t cnt = 0, big = 0, small = ~std::size_t(0);
        m.areas([&](std::size_t s) { cnt++; big = s > big ? s : big; small = s < small ? s : small; });
        stats_t st;
        m.h.v_port_get_heap_stats(&st);
        SX_ASSERT(st.x_number_of_free_blocks == cnt, "the statistics count the free areas");
        SX_ASSERT(st.x_size_of_largest_free_block_in_bytes == big, "the statistics give the largest free area");
        if (cnt) SX_ASSERT(st.x_size_of_smallest_free_block_in_bytes == small, "the statistics give the smallest free area");
        SX_ASSERT(st.x_available_heap_space_in_bytes == m.initial - m.live_bytes(), "the statistics give the free bytes");
        SX_ASSERT(st.x_minimum_ever_free_bytes_remaining == m.low, "the statistics give the low-water mark");
        SX_ASSERT(st.x_number_of_successful_allocations == m.oks, "the statistics count the successful allocations");
        SX_ASSERT(st.x_number_of_successful_frees == m.frees, "the statistics count the successful frees");
        if (cnt > 1) sx_cover("several free areas");
    }
    void before() {}
    void allocated(blk&, std::size_t) { look(); }
    void failed(std::size_t, std::size_t) { look(); }
    void freed(blk&, std::size_t) { look(); }
    void noop(std::size_t) { look(); }
};
extern "C" void
sx_main()
{
    model m;
    view  v{m};
    v.look();
    history(m, v);
}
