// A01-A05: two heaps of one size used side by side: nothing done to one is seen by the other.
#include "heap_model.h"
#ifndef OPS
#define OPS 4
#endif
#ifndef CLASSES
#define CLASSES 3
#endif

static bool
same_stats(stats_t const& a, stats_t const& b)
{
    return a.x_available_heap_space_in_bytes == b.x_available_heap_space_in_bytes && a.x_size_of_largest_free_block_in_bytes == b.x_size_of_largest_free_block_in_bytes
           && a.x_number_of_free_blocks == b.x_number_of_free_blocks && a.x_minimum_ever_free_bytes_remaining == b.x_minimum_ever_free_bytes_remaining
           && a.x_number_of_successful_allocations == b.x_number_of_successful_allocations && a.x_number_of_successful_frees == b.x_number_of_successful_frees;
}
static void
check(model& m, stats_t const& st)
{
    SX_OF(1 << 2, m.h.free_heap_size() == m.initial - m.live_bytes(), "the free bytes are those no live block of this heap takes");
    SX_OF(1 << 5, m.h.minimum_ever_free_heap_size() == m.low, "the low-water mark is this heap's own");
    SX_OF(1 << 3, m.fails == m.wantFails, "failures are reported to the heap's own callback");
    bool fine = true;
    for (int i = 0; i < m.used; i++)
        if (m.b[i].live) fine &= m.well_placed(m.b[i]) & m.disjoint(m.b[i]);
    SX_OF(1 << 1, fine, "live blocks are aligned, inside their own heap and disjoint");
    SX_OF(1 << 1, m.all_intact(), "live blocks keep their contents");
    SX_OF(1 << 5, st.x_available_heap_space_in_bytes == m.initial - m.live_bytes() && st.x_number_of_successful_allocations == m.oks && st.x_number_of_successful_frees == m.frees
                  && st.x_minimum_ever_free_bytes_remaining == m.low,
              "the statistics are the heap's own");
    if (m.largest()) SX_OF(1 << 5, st.x_size_of_largest_free_block_in_bytes == m.largest(), "the largest area is the heap's own");
}

extern "C" void
sx_main()
{
    static model m[2];
    for (unsigned k = 0; k < OPS; k++) {
        auto const w = sx_choice(2, "heap");
        model&     x = m[w];
        stats_t    before{};
        m[1 - w].h.v_port_get_heap_stats(&before);
        auto const nl = x.live();
        auto const op = sx_choice(nl + 1, "operation");
        if (op < nl) {
            x.release(x.pick(op));
            sx_cover("a block was freed");
        } else {
            auto const  n    = some_size(CLASSES);
            auto const  f    = x.h.free_heap_size();
            bool const  want = x.fits(n);
            void*       p    = x.h.allocate(n);
            SX_OF(1 << 3, (p != nullptr) == want, "a request succeeds exactly when this heap has room for it");
            if (p) {
                blk& y = x.got(p, n, f);
                y.fill = static_cast<std::uint8_t>(16 * x.used + 128 * w);
                x.paint(y);
            } else {
                x.wantFails++;
                sx_cover("one heap is exhausted");
            }
        }
        stats_t other{}, mine{};
        m[1 - w].h.v_port_get_heap_stats(&other);
        x.h.v_port_get_heap_stats(&mine);
        SX_OF(1 << 2 | 1 << 3 | 1 << 5, same_stats(before, other), "the other heap reports what it reported before");
        check(x, mine);
        check(m[1 - w], other);
    }
    sx_cover("done");
}
