// A01-A03: the failure callback itself uses the heap (frees a block, asks for another one) or throws.
#include "heap_history.h"

static int emergencies;
struct out_of_heap {};
static void
consistent(model& m)
{
    SX_ASSERT(m.h.free_heap_size() == m.initial - m.live_bytes(), "the free bytes are those no live block takes");
    bool fine = true;
    for (int i = 0; i < m.used; i++)
        if (m.b[i].live) fine &= m.well_placed(m.b[i]) & m.disjoint(m.b[i]);
    SX_ASSERT(fine, "live blocks are aligned, inside and disjoint");
    SX_ASSERT(m.all_intact(), "live blocks keep their contents");
}
static void
ask(model& m, std::size_t n)
{
    auto const f     = m.h.free_heap_size();
    bool const want  = m.fits(n);
    int const  fails = m.fails;
    void*      p     = nullptr;
    bool       threw = false;
    try {
        p = m.h.allocate(n);
    } catch (out_of_heap const&) {
        threw = true;
    }
    SX_ASSERT((p != nullptr) == want, "a request succeeds exactly when a free area can hold it when it is made");
    SX_ASSERT(threw ? !want : true, "only a failing request calls back");
    if (p) {
        SX_ASSERT(m.fails == fails, "a successful call does not invoke the callback");
        blk& x = m.got(p, n, f);
        x.fill = static_cast<std::uint8_t>(16 * m.used);
        m.paint(x);
    }
    consistent(m);
}

extern "C" void
sx_main()
{
    static model m;
    m.h.on_fail([] {
        m.fails++;
        if (emergencies >= 2) return;
        emergencies++;
        auto const f = m.h.free_heap_size();
        auto const k = m.fails;
        switch (int const nl = m.live(); sx_choice(nl + 2, "callback")) {
        case 0: break;
        case 1: sx_cover("the callback throws"); throw out_of_heap{};
        default: {
            int const which = sx_choice(nl, "freed");
            auto&     x     = m.pick(which);
            m.release(x);
            SX_ASSERT(m.h.free_heap_size() == f + x.taken, "a block freed in the callback gives its bytes back");
            consistent(m);
            sx_cover("the callback frees a block");
            if (sx_choice(2, "asks")) {
                ask(m, 8 + 8 * static_cast<std::size_t>(sx_choice(3, "size")));
                sx_cover("the callback asks for a block");
            }
        }
        }
        (void)k;
    });
    for (int i = 0; i < DEPTH; i++) {
        int const nl = m.live();
        int const op = sx_choice(nl + 1, "operation");
        if (op < nl) {
            m.release(m.pick(op));
            consistent(m);
            continue;
        }
        ask(m, some_size(CLASSES));
    }
    while (m.live()) m.release(m.pick(0));
    SX_ASSERT(m.h.free_heap_size() == m.initial, "everything freed, the free bytes are the initial ones");
    SX_ASSERT(m.h.allocate(m.initial - m.overhead) != nullptr, "the largest request of a fresh heap succeeds again");
}
