// A03: an allocation fails only when no free area can hold it; failing is harmless and reported once.
#include "heap_history.h"

struct view {
    model& m;
    int    fb{};
    void before() { fb = m.fails; }
    void
    callback(bool failed)
    {
        SX_ASSERT(m.fails - fb == (failed ? 1 : 0), "the failure callback runs exactly once for a failing call and not otherwise");
    }
    bool full{false};
    void
    allocated(blk& x, std::size_t)
    {
        callback(false);
        x.live = false;
        SX_ASSERT(m.fits(x.n), "an allocation succeeds only when a free area can hold it");
        x.live = true;
    }
    void
    failed(std::size_t n, std::size_t f)
    {
        SX_ASSERT(!m.fits(n), "an allocation that fits some free area succeeds");
        SX_ASSERT(m.h.free_heap_size() == f, "a failing allocation changes no free byte");
        callback(true);
    }
    void
    freed(blk&, std::size_t)
    {
        callback(false);
    }
    void noop(std::size_t) { callback(false); }
};
extern "C" void
sx_main()
{
    model m;
    view  v{m};
    history(m, v);
    // a request of any 64-bit size
    std::size_t const n = sx_sym<std::size_t>("any size");
#if BIG || FRAG    // any size that does not fit, and the sizes around what fits
    static int const offsets[] = {-16, -8, -1, 0, 1, 2};
    if (auto const k = sx_choice(7, "last request"); k < 6) SX_ASSUME(m.largest() > m.overhead + 16 && n == m.largest() - m.overhead + offsets[k]);
    else SX_ASSUME(n > m.largest());
#endif
    auto const f = m.h.free_heap_size();
    auto const low = m.h.minimum_ever_free_heap_size();
    bool const want = m.fits(n);
    v.before();
    void* p = m.h.allocate(n);
    SX_ASSERT((p != nullptr) == want, "a request of any size succeeds exactly when a free area can hold it");
    v.callback(p == nullptr);
    if (!p) {
        sx_cover("a request of any size failed");
        SX_ASSERT(m.h.free_heap_size() == f && m.h.minimum_ever_free_heap_size() == low, "a failing request of any size changes nothing");
        // what fitted before still fits
        if (m.largest() > m.overhead) {
            v.before();
            void* q = m.h.allocate(m.largest() - m.overhead);
            SX_ASSERT(q != nullptr, "after a failure the largest free area is still available");
            v.callback(false);
        }
    } else {
        sx_cover("a request of any size succeeded");
        m.got(p, n, f);
    }
    v.before();
    auto const g = m.h.free_heap_size();
    SX_ASSERT(m.h.allocate(0) == nullptr, "a request of zero bytes returns null");
    v.callback(true);
    SX_ASSERT(m.h.free_heap_size() == g, "a request of zero bytes changes nothing");
#if !BIG
    // without a callback, failing is silent
    heap_t quiet;
    SX_ASSERT(quiet.allocate(sizeof(heap_t) + 1) == nullptr, "a failing request without a callback returns null");
#endif
}
