// P01, P03, P04: many items. The handlers wait until everything has been pushed, then everything is handled.
// POOL 0: a single stage
#include "pipe_common.h"
#include <xitren/comm/pipeline_stage_pool.hpp>
#ifndef POOL
#define POOL 2
#endif
#ifndef BUF
#define BUF 300
#endif
#ifndef ITEMS
#define ITEMS 520
#endif
#ifndef WAIT
#define WAIT 1    // 0: the handlers do not wait
#endif
using namespace xitren::comm;
constexpr int workers = POOL ? POOL : 1;
struct tagged { int number; item x; };

static std::atomic<bool> open{!WAIT};
static std::atomic<bool> blocked[workers];
#if WAIT
static unsigned          busy[ITEMS];         // at its push: the workers that are in a handler
static int               worker_of[ITEMS];    // worker + 1
#else
static std::uint64_t     did[workers][ITEMS / 64 + 1];    // the items each worker has handled
#endif
static item              sent[4];             // item n has content sent[n % 4]
static std::atomic<int>  total;
static int               last[workers];

static void
handled(tagged const& t, int w)
{
    int const n = t.number;
    SX_ASSERT(n >= 0 && n < ITEMS && t.x == sent[n % 4], "items are handed over unaltered");
    SX_ASSERT(w >= 0 && w < workers, "the worker number is below the pool size");
#if !POOL
    SX_ASSERT(n >= last[w], "items are handled in the order of the pushes");
    last[w] = n;
#endif
#if WAIT
    SX_ASSERT(worker_of[n] == 0, "an item is handled once");
    worker_of[n] = w + 1;
#else
    SX_ASSERT(!(did[w][n / 64] >> n % 64 & 1), "an item is handled once");
    did[w][n / 64] |= std::uint64_t{1} << n % 64;
#endif
    if (!open) {
        blocked[w] = true;
        while (!open) std::this_thread::yield();
    }
    total++;
}

template <class S>
static void
push(S& s, int n)
{
    tagged const c{n, sent[n % 4]};
    if (n % 2)
        s.push(tagged{n, sent[n % 4]});
    else
        s.push(c);
}

extern "C" void
sx_main()
{
    for (auto& x : sent) x = any_item();
    {
#if POOL
        using pool_t = pipeline_stage_pool<tagged, int, BUF, POOL, silent>;
        pool_t p([](pipeline_stage_exception, tagged const t, measure_data const m) { handled(t, m.id); return 0; });
#else
        using pool_t = pipeline_stage<tagged, int, BUF, silent>;
        pool_t p([](pipeline_stage_exception, tagged const t, std::pair<int, int> const) { handled(t, 0); return 0; });
#endif
        for (int n = 0; n < ITEMS; n++) {
#if WAIT
            if ((n == 0 || busy[n - 1] != (1u << workers) - 1)) {
                sx_drain();
                for (int w = 0; w < workers; w++) busy[n] |= blocked[w] ? 1u << w : 0;
            } else
                busy[n] = busy[n ? n - 1 : 0];
#endif
            push(p, n);
        }
        open = true;
    }
    SX_ASSERT(total == ITEMS, "every item is handled");
#if WAIT
    int load[workers]{};
#endif
    for (int n = 0; n < ITEMS; n++) {
#if WAIT
        SX_ASSERT(worker_of[n] != 0, "every item is handled");
#else
        int times = 0;
        for (auto& d : did) times += d[n / 64] >> n % 64 & 1;
        SX_ASSERT(times == 1, "every item is handled once");
#endif
#if WAIT && POOL
        int const w = worker_of[n] - 1;
        for (int v = 0; v < workers; v++)
            SX_ASSERT(load[w] - int(busy[n] >> w & 1) <= load[v] - int(busy[n] >> v & 1), "the item is queued at a least-loaded worker");
        load[w]++;
#endif
    }
    sx_cover("all handled");
}
