// P03: a pipeline pool under every schedule within the preemption bound.
// POOL: workers, BUF: buffer size of a worker, ITEMS: items per producer, PRODUCERS: pushing threads
#include "pipe_common.h"
#include <xitren/comm/pipeline_stage_pool.hpp>
#ifndef POOL
#define POOL 2
#endif
#ifndef BUF
#define BUF 2
#endif
#ifndef ITEMS
#define ITEMS 3
#endif
#ifndef PRODUCERS
#define PRODUCERS 1
#endif
using namespace xitren::comm;

struct tagged { int number; item x; };
using pool_t = pipeline_stage_pool<tagged, int, BUF, POOL, silent>;

static item             sent[PRODUCERS * ITEMS];
static std::atomic<int> handled[PRODUCERS * ITEMS];
static pool_t*          pool;

static int
handler(pipeline_stage_exception e, tagged const t, measure_data const m)
{
    SX_ASSERT(e == pipeline_stage_exception::no_error, "no error is reported");
    SX_ASSERT(m.id >= 0 && m.id < POOL, "the worker number is below the pool size");
    SX_ASSERT(t.number >= 0 && t.number < PRODUCERS * ITEMS, "only pushed items are handled");
    SX_ASSERT(t.x == sent[t.number], "items are handed over unaltered");
    SX_ASSERT(handled[t.number]++ == 0, "no item is handled twice");
    return 0;
}

static void
produce(void* p)
{
    int w = static_cast<int>(reinterpret_cast<std::intptr_t>(p));
    for (int i = 0; i < ITEMS; i++) {
        int n = w * ITEMS + i;
        if ((i + w) % 2) {
            tagged const t{n, sent[n]};
            pool->push(t);
        } else
            pool->push(tagged{n, sent[n]});
    }
}

extern "C" void
sx_main()
{
    for (auto& x : sent) x = any_item();
    {
        pool_t p(handler);
        pool = &p;
        std::uint64_t id[PRODUCERS + 1];
        for (std::intptr_t w = 1; w < PRODUCERS; w++) id[w] = sx_thread_create(produce, reinterpret_cast<void*>(w));
        produce(nullptr);
        for (int w = 1; w < PRODUCERS; w++) sx_thread_join(id[w]);
    }
    for (auto& h : handled) SX_ASSERT(h == 1, "every item has been handled when the destructor returns");
    sx_cover("all handled");
}
