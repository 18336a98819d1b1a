// P01, P02: a pipeline stage under every schedule within the preemption bound.
// BUF: buffer size, ITEMS: items per producer, PRODUCERS: pushing threads
#include "pipe_common.h"
#include <xitren/comm/pipeline_stage.hpp>
#ifndef BUF
#define BUF 2
#endif
#ifndef ITEMS
#define ITEMS 3
#endif
#ifndef PRODUCERS
#define PRODUCERS 1
#endif
using namespace xitren::comm;

struct tagged { int producer, index; item x; };
using stage_t = pipeline_stage<tagged, int, BUF, silent>;

static item              sent[PRODUCERS][ITEMS];
static tagged            got[PRODUCERS * ITEMS];
static std::atomic<int>  ngot{0};
static int               busy;    // plain on purpose: handlers of one stage must not run at the same time
static stage_t*          stage;

static int
handler(pipeline_stage_exception e, tagged const t, std::pair<int, int> const)
{
    SX_ASSERT(e == pipeline_stage_exception::no_error, "no error is reported");
    SX_ASSERT(busy++ == 0, "one item at a time");
    int i = ngot++;
    SX_ASSERT(i < PRODUCERS * ITEMS, "no item is handled twice");
    got[i] = t;
    busy--;
    return 0;
}

static void
produce(void* p)
{
    int w = static_cast<int>(reinterpret_cast<std::intptr_t>(p));
    for (int i = 0; i < ITEMS; i++) {
        if ((i + w) % 2) {
            tagged const t{w, i, sent[w][i]};
            stage->push(t);
        } else
            stage->push(tagged{w, i, sent[w][i]});
    }
}

extern "C" void
sx_main()
{
    for (auto& p : sent)
        for (auto& x : p) x = any_item();
    {
        stage_t s(handler);
        stage = &s;
        std::uint64_t id[PRODUCERS + 1];
        for (std::intptr_t w = 1; w < PRODUCERS; w++) id[w] = sx_thread_create(produce, reinterpret_cast<void*>(w));
        produce(nullptr);
        for (int w = 1; w < PRODUCERS; w++) sx_thread_join(id[w]);
    }
    SX_ASSERT(ngot == PRODUCERS * ITEMS, "every item has been handled when the destructor returns");
    int next[PRODUCERS]{};
    for (auto& t : got) {
        SX_ASSERT(t.producer >= 0 && t.producer < PRODUCERS, "only pushed items are handled");
        SX_ASSERT(t.index == next[t.producer], "the items of one producer are handled once each, in push order");
        next[t.producer]++;
        SX_ASSERT(t.x == sent[t.producer][t.index], "items are handed over unaltered");
    }
    sx_cover("all handled");
}
