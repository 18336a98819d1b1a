// P01, P03: pipelines of several stages or pools of one type: the handler of the first pushes into the second, or both are
// fed side by side.  POOL 0: stages, otherwise pools of so many workers; CHAIN 0: side by side
#include "pipe_common.h"
#include <xitren/comm/pipeline_stage_pool.hpp>
#ifndef POOL
#define POOL 0
#endif
#ifndef BUF
#define BUF 1
#endif
#ifndef ITEMS
#define ITEMS 2
#endif
#ifndef CHAIN
#define CHAIN 1
#endif
using namespace xitren::comm;
constexpr unsigned W = 2;

struct tagged { int number; item x; };
#if POOL
using pipe_t = pipeline_stage_pool<tagged, int, BUF, POOL, silent>;
#else
using pipe_t = pipeline_stage<tagged, int, BUF, silent>;
#endif
static item             sent[W][ITEMS];
static std::atomic<int> handled[W][ITEMS], total[W];
static pipe_t*          second;

static void
arrived(unsigned w, tagged const& t)
{
    SX_ASSERT(t.number >= 0 && t.number < ITEMS, "only pushed items are handled");
    SX_ASSERT(t.x == sent[w][t.number], "items are handed over unaltered, by the handler they were pushed to");
    SX_ASSERT(handled[w][t.number]++ == 0, "no item is handled twice");
    auto const before = total[w]++;
    if (!POOL) SX_ASSERT(t.number == before, "items are handled in the order of the pushes");
    if (CHAIN && w == 0) second->push(tagged{t.number, sent[1][t.number]});
}
#if POOL
static int first_handler(pipeline_stage_exception, tagged const t, measure_data const) { arrived(0, t); return 0; }
static int second_handler(pipeline_stage_exception, tagged const t, measure_data const) { arrived(1, t); return 0; }
#else
static int first_handler(pipeline_stage_exception, tagged const t, std::pair<int, int> const) { arrived(0, t); return 0; }
static int second_handler(pipeline_stage_exception, tagged const t, std::pair<int, int> const) { arrived(1, t); return 0; }
#endif

extern "C" void
sx_main()
{
    for (auto& w : sent)
        for (auto& x : w) x = any_item();
    {
        pipe_t b(second_handler);
        second = &b;
        pipe_t a(first_handler);
        for (int i = 0; i < ITEMS; i++) {
            a.push(tagged{i, sent[0][i]});
            if (!CHAIN) b.push(tagged{i, sent[1][i]});
        }
    }
    for (auto& w : handled)
        for (auto& h : w) SX_ASSERT(h == 1, "every item has been handled when the destructors return");
    sx_cover("all handled");
}
