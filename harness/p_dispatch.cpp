// P04: which worker a pushed item is queued at. Handlers wait until they are told to finish, so that the
// number of items waiting at every worker is known at each push.
#include "pipe_common.h"
#include <xitren/comm/pipeline_stage_pool.hpp>
#ifndef POOL
#define POOL 2
#endif
#ifndef BUF
#define BUF 2
#endif
#ifndef OPS
#define OPS 5
#endif
using namespace xitren::comm;
struct tagged { int number; item x; };
using pool_t = pipeline_stage_pool<tagged, int, BUF, POOL, silent>;

static std::atomic<int>  tickets[POOL];
static std::atomic<int>  started_by[OPS];    // worker + 1
static std::atomic<bool> open;
static item              sent[OPS];

static int
handler(pipeline_stage_exception, tagged const t, measure_data const m)
{
    int const n = t.number;
    SX_ASSERT(n >= 0 && n < OPS && t.x == sent[n], "items are handed over unaltered");
    SX_ASSERT(m.id >= 0 && m.id < POOL, "the worker number is below the pool size");
    started_by[n] = m.id + 1;
    while (!open) {
        if (tickets[m.id] > 0) {
            tickets[m.id]--;
            break;
        }
        std::this_thread::yield();
    }
    return 0;
}

extern "C" void
sx_main()
{
    for (auto& x : sent) x = any_item();
    int  pushes = 0;
    bool waiting[OPS][OPS]{};    // [push][earlier item]: not yet taken by its worker
    {
        pool_t p(handler);
        for (int step = 0; step < OPS; step++) {
            // finishing is offered for the workers that are in a handler
            int what = static_cast<int>(sx_choice(POOL + 1, "push, or worker to finish its item"));
            if (what == 0) {
                int in_queue = 0;
                for (int i = 0; i < pushes; i++) in_queue += waiting[pushes][i] = started_by[i] == 0;
                if (in_queue >= POOL * BUF) {
                    sx_cover("all full");
                    break;
                }
                if (pushes % 2)
                    p.push(tagged{pushes, sent[pushes]});
                else {
                    tagged const c{pushes, sent[pushes]};
                    p.push(c);
                }
                pushes++;
            } else {
                tickets[what - 1]++;
                sx_drain();
                if (tickets[what - 1] != 0) sx_stop();    // it was idle: not a new history
                sx_cover("a worker finished");
            }
            sx_drain();
        }
        open = true;
    }
    for (int n = 0; n < pushes; n++) {
        SX_ASSERT(started_by[n] != 0, "every item is handled");
        int load[POOL]{};
        for (int i = 0; i < n; i++)
            if (waiting[n][i]) load[started_by[i] - 1]++;
        for (int w = 0; w < POOL; w++) SX_ASSERT(load[started_by[n] - 1] <= load[w], "the item is queued at a least-loaded worker");
        if (load[started_by[n] - 1] > 0) sx_cover("all workers had items waiting");
    }
}
