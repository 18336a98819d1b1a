// P04: dispatch when every buffer is full: the pushing threads wait, each at a least-loaded worker. No handler ends
// before all pushes have been made, so the number of items at every worker (waiting in its buffer or with a thread
// that waits to store it) is known at each push.  FIRST: items in handlers and buffers, MORE: waiting threads
#include "pipe_common.h"
#include <xitren/comm/pipeline_stage_pool.hpp>
#ifndef POOL
#define POOL 2
#endif
#ifndef BUF
#define BUF 1
#endif
#ifndef MORE
#define MORE 3
#endif
using namespace xitren::comm;
constexpr int FIRST = POOL * (1 + BUF), ALL = FIRST + MORE;
struct tagged { int number; item x; };
using pool_t = pipeline_stage_pool<tagged, int, BUF, POOL, silent>;

static std::atomic<int>  worker_of[ALL];    // worker + 1
static std::atomic<bool> open;
static item              sent[ALL];
static pool_t*           pool;

static int
handler(pipeline_stage_exception, tagged const t, measure_data const m)
{
    SX_ASSERT(t.number >= 0 && t.number < ALL && t.x == sent[t.number], "items are handed over unaltered");
    SX_ASSERT(m.id >= 0 && m.id < POOL, "the worker number is below the pool size");
    SX_ASSERT(worker_of[t.number] == 0, "no item is handled twice");
    worker_of[t.number] = m.id + 1;
    while (!open) std::this_thread::yield();
    return 0;
}
static void
push(int n)
{
    if (n % 2) pool->push(tagged{n, sent[n]});
    else {
        tagged const c{n, sent[n]};
        pool->push(c);
    }
}
static void push_one(void* n) { push(static_cast<int>(reinterpret_cast<std::intptr_t>(n))); }

extern "C" void
sx_main()
{
    for (auto& x : sent) x = any_item();
    int in_handler = 0;
    {
        pool_t p(handler);
        pool = &p;
        for (int n = 0; n < FIRST; n++) {
            push(n);
            sx_drain();
        }
        for (int n = 0; n < FIRST; n++) in_handler += worker_of[n] != 0;
        SX_ASSERT(in_handler == POOL, "every worker has an item in its handler when the buffers are full");
        std::uint64_t id[MORE];
        for (int n = 0; n < MORE; n++) {
            id[n] = sx_thread_create(push_one, reinterpret_cast<void*>(static_cast<std::intptr_t>(FIRST + n)));
            sx_drain();
        }
        open = true;
        for (auto i : id) sx_thread_join(i);
    }
    int load[POOL]{};
    for (int n = 0; n < ALL; n++) {
        SX_ASSERT(worker_of[n] != 0, "every item is handled");
        int const w = worker_of[n] - 1;
        if (n < FIRST) continue;    // every buffer is full then
        for (int v = 0; v < POOL; v++) SX_ASSERT(load[w] <= load[v], "the item is queued at a least-loaded worker");
        load[w]++;
    }
    sx_cover("all handled");
}
