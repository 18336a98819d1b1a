// P05: the statistics a handler is given. Every thread has a clock of its own: it stands still before an item,
// advances by an arbitrary amount while the item is handled and jumps ahead after having been read once more.
// POOL: workers (0: a single stage), ITEMS. One item, any of them, takes any time below 2^BITS ns; the times of the
// others are fixed and such that their sums tell them apart.
// POOL 0: the queue length after each item is fixed by a handshake with the pushing thread (one of 4 patterns);
// otherwise every handler waits until all items are pushed.
#include "pipe_common.h"
#include <xitren/comm/pipeline_stage_pool.hpp>
#ifndef POOL
#define POOL 0
#endif
#ifndef ITEMS
#define ITEMS 13
#endif
#ifndef BITS
#define BITS 36
#endif
using namespace xitren::comm;
constexpr int workers = POOL ? POOL : 1;

struct thread_clock {
    std::int64_t round, extra;    // extra: 1 more than the time an item takes
};
static thread_clock     clock_of[8];
static std::atomic<int> pushed{0}, entered{0};
static int              need[ITEMS];
static std::int64_t     took[ITEMS];

extern "C" std::int64_t
sx_clock()
{
    auto&              c   = clock_of[sx_self()];
    std::int64_t const now = 1'700'000'000'000'000'000 + (c.round << 48);
    if (c.extra == 0) return now;
    std::int64_t const end = now + c.extra;
    c.extra                = 0;
    c.round++;
    return end;
}

struct seen {
    int item, time, load;
};
static seen log_of[workers][ITEMS];
static int  handled[workers];

static int
window(int w, int upto, bool time, int total)
{
    int sum = 0;
    for (int k = upto > 10 ? upto - 10 : 0; k < upto; k++) {
        int const n = log_of[w][k].item;
#if POOL
        sum += time ? static_cast<int>((1 + took[n]) / 1'000'000) : total - 1 - k;
#else
        sum += time ? static_cast<int>((1 + took[n]) / 1'000'000) : need[n] - 1 - k;
#endif
    }
    return sum / 10;
}

static void
handle(int n, int w, int time, int load)
{
    SX_ASSERT(w >= 0 && w < workers && n >= 0 && n < ITEMS, "only pushed items are handled");
    int const k  = handled[w]++;
    log_of[w][k] = {n, time, load};
    SX_ASSERT(time == window(w, k, true, 0), "the time is a tenth of the handling times of the worker's last ten items");
    entered++;
    while (pushed < need[n]) sx_yield();
    clock_of[sx_self()].extra = 1 + took[n];
}

#if POOL
using stage_t = pipeline_stage_pool<int, int, ITEMS, POOL, silent>;
#else
using stage_t = pipeline_stage<int, int, ITEMS, silent>;
static stage_t* stage_;
#endif

extern "C" void
sx_main()
{
    for (int k = 0; k < ITEMS; k++) took[k] = ((std::int64_t{10} << k) + 7) * 1'000'000 + (k % 2 ? 999'998 : 0);
    took[sx_choice(ITEMS, "item with an arbitrary handling time")] = static_cast<std::int64_t>(sx_bits(BITS, "handling time"));
    int const pattern = POOL ? 0 : static_cast<int>(sx_choice(4, "pattern of pushes"));
    int       prev    = 0;
    for (int k = 0; k < ITEMS; k++) {
        // how many items have been pushed when item k is done: at least the next one, so the worker goes on
        int more = pattern == 0 ? ITEMS : pattern == 1 ? k + 2 : pattern == 2 ? (k / 3) * 3 + 5 : (k < 6 ? k + 2 : ITEMS);
        if (more > ITEMS) more = ITEMS;
        need[k] = prev = more > prev ? more : prev;
    }
    {
#if POOL
        stage_t s([](pipeline_stage_exception, int const n, measure_data const m) { handle(n, m.id, m.time, m.load); return 0; });
#else
        stage_t s([](pipeline_stage_exception, int const n, std::pair<int, int> const m) {
            SX_ASSERT(m.first == stage_->time_for_unit() && m.second == stage_->buffer_utilization(), "the accessors agree with what the handler is given");
            handle(n, 0, m.first, m.second);
            return 0;
        });
        stage_ = &s;
#endif
        int n = 0;
        s.push(n++);
        pushed = 1;
        for (int k = 0; k < ITEMS && n < ITEMS; k++) {
            if (!POOL)
                while (entered <= k) sx_yield();
            while (n < need[k]) {
                s.push(n++);
                pushed = n;
            }
        }
    }
    int all = 0;
    for (int w = 0; w < workers; w++) {
        all += handled[w];
        for (int k = 0; k < handled[w]; k++)
            SX_ASSERT(log_of[w][k].load == window(w, k, false, handled[w]), "the load is a tenth of the worker's queue lengths after its last ten items");
        if (handled[w] > 11) sx_cover("the window moved");
    }
    SX_ASSERT(all == ITEMS, "every item is handled");
    sx_cover("done");
}
