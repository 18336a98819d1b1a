// I01-I03: two periodic events side by side: each keeps its own function, period and check interval, and stopping one
// leaves the other running.
#include "event_common.h"
#include <xitren/func/interval_event.hpp>
#ifndef CHECKS
#define CHECKS 2
#endif
using namespace xitren::func;
constexpr int W = 2;

static constexpr std::int64_t ms = 1'000'000;
struct state {
    std::uint64_t self{};
    bool          started{}, in_check{};
    std::atomic<bool> over{};
    std::int64_t  now{1'700'000'000ll * 1000 * ms};    // a clock for each event: the two need not agree
    std::int64_t  due{}, check_start{};
    int           checks{}, calls{}, calls_before{};
    std::int64_t  period{}, wait{};
};
static state            st[W];
static std::atomic<int> stopped[W];

static int constructing;    // the event that the main thread constructs

std::int64_t
clock_read()
{
    int const i = sx_self() == 0 ? constructing : st[0].self == sx_self() ? 0 : 1;
    auto&     s = st[i];
    SX_ASSERT(!stopped[i], "a stopped event does nothing");
    s.now += static_cast<std::int64_t>(sx_bits(32, "time since the last reading"));
    if (!s.started) {
        s.started = true;
        s.due     = s.now;
    } else if (!s.in_check) {
        s.in_check     = true;
        s.check_start  = s.now;
        s.calls_before = s.calls;
    }
    return s.now;
}
void
slept(std::int64_t nanos)
{
    for (auto& s : st)
        if (s.self == sx_self()) {
            if (!s.in_check) return;
            s.in_check = false;
            if (s.over) return;
            SX_ASSERT(nanos == s.wait * ms, "each event checks at its own interval");
            if (s.calls == s.calls_before) SX_ASSERT(s.check_start - s.due < ms + s.period, "a callback that is due at a check is run");
            if (++s.checks == CHECKS) s.over = true;
        }
}
template <int I>
static void
callback()
{
    auto& s = st[I];
    SX_ASSERT(!stopped[I], "a stopped event runs no callback");
    SX_ASSERT(s.self == sx_self(), "each event runs its own function");
    if (s.over) return;
    SX_ASSERT(s.in_check && s.now - s.due >= 0, "callback n of an event never runs before n of its periods have passed");
    s.calls++;
    s.due += s.period * ms;
    sx_cover("called");
}

extern "C" void
sx_main()
{
    static constexpr std::int64_t periods[]{1, 700}, waits[]{1, 50, 2000};
    for (auto& s : st) {
        s.period = periods[sx_choice(2, "period")];
        s.wait   = waits[sx_choice(3, "wait")];
    }
    st[0].self = 1;
    st[1].self = 2;
    alignas(interval_event) static unsigned char room[W][sizeof(interval_event)];
    auto* a = new (room[0]) interval_event(callback<0>, std::chrono::milliseconds(st[0].period), std::chrono::milliseconds(st[0].wait));
    constructing = 1;
    auto* b = new (room[1]) interval_event(callback<1>, std::chrono::milliseconds(st[1].period), std::chrono::milliseconds(st[1].wait));
    interval_event* e[W]{a, b};
    for (int i = 0; i < W; i++) SX_ASSERT(e[i]->period().count() == st[i].period && e[i]->period_between_checks().count() == st[i].wait, "each event has its own settings");
    int const first = static_cast<int>(sx_choice(2, "stopped first"));
    bool const early = sx_choice(2, "stopped at once") != 0;
    while (!early && !st[first].over) sx_yield();
    e[first]->stop();
    st[first].over = true;
    stopped[first] = 1;
    while (!st[1 - first].over) sx_yield();
    sx_cover("the other one goes on");
    for (int i = 0; i < W; i++) SX_ASSERT(e[i]->period().count() == st[i].period, "each event has its own settings");
    e[1 - first]->~interval_event();
    stopped[1 - first] = 1;
    e[first]->~interval_event();
    sx_cover("done");
}
