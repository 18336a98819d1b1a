// I03: function, period and check interval used by the event thread, for every schedule of the constructor and
// of setters called from another thread.
// CHECKS: checks of the event thread, SETTER: 0 none, 1 period, 2 check interval, 3 both, LONG: settings of up to 50 days
#include "event_common.h"
#include <xitren/func/interval_event.hpp>
#ifndef CHECKS
#define CHECKS 2
#endif
#ifndef SETTER
#define SETTER 0
#endif
#ifndef LONG
#define LONG 0
#endif
using namespace xitren::func;

// settings from a millisecond to weeks
static std::int64_t
any_setting(char const* name)
{
    static constexpr std::int64_t some[]{1, 999, 1'000, 65'537, 3'600'001, 5'400'000, 259'200'000, 4'294'967'297};
    return LONG ? some[sx_choice(8, name)] : sx_range<std::int64_t>(name, 1, 255);
}


static constexpr std::int64_t ms = 1'000'000;
static std::int64_t           now = 1'700'000'000ll * 1000 * ms;
static std::int64_t           check_start, due_lo, due_hi;    // when the next callback is due, at the earliest and at the latest
static bool                   started, in_check;
static int                    checks, calls, calls_before;
static std::atomic<bool>      over;
// old and new settings, and what the event thread may or must use
static std::int64_t     period[2], wait[2];
static std::atomic<int> setting, set;    // 1: the setter has been entered, has returned
static int              oldest;          // setting the current check has to use at least

// the callback that has run moves the next one by a period: which one it is depends on when the setter ran
static void
move_due()
{
    int newest = setting;
    std::int64_t a = period[oldest], b = period[newest];
    due_lo += (a < b ? a : b) * ms;
    due_hi += (a < b ? b : a) * ms;
}

std::int64_t
clock_read()
{
    now += static_cast<std::int64_t>(sx_bits(LONG ? 53 : 32, "time since the last reading"));
    if (!started) {
        started = true;
        due_lo = due_hi = now;
    } else if (!in_check) {
        in_check     = true;
        check_start  = now;
        calls_before = calls;
        oldest       = set;
    }
    return now;
}

void
slept(std::int64_t nanos)
{
    if (!in_check || over) return;
    in_check     = false;
    int  newest  = setting;
    bool ok      = false;
    for (int k = oldest; k <= newest; k++) ok = ok || nanos == wait[k] * ms;
    SX_ASSERT(ok, "the configured interval between checks is used");
    // up to a millisecond, or a millionth of the period, late is no alarm: the code compares nanoseconds with a number of milliseconds
    if (calls == calls_before)
        SX_ASSERT(check_start - due_hi < ms + (period[0] > period[1] ? period[0] : period[1]), "a callback that is due at a check is run");
    else
        move_due();
    if (oldest) sx_cover("check after the setter returned");
    if (++checks == CHECKS) over = true;
}

static void
callback()
{
    if (over) return;
    SX_ASSERT(in_check, "a callback runs after looking at the clock");
    if (calls > calls_before) move_due();
    SX_ASSERT(now - due_lo >= 0, "callbacks are a configured period apart");
    calls++;
    sx_cover("called");
}

extern "C" void
sx_main()
{
#if LONG
    {
        // whatever is set can be read back; the thread has not started yet when it is set to something sensible again
        over = true;
        interval_event any([] {}, std::chrono::milliseconds(sx_sym<std::int64_t>("any period")), std::chrono::milliseconds(1));
        for (int i = 0; i < 2; i++) {
            auto const p = sx_sym<std::int64_t>("any period"), w = sx_sym<std::int64_t>("any wait");
            any.period(std::chrono::milliseconds(p));
            any.period_between_checks(std::chrono::milliseconds(w));
            SX_ASSERT(any.period().count() == p && any.period_between_checks().count() == w, "any setting can be read back");
        }
        any.period(std::chrono::milliseconds(1));
        any.period_between_checks(std::chrono::milliseconds(1));
        any.stop();
        over = started = in_check = false;
        checks = calls = calls_before = 0;
    }
#endif
    for (auto& p : period) p = any_setting("period");
    for (auto& w : wait) w = any_setting("wait between checks");
#if !(SETTER & 1)
    period[1] = period[0];
#endif
#if !(SETTER & 2)
    wait[1] = wait[0];
#endif
    auto* e = static_cast<interval_event*>(operator new(sizeof(interval_event)));
    new (e) interval_event(callback, std::chrono::milliseconds(period[0]), std::chrono::milliseconds(wait[0]));
    SX_ASSERT(e->period().count() == period[0] && e->period_between_checks().count() == wait[0], "the settings can be read back");
#if SETTER
    setting = 1;
#if SETTER & 1
    e->period(std::chrono::milliseconds(period[1]));
#endif
#if SETTER & 2
    e->period_between_checks(std::chrono::milliseconds(wait[1]));
#endif
    set = 1;
    SX_ASSERT(e->period().count() == period[1] && e->period_between_checks().count() == wait[1], "the new settings can be read back");
#endif
    while (!over) sx_yield();
    e->~interval_event();
    operator delete(e);
    sx_cover("done");
}
