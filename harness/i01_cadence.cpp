// I01: the callbacks of a periodic event for every sequence of clock readings.
// CHECKS: checks of the event thread, BITS: size of a clock step, RESET: the callback may set a new period
#include "event_common.h"
#include <xitren/func/interval_event.hpp>
#ifndef CHECKS
#define CHECKS 4
#endif
#ifndef BITS
#define BITS 32
#endif
#ifndef PBITS
#define PBITS 10
#endif
#ifndef WBITS
#define WBITS 9
#endif
#ifndef RESET
#define RESET 0
#endif
#ifndef ALWAYS
#define ALWAYS 0    // 1: more than the longest period passes before every check; 2: only once, then the clock stands still
#endif
#ifndef AGE
#define AGE 0    // so many checks at first, a period or little more apart
#endif
using namespace xitren::func;

static constexpr std::int64_t ms = 1'000'000;
static std::int64_t           now = 1'700'000'000ll * 1000 * ms;
static std::int64_t           due, due_hi;    // when the next callback is due, at the earliest and at the latest
static std::int64_t           check_start;   // first reading in this check
static bool                   started, in_check;
static int                    checks, calls, calls_before;
static std::int64_t           period, count;    // in nanoseconds, in milliseconds
static std::atomic<bool>      over;
static interval_event*        event;

std::int64_t
clock_read()
{
#if AGE
    if (checks < AGE) {
        if (!in_check) now += period + (checks % 3 ? 0 : 1000);
    } else
        now += static_cast<std::int64_t>(sx_bits(BITS, "time since the last reading"));
#elif ALWAYS
    if (ALWAYS == 1 ? !in_check : started && checks == 0 && !in_check) {
        auto const step = sx_bits(BITS, "time since the last check");
        SX_ASSUME(step >= (ALWAYS == 1 ? 1u << 30 : 1ull << 35));
        now += static_cast<std::int64_t>(step);
    }
#else
    now += static_cast<std::int64_t>(sx_bits(BITS, "time since the last reading"));
#endif
    if (!started) {
        started = true;
        due = due_hi = now;
    } else if (!in_check) {
        in_check     = true;
        check_start  = now;
        calls_before = calls;
    }
    return now;
}

void
slept(std::int64_t)
{
    if (over) return;
    if (in_check) {
        in_check = false;
        if (calls == calls_before)
            SX_ASSERT(check_start - due_hi < ms + count, "a callback that is due at a check is run");
        else
            sx_cover("called");
        if (++checks == CHECKS) over = true;
    }
}

static void
callback()
{
    if (over) return;
    SX_ASSERT(in_check, "a callback runs after looking at the clock");
    SX_ASSERT(now - due >= 0, "callback n never runs before n periods have passed");
    if (now - due > period) sx_cover("late by more than a period");
    std::int64_t before = period;
    calls++;
#if RESET
    if (sx_choice(2, "set a new period")) {
        static constexpr std::int64_t values[]{0, 3, 700};
        period = values[sx_choice(3, "new period")] * ms;
        event->period(std::chrono::milliseconds(period / ms));
        sx_cover("period changed");
    }
#endif
    // a period set by the callback may count from this or from the next callback on
    due += before < period ? before : period;
    due_hi += before < period ? period : before;
}

extern "C" void
sx_main()
{
#if AGE
    static constexpr std::int64_t periods[]{1, 7, 1000};
    std::int64_t const p = periods[sx_choice(3, "period")], w = 1;
#else
    std::int64_t p = sx_range<std::int64_t>("period", 0, (1ll << PBITS) - 1);
    std::int64_t w = sx_range<std::int64_t>("wait between checks", 1, (1ll << WBITS) - 1);
#endif
    period         = p * ms;
    count          = p;    // the code compares nanoseconds with a number of milliseconds: a callback may be late by a millionth of the period
    auto* e        = static_cast<interval_event*>(operator new(sizeof(interval_event)));
    event          = e;
    new (e) interval_event(callback, std::chrono::milliseconds(p), std::chrono::milliseconds(w));
    while (!over) sx_yield();
    e->~interval_event();
    operator delete(e);
    sx_cover("done");
}
