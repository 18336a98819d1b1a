// I02: stopping a periodic event, for every schedule of the stopping thread and the event thread.
// TICKS: clock readings that advance (later ones stand still, so the event thread only waits to be stopped)
#include "event_common.h"
#include <xitren/func/interval_event.hpp>
#ifndef TICKS
#define TICKS 2
#endif
#ifndef CALLBACK_YIELDS
#define CALLBACK_YIELDS 1
#endif
using namespace xitren::func;

static std::int64_t      now = 1'700'000'000'000'000'000;
static int               ticks, calls;
static std::atomic<bool> stopped;

std::int64_t
clock_read()
{
    if (ticks < TICKS) {
        ticks++;
        now += static_cast<std::int64_t>(sx_bits(40, "time since the last reading"));
    }
    return now;
}

void
slept(std::int64_t)
{}

static void
callback()
{
    SX_ASSERT(!stopped, "no callback starts after stop has returned");
    calls++;
    for (int i = 0; i < CALLBACK_YIELDS; i++) sx_yield();
    SX_ASSERT(!stopped, "no callback runs after stop has returned");
}

extern "C" void
sx_main()
{
    auto* e = static_cast<interval_event*>(operator new(sizeof(interval_event)));
    static constexpr int settings[][2]{{5, 1}, {1, 5}, {3, 3}, {0, 2}};
    auto const&          with = settings[sx_choice(4, "period and interval between checks")];
    new (e) interval_event(callback, std::chrono::milliseconds(with[0]), std::chrono::milliseconds(with[1]));
    for (int i = sx_choice(3, "waits before stopping"); i > 0; i--) sx_yield();
    switch (sx_choice(3, "how it is stopped")) {
    case 0:
        e->stop();
        stopped = true;
        if (calls) sx_cover("stopped after a callback");
        sx_drain();
        break;
    case 1:
        e->stop();
        stopped = true;
        e->stop();
        sx_cover("stopped twice");
        break;
    default: sx_cover("destroyed without stop");
    }
    e->~interval_event();
    stopped = true;
    operator delete(e);
    sx_drain();
    SX_ASSERT(sx_thread_done(1), "the thread has ended");
}
