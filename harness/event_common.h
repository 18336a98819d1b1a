// The clock and the sleeps of the event thread, as seen by the harnesses of interval_event.
#pragma once
#include "sx.h"
#include <atomic>
#include <cerrno>
#include <chrono>
#include <cstdint>
#include <ctime>
#include <functional>
#include <thread>
#include <utility>

std::int64_t clock_read();                   // called for every reading of the clock by the event thread
void         slept(std::int64_t nanos);      // called for every sleep of the event thread, before it

extern "C" {
std::int64_t
sx_clock()
{
    return clock_read();
}
int
nanosleep(timespec const* t, timespec*)
{
    if (sx_self() != 0) slept(t->tv_sec * 1'000'000'000 + t->tv_nsec);
    sx_yield();
    return 0;
}
}
