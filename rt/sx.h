// Interface between harnesses and the symbolic executor (or the native replay runtime).
#pragma once
#include <cstddef>
#include <cstdint>

extern "C" {
void     sx_make(void* p, std::size_t n, char const* name);
std::uint64_t sx_bits(unsigned n, char const* name);    // a symbol of n < 64 bits
void     sx_assume_(int c);
void     sx_assert_(int c, char const* label);
void     sx_cover(char const* label);
void     sx_note(char const* label, std::uint64_t v);
std::uint64_t sx_concretize(std::uint64_t v);
std::uint32_t sx_choice(std::uint64_t n, char const* name);
std::uint64_t sx_live_heap();
void     sx_stop();
void     sx_limit(char const* what);    // the path leaves the stated bounds
int      sx_symbolic();
std::uint64_t sx_object_size(void const* p);
void     sx_drain();                    // let every other thread run until none can
std::uint64_t sx_thread_create(void (*f)(void*), void* arg);
void     sx_thread_join(std::uint64_t id);
int      sx_thread_done(std::uint64_t id);
int      sx_self();
std::uint64_t sx_tick();                // counts up; right after the step before, whatever the schedule
std::uint64_t sx_moment();              // the same, but other threads may run between the step before and this one
void     sx_yield();
std::int64_t sx_clock();                // nanoseconds; a harness may define it
int      sx_real_buckets();              // 1: hash tables have the buckets of libstdc++; a harness may define it
void     sx_main();
}

// A user of the library (and its tests, through gtest) has the common standard headers included already: a
// header under check that leans on that is not an alarm.
#include <algorithm>
#include <array>
#include <bit>
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iterator>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <new>
#include <numeric>
#include <optional>
#include <set>
#include <span>
#include <stdexcept>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>
#include <atomic>
#include <condition_variable>
#include <mutex>
#include <thread>

#define SX_ASSUME(c) sx_assume_(static_cast<bool>(c))
#define SX_ASSERT(c, label) sx_assert_(static_cast<bool>(c), label)
// in a harness shared by several properties: an assertion that belongs to some of them (the bits of `set`)
#ifndef PROP
#define PROP 0
#endif
#define SX_OF(set, c, label)                                      \
    do {                                                          \
        if (PROP == 0 || ((set) >> PROP & 1)) SX_ASSERT(c, label); \
    } while (0)

template <class T>
inline T
sx_sym(char const* name)
{
    T v;
    sx_make(&v, sizeof(v), name);
    return v;
}
template <>
inline bool
sx_sym<bool>(char const* name)
{
    return sx_bits(1, name) != 0;
}
template <class T>
inline T
sx_range(char const* name, T lo, T hi)
{
    // a symbol no wider than the range needs keeps the queries small
    T v;
    if constexpr (sizeof(T) > 1 && std::is_integral_v<T>) {
        if (lo >= 0 && static_cast<std::uint64_t>(hi) < 1ull << 62) {
            unsigned w = 1;
            while (static_cast<std::uint64_t>(hi) >> w) w++;
            v = static_cast<T>(sx_bits(w, name));
        } else
            v = sx_sym<T>(name);
    } else
        v = sx_sym<T>(name);
    sx_assume_(v >= lo);
    sx_assume_(v <= hi);
    return v;
}
