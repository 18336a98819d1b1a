#pragma once
#include "sx.h"
#include <atomic>
#include <chrono>
#include <cstdint>
#include <deque>
#include <limits>
#include <optional>
#include <utility>

struct silent {
    silent& operator<<(auto const&) { return *this; }
    static silent& trace() { static silent s; return s; }
    static silent& debug() { return trace(); }
    static silent& warning() { return trace(); }
    static silent& error() { return trace(); }
};
struct item {
    std::uint32_t a;
    std::uint64_t b;
    bool operator==(item const&) const = default;
};
static item any_item() { return {sx_sym<std::uint32_t>("item a"), sx_sym<std::uint64_t>("item b")}; }
