// C01-C03: caches of one type used side by side, each with its own lifetime: no call on one is seen through another.
#include "sx.h"
#include <array>
#include <chrono>
#include <cstdint>
#include <functional>
#ifndef CAP
#define CAP 2
#endif
#ifndef OPS
#define OPS 5
#endif
#ifndef TIMED
#define TIMED 0
#endif
#ifndef EXC
#define EXC true
#endif
constexpr unsigned CACHES = 2, KEYS = CAP + 1;

struct key_t_ {
    std::uint64_t id;
    bool          operator==(key_t_ const& o) const { return id == o.id; }
    bool          operator<(key_t_ const& o) const { return id < o.id; }
};
template <>
struct std::hash<key_t_> {
    std::size_t operator()(key_t_ const&) const noexcept { return 7; }
};
static std::int64_t     now_ns = 1'000'000'000;
extern "C" std::int64_t sx_clock() { return now_ns; }
#include <xitren/cache/lru.hpp>
using namespace xitren::cache;

struct entry {
    bool          in = false, was = false;
    std::uint64_t val{};
    std::int64_t  at{};
    unsigned      rank{};
};
static entry            model[CACHES][KEYS];
static unsigned         stamp;
static std::int64_t     life[CACHES];

template <class C>
static void
look(C& c, unsigned w, unsigned k)
{
    auto& e     = model[w][k];
    bool  threw = false;
    auto  r     = decltype(c.get({})){};
    try {
        r = c.get({k * 1000ull});
    } catch (cache_timeout const&) {
        threw = true;
    }
    if (!e.in) {
        SX_OF(e.was ? 1 << 2 : 1 << 1, !threw && !r.has_value(), "a key that this cache does not hold is absent");
        return;
    }
    if (now_ns - e.at >= life[w]) {
        SX_OF(1 << 3, !r.has_value() && threw == EXC, "a key expires after the lifetime of its own cache");
        sx_cover("expired");
        return;
    }
    SX_OF(1 << 1 | 1 << 2 | 1 << 3, !threw && r.has_value(), "a key that this cache holds is found");
    if (threw || !r.has_value()) return;
    SX_OF(1 << 1 | 1 << 3, std::get<1>(*r) == e.val, "the value last put into this cache is returned");
    e.rank = ++stamp;
    sx_cover("found");
}
template <class C>
static void
store(C& c, unsigned w, unsigned k)
{
    auto const v = sx_sym<std::uint64_t>("value");
    c.put({k * 1000ull}, v);
    auto&    e = model[w][k];
    unsigned n = 0;
    for (auto& x : model[w]) n += x.in;
    if (!e.in && n == CAP) {
        entry* old = nullptr;
        for (auto& x : model[w])
            if (x.in && (!old || x.rank < old->rank)) old = &x;
        old->in = false;
        sx_cover("an eviction");
    }
    e = {true, true, v, now_ns, ++stamp};
}

extern "C" void
sx_main()
{
    using lru_t = lru<key_t_, std::uint64_t, CAP, EXC>;
    for (auto& l : life) l = TIMED ? static_cast<std::int64_t>(sx_bits(40, "lifetime")) : 3600'000'000'000;
    lru_t  a{std::chrono::nanoseconds(life[0])}, b{std::chrono::nanoseconds(life[1])};
    lru_t* all[] = {&a, &b};
    for (unsigned i = 0; i < OPS; i++) {
        if (TIMED) now_ns += static_cast<std::int64_t>(sx_bits(40, "clock step"));
        auto const w = sx_choice(CACHES, "cache");
        auto const k = sx_choice(KEYS, "key");
        if (sx_choice(2, "operation")) look(*all[w], w, k);
        else store(*all[w], w, k);
    }
    for (unsigned w = 0; w < CACHES; w++) {
        SX_OF(1 << 3, all[w]->expired_after() == std::chrono::nanoseconds(life[w]), "each cache has its own lifetime");
        for (unsigned k = 0; k < KEYS; k++)
            if (!model[w][k].in) look(*all[w], w, k);
        for (unsigned k = 0; k < KEYS; k++)
            if (model[w][k].in) look(*all[w], w, k);
    }
    sx_cover("done");
}
