// C01-C03: an LRU cache with lifetimes against a reference model, over every history of put, get and clock steps.
// KEYS 0: keys with arbitrary identity (64-bit symbolic, one hash bucket); 1: int keys whose buckets collide; 2: std::string keys
// TIMED: the clock advances by an arbitrary amount before every call; EXC: lru's Exception parameter; PROP: 1, 2, 3
#include "sx.h"
#include <chrono>
#include <cstdint>
#include <functional>
#include <optional>
#include <string>
#ifndef CAP
#define CAP 2
#endif
#ifndef OPS
#define OPS 5
#endif
#ifndef KEYS
#define KEYS 0
#endif
#ifndef FILL
#define FILL 0    // KEYS 3: int keys, the first FILL of them put before the history
#endif
#ifndef AGE
#define AGE 0    // KEYS 3: so many calls at first
#endif
#ifndef TIMED
#define TIMED 0
#endif
#ifndef CLK
#define CLK 40
#endif
#ifndef LIFEBITS
#define LIFEBITS CLK
#endif
#ifndef EXC
#define EXC true
#endif

#if KEYS == 0
struct key_t_ {
    std::uint64_t id;
    bool operator==(key_t_ const& o) const { return id == o.id; }
    unsigned order{};    // a total order that costs no query, for a cache that keeps its keys sorted
    bool operator<(key_t_ const& o) const { return order < o.order; }
};
template <>
struct std::hash<key_t_> {
    std::size_t operator()(key_t_ const&) const noexcept { return 7; }
};
using lru_key = key_t_;
static lru_key  seen[OPS + 1];
static unsigned nseen;
static lru_key
any_key()
{
    // one of the keys used so far, or another one
    auto i = sx_choice(nseen + 1, "key");
    if (i == nseen) {
        lru_key k{sx_sym<std::uint64_t>("new key"), nseen};
        for (unsigned j = 0; j < nseen; j++) SX_ASSUME(k.id != seen[j].id);
        seen[nseen++] = k;
    }
    return seen[i];
}
#elif KEYS == 1
using lru_key = int;
static lru_key
any_key()
{
    constexpr int some[] = {0, 13, -1, 5};
    return some[sx_choice(CAP + 2 < 4 ? CAP + 2 : 4, "key")];
}
#elif KEYS == 3
using lru_key = int;
static lru_key
any_key()
{
    constexpr int some[] = {0, 1, FILL / 2, FILL - 1, FILL, FILL + 1};
    return some[sx_choice(6, "key")];
}
#else
using lru_key = std::string;
static lru_key
any_key()
{
    char const* const some[] = {"", "a", "ab", "a key that does not fit into the string object"};
    return some[sx_choice(CAP + 2 < 4 ? CAP + 2 : 4, "key")];
}
#endif

struct value_ {    // a value of more than one machine word
    std::uint32_t a{};
    std::uint64_t b{};
    value_() = default;
    value_(std::uint32_t x, std::uint64_t y) : a{x}, b{y} {}
    value_(value_ const&) = default;
    value_& operator=(value_ const&) = default;
    value_(value_&& o) noexcept : a{o.a}, b{o.b} { o.gone(); }
    value_&
    operator=(value_&& o) noexcept
    {
        auto const x = o;
        o.gone();
        a = x.a;
        b = x.b;
        return *this;
    }
    void gone() { a = 77, b = 78; }    // a value moved from is not the value any more
    bool operator==(value_ const&) const = default;
};

#if KEYS != 0
extern "C" int sx_real_buckets() { return 1; }
#endif
static std::int64_t now_ns = 1'000'000'000;
#if TIMED
static void tick() { now_ns += static_cast<std::int64_t>(sx_bits(CLK, "clock step")); }
#else
static void tick() {}
#endif
extern "C" std::int64_t sx_clock() { return now_ns; }

#include <xitren/cache/lru.hpp>
using namespace xitren::cache;

struct entry {
    bool         used = false;
    lru_key      key{};
    value_       val{};
    std::int64_t at   = 0;
    unsigned     rank = 0;
};
static entry        model[CAP + 1];
static unsigned     stamp;
static std::int64_t life;

static entry*
resident(lru_key const& k)
{
    for (auto& e : model)
        if (e.used && e.key == k) return &e;
    return nullptr;
}
static unsigned
count()
{
    unsigned n = 0;
    for (auto& e : model) n += e.used;
    return n;
}

// every key ever put, with its last value
static entry    hist[OPS + FILL + 1];
static unsigned nhist;
static entry*
was_put(lru_key const& k)
{
    for (unsigned i = 0; i < nhist; i++)
        if (hist[i].key == k) return &hist[i];
    return nullptr;
}
static void
remember(lru_key const& k, value_ const& v)
{
    auto* h = was_put(k);
    if (!h) {
        h      = &hist[nhist++];
        h->key = k;
    }
    h->val = v;
}

template <class C>
static void
look(C& c, lru_key const& k)
{
    auto* e     = resident(k);
    bool  fresh = e && now_ns - e->at < life;
    bool  threw = false;
    auto  r     = decltype(c.get(k)){};
    try {
        r = c.get(k);
    } catch (cache_timeout const&) {
        threw = true;
    }
    auto* h = was_put(k);
    if (!e) {
        sx_cover("get of an absent key");
        if (!h) SX_OF(1 << 1, !r.has_value() && !threw, "a key that was never put gives an empty result");
        else SX_OF(1 << 2, !r.has_value() && !threw, "an evicted key gives an empty result");
        if (h && r.has_value()) SX_OF(1 << 1, std::get<1>(*r) == h->val && std::get<0>(*r) == k, "only the value last put is returned");
        return;
    }
    if (!fresh) {
        sx_cover("get of an expired key");
        SX_OF(1 << 3, !r.has_value(), "an expired key is not returned");
        SX_OF(1 << 3, threw == EXC, "an expired key is reported as configured");
        return;
    }
    SX_OF(1 << 2, !threw && r.has_value(), "the keys used last are returned");
    if (nhist <= CAP) SX_OF(1 << 1 | 1 << 3, !threw && r.has_value(), "a key that has not expired and cannot have been evicted is returned");
    if (threw || !r.has_value()) return;
    SX_OF(1 << 1 | 1 << 3, std::get<1>(*r) == h->val, "the value last put is returned");
    SX_OF(1 << 1, std::get<0>(*r) == k, "the entry of the key asked for is returned");
    e->rank = ++stamp;
}

static lru_key put[OPS + FILL + 1];
static int     nput;
template <class C>
static void
store(C& c, lru_key const& k)
{
    value_ v{sx_sym<std::uint32_t>("value"), sx_sym<std::uint64_t>("value2")};
    c.put(k, v);
    remember(k, v);
    auto* e     = resident(k);
    put[nput++] = k;
    if (!e) {
        if (count() == CAP) {
            sx_cover("an eviction");
            entry* old = nullptr;
            for (auto& x : model)
                if (x.used && (!old || x.rank < old->rank)) old = &x;
            old->used = false;
        }
        for (auto& x : model)
            if (!x.used) {
                e = &x;
                break;
            }
        e->used = true;
        e->key  = k;
    } else
        sx_cover("a key was put again");
    e->val  = v;
    e->at   = now_ns;
    e->rank = ++stamp;
}

extern "C" void
sx_main()
{
#if TIMED
    life = static_cast<std::int64_t>(sx_bits(LIFEBITS, "lifetime"));
#else
    life = 3600'000'000'000;
#endif
    lru<lru_key, value_, CAP, EXC> c{std::chrono::nanoseconds(life)};
    SX_OF(1 << 3, c.expired_after() == std::chrono::nanoseconds(life), "the lifetime is the configured one");
#if AGE
    for (int i = 0; i < AGE; i++) {    // keys that the filling evicts again
        int const k = -1 - i % (CAP + 2);
        c.put(k, value_{static_cast<std::uint32_t>(i), 5});
        if (i % 3 == 0) c.put(k, value_{static_cast<std::uint32_t>(i), 6});
        auto r = c.get(k);
        SX_ASSERT(r.has_value() && std::get<1>(*r) == (value_{static_cast<std::uint32_t>(i), i % 3 ? 5u : 6u}), "the value last put is returned");
        auto const old = c.get(-1 - (i + 1) % (CAP + 2));
        SX_OF(1 << 2, !old.has_value(), "an evicted key gives an empty result");
        if (i >= 1 && CAP > 1) {
            auto const last = c.get(-1 - (i - 1) % (CAP + 2));
            SX_OF(1 << 2, last.has_value(), "the keys used last are returned");
            c.get(k);
        }
    }
    sx_cover("aged");
#endif
#if FILL
    for (int i = 0; i < FILL; i++) store(c, i);
#endif
    for (int i = 0; i < OPS; i++) {
        tick();
        auto k = any_key();
        if (sx_choice(2, "operation") == 0) store(c, k);
        else look(c, k);
    }
    tick();
    // every key put so far
    for (int i = 0; i < nput; i++)
        if (!resident(put[i])) look(c, put[i]);
    for (auto& e : model)
        if (e.used) {
            auto k = e.key;
            look(c, k);
        }
}
