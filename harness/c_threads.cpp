// C04: a cache used by several threads at the same time, with its locks compiled in (as on a platform that defines
// PTHREAD_MUTEX_DEFAULT as a macro). THREADS, M: calls per thread, CAP, FILL: keys put first, KEYS,
// EXPIRED: entries expire at once, so that lookups of resident keys throw
#include "threads_common.h"
#include <cstdint>
#include <optional>
#ifndef PTHREAD_MUTEX_DEFAULT
#define PTHREAD_MUTEX_DEFAULT PTHREAD_MUTEX_DEFAULT
#endif
#include <xitren/cache/lru.hpp>
#ifndef THREADS
#define THREADS 2
#endif
#ifndef M
#define M 2
#endif
#ifndef CAP
#define CAP 2
#endif
#ifndef FILL
#define FILL 1
#endif
#ifndef KEYS
#define KEYS 3
#endif
#ifndef EXPIRED
#define EXPIRED 0
#endif
using namespace xitren::cache;
using value_t = std::uint32_t;
using cache_t = lru<int, value_t, CAP>;

extern "C" std::int64_t sx_clock() { return 1'700'000'000'000'000'000; }

struct call {
    bool    put;
    int     key;
    value_t value;    // put, or got
    bool    found, timeout;
    span_of_call when{};
};
static call     calls[THREADS][M];
static cache_t* cache;
static call     found_last[KEYS];

struct model {
    int     key[CAP];
    value_t value[CAP];
    int     n = 0;
    bool
    apply(call const& c)
    {
        int at = 0;
        while (at < n && key[at] != c.key) at++;
        bool const there = at < n;
        if (!c.put && !there) return !c.found & !c.timeout;
        if (!c.put && EXPIRED) return !c.found & c.timeout;
        value_t const v = c.put ? c.value : value[at];
        if (!there && n < CAP) n++;
        if (!there) at = n - 1;
        for (; at > 0; at--) key[at] = key[at - 1], value[at] = value[at - 1];
        key[0]   = c.key;
        value[0] = v;
        return c.put ? true : c.found & !c.timeout & (c.value == v);
    }
    bool
    done() const
    {
        model m  = *this;
        bool  ok = true;
        for (auto& c : found_last) ok &= m.apply(c);
        return ok;
    }
};

static void
make_untimed(call& c)
{
    if (c.put) {
        cache->put(c.key, c.value);
        return;
    }
    try {
        auto const got = cache->get(c.key);
        c.found        = got.has_value();
        if (c.found) {
            SX_ASSERT(std::get<0>(*got) == c.key, "a lookup returns the entry of its key");
            c.value = std::get<1>(*got);
        }
    } catch (cache_timeout const&) {
        c.timeout = true;
        sx_cover("timeout");
    }
}

static void
make(call& c)
{
    c.when.begin = sx_moment();
    make_untimed(c);
    c.when.end = sx_tick();
}

static void
work(void* p)
{
    for (auto& c : calls[reinterpret_cast<std::intptr_t>(p)]) make(c);
}

extern "C" void
sx_main()
{
    static cache_t x(std::chrono::hours(EXPIRED ? 0 : 1));
    cache = &x;
    model m;
    for (int k = 0; k < FILL; k++) {
        call c{true, k, sx_sym<value_t>("value"), false, false};
        make(c);
        m.apply(c);
    }
    for (auto& thread : calls)
        for (auto& c : thread) {
            c.put = sx_choice(2, "put") != 0;
            c.key = static_cast<int>(sx_choice(KEYS, "key"));
            if (c.put) c.value = sx_sym<value_t>("value");
        }
    std::uint64_t id[THREADS];
    for (std::intptr_t t = 1; t < THREADS; t++) id[t] = sx_thread_create(work, reinterpret_cast<void*>(t));
    work(nullptr);
    for (int t = 1; t < THREADS; t++) sx_thread_join(id[t]);
    for (int k = 0; k < KEYS; k++) {
        found_last[k] = {false, k, 0, false, false};
        make(found_last[k]);
    }
    SX_ASSERT(explained(calls, m), "the results and the final content are those of the calls made one after the other");
    sx_cover("done");
}
