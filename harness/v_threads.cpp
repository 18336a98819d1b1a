// V04: threads that change one observable value at the same time. Their results, the final value and what the
// observers are told must be those of the same operations made one after the other in some order.
// THREADS, M: operations per thread, KINDS: how many of the operations to choose from, CAP, VT, N: observers
#include "sx.h"
#include <cstdint>
#include <type_traits>
#include <vector>
#include <xitren/comm/values/observable.hpp>
#include <xitren/comm/values/observed.hpp>
#ifndef THREADS
#define THREADS 2
#endif
#ifndef M
#define M 1
#endif
#ifndef KINDS
#define KINDS 8
#endif
#ifndef CAP
#define CAP 2
#endif
#ifndef VT
#define VT int
#endif
#ifndef N
#define N 1
#endif
using namespace xitren::comm;
using value_t = VT;
#if CAP == 0
using observable_t = values::observable_dynamic<value_t>;
#else
using observable_t = values::observable<value_t, CAP>;
#endif
enum kind { add, post_inc, assign, look, post_dec, pre_inc, pre_dec, sub };    // the first KINDS of them

struct op {
    int      what;
    value_t  operand;
    value_t  result;
    unsigned told;
    value_t  heard;
    std::uint64_t begin, end;
};
static op           ops[THREADS][M];
static int          current[THREADS];    // the operation a thread is in, or -1
static observable_t* value;

static value_t
after(op const& o, value_t before)
{
    switch (o.what) {
    case add: return static_cast<value_t>(before + o.operand);
    case sub: return static_cast<value_t>(before - o.operand);
    case assign: return o.operand;
    case look: return before;
    case post_inc:
    case pre_inc: return static_cast<value_t>(before + 1);
    default: return static_cast<value_t>(before - 1);
    }
}
static bool old_result(op const& o) { return o.what == look || o.what == post_inc || o.what == post_dec; }

static unsigned
thread_number()
{
    return static_cast<unsigned>(sx_self());
}

static value_t
any_value(char const* name)
{
    if constexpr (std::is_floating_point_v<value_t>) {
        static constexpr int some[]{3, -1, 1024};
        return static_cast<value_t>(some[sx_choice(3, name)]);
    }
    else return static_cast<value_t>(sx_range<std::int16_t>(name, -1000, 1000));
}

static void
told(unsigned observer, value_t v)
{
    unsigned const t = thread_number();
    SX_ASSERT(t < THREADS && current[t] >= 0, "observers are told by the thread that changes the value, during the change");
    op& o = ops[t][current[t]];
    SX_ASSERT((o.told >> (8 * observer)) == 0, "an observer is told once about a change, in subscription order");
    o.told |= 1u << (8 * observer);
    if (observer == 0) o.heard = v;
    SX_ASSERT(o.heard == v, "all observers are told the same value");
}

static void
work(void* p)
{
    int const     t = static_cast<int>(reinterpret_cast<std::intptr_t>(p));
    observable_t& x = *value;
    for (int i = 0; i < M; i++) {
        op& o      = ops[t][i];
        current[t] = i;
        int const a = static_cast<int>(o.operand);
        o.begin     = sx_moment();
        switch (o.what) {
        case add: o.result = x += a; break;
        case sub: o.result = x -= a; break;
        case assign: o.result = x = o.operand; break;
        case look: o.result = x.value(); break;
        case post_inc: o.result = x++; break;
        case pre_inc: o.result = ++x; break;
        case post_dec: o.result = x--; break;
        default: o.result = --x;
        }
        o.end      = sx_tick();
        current[t] = -1;
    }
}

static value_t first, last;

// some order of the remaining operations that explains every result
static bool
explained(int const (&done)[THREADS], value_t now)
{
    bool any = false, end = true;
    for (int t = 0; t < THREADS; t++) {
        if (done[t] == M) continue;
        end           = false;
        op const& o   = ops[t][done[t]];
        bool      can = true;
        for (int k = 0; k < THREADS; k++) can &= done[k] == M || ops[k][done[k]].end > o.begin;
        if (!can) continue;
        value_t   nxt = after(o, now);
        bool      fit = o.result == (old_result(o) ? now : nxt);
        int       d[THREADS];
        for (int k = 0; k < THREADS; k++) d[k] = done[k] + (k == t);
        any |= fit & explained(d, nxt);
    }
    return end ? now == last : any;
}

extern "C" void
sx_main()
{
    observable_t x;
    value = &x;
    first = any_value("initial value");
    x     = first;
    struct listener : values::observed<value_t> {
        using values::observed<value_t>::observed;
    };
    static std::vector<listener*> listeners;
    for (unsigned i = 0; i < N; i++) {
        listeners.push_back(new listener([i](value_t const v) { told(i, v); }));
        SX_ASSERT(x.add_observer(*listeners[i]) == observer_errors::ok, "subscribed");
    }
    for (int t = 0; t < THREADS; t++) {
        current[t] = -1;
        for (auto& o : ops[t]) {
            o.what = static_cast<int>(sx_choice(KINDS, "operation"));
            if (o.what == add || o.what == sub || o.what == assign) o.operand = any_value("operand");
        }
    }
    std::uint64_t id[THREADS];
    for (std::intptr_t t = 1; t < THREADS; t++) id[t] = sx_thread_create(work, reinterpret_cast<void*>(t));
    work(nullptr);
    for (int t = 1; t < THREADS; t++) sx_thread_join(id[t]);
    last = x.value();
    int const none[THREADS]{};
    SX_ASSERT(explained(none, first), "the results and the final value are those of the operations made one after the other");
    bool changed = false, published[N]{};
    for (auto& thread : ops)
        for (auto& o : thread) {
            unsigned want = 0;
            for (unsigned i = 0; i < N; i++) want |= (o.what == look ? 0u : 1u) << (8 * i);
            SX_ASSERT(o.told == want, "every observer is told about every change");
            if (o.what == look) continue;
            changed = true;
            value_t const now = o.what == post_inc ? static_cast<value_t>(o.result + 1) : o.what == post_dec ? static_cast<value_t>(o.result - 1) : o.result;
            SX_ASSERT(o.heard == now, "observers are told the value the change made");
            for (unsigned i = 0; i < N; i++) published[i] |= listeners[i]->value() == now;
        }
    for (unsigned i = 0; i < N; i++) SX_ASSERT(!changed || published[i], "an observed value holds a value that was published");
    sx_cover("done");
    x.clear_observers();
    for (auto* l : listeners) delete l;
}
