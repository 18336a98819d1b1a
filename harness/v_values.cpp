// V01-V03 (and O05): observable values against a plain variable and a subscription list, over every history of
// add, remove, clear and value operators.  CAP: capacity (0: dynamic), N observed values, VT value type, PREFILL: the history starts with any number up to it of subscribers,
// NEST: an observer changes the value from inside its callback (the operators' results and the final value are judged)
#include "sx.h"
#include <cstdint>
#include <limits>
#include <mutex>
#include <optional>
#include <type_traits>
#include <vector>
#include <xitren/comm/values/observable.hpp>
#include <xitren/comm/values/observed.hpp>
#ifndef CAP
#define CAP 2
#endif
#ifndef N
#define N 3
#endif
#ifndef OPS
#define OPS 3
#endif
#ifndef VT
#define VT int
#endif
#ifndef SUBS
#define SUBS 1    // add and remove calls in the history
#endif
#ifndef VALS
#define VALS 9    // value operators in the history (1: assignment only)
#endif
#ifndef CLEAR
#define CLEAR 0
#endif
#ifndef PREFILL
#define PREFILL 0
#endif
#ifndef FILL
#define FILL 0    // the history starts with exactly so many subscribers; add and remove concern a few of them
#endif
#if FILL
enum { PICKS = 6 };
static unsigned pick(std::uint64_t k) { unsigned const at[PICKS] = {0, 1, FILL / 2, FILL - 2, FILL - 1, N - 1}; return at[k]; }
#else
enum { PICKS = N };
static unsigned pick(std::uint64_t k) { return static_cast<unsigned>(k); }
#endif
#ifndef NEST
#define NEST 0
#endif
#if NEST
#undef PROP
#define PROP 2    // which observer sees what is not defined when a callback changes the value
#undef VALS
#define VALS 8    // without the explicit notification
#endif
enum { V1 = 1 << 1, V2 = 1 << 2, V3 = 1 << 3, O5 = 1 << 5 };    // the properties that share this harness
using namespace xitren::comm;
using value_t = VT;
#if CAP == 0
using observable_t = values::observable_dynamic<value_t>;
#else
using observable_t = values::observable<value_t, CAP>;
#endif

static void const* source;
struct seen : values::observed<value_t> {
    using values::observed<value_t>::observed;
    unsigned disconnects = 0;
    void
    disconnect(void const* src) override
    {
        SX_OF(O5, src == source, "disconnect names the observable as its source");
        disconnects++;
    }
};
static unsigned calls[N];
static value_t  last[N];
static bool     settled = true;
#if NEST
static unsigned nest;
static value_t  nested;
#endif
static seen     plain;    // no callback
static unsigned order[N + 1], nsub;

static int
find(unsigned i)
{
    for (unsigned k = 0; k < nsub; k++)
        if (order[k] == i) return static_cast<int>(k);
    return -1;
}

static bool
add_ok(value_t x, int op)
{
    if constexpr (std::is_integral_v<value_t> && std::is_signed_v<value_t> && sizeof(value_t) >= sizeof(int)) {
        auto const big = std::numeric_limits<value_t>::max(), small = std::numeric_limits<value_t>::min();
        return op >= 0 ? x <= big - op : x >= small - op;
    }
    return true;
}
static value_t
any_value()
{
    if constexpr (std::is_floating_point_v<value_t>) return static_cast<value_t>(sx_sym<std::int16_t>("value"));
    else return sx_sym<value_t>("value");
}
static int
any_operand()
{
    if constexpr (std::is_floating_point_v<value_t>) return sx_sym<std::int16_t>("operand");
    else return sx_sym<int>("operand");
}

#ifndef AGE
#define AGE 0    // so many subscriptions, changes and removals at first
#endif
extern "C" void
sx_main()
{
    seen                        obs[N];
    value_t                     shadow[N]{};
    struct elsewhere {
        virtual ~elsewhere() = default;
        std::uint64_t used = 7;
    };
    struct placed : elsewhere, observable_t {    // the observable is not the first part of its object
        using observable_t::operator=;
    };
    std::optional<placed> box;
    box.emplace();
    observable_t& o = *box;
    source  = &o;
    for (unsigned i = 0; i < N; i++) {
        if (i == N - 1 && N > 1) continue;    // the last one has no callback
        obs[i].on_update([](value_t) { SX_OF(V1, false, "a callback that has been replaced is not called"); });
        obs[i].on_update([i, &obs, &o](value_t v) {
            calls[i]++;
            last[i] = v;
            if (settled) SX_OF(V1, obs[i].value() == v && o.value() == v, "the callback can already read the new value");
#if NEST
            if (i == 0 && nest != 0) {
                auto what = nest;
                nest      = 0;
                if (what == 1) {
                    auto r = (o = nested);
                    SX_OF(V2, r == nested, "a change from inside a callback returns its own result");
                } else if (add_ok(v, 1)) {
                    nested = ++o;
                    SX_OF(V2, nested == static_cast<value_t>(v + 1), "a change from inside a callback returns its own result");
                } else nested = v;
            }
#endif
        });
    }
    value_t var = any_value();
    {
        value_t r = (o = var);
        SX_OF(V2, r == var && o.value() == var, "an assignment stores the value and returns it");
    }
#if AGE
    for (int i = 0; i < AGE; i++) {
        unsigned const w = static_cast<unsigned>(i) % (N > 1 ? N - 1 : N);
        auto const added = o.add_observer(obs[w]);
        SX_OF(V3, added == observer_errors::ok, "adding a new observer answers ok");
        auto const before = calls[w];
        value_t    v = static_cast<value_t>(i % 100), g;
        switch (i % 5) {
        case 0: g = (o = v); break;
        case 1: o = v; g = ++o; v++; break;
        case 2: o = v; g = --o; v--; break;
        case 3: o = v; g = (o += 3); v += 3; break;
        default: o = v; g = (o -= 3); v -= 3; break;
        }
        SX_OF(V2, g == v && o.value() == v, "the operator leaves the value a plain variable would have");
        SX_OF(V1 | V3, calls[w] == before + 1 + (i % 5 != 0), "the update callback of every subscriber runs exactly once per change");
        SX_OF(V1 | V3, last[w] == v && obs[w].value() == v, "the callback gets the new value");
        shadow[w] = var = v;
        auto removed = observer_errors::ok;
        if (i % 3) removed = o.remove_observer(obs[w]);
        else o.clear_observers();
        SX_OF(V3, removed == observer_errors::ok, "removing answers ok or not_found as the list demands");
    }
    sx_cover("aged");
#endif
#if !SUBS && !NEST
    auto pattern = sx_choice(1u << N, "subscribed");
    for (unsigned i = 0; i < N; i++)
        if (pattern >> i & 1) {
            if (nsub < (CAP ? CAP : N)) order[nsub++] = i;
            o.add_observer(obs[i]);
        }
#endif
    if (PREFILL || FILL) {
        auto pre = FILL ? FILL : sx_choice(PREFILL + 1, "subscribers at first");
        for (unsigned i = 0; i < pre; i++) {
            auto r = o.add_observer(obs[i]);
            SX_OF(V3, r == observer_errors::ok, "adding a new observer answers ok");
            order[nsub++] = i;
        }
    }
#if NEST
    for (unsigned i = 0; i < N; i++) {
        order[nsub++] = i;
        o.add_observer(obs[i]);
    }
#endif
    for (int k = 0; k < OPS; k++) {
        unsigned before[N];
        for (unsigned i = 0; i < N; i++) before[i] = calls[i];
        unsigned n  = (SUBS ? 2 * PICKS : 0) + CLEAR;
        auto     op = sx_choice(n + VALS, "operation");
        if (SUBS && op < PICKS) {
            auto const who = pick(op);
            auto r = o.add_observer(obs[who]);
            if (find(who) >= 0) {
                sx_cover("added twice");
                SX_OF(V3, r == observer_errors::already_contains || (CAP && nsub == CAP && r == observer_errors::list_is_full),
                          "adding a subscribed observer answers already_contains");
            } else if (CAP && nsub == CAP) {
                sx_cover("list full");
                SX_OF(V3, r == observer_errors::list_is_full, "adding to a full list answers list_is_full");
            } else {
                SX_OF(V3, r == observer_errors::ok, "adding a new observer answers ok");
                order[nsub++] = who;
            }
        } else if (SUBS && op < 2 * PICKS) {
            auto const who = pick(op - PICKS);
            auto at = find(who);
            auto r  = o.remove_observer(obs[who]);
            SX_OF(V3, r == (at >= 0 ? observer_errors::ok : observer_errors::not_found), "removing answers ok or not_found as the list demands");
            if (at >= 0) {
                sx_cover("removed");
                for (unsigned i = static_cast<unsigned>(at); i + 1 < nsub; i++) order[i] = order[i + 1];
                nsub--;
            }
        } else if (CLEAR && op == n - 1) {
            unsigned d[N];
            for (unsigned i = 0; i < N; i++) d[i] = obs[i].disconnects;
            o.clear_observers();
            for (unsigned i = 0; i < N; i++)
                SX_OF(O5, obs[i].disconnects == d[i] + (find(i) >= 0), "clearing disconnects each subscriber exactly once and nobody else");
            if (nsub) sx_cover("cleared subscribers");
            nsub = 0;
        } else {
            value_t got{}, want{};
#if NEST
            nest   = sx_choice(3, "what the callback does");
            nested = any_value();
            auto const does = nest;
#endif
            switch (op - n) {
            case 0: {
                value_t v = any_value();
                got       = (o = v);
                want      = (var = v);
                break;
            }
            case 1: SX_ASSUME(add_ok(var, 1)); got = o++; want = var++; break;
            case 2: SX_ASSUME(add_ok(var, -1)); got = o--; want = var--; break;
            case 3: SX_ASSUME(add_ok(var, 1)); got = ++o; want = ++var; break;
            case 4: SX_ASSUME(add_ok(var, -1)); got = --o; want = --var; break;
            case 5: {
                auto x = any_operand();
                SX_ASSUME(add_ok(var, x));
                got  = (o += x);
                want = static_cast<value_t>(var += x);
                break;
            }
            case 6: {
                auto x = any_operand();
                SX_ASSUME(x != std::numeric_limits<int>::min() && add_ok(var, -x));
                got  = (o -= x);
                want = static_cast<value_t>(var -= x);
                break;
            }
            case 7: got = (o = var); want = var; break;    // the same value again
            case 8: {
                value_t v = any_value();
                (o = v);
                o.notify_observers(v);    // an explicit notification with the current value
                got = want = var = v;
                for (unsigned i = 0; i < N; i++)
                    if (find(i) >= 0 && !(i == N - 1 && N > 1)) before[i]++;
                break;
            }
            }
#if NEST
            SX_OF(V2, nest == 0, "the callback ran");
            if (does) var = nested;
            if (does) sx_cover("changed from inside a callback");
#endif
            SX_OF(V2, got == want, "the operator returns what it returns on a plain variable");
            SX_OF(V2, o.value() == var, "the operator leaves the value a plain variable would have");
            for (unsigned i = 0; i < N; i++)
                if (find(i) >= 0) {
                    shadow[i] = o.value();
                    if (i == N - 1 && N > 1) continue;
                    SX_OF(V1 | V3, calls[i] == before[i] + 1, "the update callback of every subscriber runs exactly once per change");
                    SX_OF(V1 | V3, last[i] == o.value(), "the callback gets the new value");
                    before[i] = calls[i];
                }
        }
        SX_OF(V2, o.value() == var, "subscription changes leave the value alone");
        for (unsigned i = 0; i < N; i++) {
            SX_OF(V1 | V3, obs[i].value() == shadow[i], "subscribed values follow the observable and others are left untouched");
            SX_OF(V1 | V3, calls[i] == before[i], "nobody else's callback runs");
        }
    }
    unsigned d[N];
    for (unsigned i = 0; i < N; i++) d[i] = obs[i].disconnects;
    box.reset();
    for (unsigned i = 0; i < N; i++)
        SX_OF(O5, obs[i].disconnects == d[i] + (find(i) >= 0), "destroying disconnects each subscriber exactly once and nobody else");
    if (nsub) sx_cover("destroyed with subscribers");
}
