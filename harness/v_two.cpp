// V01-V03, O05: observable values of one type used side by side, sharing their observed values: nothing done to one is
// seen through the other.  CHAIN: a callback on changes of the first one changes the second one
#include "sx.h"
#include <cstdint>
#include <xitren/comm/values/observable.hpp>
#include <xitren/comm/values/observed.hpp>
#ifndef OPS
#define OPS 3
#endif
#ifndef CAP
#define CAP 2
#endif
#ifndef CHAIN
#define CHAIN 0
#endif
enum { V1 = 1 << 1, V2 = 1 << 2, V3 = 1 << 3, O5 = 1 << 5 };
using namespace xitren::comm;
using value_t = std::uint32_t;
constexpr unsigned N = 3, W = 2;
#if CAP == 0
using observable_t = values::observable_dynamic<value_t>;
constexpr unsigned ROOM = N;
#else
using observable_t = values::observable<value_t, CAP>;
constexpr unsigned ROOM = CAP;
#endif

static unsigned      disconnects[N], calls[N], want_disconnects[N], want_calls[N];
static value_t       last[N], want_last[N];
static void const*   last_src[N];
static observable_t* all[W];
static value_t       var[W];
static bool          sub[W][N];

struct seen : values::observed<value_t> {
    unsigned id = 0;
    void
    disconnect(void const* src) override
    {
        disconnects[id]++;
        last_src[id] = src;
    }
};
static seen obs[N];

static unsigned
count(unsigned w)
{
    unsigned n = 0;
    for (bool b : sub[w]) n += b;
    return n;
}
static void
changed(unsigned w)
{
    for (unsigned i = 0; i < N; i++)
        if (sub[w][i]) want_calls[i]++, want_last[i] = var[w];
}

extern "C" void
sx_main()
{
    for (unsigned i = 0; i < N; i++) {
        obs[i].id = i;
        obs[i].on_update([i](value_t v) {
            calls[i]++;
            last[i] = v;
            SX_OF(V1, obs[i].value() == v, "the callback can already read the new value");
            if (CHAIN && i == 0) {
                value_t const r = (*all[1] += 5);
                SX_OF(V2, r == static_cast<value_t>(var[1] + 5), "a change of another value from inside a callback returns its own result");
                sx_cover("a callback changed another value");
            }
        });
    }
    for (unsigned w = 0; w < W; w++) {
        all[w] = new observable_t;
        var[w] = sx_sym<value_t>("value");
        *all[w] = var[w];
    }
    if (CHAIN) {    // the first observed value follows the first observable only
        all[0]->add_observer(obs[0]);
        sub[0][0] = true;
    }
    for (unsigned k = 0; k < OPS; k++) {
        auto const w  = sx_choice(W, "observable");
        auto const op = sx_choice(2 * (N - CHAIN) + 6, "operation");
        unsigned const i = CHAIN + op % (N - CHAIN);
        if (op < N - CHAIN) {
            auto const r  = all[w]->add_observer(obs[i]);
            bool const ok = !sub[w][i] && count(w) < ROOM;
            SX_OF(V3, (r == observer_errors::ok) == ok, "a subscription succeeds unless this observable is full or has it");
            if (ok) sub[w][i] = true;
        } else if (op < 2 * (N - CHAIN)) {
            auto const r = all[w]->remove_observer(obs[i]);
            SX_OF(V3, (r == observer_errors::ok) == sub[w][i], "only a subscriber of this observable can be removed");
            sub[w][i] = false;
        } else if (op == 2 * (N - CHAIN) || op == 2 * (N - CHAIN) + 1) {
            if (CHAIN && w == 0) return;    // the chain stays
            void const* const src = all[w];
            if (op == 2 * (N - CHAIN)) all[w]->clear_observers();
            else {
                delete all[w];
                all[w]  = new observable_t;
                *all[w] = var[w];
            }
            for (unsigned j = 0; j < N; j++) {
                if (!sub[w][j]) continue;
                want_disconnects[j]++;
                SX_OF(O5, last_src[j] == src, "disconnect names the observable as its source");
                sub[w][j] = false;
            }
            sx_cover("cleared or destroyed");
        } else {
            value_t got{}, want{};
            switch (op - 2 * (N - CHAIN)) {
            case 2: {
                auto const v = sx_sym<value_t>("value");
                got  = (*all[w] = v);
                want = var[w] = v;
                break;
            }
            case 3: got = (*all[w])++; want = var[w]++; break;
            case 4: got = --*all[w]; want = --var[w]; break;
            default: {
                auto const x = sx_sym<std::uint16_t>("operand");
                got  = (*all[w] += x);
                want = var[w] += x;
                break;
            }
            }
            SX_OF(V2, got == want, "the operator returns what it returns on a plain variable");
            if (CHAIN && w == 0) {    // the first subscriber of the first observable changed the second one
                var[1] += 5;
                for (unsigned j = 1; j < N; j++) {
                    if (sub[1][j]) want_calls[j]++;
                    if (sub[0][j]) want_calls[j]++, want_last[j] = var[0];
                    if (sub[0][j] && sub[1][j]) want_last[j] = last[j];    // the order of the callbacks decides
                    else if (!sub[0][j] && sub[1][j]) want_last[j] = var[1];
                }
                want_calls[0]++;
                want_last[0] = var[0];
            } else
                changed(w);
        }
        for (unsigned o = 0; o < W; o++) SX_OF(V2 | V1, all[o]->value() == var[o], "each observable has its own value");
        for (unsigned j = 0; j < N; j++) {
            SX_OF(V1 | V3, calls[j] == want_calls[j], "the callback runs once per change of an observable it is subscribed to");
            SX_OF(V1, last[j] == want_last[j] && (!calls[j] || obs[j].value() == want_last[j]), "the last change of a subscribed observable arrives");
            SX_OF(O5, disconnects[j] == want_disconnects[j], "each subscriber of that observable is disconnected once and nobody else");
        }
    }
    sx_cover("done");
}
