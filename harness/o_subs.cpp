// O01, O02, O04, O05: fixed-capacity and dynamic observables against a subscription list, over every history of add,
// remove, clear and notify.  CAP: capacity (0: dynamic), N: number of observers, OPS: calls, CLEAR: clear_observers is used,
// PREFILL: the history starts with any number up to it of subscribed observers
#include "obs_model.h"
#include <optional>
#ifndef CAP
#define CAP 2
#endif
#ifndef N
#define N 3
#endif
#ifndef OPS
#define OPS 4
#endif
#ifndef CLEAR
#define CLEAR 1
#endif
#ifndef PREFILL
#define PREFILL 0
#endif
#ifndef FILL
#define FILL 0    // the history starts with exactly so many observers subscribed; calls concern a few of them
#endif
#if FILL
enum { PICKS = 6 };
static int pick(std::uint64_t k) { int const at[PICKS] = {0, 1, FILL / 2, FILL - 2, FILL - 1, N - 1}; return at[k]; }
#else
enum { PICKS = N };
static int pick(std::uint64_t k) { return static_cast<int>(k); }
#endif
using namespace xitren::comm;
#if CAP == 0
using observable_t = observable_dynamic<message>;
#else
using observable_t = observable_static<message, CAP>;
#endif

static sub_model<N> model;
static subscriber   subs[N];

static void
notify(observable_t& o)
{
    auto m    = any_message();
    auto from = elogn;
#if CAP == 0
    o.notify_observers(m);
#else
    SX_ASSERT(o.notify_observers(m) == observer_errors::ok, "a notification answers ok");
#endif
    expect_notified(from, model, &o, m);
}

static void
add(observable_t& o, int i)
{
    auto at = model.find(i);
#if CAP == 0
    bool threw = false;
    try {
        o.add_observer(subs[i]);
    } catch (observable_t::exception const& e) {
        threw = true;
        SX_OF(SETS, e.error == observer_errors::already_contains, "adding a subscribed observer throws already_contains");
    }
    SX_OF(SETS, threw == (at >= 0), "adding throws exactly for a subscribed observer");
    if (at < 0) model.add(i);
    else sx_cover("added twice");
#else
    auto r = o.add_observer(subs[i]);
    if (at >= 0) {
        sx_cover("added twice");
        SX_OF(SETS, r == observer_errors::already_contains || (model.n == CAP && r == observer_errors::list_is_full),
                  "adding a subscribed observer answers already_contains");
    } else if (model.n == CAP) {
        sx_cover("list full");
        SX_OF(SETS, r == observer_errors::list_is_full, "adding to a full list answers list_is_full");
    } else {
        SX_OF(SETS, r == observer_errors::ok, "adding a new observer answers ok");
        model.add(i);
    }
#endif
}

static void
remove(observable_t& o, int i)
{
    auto at = model.find(i);
#if CAP == 0
    bool threw = false;
    try {
        o.remove_observer(subs[i]);
    } catch (observable_t::exception const& e) {
        threw = true;
        SX_OF(SETS, e.error == observer_errors::not_found, "removing an unsubscribed observer throws not_found");
    }
    SX_OF(SETS, threw == (at < 0), "removing throws exactly for an unsubscribed observer");
#else
    auto r = o.remove_observer(subs[i]);
    SX_OF(SETS, r == (at >= 0 ? observer_errors::ok : observer_errors::not_found), "removing answers ok or not_found as the list demands");
#endif
    if (at >= 0) model.remove(at);
    else sx_cover("removed an unsubscribed observer");
}

#ifndef AGE
#define AGE 0    // so many subscriptions, notifications and removals at first
#endif
static void
age(observable_t& o)
{
    for (int i = 0; i < AGE; i++) {
        elogn = 0;
        add(o, i % N);
        message const m{static_cast<std::uint8_t>(i), 7, static_cast<std::uint64_t>(i)};
        o.notify_observers(m);
        expect_notified(0, model, &o, m);
        if (i % 2) remove(o, i % N);
        else {
            auto from = elogn;
            o.clear_observers();
            expect_disconnected(from, model, &o);
            model.n = 0;
        }
    }
    elogn = 0;
    sx_cover("aged");
}

extern "C" void
sx_main()
{
    for (int i = 0; i < N; i++) subs[i].id = i;
    struct placed : elsewhere, observable_t {};    // the observable is not the first part of its object
    std::optional<placed> box;
    box.emplace();
    observable_t& o = *box;
    if (AGE) age(o);
    if (PREFILL) {
        auto pre = sx_choice(PREFILL + 1, "observers subscribed at first");
        for (unsigned i = 0; i < pre; i++) add(o, static_cast<int>(i));
    }
    for (int i = 0; i < FILL; i++) add(o, i);
    for (int k = 0; k < OPS; k++) {
        auto op = sx_choice(2 * PICKS + 1 + CLEAR, "operation");
        auto from = elogn;
        if (op < PICKS) add(o, pick(op));
        else if (op < 2 * PICKS) remove(o, pick(op - PICKS));
        else if (op == 2 * PICKS) {
            notify(o);
            continue;
        } else {
            o.clear_observers();
            expect_disconnected(from, model, &o);
            if (model.n) sx_cover("cleared subscribers");
            model.n = 0;
            continue;
        }
        SX_ASSERT(elogn == from, "adding and removing call nobody");
    }
    notify(o);
    auto from = elogn;
    box.reset();
    expect_disconnected(from, model, &o);
    if (model.n) sx_cover("destroyed with subscribers");
}
