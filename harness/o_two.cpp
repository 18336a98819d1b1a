// O01, O02, O05: observables of one type used side by side, sharing their observers: nothing done to one is seen through
// the other. DYN: observable_dynamic; NEST: a callback of one notifies the other.
#include "obs_model.h"
using namespace xitren::comm;
#ifndef OPS
#define OPS 4
#endif
#ifndef DYN
#define DYN 0
#endif
#ifndef OBSERVABLES
#define OBSERVABLES 2
#endif
constexpr unsigned CAP = 2, SUBS = 3;
#if DYN
using obs_t = observable_dynamic<message>;
constexpr unsigned ROOM = SUBS;
#else
using obs_t = observable_static<message, CAP>;
constexpr unsigned ROOM = CAP;
#endif

template <class F>
static int
outcome(F f)
{
#if DYN
    try {
        f();
        return static_cast<int>(observer_errors::ok);
    } catch (obs_t::exception const& e) {
        return static_cast<int>(e.error);
    }
#else
    return static_cast<int>(f());
#endif
}

static obs_t*            all[OBSERVABLES];
static sub_model<SUBS>   model[OBSERVABLES];
static subscriber        subs[SUBS];

static void
notify(unsigned w)
{
    auto const from = elogn;
    auto const m    = any_message();
    SX_ASSERT(outcome([&] { return all[w]->notify_observers(m); }) == static_cast<int>(observer_errors::ok), "a notification is accepted");
    expect_notified(from, model[w], all[w], m);
}
static void
gone(unsigned w, unsigned from)
{
    expect_disconnected(from, model[w], all[w]);
    model[w].n = 0;
}

extern "C" void
sx_main()
{
    for (unsigned i = 0; i < SUBS; i++) subs[i].id = static_cast<int>(i);
    for (auto& o : all) o = new obs_t;
    for (unsigned k = 0; k < OPS; k++) {
        auto const w    = sx_choice(OBSERVABLES, "observable");
        auto const op   = sx_choice(2 * SUBS + 2, "operation");
        auto const from = elogn;
        if (op < SUBS) {
            bool const full = model[w].n >= ROOM, has = model[w].find(static_cast<int>(op)) >= 0;
            auto const r    = outcome([&] { return all[w]->add_observer(subs[op]); });
            SX_OF(SETS, (r == static_cast<int>(observer_errors::ok)) == (!full && !has), "a subscription succeeds unless this observable is full or has it");
            if (r == 0) model[w].add(static_cast<int>(op));
        } else if (op < 2 * SUBS) {
            int const  at = model[w].find(static_cast<int>(op - SUBS));
            auto const r  = outcome([&] { return all[w]->remove_observer(subs[op - SUBS]); });
            SX_OF(SETS, (r == static_cast<int>(observer_errors::ok)) == (at >= 0), "only a subscriber of this observable can be removed");
            if (at >= 0) model[w].remove(at);
        } else if (op == 2 * SUBS) {
            all[w]->clear_observers();
            gone(w, from);
            sx_cover("cleared");
        } else {
            delete all[w];
            gone(w, from);
            all[w] = new obs_t;
            sx_cover("destroyed");
        }
        if (op < 2 * SUBS) SX_ASSERT(elogn == from, "subscribing calls nobody");
        for (unsigned o = 0; o < OBSERVABLES; o++) notify(o);
    }
    for (unsigned o = 0; o < OBSERVABLES; o++) {
        auto const from = elogn;
        delete all[o];
        gone(o, from);
    }
    sx_cover("done");
}
