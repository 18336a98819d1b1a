// O03: observers that notify again from inside their callback (the same observable, or another one and through it the
// first), for every number of subscribers and every choice of what each callback does.
#include "sx.h"
#include <cstdint>
#include <xitren/comm/observer.hpp>
using namespace xitren::comm;
#ifndef N
#define N 3
#endif
#ifndef ROUNDS
#define ROUNDS 2
#endif

using obs_t = observable_static<std::uint64_t, N>;
#ifndef AGE
#define AGE 0    // so many notifications with refused ones inside at first
#endif
#ifndef STORM
#define STORM 2    // while aging: so many refused notifications in one callback
#endif
static bool     aging;
static obs_t    a, b;
static unsigned got_a[N], got_b, depth_a;
static std::uint64_t sent, sent_b;

static void
again(obs_t& o)
{
    auto r = o.notify_observers(aging ? 1 : sx_sym<std::uint64_t>("inner data"));
    SX_ASSERT(r == observer_errors::notify_recursion_detected, "a notification from inside a callback is refused");
    sx_cover("refused");
}

struct in_a : observer<std::uint64_t> {
    int id = 0;

protected:
    void
    data(void const* src, std::uint64_t const& v) override
    {
        SX_ASSERT(src == &a, "the observable is the source");
        SX_ASSERT(v == sent, "only the outer notification is delivered");
        SX_ASSERT(depth_a == 0, "no nested delivery");
        depth_a++;
        got_a[id]++;
        auto what = aging ? 2 : sx_choice(4, "callback action");
        if (what == 1 || what == 2)
            for (unsigned i = 0; i < (aging ? STORM : what); i++) again(a);
        if (what == 3) {
            auto before = got_b;
            sent_b      = sx_sym<std::uint64_t>("other data");
            SX_ASSERT(b.notify_observers(sent_b) == observer_errors::ok, "notifying another observable is no recursion");
            SX_ASSERT(got_b == before + 1, "the other observable's subscriber is notified once");
            sx_cover("other observable");
        }
        depth_a--;
    }
};
struct in_b : observer<std::uint64_t> {
protected:
    void
    data(void const* src, std::uint64_t const& v) override
    {
        SX_ASSERT(src == &b && v == sent_b, "the other observable's data arrives");
        got_b++;
        again(a);
        again(b);
    }
};
static in_a subs[N];
static in_b sub_b;

extern "C" void
sx_main()
{
    auto n = sx_choice(N + 1, "subscribers");
    for (unsigned i = 0; i < n; i++) {
        subs[i].id = static_cast<int>(i);
        a.add_observer(subs[i]);
    }
    b.add_observer(sub_b);
#if AGE
    aging = true;
    for (unsigned r = 0; r < AGE; r++) {
        sent = r;
        SX_ASSERT(a.notify_observers(sent) == observer_errors::ok, "the outer notification answers ok");
        for (unsigned i = 0; i < n; i++) SX_ASSERT(got_a[i] == r + 1, "every subscriber is notified exactly once per outer notification");
    }
    for (auto& g : got_a) g = 0;
    aging = false;
    sx_cover("aged");
#endif
    for (unsigned r = 0; r < ROUNDS; r++) {
        sent = sx_sym<std::uint64_t>("data");
        SX_ASSERT(a.notify_observers(sent) == observer_errors::ok, "the outer notification answers ok");
        for (unsigned i = 0; i < N; i++) SX_ASSERT(got_a[i] == (i < n ? r + 1 : 0), "every subscriber is notified exactly once per outer notification");
    }
    sent = sent_b = sx_sym<std::uint64_t>("last");
    struct quiet : observer<std::uint64_t> {
        unsigned n = 0;
        void data(void const*, std::uint64_t const& v) override { n += v == sent; }
    } q;
    a.clear_observers();
    a.add_observer(q);
    SX_ASSERT(a.notify_observers(sent) == observer_errors::ok && q.n == 1, "later notifications work normally");
    a.remove_observer(q);
    b.remove_observer(sub_b);
}
