// O06: compile-time observer chains of 1 to 4 observers: each is notified once, in order, with the data and the source.
#include "sx.h"
#include <cstdint>
#include <xitren/comm/observer_static.hpp>
using namespace xitren::comm;

struct payload {
    std::uint32_t a;
    std::uint64_t b;
    bool operator==(payload const&) const = default;
};
struct hit { int who; void const* src; payload data; };
static hit      hits[16];
static unsigned n;

template <int K>
struct obs : observer<payload, obs<K>> {
    int id = K;
    void
    notification_impl(observable_impl<payload> const& src, payload const& d)
    {
        SX_ASSERT(n < 16, "no endless stream of callbacks");
        hits[n++] = {id, &src, d};
    }
};
static payload any() { return {sx_sym<std::uint32_t>("a"), sx_sym<std::uint64_t>("b")}; }

template <class O>
static void
round(O& o, void const* other, std::initializer_list<int> order)
{
    for (int r = 0; r < 2; r++) {
        n      = 0;
        auto d = any();
        o.notify(d);
        SX_ASSERT(n == order.size(), "each observer is notified exactly once");
        unsigned i = 0;
        for (int w : order) {
            SX_ASSERT(hits[i].who == w, "observers are notified in construction order");
            SX_ASSERT(hits[i].data == d, "the data arrives unchanged");
            SX_ASSERT(hits[i].src == static_cast<void const*>(&o.root), "every observer gets the observable's identity as source");
            SX_ASSERT(hits[i].src != other, "two observables have different identities");
            i++;
        }
    }
}

extern "C" void
sx_main()
{
    obs<0> a;
    obs<1> b;
    obs<2> c;
    obs<0> a2;
    a2.id = 9;
    {
        observable<payload, obs<0>> one(a);
        observable<payload, obs<0>> other(a2);
        round(one, &other.root, {0});
        round(other, &one.root, {9});
        observable<payload, obs<0>, obs<1>> two(a, b);
        round(two, &one.root, {0, 1});
        observable<payload, obs<1>, obs<0>, obs<2>> three(b, a, c);
        round(three, &two.root, {1, 0, 2});
        observable<payload, obs<0>, obs<2>, obs<1>, obs<0>> four(a, c, b, a2);
        round(four, &three.root, {0, 2, 1, 9});
        round(one, &four.root, {0});
        observable<payload, obs<0>, obs<0>, obs<0>> same(a, a, a2);
        round(same, &four.root, {0, 0, 9});
    }
}
