// M01, M03: two managers side by side, with modules of the same types: joins, leaves and messages of one do not reach the other.
#include "sx.h"
#include <cstdint>
#include <memory>
#include <xitren/comm/mediator.hpp>
using namespace xitren::comm;
#ifndef OPS
#define OPS 4
#endif
struct ask { std::uint32_t v; std::uint8_t w; };
struct answer { std::uint16_t v; };
constexpr unsigned W = 2, CAP = 2, SLOTS = 2;

struct mgr : manager<CAP> {
    unsigned hooks = 0;
    void data(std::size_t, std::uint8_t*, std::size_t) override { hooks++; }
};
struct hit { unsigned w, s; bool is_ask; std::uint32_t v; };
static hit      hits[16];
static unsigned nhits;
static void
put(unsigned w, unsigned s, bool is_ask, std::uint32_t v)
{
    SX_ASSERT(nhits < 16, "no endless stream of messages");
    hits[nhits++] = {w, s, is_ask, v};
}
// slot 0 of each manager asks, slot 1 answers; CAP of both fit
struct asker : module<ask, answer> {
    unsigned w;
    asker(base::manager& m, unsigned n) : module(m), w(n) {}
    void data(answer const& m) override { put(w, 0, false, m.v); }
    using module::send;
};
struct answerer : module<answer, ask> {
    unsigned w;
    answerer(base::manager& m, unsigned n) : module(m), w(n) {}
    void data(ask const& m) override { put(w, 1, true, m.v * 256u + m.w); }
    using module::send;
};

extern "C" void
sx_main()
{
    mgr                       m[W];
    std::unique_ptr<asker>    a[W];
    std::unique_ptr<answerer> b[W];
    for (unsigned k = 0; k < OPS; k++) {
        auto const w = sx_choice(W, "manager");
        unsigned   hooks = m[1 - w].hooks;
        nhits = 0;
        bool is_ask = false, to = false;
        std::uint32_t want = 0;
        switch (sx_choice(5, "operation")) {
        case 0:
            if (a[w]) a[w].reset();
            else a[w] = std::make_unique<asker>(m[w], w);
            break;
        case 1:
            if (b[w]) b[w].reset();
            else b[w] = std::make_unique<answerer>(m[w], w);
            break;
        case 2: {
            ask const x{sx_sym<std::uint32_t>("v"), sx_sym<std::uint8_t>("w")};
            want   = x.v * 256u + x.w;
            is_ask = true;
            to     = b[w] != nullptr;
            if (a[w]) a[w]->send(x);
            else m[w].send(x);
            break;
        }
        case 3: {
            answer const x{sx_sym<std::uint16_t>("v")};
            want = x.v;
            to   = a[w] != nullptr;
            if (b[w]) b[w]->send(x);
            else m[w].send(x);
            break;
        }
        case 4: {    // a third module where there is no room
            if (!a[w] || !b[w]) break;
            bool threw = false;
            try {
                asker extra{m[w], w};
            } catch (...) {
                threw = true;
            }
            SX_ASSERT(threw, "registering beyond the capacity throws");
            sx_cover("full");
            break;
        }
        }
        SX_ASSERT(nhits == (to ? 1u : 0u), "a message reaches the receivers of its own manager once and nobody else");
        if (to) {
            SX_ASSERT(hits[0].w == w && hits[0].is_ask == is_ask && hits[0].v == want, "it arrives at the module of its own manager, unchanged");
            sx_cover("delivered");
        }
        SX_ASSERT(m[1 - w].hooks == hooks, "the other manager's hook sees nothing");
    }
    sx_cover("done");
}
