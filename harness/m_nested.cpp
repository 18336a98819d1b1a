// M01, M02: receivers that send again from inside their callback, over every choice of what each of them sends.
#include "sx.h"
#include <array>
#include <cstdint>
#include <xitren/comm/mediator.hpp>
using namespace xitren::comm;
#ifndef DEPTH
#define DEPTH 2    // callbacks inside callbacks that may send
#endif
#ifndef SENDS
#define SENDS 3    // messages sent from inside callbacks altogether
#endif

struct ping { std::uint8_t id; std::uint32_t v; std::array<std::uint16_t, 3> w; };
struct pong { std::uint8_t id; std::uint64_t v; };
static bool same(ping const& a, ping const& b) { return a.id == b.id && a.v == b.v && a.w == b.w; }
static bool same(pong const& a, pong const& b) { return a.id == b.id && a.v == b.v; }

constexpr unsigned MODULES = 4, TOTAL = 1 + SENDS;
static unsigned    sent, depth;
static ping        pings[TOTAL];
static pong        pongs[TOTAL];
static bool        is_ping[TOTAL];
static unsigned    got[TOTAL][MODULES], last[TOTAL];    // deliveries; position of the last one + 1

using mgr_t = manager<MODULES>;
static mgr_t* mgr;

static ping
new_ping()
{
    ping const p{static_cast<std::uint8_t>(sent), sx_sym<std::uint32_t>("v"), {sx_sym<std::uint16_t>("w0"), 7, sx_sym<std::uint16_t>("w2")}};
    is_ping[sent]  = true;
    pings[sent++]  = p;
    return p;
}
static pong
new_pong()
{
    pong const p{static_cast<std::uint8_t>(sent), sx_sym<std::uint64_t>("v")};
    pongs[sent++] = p;
    return p;
}

template <class M, class F>
static void
arrived(M const& m, unsigned pos, M const* all, F reply)
{
    constexpr bool want_ping = std::is_same_v<M, ping>;
    SX_ASSERT(m.id < sent && is_ping[m.id] == want_ping, "a message that was sent arrives");
    auto const id = m.id;
    SX_ASSERT(same(m, all[id]), "it arrives unchanged");
    SX_ASSERT(++got[id][pos] == 1, "it arrives once");
    SX_ASSERT(last[id] <= pos, "it arrives in registration order");
    last[id] = pos + 1;
    if (depth < DEPTH && sent < TOTAL) {
        depth++;
        switch (sx_choice(3, "reply")) {
        case 1: reply(); sx_cover("a module sends from inside its callback"); break;
        case 2:
            if (sx_choice(2, "which")) mgr->send(new_ping());
            else mgr->send(new_pong());
            sx_cover("the manager sends from inside a callback");
            break;
        }
        depth--;
        SX_ASSERT(same(m, all[id]), "the message stays unchanged while its callback runs");
    }
}
// receives ping, sends pong
struct ponger : module<pong, ping> {
    unsigned pos;
    ponger(base::manager& m, unsigned p) : module<pong, ping>(m), pos(p) {}
    using module<pong, ping>::send;
    void data(ping const& m) override { arrived(m, pos, pings, [&] { send(new_pong()); }); }
};
struct pinger : module<ping, pong> {
    unsigned pos;
    pinger(base::manager& m, unsigned p) : module<ping, pong>(m), pos(p) {}
    using module<ping, pong>::send;
    void data(pong const& m) override { arrived(m, pos, pongs, [&] { send(new_ping()); }); }
};
struct both : module<std::uint8_t, pong, ping> {
    unsigned pos;
    both(base::manager& m, unsigned p) : module<std::uint8_t, pong, ping>(m), pos(p) {}
    using module<std::uint8_t, pong, ping>::send;
    void data(ping const& m) override { arrived(m, pos, pings, [&] { send(1); }); }
    void data(pong const& m) override { arrived(m, pos, pongs, [&] { send(2); }); }
};

extern "C" void
sx_main()
{
    mgr_t g;
    mgr = &g;
    ponger a(g, 0);
    both   b(g, 1);
    pinger c(g, 2);
    ponger d(g, 3);
    if (sx_choice(2, "first")) c.send(new_ping());
    else a.send(new_pong());
    for (unsigned i = 0; i < sent; i++) {
        unsigned const want[2][MODULES] = {{0, 1, 1, 0}, {1, 1, 0, 1}};
        for (unsigned k = 0; k < MODULES; k++) SX_ASSERT(got[i][k] == want[is_ping[i]][k], "every receiver of its type gets it, and nobody else");
    }
    if (sent == TOTAL) sx_cover("all sent");
}
