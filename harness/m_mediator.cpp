// M01, M03: routing of messages between modules, over every history of joins, leaves and sends.
// CAP: capacity of the manager, SLOTS: module objects the history may create, OPS: calls, REPLY: receivers answer
#include "sx.h"
#include <cstdint>
#include <optional>
#include <tuple>
#include <xitren/comm/mediator.hpp>
#ifndef CAP
#define CAP 3
#endif
#ifndef SLOTS
#define SLOTS 4
#endif
#ifndef OPS
#define OPS 4
#endif
#ifndef REPLY
#define REPLY 0
#endif
#ifndef FIXEDSET
#define FIXEDSET 0    // 1: register a chosen set in a chosen order first, then only send
#endif
#ifndef SCALE
#define SCALE 0    // 1: a full manager of CAP modules, then OPS of them leave and others join
#endif
#ifndef HITS
#define HITS 64
#endif
using namespace xitren::comm;

struct m1 { std::uint32_t a; std::uint16_t b; bool operator==(m1 const&) const = default; };
struct m2 { std::uint8_t a; bool operator==(m2 const&) const = default; };
struct m3 { std::uint64_t a; std::int8_t b; bool operator==(m3 const&) const = default; };
struct m4 { std::uint16_t x; bool operator==(m4 const&) const = default; };
struct m5 { std::uint8_t x; };    // received by nobody, as long as m2

struct hit { int who; int type; m1 x1; m2 x2; m3 x3; m4 x4; };
static hit      hits[HITS];
static unsigned nhits;
static unsigned hooks;
static std::size_t hook_size;

static void put(int who, m1 const& m) { SX_ASSERT(nhits < HITS, "no endless stream of messages"); hits[nhits++] = {who, 1, m, {}, {}, {}}; }
static void put(int who, m2 const& m) { SX_ASSERT(nhits < HITS, "no endless stream of messages"); hits[nhits++] = {who, 2, {}, m, {}, {}}; }
static void put(int who, m3 const& m) { SX_ASSERT(nhits < HITS, "no endless stream of messages"); hits[nhits++] = {who, 3, {}, {}, m, {}}; }
static void put(int who, m4 const& m) { SX_ASSERT(nhits < HITS, "no endless stream of messages"); hits[nhits++] = {who, 4, {}, {}, {}, m}; }

struct mgr : manager<CAP> {
    void
    data(std::size_t, std::uint8_t*, std::size_t sz) override
    {
        hooks++;
        hook_size = sz;
    }
};

// kinds of modules: what they send, what they receive
struct s1r2 : module<m1, m2> {
    int id;
    s1r2(base::manager& m, int i) : module(m), id(i) {}
    void data(m2 const& d) override { put(id, d); }
};
struct s1r23 : module<m1, m2, m3> {
    int id;
    s1r23(base::manager& m, int i) : module(m), id(i) {}
    void data(m2 const& d) override { put(id, d); }
    void data(m3 const& d) override { put(id, d); }
};
struct s2r13 : module<m2, m1, m3> {
    int id;
    s2r13(base::manager& m, int i) : module(m), id(i) {}
    void data(m1 const& d) override
    {
        put(id, d);
#if REPLY
        if (nhits < 8) send(m2{static_cast<std::uint8_t>(d.a)});    // answers while the message is being distributed
#endif
    }
    void data(m3 const& d) override { put(id, d); }
};
struct s3 : module<m3> {
    int id;
    s3(base::manager& m, int i) : module(m), id(i) {}
};
struct s3r12 : module<m3, m1, m2> {
    int id;
    s3r12(base::manager& m, int i) : module(m), id(i) {}
    void data(m1 const& d) override { put(id, d); }
    void data(m2 const& d) override { put(id, d); }
};
struct s1r1 : module<m1, m1, m2> {    // receives the type it sends: never gets it
    int id;
    s1r1(base::manager& m, int i) : module(m), id(i) {}
    void data(m1 const& d) override { put(id, d); }
    void data(m2 const& d) override { put(id, d); }
};
struct s4r123 : module<m4, m1, m2, m3> {
    int id;
    s4r123(base::manager& m, int i) : module(m), id(i) {}
    void data(m1 const& d) override { put(id, d); }
    void data(m2 const& d) override { put(id, d); }
    void data(m3 const& d) override { put(id, d); }
};
struct s5r4321 : module<m5, m4, m3, m2, m1> {
    int id;
    s5r4321(base::manager& m, int i) : module(m), id(i) {}
    void data(m1 const& d) override { put(id, d); }
    void data(m2 const& d) override { put(id, d); }
    void data(m3 const& d) override { put(id, d); }
    void data(m4 const& d) override { put(id, d); }
};
#ifndef AGE
#define AGE 0    // so many joins, messages and leaves at first
#endif
static bool const gets[8][5]  = {{false, true}, {false, true, true}, {true, false, true}, {}, {true, true}, {false, true}, {true, true, true}, {true, true, true, true}};
static int const  sends[8]    = {1, 1, 2, 3, 3, 1, 4, 5};
#ifndef KINDS
#define KINDS 8
#endif

struct slot {
    int                  kind = -1;
    std::optional<s1r2>  a;
    std::optional<s1r23> b;
    std::optional<s2r13> c;
    std::optional<s3>    d;
    std::optional<s3r12> e;
    std::optional<s1r1>  f;
    std::optional<s4r123>  g;
    std::optional<s5r4321> h;
};
static slot slots[SLOTS];
static int  order[SLOTS + 1], n;    // registered modules, in registration order

static void
make(mgr& m, int i, int kind)
{
    switch (kind) {
    case 0: slots[i].a.emplace(m, i); break;
    case 1: slots[i].b.emplace(m, i); break;
    case 2: slots[i].c.emplace(m, i); break;
    case 3: slots[i].d.emplace(m, i); break;
    case 4: slots[i].e.emplace(m, i); break;
    case 5: slots[i].f.emplace(m, i); break;
    case 6: slots[i].g.emplace(m, i); break;
    default: slots[i].h.emplace(m, i); break;
    }
}
static void
drop(int i)
{
    slots[i].a.reset(); slots[i].b.reset(); slots[i].c.reset(); slots[i].d.reset(); slots[i].e.reset(); slots[i].f.reset(); slots[i].g.reset(); slots[i].h.reset();
}
static m1 any1() { return {sx_sym<std::uint32_t>("m1 a"), sx_sym<std::uint16_t>("m1 b")}; }
static m2 any2() { return {sx_sym<std::uint8_t>("m2 a")}; }
static m3 any3() { return {sx_sym<std::uint64_t>("m3 a"), sx_sym<std::int8_t>("m3 b")}; }

static unsigned at;
static void
expect(int type, m1 const& x1, m2 const& x2, m3 const& x3, m4 const& x4)
{
    for (int k = 0; k < n; k++) {
        int i = order[k];
        if (!gets[slots[i].kind][type - 1]) continue;
        SX_ASSERT(at < nhits, "every receiver of the type gets the message");
        auto const h = hits[at++];
        SX_ASSERT(h.who == i && h.type == type, "receivers get the message in registration order, and nobody else gets it");
        SX_ASSERT(type != 1 || h.x1 == x1, "the message arrives unchanged");
        SX_ASSERT(type != 2 || h.x2 == x2, "the message arrives unchanged");
        SX_ASSERT(type != 3 || h.x3 == x3, "the message arrives unchanged");
        SX_ASSERT(type != 4 || h.x4 == x4, "the message arrives unchanged");
#if REPLY
        if (type == 1 && slots[i].kind == 2 && at < 8) {
            sx_cover("a receiver answered");
            expect(2, {}, m2{static_cast<std::uint8_t>(x1.a)}, {}, {});
        }
#endif
    }
}
// sender: a slot, or -1 for the manager itself
static void
send(mgr& m, int sender, int type)
{
    at = nhits = 0;
    auto hooked = hooks;
    m1   x1 = any1();
    m2   x2 = any2();
    m3   x3 = any3();
    m4   x4{sx_sym<std::uint16_t>("m4")};
    if (sender < 0) {
        switch (type) {
        case 1: m.send(x1); break;
        case 2: m.send(x2); break;
        case 3: m.send(x3); break;
        default: m.send(x4); break;
        }
    } else {
        auto& s = slots[sender];
        switch (s.kind) {
        case 0: s.a->send(x1); break;
        case 1: s.b->send(x1); break;
        case 2: s.c->send(x2); break;
        case 3: s.d->send(x3); break;
        case 4: s.e->send(x3); break;
        case 5: s.f->send(x1); break;
        case 6: s.g->send(x4); break;
        default: s.h->send(m5{x2.a}); break;
        }
        SX_ASSERT(hooks >= hooked + 1, "the manager's hook sees the message");
    }
    if (type <= 4) expect(type, x1, x2, x3, x4);
    SX_ASSERT(at == nhits, "no other module gets a message");
    if (at) sx_cover("delivered");
    else sx_cover("nobody to deliver to");
}

static void
join(mgr& m, int i, int kind)
{
    bool threw = false;
    try {
        make(m, i, kind);
    } catch (std::exception const&) {
        threw = true;
    }
    SX_ASSERT(threw == (n == CAP), "joining throws exactly at full capacity");
    if (threw) {
        sx_cover("no room");
        return;
    }
    slots[i].kind = kind;
    order[n++]    = i;
}
static void
leave(int i)
{
    drop(i);
    slots[i].kind = -1;
    int k = 0;
    while (order[k] != i) k++;
    for (; k + 1 < n; k++) order[k] = order[k + 1];
    n--;
}

extern "C" void
sx_main()
{
    mgr m;
#if AGE
    for (int i = 0; i < AGE; i++) {
        join(m, 0, i % KINDS);
        at = nhits = 0;
        m1 const x{static_cast<std::uint32_t>(i), 9};
        m2 const y{static_cast<std::uint8_t>(i)};
        m.send(x);
        expect(1, x, {}, {}, {});
        m.send(y);
        expect(2, {}, y, {}, {});
        SX_ASSERT(at == nhits, "no other module gets a message");
        leave(0);
    }
    sx_cover("aged");
#endif
#if SCALE
    for (int i = 0; i < CAP; i++) join(m, i, i % KINDS);
    join(m, CAP, 2);
    for (int type = 1; type <= 4; type++) send(m, -1, type);
    for (int k = 0; k < OPS; k++) {
        int const at[] = {0, 1, CAP / 2, CAP - 2, CAP - 1};
        auto const op = at[sx_choice(5, "who leaves or joins")];
        if (slots[op].kind < 0) join(m, op, k % KINDS);
        else leave(op);
        send(m, -1, 1);
        send(m, CAP / 3, sends[slots[CAP / 3].kind]);
    }
    join(m, CAP, 1);
    send(m, -1, 2);
    if (slots[CAP].kind >= 0) send(m, CAP, 1);
#elif FIXEDSET
    unsigned c = sx_choice(CAP + 1, "modules");
    for (unsigned i = 0; i < c; i++) join(m, static_cast<int>(i), static_cast<int>(sx_choice(KINDS, "kind")));
    for (int k = 0; k < OPS; k++) {
        auto s = sx_choice(4 + c, "sender");
        if (s < 4) send(m, -1, static_cast<int>(s) + 1);
        else send(m, static_cast<int>(s) - 4, sends[slots[s - 4].kind]);
    }
#else
    // three fixed kinds per slot keep the choice small: a history of joins, leaves and sends
    static int const kinds[5] = {2, 7, 1, 0, 6};
    for (int k = 0; k < OPS; k++) {
        auto op = sx_choice(SLOTS, "slot");
        if (slots[op].kind < 0) join(m, static_cast<int>(op), kinds[op % 5]);
        else {
            if (n > 1 && order[n - 1] != static_cast<int>(op)) sx_cover("one that is not the last leaves");
            leave(static_cast<int>(op));
        }
        send(m, -1, 1);
        send(m, -1, 2);
    }
    send(m, -1, 3);
    for (int i = 0; i < SLOTS; i++)
        if (slots[i].kind >= 0) send(m, i, sends[slots[i].kind]);
    while (n) {
        leave(order[sx_choice(static_cast<std::uint64_t>(n), "who leaves")]);
        send(m, -1, 2);
    }
#endif
    while (n) leave(order[0]);
}
