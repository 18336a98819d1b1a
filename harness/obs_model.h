// Observers that log what they are told, and the reference model of a subscription list.
#pragma once
#include "sx.h"
#include <cstdint>
#include <xitren/comm/observer.hpp>

struct message {
    std::uint8_t  a;
    std::uint32_t b;
    std::uint64_t c;
    bool operator==(message const&) const = default;
};
static message
any_message()
{
    message m;
    m.a = sx_sym<std::uint8_t>("message a");
    m.b = sx_sym<std::uint32_t>("message b");
    m.c = sx_sym<std::uint64_t>("message c");
    return m;
}
struct event {
    int         who;
    bool        disconnect;
    void const* src;
    message     data;
};
enum { SETS = 1 << 1 | 1 << 4, CALLS = 1 << 2 };    // O01 and O04, O02
#ifndef LOGSIZE
#define LOGSIZE 512
#endif
static event    elog[LOGSIZE];
static unsigned elogn;
static void
record(int who, bool disconnect, void const* src, message const& m)
{
    SX_ASSERT(elogn < LOGSIZE, "no endless stream of callbacks");
    elog[elogn++] = {who, disconnect, src, m};
}

struct elsewhere {    // a base class that stands before the one under test
    virtual ~elsewhere() = default;
    std::uint64_t used = 7;
};
struct subscriber : elsewhere, xitren::comm::observer<message> {
    int id = 0;
    void disconnect(void const* src) override { record(id, true, src, message{}); }

protected:
    void data(void const* src, message const& m) override { record(id, false, src, m); }
};

template <unsigned K>
struct sub_model {    // the observers subscribed, in order
    int      list[K + 1]{};
    unsigned n = 0;
    int
    find(int id) const
    {
        for (unsigned i = 0; i < n; i++)
            if (list[i] == id) return static_cast<int>(i);
        return -1;
    }
    void add(int id) { list[n++] = id; }
    void
    remove(int at)
    {
        for (unsigned i = static_cast<unsigned>(at); i + 1 < n; i++) list[i] = list[i + 1];
        n--;
    }
};

// the log since `from` holds one notification per subscriber, in order, from `src` with data `m`
template <class M>
static void
expect_notified(unsigned from, M const& model, void const* src, message const& m)
{
    SX_ASSERT(elogn - from == model.n, "each notification reaches every subscriber exactly once and nobody else");
    for (unsigned i = 0; i < model.n; i++) {
        auto& e = elog[from + i];
        SX_ASSERT(!e.disconnect, "a notification disconnects nobody");
        SX_ASSERT(e.who == model.list[i], "subscribers are notified in subscription order");
        SX_OF(CALLS | 1 << 3, e.src == src, "the observable is the source");
        SX_ASSERT(e.data == m, "the data arrives unchanged");
    }
}
// the log since `from` holds one disconnect per subscriber
template <class M>
static void
expect_disconnected(unsigned from, M const& model, void const* src)
{
    SX_OF(1 << 5, elogn - from == model.n, "every subscriber is disconnected exactly once and nobody else");
    for (unsigned j = from; j < elogn; j++) SX_OF(1 << 5, elog[j].disconnect && elog[j].src == src, "disconnect names the observable as its source");
    for (unsigned i = 0; i < model.n; i++) {
        unsigned hits = 0;
        for (unsigned j = from; j < elogn; j++) hits += elog[j].who == model.list[i];
        SX_OF(1 << 5, hits == 1, "every subscriber is disconnected exactly once and nobody else");
    }
}
