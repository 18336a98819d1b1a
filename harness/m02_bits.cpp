// M02: message contents of several shapes arrive unchanged, the manager's hook sees the same bytes with their size,
// and a raw message of any size is delivered as a type only if the size is exactly right.
#include "sx.h"
#include <array>
#include <bit>
#include <cstdint>
#include <cstring>
#include <optional>
#include <xitren/comm/mediator.hpp>
using namespace xitren::comm;

struct small { std::uint8_t v; };
struct mixed { std::uint8_t a; std::uint32_t b; std::uint16_t c; std::int64_t d; };
struct arr { std::array<std::uint16_t, 5> v; };
struct __attribute__((packed)) pack { std::uint8_t a; std::uint32_t b; std::uint64_t c; std::uint16_t d; };
struct flt { double d; float f; };
struct bits { std::uint32_t a : 3; std::uint32_t b : 17; std::uint32_t c : 12; };

struct block { std::array<std::uint16_t, 150> v; };
struct huge { std::array<std::uint64_t, 8250> v; };
static bool same(block const& x, block const& y) { return x.v == y.v; }
static bool same(huge const& x, huge const& y) { return x.v == y.v; }
static bool same(std::int32_t x, std::int32_t y) { return x == y; }
static bool same(std::uint64_t x, std::uint64_t y) { return x == y; }
static bool same(small const& x, small const& y) { return x.v == y.v; }
static bool same(mixed const& x, mixed const& y) { return x.a == y.a && x.b == y.b && x.c == y.c && x.d == y.d; }
static bool same(arr const& x, arr const& y) { return x.v == y.v; }
static bool same(pack const& x, pack const& y) { return x.a == y.a && x.b == y.b && x.c == y.c && x.d == y.d; }
static bool same(flt const& x, flt const& y) { return std::bit_cast<std::uint64_t>(x.d) == std::bit_cast<std::uint64_t>(y.d) && std::bit_cast<std::uint32_t>(x.f) == std::bit_cast<std::uint32_t>(y.f); }
static bool same(bits const& x, bits const& y) { return x.a == y.a && x.b == y.b && x.c == y.c; }

static std::size_t  hook_id, hook_size;
static unsigned     hooks;
static std::uint8_t hook_bytes[66010];
struct mgr : manager<4> {
    void
    data(std::size_t id, std::uint8_t* p, std::size_t n) override
    {
        hooks++;
        hook_id   = id;
        hook_size = n;
        SX_ASSERT(n <= sizeof hook_bytes, "the hook sees the exact size");
        std::memcpy(hook_bytes, p, n);
    }
};

template <class M>
static M                got;
template <class M>
static unsigned         count_;

struct nothing { std::uint8_t z; };
template <class M>
struct rx : module<nothing, M> {
    using module<nothing, M>::module;
    using module<nothing, M>::receive;
    void
    data(M const& m) override
    {
        got<M> = m;
        count_<M>++;
    }
};
template <class M>
struct tx : module<M> {
    using module<M>::module;
    using module<M>::send;
};

template <class M>
static void
check(M const& m)
{
    {
        mgr    g;
        rx<M>  r(g);
        tx<M>  t(g);
        hooks = count_<M> = 0;
        t.send(m);
        SX_ASSERT(count_<M> == 1 && same(got<M>, m), "a message sent by a module arrives once with the same field values");
        SX_ASSERT(hooks == 1 && hook_size == sizeof(M) && hook_id == t.id_, "the hook sees the sender's message with its exact size");
        M seen;
        std::memcpy(&seen, hook_bytes, sizeof(M));
        SX_ASSERT(same(seen, m), "the hook sees the same bytes");
        SX_ASSERT(same(g.template convert_field<M>(hook_bytes, sizeof(M)), m), "the manager converts the bytes back");
        got<M>    = M{};
        count_<M> = 0;
        g.send(m);
        SX_ASSERT(count_<M> == 1 && same(got<M>, m), "a message sent through the manager arrives once with the same field values");
    }
    {
        // a raw message of any size: the buffer is exactly that large
        mgr   g;
        rx<M> r(g);
        tx<M> t(g);
        std::size_t n;
        if constexpr (sizeof(M) > 64) {    // the size itself, its neighbours and what is left of it in one and two bytes
            std::size_t const some[] = {sizeof(M), sizeof(M) - 1, sizeof(M) + 1, sizeof(M) & 0xff, sizeof(M) & 0xffff, 0};
            n = some[sx_choice(6, "raw size")];
        } else n = static_cast<std::size_t>(sx_concretize(sx_range<std::size_t>("raw size", 0, sizeof(M) + 2)));
        auto* raw = new std::uint8_t[n];
        for (std::size_t i = 0; i < n; i++) raw[i] = sizeof(M) < 1000 || i % 16384 == 3 || i + 5 > n ? sx_sym<std::uint8_t>("raw") : static_cast<std::uint8_t>(i * 7);
        hooks = count_<M> = 0;
        g.distribute(t, raw, n);
        SX_ASSERT(hooks == 1 && hook_size == n, "the hook sees the raw size");
        bool all = true;
        for (std::size_t i = 0; i < n; i++) all &= hook_bytes[i] == raw[i];
        SX_ASSERT(all, "the hook sees the raw bytes");
        SX_ASSERT(count_<M> == (n == sizeof(M)), "a raw message is delivered exactly if its size is that of the type");
        if (n == sizeof(M)) {
            M x;
            std::memcpy(&x, raw, n);
            SX_ASSERT(same(got<M>, x), "the raw bytes are delivered");
            sx_cover("a raw message of the right size");
        } else {
            bool threw = false;
            try {
                (void)g.template convert_field<M>(raw, n);
            } catch (std::exception const&) {
                threw = true;
            }
            SX_ASSERT(threw, "the manager refuses to convert a message of another size");
            sx_cover("a raw message of the wrong size");
        }
        count_<M> = 0;
        r.receive(t.id_, raw, n);
        SX_ASSERT(count_<M> == (n == sizeof(M)), "a raw message is received exactly if its size is that of the type");
        r.receive(t.id_ + 1, raw, n);
        r.receive(r.id_, raw, n);
        SX_ASSERT(count_<M> == (n == sizeof(M)), "a message of another type is not received");
        delete[] raw;
    }
}

extern "C" void
sx_main()
{
    switch (sx_choice(10, "type")) {
    case 8: check(sx_sym<std::int32_t>("v")); break;
    case 9: check(sx_sym<std::uint64_t>("v")); break;
    case 0: check(small{sx_sym<std::uint8_t>("v")}); break;
    case 1: check(mixed{sx_sym<std::uint8_t>("a"), sx_sym<std::uint32_t>("b"), sx_sym<std::uint16_t>("c"), sx_sym<std::int64_t>("d")}); break;
    case 2: {
        arr a;
        for (auto& x : a.v) x = sx_sym<std::uint16_t>("element");
        check(a);
        break;
    }
    case 3: check(pack{sx_sym<std::uint8_t>("a"), sx_sym<std::uint32_t>("b"), sx_sym<std::uint64_t>("c"), sx_sym<std::uint16_t>("d")}); break;
    case 4: check(flt{sx_sym<double>("d"), sx_sym<float>("f")}); break;
    case 6: {
        block a;
        for (auto& x : a.v) x = sx_sym<std::uint16_t>("element");
        check(a);
        break;
    }
    case 7: {
        static huge a;
        for (unsigned i = 0; i < a.v.size(); i++) a.v[i] = i % 2048 == 1 || i == a.v.size() - 1 ? sx_sym<std::uint64_t>("element") : i * 3;
        check(a);
        break;
    }
    default: {
        bits b;
        b.a = sx_sym<std::uint32_t>("a");
        b.b = sx_sym<std::uint32_t>("b");
        b.c = sx_sym<std::uint32_t>("c");
        check(b);
    }
    }
}
