// K01-K04: packets and accessors used side by side: what is stored in one is not seen through another, and an accessor
// can be copied, assigned and reused for messages of other types.
#include "sx.h"
#include <cstring>
#include <xitren/func/packet.hpp>
using namespace xitren::func;
enum : unsigned { K1 = 2, K2 = 4, K3 = 8, K4 = 16 };
#ifndef OPS
#define OPS 3
#endif

struct sum16 {
    using value_type = lsb_t<std::uint16_t>;
    static constexpr std::uint16_t step(std::uint16_t s, std::uint8_t b) { return std::uint16_t(((s << 3) | (s >> 13)) ^ b); }
    template <class It>
    static constexpr value_type calculate(It b, It e)
    {
        std::uint16_t s = 0x1234;
        for (; b != e; ++b) s = step(s, *b);
        return value_type(s);
    }
};
struct __attribute__((__packed__)) head { std::uint16_t magic; std::uint8_t kind; };
struct __attribute__((__packed__)) body { std::uint32_t v; };
struct __attribute__((__packed__)) small { std::uint8_t v; };
constexpr std::size_t MAXB = 20, W = 2;
using accessor = packet_accessor<MAXB>;

template <class T>
static T
any(char const* name)
{
    T t;
    for (std::size_t i = 0; i < sizeof t; i++) reinterpret_cast<std::uint8_t*>(&t)[i] = sx_sym<std::uint8_t>(name);
    return t;
}
template <class T> static bool same(T const& a, T const& b) { return std::memcmp(&a, &b, sizeof a) == 0; }

struct stored {
    int           kind = 0;    // 0 nothing, 1 body with bytes, 2 small with words
    head          h{};
    body          b{};
    small         s{};
    std::uint8_t  bytes[3]{};
    std::uint16_t words[3]{};
    unsigned      n = 0;
};
static accessor acc[W];
static stored   model[W];

static void
store(unsigned w)
{
    stored m;
    m.kind = 1 + static_cast<int>(sx_choice(2, "type"));
    m.h    = any<head>("header");
    m.n    = static_cast<unsigned>(sx_choice(4, "count"));
    bool ok;
    if (m.kind == 1) {
        m.b = any<body>("body");
        for (unsigned i = 0; i < m.n; i++) m.bytes[i] = sx_sym<std::uint8_t>("byte");
        ok = acc[w].serialize<head, body, std::uint8_t, sum16>({m.h, m.b, m.n, m.bytes});
    } else {
        m.s = any<small>("small");
        for (unsigned i = 0; i < m.n; i++) m.words[i] = sx_sym<std::uint16_t>("word");
        ok = acc[w].serialize<head, small, std::uint16_t, sum16>({m.h, m.s, m.n, m.words});
    }
    SX_OF(K3, ok, "a message that fits is stored");
    model[w] = m;
}
static void
refused(unsigned w)
{
    std::uint8_t none[1]{};
    bool const   ok = acc[w].serialize<head, body, std::uint8_t, sum16>({any<head>("header"), any<body>("body"), MAXB - 8 + sx_bits(8, "too many"), none});
    SX_OF(K4, !ok, "a message that does not fit is refused");
    sx_cover("refused");
}
template <class R>
static void
fits(R const& r, stored const& m, accessor const& a)
{
    SX_OF(K3, r.valid, "a stored message is valid");
    SX_OF(K3, r.size == m.n, "the number of elements is the stored one");
    SX_OF(K3, same(static_cast<head>(r.header), m.h), "the header is the stored one");
    auto const* p = reinterpret_cast<std::uint8_t const*>(r.data);
    SX_OF(K4, p >= a.storage().data() && p + m.n <= a.storage().data() + MAXB, "the elements lie in the accessor's own storage");
}
static void
check(unsigned w)
{
    accessor const& a = acc[w];
    stored const&   m = model[w];
    if (m.kind == 1) {
        auto const r = a.deserialize<head, body, std::uint8_t, sum16>();
        fits(r, m, a);
        SX_OF(K3, same(static_cast<body>(r.fields), m.b), "the fields are the stored ones");
        for (unsigned i = 0; i < m.n; i++) SX_OF(K3, r.data[i] == m.bytes[i], "the elements are the stored ones");
        SX_OF(K3 | K4, a.size() == 3 + 4 + 2 + m.n, "the declared size is the message's");
    } else if (m.kind == 2) {
        auto const r = a.deserialize<head, small, std::uint16_t, sum16>();
        fits(r, m, a);
        SX_OF(K3, same(static_cast<small>(r.fields), m.s), "the fields are the stored ones");
        for (unsigned i = 0; i < m.n; i++) {
            std::uint16_t x;
            std::memcpy(&x, reinterpret_cast<std::uint8_t const*>(r.data) + 2 * i, 2);
            SX_OF(K3, x == m.words[i], "the elements are the stored ones");
        }
        SX_OF(K3 | K4, a.size() == 3 + 1 + 2 + 2 * m.n, "the declared size is the message's");
    } else
        SX_OF(K4, !(a.deserialize<head, body, std::uint8_t, sum16>().valid), "an empty accessor holds no message");
}

extern "C" void
sx_main()
{
    {    // packets
        using packet_t = packet<head, body, sum16>;
        head const h[W]{any<head>("header"), any<head>("header")};
        body const b[W]{any<body>("body"), any<body>("body")};
        packet_t   p[W]{packet_t{h[0], b[0]}, packet_t{h[1], b[1]}};
        auto const bytes0 = packet_t::serialize(h[0], b[0]);
        auto const bytes1 = packet_t::serialize(h[1], b[1]);
        SX_OF(K1, p[0].to_array() == bytes0 && p[1].to_array() == bytes1, "each packet has its own bytes");
        auto const [ok0, h0, b0] = packet_t::deserialize(bytes0);
        auto const [ok1, h1, b1] = packet_t::deserialize(bytes1);
        SX_OF(K1, ok0 && same(h0, h[0]) && same(b0, b[0]), "each packet is read back as it was");
        SX_OF(K1, ok1 && same(h1, h[1]) && same(b1, b[1]), "each packet is read back as it was");
        packet_t   copy   = p[0];
        auto const change = sx_sym<std::uint32_t>("change");
        copy.fields().v = change;
        SX_OF(K1 | K2, p[0].valid() && p[1].valid() && p[0].to_array() == bytes0, "changing a copy leaves the original alone");
        SX_OF(K1, copy.to_array()[0] == bytes0[0] && copy.crc().get() == p[0].crc().get(), "a copy has the same header and checksum");
        p[1] = p[0];
        SX_OF(K1 | K2, p[1].valid() && p[1].to_array() == bytes0, "assigning copies the whole packet");
    }
    for (int k = 0; k < OPS; k++) {
        auto const w = sx_choice(W, "accessor");
        switch (sx_choice(4, "operation")) {
        case 0: store(w); break;
        case 1: refused(w); break;
        case 2:
            acc[w]   = acc[1 - w];
            model[w] = model[1 - w];
            sx_cover("assigned");
            break;
        case 3: {
            accessor copy{acc[w]};
            acc[1 - w]   = copy;
            model[1 - w] = model[w];
            sx_cover("copied");
            break;
        }
        }
        for (unsigned i = 0; i < W; i++) check(i);
    }
    sx_cover("done");
}
