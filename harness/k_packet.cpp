// K01-K04: packets and the packet accessor. PROP selects whose assertions count and which half runs.
#include "sx.h"
#include <cstring>
#include <memory>
#include <xitren/func/packet.hpp>
using namespace xitren::func;

#ifndef PROP
#define PROP 0
#endif
#ifndef MAX
#define MAX 12
#endif
#ifndef COUNTS
#define COUNTS 3
#endif
#ifndef BIG
#define BIG 0    // 1: storage of MAX bytes with counts and declared sizes from lists
#endif
enum : unsigned { K1 = 2, K2 = 4, K3 = 8, K4 = 16 };

static inline std::uint8_t
at(void const* p, std::size_t i)
{
    return static_cast<std::uint8_t const*>(p)[i];
}

// checksums: the result as a plain number from bytes, used by the class under test through calculate and by the oracle directly
struct sum8 {
    using value_type = std::uint8_t;
    using number     = std::uint8_t;
    [[gnu::noinline]] static constexpr number step(number s, std::uint8_t b) { return number(s * 3 + b); }
    static constexpr number start = 0x11;
    static constexpr number wire(number n) { return n; }
    template <class It>
    static constexpr value_type calculate(It b, It e)
    {
        number s = start;
        for (; b != e; ++b) s = step(s, *b);
        return value_type(s);
    }
};
struct crc16 {    // CRC-16/ANSI, the checksum of the repository's own packet test
    using value_type = lsb_t<std::uint16_t>;
    using number     = std::uint16_t;
    static constexpr number start = 0xffff;
    [[gnu::noinline]] static constexpr number step(number s, std::uint8_t b)
    {
        s = number(s ^ b);
        for (int i = 0; i < 8; i++) s = number((s >> 1) ^ (0xa001u & (0u - (s & 1u))));
        return s;
    }
    static constexpr number wire(number n) { return n; }    // least significant byte first, as on this machine
    template <class It>
    static constexpr value_type calculate(It b, It e)
    {
        number s = start;
        for (; b != e; ++b) s = step(s, *b);
        return value_type(s);
    }
};
struct mix32 {
    using value_type = msb_t<std::uint32_t>;
    using number     = std::uint32_t;
    static constexpr number start = 0x01234567;
    [[gnu::noinline]] static constexpr number step(number s, std::uint8_t b) { return ((s << 5) | (s >> 27)) ^ b; }
    static constexpr number wire(number n) { return __builtin_bswap32(n); }
    template <class It>
    static constexpr value_type calculate(It b, It e)
    {
        number s = start;
        for (; b != e; ++b) s = step(s, *b);
        return value_type(s);
    }
};
struct mix64 {
    using value_type = msb_t<std::uint64_t>;
    using number     = std::uint64_t;
    static constexpr number start = 0x0123456789abcdefull;
    [[gnu::noinline]] static constexpr number step(number s, std::uint8_t b) { return ((s << 9) | (s >> 55)) ^ b; }
    static constexpr number wire(number n) { return __builtin_bswap64(n); }
    template <class It>
    static constexpr value_type calculate(It b, It e)
    {
        number s = start;
        for (; b != e; ++b) s = step(s, *b);
        return value_type(s);
    }
};
static_assert(std::endian::native == std::endian::little);
template <class C>
static typename C::number
checksum(std::uint8_t const* p, std::size_t n)
{
    typename C::number s = C::start;
    for (std::size_t i = 0; i < n; i++) s = C::step(s, p[i]);
    return s;
}
template <class C>
static void
checksum(std::uint8_t const* p, std::size_t n, std::uint8_t* out)
{
    typename C::number const s = C::wire(checksum<C>(p, n));
    std::memcpy(out, &s, sizeof s);
}
// the checksum of n bytes stands behind them
template <class C>
static bool
good_sum(std::uint8_t const* p, std::size_t n)
{
    typename C::number s;
    std::memcpy(&s, p + n, sizeof s);
    return C::wire(s) == checksum<C>(p, n);
}

struct __attribute__((__packed__)) h1 { std::uint8_t magic; };
struct __attribute__((__packed__)) h3 { std::uint8_t id; msb_t<std::uint16_t> kind; };
struct __attribute__((__packed__)) f4 { lsb_t<std::uint16_t> a; std::uint8_t b; std::int8_t c; };
struct __attribute__((__packed__)) f9 { std::uint32_t a; std::uint8_t b[3]; std::uint16_t c; };
struct __attribute__((__packed__)) f300 { std::uint8_t b[300]; };
struct __attribute__((__packed__)) e3 { std::uint8_t a; std::uint16_t b; };
struct __attribute__((__packed__)) e2 { msb_t<std::uint16_t> v; };

// types with an alignment of their own; they have no padding inside
struct w4 { std::uint32_t v; };
struct w6 { std::uint16_t a, b, c; };
struct w8 { std::uint64_t v; };

template <class T>
static T
any(char const* name)
{
    T v;
    sx_make(&v, sizeof(T), name);
    return v;
}
template <std::size_t N>
static bool
same(void const* a, void const* b)
{
    unsigned d = 0;
    for (std::size_t i = 0; i < N; i++) d |= unsigned(at(a, i) ^ at(b, i));
    return d == 0;
}

template <class H, class F, class C>
static void
fixed()
{
    constexpr std::size_t L = sizeof(H) + sizeof(F), K = sizeof(typename C::value_type), N = L + K;
    using P = packet<H, F, C>;
    SX_OF(K1, sizeof(P) == N && P::length == N && sizeof(typename P::array_type) == N, "a packet is its parts back to back");
    if (PROP != 2) {
        H const      h = any<H>("header");
        F const      f = any<F>("fields");
        std::uint8_t want[N];
        for (std::size_t i = 0; i < L; i++) want[i] = i < sizeof(H) ? at(&h, i) : at(&f, i - sizeof(H));
        checksum<C>(want, L, want + L);
        P p{h, f};
        if constexpr (alignof(H) * alignof(F) == 1) SX_OF(K1, same<sizeof(H)>(&p.header(), &h) && same<sizeof(F)>(&p.fields(), &f), "a built packet has its header and fields");
        SX_OF(K1, same<K>(&p.crc(), want + L), "a built packet has the checksum of its header and fields");
        SX_OF(K1, p.valid(), "a built packet is valid");
        auto const bytes = p.to_array();
        SX_OF(K1, bytes.size() == N && same<N>(bytes.data(), want), "to_array gives header, fields and checksum back to back");
        auto const direct = P::serialize(h, f);
        SX_OF(K1, direct.size() == N && same<N>(direct.data(), want), "serialize of parts gives header, fields and checksum back to back");
        std::unique_ptr<std::uint8_t[]> out{new std::uint8_t[N]};
        P::serialize(p, out.get());
        SX_OF(K1, same<N>(out.get(), want), "serialize to an iterator gives the packet's bytes");
        P const& cp = p;
        if constexpr (alignof(H) * alignof(F) == 1) SX_OF(K1, same<sizeof(H)>(&cp.header(), &h) && same<sizeof(F)>(&cp.fields(), &f) && same<K>(&cp.crc(), want + L), "a const packet shows the same parts");

        // back again, by every way
        auto check = [&](P q, char const*) {
            if constexpr (alignof(H) * alignof(F) == 1) SX_OF(K1, same<sizeof(H)>(&q.header(), &h) && same<sizeof(F)>(&q.fields(), &f) && same<K>(&q.crc(), want + L), "a packet built from bytes has the same parts");
            SX_OF(K1, q.valid(), "a packet built from a packet's bytes is valid");
            SX_OF(K1, same<N>(q.to_array().data(), want), "a packet built from bytes gives the same bytes");
        };
        check(P{p.to_array()}, "array");
        check(P{static_cast<std::uint8_t const*>(out.get())}, "pointer");
        check(P{bytes.begin()}, "iterator");
        check(P::deserialize(static_cast<std::uint8_t const*>(out.get())), "deserialize");
        check(P{p}, "copy");
        std::uint8_t back[N + 1];    // bytes that do not lie one behind the other
        back[0] = 0;
        std::reverse_iterator<std::uint8_t*> const from{back + N + 1};
        P::serialize(p, from);
        bool mirrored = true;
        for (std::size_t i = 0; i < N; i++) mirrored = mirrored & (back[N - i] == want[i]);
        SX_OF(K1, mirrored, "serialize to an iterator gives the packet's bytes");
        check(P{from}, "reverse iterator");
        check(P::deserialize(from), "deserialize from a reverse iterator");
        auto const [ok, h2, f2] = P::deserialize(bytes);
        SX_OF(K1, ok && same<sizeof(H)>(&h2, &h) && same<sizeof(F)>(&f2, &f), "deserialize of the array gives the parts, valid");
        std::array<std::uint8_t, N + 3> longer = any<std::array<std::uint8_t, N + 3>>("more bytes");
        for (std::size_t i = 0; i < N; i++) longer[i] = out[i];
        auto const [ok3, h3_, f3] = P::deserialize(longer);
        SX_OF(K1, ok3 && same<sizeof(H)>(&h3_, &h) && same<sizeof(F)>(&f3, &f), "deserialize ignores what follows the packet");
        sx_cover("packet round trip");
    }
    if (PROP != 1) {
        auto const   raw = any<std::array<std::uint8_t, N>>("received");
        bool const good = good_sum<C>(raw.data(), L);
        P          p{raw.begin()};
        SX_OF(K2, p.valid() == good, "a packet is valid exactly when its checksum matches");
        if constexpr (alignof(H) * alignof(F) == 1) SX_OF(K2, same<sizeof(H)>(&p.header(), raw.data()) && same<sizeof(F)>(&p.fields(), raw.data() + sizeof(H)), "the parts are the received bytes");
        auto arr = raw;
        P    q{std::move(arr)};
        SX_OF(K2, q.valid() == good, "a packet from an array is valid exactly when its checksum matches");
        auto r = P::deserialize(raw.begin());
        SX_OF(K2, r.valid() == good, "a deserialized packet is valid exactly when its checksum matches");
        auto const [ok, h, f] = P::deserialize(raw);
        SX_OF(K2, ok == good, "deserialize reports valid exactly when the checksum matches");
        SX_OF(K2, same<sizeof(H)>(&h, raw.data()) && same<sizeof(F)>(&f, raw.data() + sizeof(H)), "deserialize gives the received parts");
        // longer input: only the first N bytes count
        auto const bigger = any<std::array<std::uint8_t, N + 2>>("received more");
        auto const [okb, hb, fb] = P::deserialize(bigger);
        SX_OF(K2, (okb == good_sum<C>(bigger.data(), L)), "what follows the packet does not count");
        // a change after the fact is noticed
        P         s{h, f};
        SX_OF(K2, s.valid(), "a built packet is valid");
        H const   h2 = any<H>("new header");
        F const   f2 = any<F>("new fields");
        if constexpr (alignof(H) * alignof(F) == 1) {
            s.header() = h2;
            s.fields() = f2;
        } else
            s = P{h2, f2};
        auto const now = s.to_array();
        SX_OF(K2, (s.valid() == good_sum<C>(now.data(), L)), "validity follows a change of the parts");
        // damage: one byte becomes another (all these checksums detect it; only tried where the solver can follow the checksum)
        if ((std::is_same_v<C, crc16> && L > 2) || BIG) return;
        auto       d   = P{h, f}.to_array();
        auto const pos = sx_choice(N, "position");
        auto const val = sx_sym<std::uint8_t>("byte");
        SX_ASSUME(val != d[pos]);
        d[pos] = val;
        SX_OF(K2, !P{d.begin()}.valid(), "a packet with one byte changed is not valid");
        SX_OF(K2, !std::get<0>(P::deserialize(d)), "deserialize reports a packet with one byte changed as not valid");
        sx_cover("damaged");
    }
}

// an element count that fits
static std::size_t
any_count(std::size_t most, char const* name)
{
#if BIG
    std::size_t const some[] = {0, most / 2, most};
    return some[sx_choice(3, name)];
#else
    return sx_choice(most + 1, name);
#endif
}

// the result of deserialize against the bytes
template <class H, class F, class T, class C, std::size_t M>
static void
received(packet_accessor<M> const& a, std::size_t size)
{
    constexpr std::size_t L = sizeof(H) + sizeof(F), K = sizeof(typename C::value_type);
    auto const            o = a.template deserialize<H, F, T, C>();
    bool const fits = size >= L + K && size <= M && (size - L - K) % sizeof(T) == 0;
    if (!fits) {
        sx_cover("declared size wrong");
        SX_OF(K3 | K4, !o.valid && o.size == 0, "a declared size that cannot be a packet's gives not valid");
        return;
    }
    sx_cover("declared size right");
    std::size_t const n = sx_concretize(size);
    std::uint8_t const* b = a.storage().data();
    SX_OF(K2 | K4, (o.valid == good_sum<C>(b, n - K)), "deserialize reports valid exactly when the checksum matches");
    SX_OF(K3 | K4, same<sizeof(H)>(&o.header, b) && same<sizeof(F)>(&o.fields, b + sizeof(H)), "deserialize gives the stored header and fields");
    SX_OF(K3 | K4, o.size == (n - L - K) / sizeof(T), "deserialize gives the element count");
    SX_OF(K4, o.size == 0 || reinterpret_cast<std::uint8_t const*>(o.data) == b + L, "the elements lie in the storage behind the fields");
    SX_OF(K4, o.size * sizeof(T) <= M - L, "the elements lie inside the storage");
}

template <class H, class F, class T, class C, std::size_t M>
static void
variable()
{
    constexpr std::size_t L = sizeof(H) + sizeof(F), K = sizeof(typename C::value_type), most = (M - L - K) / sizeof(T);
    using A  = packet_accessor<M>;
    using In = typename A::template fields_in<H, F, T>;
    if (PROP != 4 && PROP != 2) {
        // after any earlier content
        std::unique_ptr<A> a{new A};
        a->storage() = any<typename A::array_type>("earlier content");
        a->size(sx_sym<std::size_t>("earlier size"));
        H const           h = any<H>("header");
        F const           f = any<F>("fields");
        std::size_t const n = any_count(most, "count");
        std::unique_ptr<T[]> el{n ? new T[n] : nullptr};
        if (n) sx_make(el.get(), n * sizeof(T), "elements");
        bool const ok = a->template serialize<H, F, T, C>(In{h, f, n, el.get()});
        SX_OF(K3, ok, "serialize accepts what fits");
        std::size_t const whole = L + n * sizeof(T) + K;
        SX_OF(K3, a->size() == whole, "the size is the sum of the parts");
        std::uint8_t want[M];
        for (std::size_t i = 0; i < whole - K; i++)
            want[i] = i < sizeof(H) ? at(&h, i) : i < L ? at(&f, i - sizeof(H)) : at(el.get(), i - L);
        checksum<C>(want, whole - K, want + whole - K);
        unsigned d = 0;
        for (std::size_t i = 0; i < whole; i++) d |= unsigned(a->storage()[i] ^ want[i]);
        SX_OF(K3, d == 0, "the storage holds header, fields, elements and checksum back to back");
        A const    b = *a;    // a copy carries the packet
        A const*   which[2] = {a.get(), &b};
        for (A const* x : which) {
            auto const o = x->template deserialize<H, F, T, C>();
            SX_OF(K3, o.valid, "what was serialized is valid");
            SX_OF(K3, same<sizeof(H)>(&o.header, &h) && same<sizeof(F)>(&o.fields, &f), "header and fields come back");
            SX_OF(K3, o.size == n, "the element count comes back");
            auto const q = x->template deserialize_no_check<H, F, T, C>();
            SX_OF(K3, same<sizeof(H)>(q.header, &h) && same<sizeof(F)>(q.fields, &f) && q.size == n, "the unchecked view shows the same parts");
            d = 0;
            for (std::size_t i = 0; i < n * sizeof(T); i++) d |= unsigned(at(o.data, i) ^ at(el.get(), i)) | unsigned(at(q.data, i) ^ at(el.get(), i));
            SX_OF(K3, d == 0, "the elements come back");
        }
        SX_OF(K3, (a->template deserialize<H, F, T, C>().size == n), "reading does not change the packet");
        // a second packet replaces the first
        std::size_t const n2 = any_count(most, "second count");
        std::unique_ptr<T[]> el2{n2 ? new T[n2] : nullptr};
        if (n2) sx_make(el2.get(), n2 * sizeof(T), "second elements");
        bool const ok2 = a->template serialize<H, F, T, C>(In{h, f, n2, el2.get()});
        auto const o2  = a->template deserialize<H, F, T, C>();
        SX_OF(K3, ok2 && o2.valid && o2.size == n2, "a second packet replaces the first");
        d = 0;
        for (std::size_t i = 0; i < n2 * sizeof(T); i++) d |= unsigned(at(o2.data, i) ^ at(el2.get(), i));
        SX_OF(K3, d == 0, "the second packet's elements come back");
        sx_cover("accessor round trip");
    }
    if (PROP != 3) {
        // any content with any declared size
        std::unique_ptr<A> a{new A};
        a->storage()           = any<typename A::array_type>("content");
        std::size_t const size = sx_sym<std::size_t>("declared size");
#if BIG
        SX_ASSUME(size < 4 || (size >= 255 && size < 258) || (size >= M - 1 && size < M + 2) || size > 100 * M);
#endif
        a->size(size);
        SX_OF(K4, a->size() == size, "the declared size is kept");
        received<H, F, T, C, M>(*a, size);
    }
    if (PROP != 3 && PROP != 2) {
        // any count
        std::unique_ptr<A> a{new A};
        auto const before  = any<typename A::array_type>("earlier content");
        auto const earlier = sx_sym<std::size_t>("earlier size");
        a->storage()       = before;
        a->size(earlier);
        H const           h = any<H>("header");
        F const           f = any<F>("fields");
        std::size_t const n = sx_sym<std::size_t>("any count");
        SX_ASSUME(n > most);
        T const*   none = reinterpret_cast<T const*>(sx_choice(2, "data given") ? new std::uint8_t[1] : nullptr);
        bool const ok   = a->template serialize<H, F, T, C>(In{h, f, n, none});
        sx_cover("count does not fit");
        SX_OF(K4, !ok, "serialize refuses a count that does not fit");
        SX_OF(K4, a->size() == earlier && same<M>(a->storage().data(), before.data()), "a refused serialize changes nothing");
    }
}

// storage of more than 65536 bytes: contents are fixed but for the last elements
template <class H, class F, class T, class C, std::size_t M>
static void
huge()
{
    constexpr std::size_t L = sizeof(H) + sizeof(F), K = sizeof(typename C::value_type), most = (M - L - K) / sizeof(T);
    using A  = packet_accessor<M>;
    using In = typename A::template fields_in<H, F, T>;
    std::unique_ptr<A> a{new A};
    for (std::size_t i = 0; i < M; i++) a->storage()[i] = std::uint8_t(i * 5 + (i >> 8));
    std::size_t const counts[] = {256, 65536 / sizeof(T) + 1, most, 255, 65535 / sizeof(T), 65536 / sizeof(T), most - 1};
    std::size_t const n        = counts[sx_choice(COUNTS, "count")];
    if (PROP == 3) {
        H h;
        F f;
        std::memset(&h, 0x5a, sizeof h);
        std::memset(&f, 0xc3, sizeof f);
        std::unique_ptr<T[]> el{new T[n]};
        auto* bytes = reinterpret_cast<std::uint8_t*>(el.get());
        for (std::size_t i = 0; i < n * sizeof(T); i++) bytes[i] = std::uint8_t(i * 7 + (i >> 8));
        sx_make(bytes + (n - 2) * sizeof(T), 2 * sizeof(T), "last elements");
        bool const ok = a->template serialize<H, F, T, C>(In{h, f, n, el.get()});
        SX_OF(K3, ok && a->size() == L + n * sizeof(T) + K, "the size is the sum of the parts");
        std::uint8_t const* b = a->storage().data();
        unsigned            d = 0;
        for (std::size_t i = 0; i < n * sizeof(T); i++) d |= unsigned(b[L + i] ^ bytes[i]);
        SX_OF(K3, d == 0 && same<sizeof(H)>(&h, b) && same<sizeof(F)>(&f, b + sizeof(H)), "the storage holds header, fields, elements and checksum back to back");
        SX_OF(K3, good_sum<C>(b, L + n * sizeof(T)), "the storage holds header, fields, elements and checksum back to back");
        auto const o = a->template deserialize<H, F, T, C>();
        SX_OF(K3, o.valid && o.size == n, "the element count comes back");
        d = 0;
        for (std::size_t i = 0; i < n * sizeof(T); i++) d |= unsigned(at(o.data, i) ^ bytes[i]);
        SX_OF(K3, d == 0, "the elements come back");
        sx_cover("accessor round trip");
    } else {
        std::size_t const size = L + K + n * sizeof(T);
        a->storage()[size - K - 1] = sx_sym<std::uint8_t>("last content byte");
        a->size(size);
        received<H, F, T, C, M>(*a, size);
        for (std::size_t wrong : {size + 65536 * sizeof(T), size + (std::size_t(1) << 32) * sizeof(T), std::size_t(0) - sizeof(T) + L + K, M + 1}) {
            a->size(wrong);
            if (wrong > M) received<H, F, T, C, M>(*a, wrong);
        }
        a->size(size);
        for (std::size_t count : {most + 1, most + 65536, n + (std::size_t(1) << 32), n + (std::size_t(1) << 62)}) {
            H h{};
            F f{};
            SX_OF(K4, (!a->template serialize<H, F, T, C>(In{h, f, count, nullptr})), "serialize refuses a count that does not fit");
            SX_OF(K4, a->size() == size, "a refused serialize changes nothing");
        }
        sx_cover("count does not fit");
    }
}

extern "C" void
sx_main()
{
    if (BIG == 2) {
        if (sx_choice(2, "accessor type")) huge<h1, h1, std::uint8_t, mix32, 70000>();
        else huge<h3, f4, e3, mix32, 70004>();
        return;
    }
    if ((PROP == 1 || PROP == 2) && BIG) {
        switch (PROP == 1 ? 2 + sx_choice(2, "packet type") : 1 + sx_choice(3, "packet type or accessor")) {
        case 1: break;
        case 2: fixed<h3, f300, mix32>(); return;
        default: fixed<f300, f4, crc16>(); return;
        }
    }
    if ((PROP == 0 || PROP == 1 || PROP == 2) && !BIG) {
#if PROP == 1
        fixed<h1, f4, sum8>();
        fixed<h3, f9, crc16>();
        fixed<h3, f4, mix32>();
        fixed<f9, h3, mix64>();
        fixed<h1, w4, sum8>();
        fixed<h3, w6, mix32>();
        fixed<w6, w8, mix64>();
#else
        switch (sx_choice(6, "packet type")) {
        case 4: fixed<h1, w4, mix32>(); break;
        case 5: fixed<w6, w8, mix64>(); break;
        case 3: fixed<h1, h1, crc16>(); break;
        case 0: fixed<h1, f4, sum8>(); break;
        case 1: fixed<h3, f9, crc16>(); break;
        default: fixed<h3, f4, mix32>();
        }
#endif
    }
    if (PROP == 0 || PROP == 2 || PROP == 3 || PROP == 4) {
        switch (sx_choice(5, "accessor type")) {
        case 4: variable<h1, w4, w4, mix32, MAX + 8>(); break;
        case 0: variable<h1, h1, std::uint8_t, crc16, MAX>(); break;
        case 1: variable<h3, f4, e3, crc16, MAX + 4>(); break;
        case 2: variable<h1, f4, e2, mix32, MAX + 3>(); break;
        default: variable<h3, h1, std::uint8_t, mix64, MAX + 2>();
        }
    }
}
