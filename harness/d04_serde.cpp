// D04: serialize / deserialize are lossless and touch exactly sizeof bytes.
#include "sx.h"
#include <xitren/func/data.hpp>
using namespace xitren::func;

struct __attribute__((__packed__)) rec { std::uint8_t a; lsb_t<std::uint16_t> b; msb_t<std::uint32_t> c; std::uint8_t d[3]; std::int16_t e; };
struct __attribute__((__packed__)) bits { std::uint32_t x : 5; std::uint32_t y : 19; std::uint32_t z : 8; std::uint8_t t; };
template <std::size_t N> struct block { std::uint8_t b[N]; };
struct nest { std::array<std::uint16_t, 3> v; std::int16_t w; };

static inline unsigned char
at(void const* p, std::size_t i)
{
    return static_cast<unsigned char const*>(p)[i];
}

// a random access iterator that is not a pointer and counts its accesses
struct walker {
    using iterator_category = std::random_access_iterator_tag;
    using value_type = std::uint8_t;
    using difference_type = std::ptrdiff_t;
    using pointer = std::uint8_t*;
    using reference = std::uint8_t&;
    std::uint8_t*  p{};
    unsigned*      used{};
    reference operator*() const { ++*used; return *p; }
    reference operator[](difference_type n) const { ++*used; return p[n]; }
    walker& operator++() { ++p; return *this; }
    walker operator++(int) { walker w = *this; ++p; return w; }
    walker& operator--() { --p; return *this; }
    walker operator--(int) { walker w = *this; --p; return w; }
    walker& operator+=(difference_type n) { p += n; return *this; }
    walker& operator-=(difference_type n) { p -= n; return *this; }
    friend walker operator+(walker w, difference_type n) { w.p += n; return w; }
    friend walker operator+(difference_type n, walker w) { w.p += n; return w; }
    friend walker operator-(walker w, difference_type n) { w.p -= n; return w; }
    friend difference_type operator-(walker a, walker b) { return a.p - b.p; }
    friend bool operator==(walker a, walker b) { return a.p == b.p; }
    friend auto operator<=>(walker a, walker b) { return a.p <=> b.p; }
};

template <class T>
static void
trip()
{
    constexpr std::size_t N = sizeof(T);
    T                     v;
    sx_make(&v, N, "object");
    auto const arr = data<T>::serialize(v);
    static_assert(sizeof(arr) == N);
    bool same = true;
    for (std::size_t i = 0; i < N; i++) same &= arr[i] == at(&v, i);
    SX_ASSERT(same, "the serialized array is the object representation");
    if constexpr (N <= 64) {
    std::uint8_t const pos = sx_range<std::uint8_t>("position", 0, N - 1);
    std::uint8_t       got = 0, want = 0;
    for (std::size_t i = 0; i < N; i++) {
        got  = std::uint8_t(got + arr[i] * unsigned(pos == i));
        want = std::uint8_t(want | (at(&v, i) & (0u - unsigned(pos == i))));
    }
    SX_ASSERT(got == want, "the byte at any position is the object's byte there");
    }

    // exactly N bytes are written, into storage of exactly N bytes and in the middle of a bigger one
    struct { std::uint8_t before[2]; std::uint8_t b[N]; std::uint8_t after[2]; } w{};
    std::uint8_t* only = new std::uint8_t[N];
    w.before[1] = 0xa5;
    w.after[0]  = 0x5a;
    data<T>::serialize(v, &w.b[0]);
    data<T>::serialize(v, only);
    same = true;
    for (std::size_t i = 0; i < N; i++) same &= w.b[i] == at(&v, i) && only[i] == at(&v, i);
    SX_ASSERT(same, "serialize through an iterator writes the object representation");
    SX_ASSERT(w.before[1] == 0xa5 && w.after[0] == 0x5a && w.before[0] == 0 && w.after[1] == 0, "serialize writes exactly sizeof bytes");
    unsigned     used = 0;
    std::uint8_t cells[N] = {};
    data<T>::serialize(v, walker{cells, &used});
    same = true;
    for (std::size_t i = 0; i < N; i++) same &= cells[i] == at(&v, i);
    SX_ASSERT(same && used == N, "serialize through an iterator object writes sizeof elements");

    // back
    T const r1 = data<T>::deserialize(arr.begin());
    T const r2 = data<T>::deserialize(static_cast<std::uint8_t const*>(only));
    used       = 0;
    T const r3 = data<T>::deserialize(walker{only, &used});
    same = true;
    for (std::size_t i = 0; i < N; i++) same &= at(&r1, i) == at(&v, i) && at(&r2, i) == at(&v, i) && at(&r3, i) == at(&v, i);
    SX_ASSERT(same, "deserialize gives an equal object back");
    SX_ASSERT(used == N, "deserialize reads exactly sizeof elements");

    // any bytes survive deserialize then serialize
    std::array<std::uint8_t, N> raw;
    sx_make(raw.data(), N, "bytes");
    auto const back = data<T>::serialize(data<T>::deserialize(raw.begin()));
    same = true;
    for (std::size_t i = 0; i < N; i++) same &= back[i] == raw[i];
    SX_ASSERT(same, "any bytes survive deserialize and serialize");
    for (std::size_t i = 0; i < N; i++) same &= only[i] == at(&v, i);
    SX_ASSERT(same, "deserialize leaves its input alone");
    delete[] only;
}
extern "C" void
sx_main()
{
#ifdef LARGE
    trip<block<33>>();
    trip<block<65>>();
    trip<block<129>>();
    trip<block<257>>();
    trip<block<1025>>();
    trip<block<4099>>();
    return;
#endif
    trip<std::uint8_t>();
    trip<std::uint16_t>();
    trip<std::int32_t>();
    trip<std::uint64_t>();
    trip<float>();
    trip<double>();
    trip<rec>();
    trip<bits>();
    trip<nest>();
    trip<lsb_t<std::uint32_t>>();
    trip<msb_t<std::uint64_t>>();
    trip<std::array<std::uint8_t, 17>>();
}
