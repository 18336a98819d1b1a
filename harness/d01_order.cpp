// D01: lsb_t / msb_t hold their value in the declared byte order and give it back.
#include "sx.h"
#include <xitren/func/data.hpp>
using namespace xitren::func;

struct __attribute__((__packed__)) host16 { std::uint8_t pad; lsb_t<std::uint16_t> l; msb_t<std::uint16_t> m; std::uint8_t end; };
struct __attribute__((__packed__)) host32 { std::uint8_t pad; lsb_t<std::uint32_t> l; msb_t<std::uint32_t> m; std::uint8_t end; };
struct __attribute__((__packed__)) host64 { std::uint8_t pad; lsb_t<std::uint64_t> l; msb_t<std::uint64_t> m; std::uint8_t end; };

template <class T>
static bool
bytes_are(void const* p, T v, bool lsb)
{
    auto const* b = static_cast<unsigned char const volatile*>(p);
    bool        ok = true;
    for (unsigned i = 0; i < sizeof(T); i++) {
        unsigned at = lsb ? i : unsigned(sizeof(T)) - 1 - i;
        ok &= b[at] == (unsigned char)(v >> (8 * i));
    }
    return ok;
}

template <class W, class T>
static void
one(bool lsb, T a, T b, T c)
{
    static_assert(sizeof(W) == sizeof(T));
    W z;
    SX_ASSERT(z.get() == 0 && bytes_are<T>(&z, 0, lsb), "a default constructed wrapper holds zero");
    W x(a);
    SX_ASSERT(bytes_are<T>(&x, a, lsb), "construction from an lvalue stores the declared byte order");
    SX_ASSERT(x.get() == a, "get returns the constructed value");
    T const ca = b;
    W y(static_cast<T const&&>(ca));
    SX_ASSERT(bytes_are<T>(&y, b, lsb), "construction from an rvalue stores the declared byte order");
    SX_ASSERT(y.get() == b, "get returns the value constructed from an rvalue");
    SX_ASSERT(&(x = c) == &x, "assignment returns the wrapper");
    SX_ASSERT(bytes_are<T>(&x, c, lsb), "assignment stores the declared byte order");
    SX_ASSERT(x.get() == c, "get returns the assigned value");
    x = a;
    SX_ASSERT(bytes_are<T>(&x, a, lsb) && x.get() == a, "the last assignment wins");
    W k(y);
    z = y;
    y = c;
    SX_ASSERT(k.get() == b && z.get() == b && bytes_are<T>(&k, b, lsb) && bytes_are<T>(&z, b, lsb), "copies hold the same value, independently");
    // a wrapper laid over received bytes
    alignas(8) unsigned char raw[sizeof(T)];
    sx_make(raw, sizeof(raw), "raw");
    T ref = 0;
    for (unsigned i = 0; i < sizeof(T); i++) ref = T(ref | (T(T(raw[i]) << (8 * (lsb ? i : sizeof(T) - 1 - i)))));
    W r;
    for (unsigned i = 0; i < sizeof(T); i++) reinterpret_cast<unsigned char volatile*>(&r)[i] = raw[i];
    SX_ASSERT(r.get() == ref, "get decodes received bytes in the declared order");
}

template <class H, class T>
static void
packed(T a, T b)
{
    static_assert(sizeof(H) == 2 + 2 * sizeof(T));
    H h{};
    h.pad = 0x11;
    h.end = 0x22;
    h.l = a;
    h.m = b;
    auto const* p = reinterpret_cast<unsigned char const*>(&h);
    SX_ASSERT(bytes_are<T>(p + 1, a, true) && bytes_are<T>(p + 1 + sizeof(T), b, false) && p[0] == 0x11 && p[1 + 2 * sizeof(T)] == 0x22,
              "wrappers in a packed structure occupy exactly their bytes");
    SX_ASSERT(h.l.get() == a && h.m.get() == b, "wrappers in a packed structure read back");
}

template <class T, class H>
static void
width(char const* n)
{
    T const a = sx_sym<T>(n), b = sx_sym<T>(n), c = sx_sym<T>(n);
    one<lsb_t<T>, T>(true, a, b, c);
    one<msb_t<T>, T>(false, a, b, c);
    packed<H, T>(a, b);
}
extern "C" void
sx_main()
{
    width<std::uint16_t, host16>("v16");
    width<std::uint32_t, host32>("v32");
    width<std::uint64_t, host64>("v64");
}
