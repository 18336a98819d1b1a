// D02: comparisons of lsb_t / msb_t agree with the plain values.
#include "sx.h"
#include <xitren/func/data.hpp>
using namespace xitren::func;

// the oracle compares through the sign of the exact difference
template <class T> static bool lt(T a, T b) { return (static_cast<__int128>(a) - static_cast<__int128>(b)) < 0; }
template <class T> static bool eq(T a, T b) { return (a ^ b) == 0; }

template <class W, class T>
static void
cmp(W const& x, W const& y, T a, T b)
{
    SX_ASSERT((x == y) == (eq(a, b)), "== agrees with the plain values");
    SX_ASSERT((x != y) == (!eq(a, b)), "!= agrees with the plain values");
    SX_ASSERT((x < y) == (lt(a, b)), "< agrees with the plain values");
    SX_ASSERT((x > y) == (lt(b, a)), "> agrees with the plain values");
    SX_ASSERT((x <= y) == (!lt(b, a)), "<= agrees with the plain values");
    SX_ASSERT((x >= y) == (!lt(a, b)), ">= agrees with the plain values");
}
template <class W, class T>
static void
both(T a, T b)
{
    W const x(a), y(b);
    cmp<W, T>(x, y, a, b);
    W p, q;
    p = a;
    q = b;
    cmp<W, T>(p, q, a, b);
    cmp<W, T>(p, p, a, a);
    SX_ASSERT((p == q) == eq(a, b) && (p < q) == lt(a, b) && (p > y) == lt(b, a) && (x <= q) == !lt(b, a) && (p >= y) == !lt(a, b) && (x != q) == !eq(a, b),
              "comparisons of modifiable wrappers agree with the plain values");
    SX_ASSERT(p.get() == a && q.get() == b, "comparing changes nothing");
}
template <class T>
static void
width(char const* n)
{
    T const a = sx_sym<T>(n), b = sx_sym<T>(n);
    both<lsb_t<T>, T>(a, b);
    both<msb_t<T>, T>(a, b);
}
extern "C" void
sx_main()
{
    width<std::uint16_t>("v16");
    width<std::uint32_t>("v32");
    width<std::uint64_t>("v64");
}
