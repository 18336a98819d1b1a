// D03: swap reverses the bytes of a value.
#include "sx.h"
#include <xitren/func/data.hpp>

template <class T>
static void
check(char const* n)
{
    T const v = sx_sym<T>(n);
    T const r = xitren::func::swap(v);
    T       ref = 0;
    for (unsigned i = 0; i < sizeof(T); i++)
        ref = T(ref | (T(T(v >> (8 * i)) & 0xff) << (8 * (sizeof(T) - 1 - i))));
    SX_ASSERT(r == ref, "swap reverses the byte order");
    SX_ASSERT(xitren::func::swap(r) == v, "swapping twice gives the argument back");
}
extern "C" void
sx_main()
{
    check<std::uint16_t>("v16");
    check<std::uint32_t>("v32");
    check<std::uint64_t>("v64");
}
