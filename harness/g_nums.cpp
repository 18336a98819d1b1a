// G02: every decimal text of bounded length given to a numeric option.
// KIND 0: int, 1: double; DIGITS: most digits
#include "sx.h"
#include <xitren/func/argv_parser.hpp>
#include <bit>
#include <limits>
#include <string>
#ifndef KIND
#define KIND 0
#endif
#ifndef DIGITS
#define DIGITS 10
#endif
#ifndef EXPO
#define EXPO 0
#endif
using namespace xitren::func;

struct options {
    std::string text{"default"};
    int         number{-7};
    double      real{0.5};
    int         last{-8};
};
static char buf[DIGITS + 16];
static int  len;
static unsigned
digit()
{
    char c = static_cast<char>('0' + sx_bits(4, "digit"));
    SX_ASSUME(static_cast<unsigned char>(c - '0') < 10);
    buf[len++] = c;
    return static_cast<unsigned>(c - '0');
}

extern "C" void
sx_main()
{
    int  sign = static_cast<int>(sx_choice(3, "sign"));
    bool neg  = sign == 1;
    if (sign) buf[len++] = neg ? '-' : '+';
    int  digits = 1 + static_cast<int>(sx_choice(DIGITS, "digits"));
    unsigned long n = 0;
#if KIND == 0
    for (int i = 0; i < digits; i++) n = n * 10 + digit();
    SX_ASSUME(neg ? n <= 2147483648u : n <= 2147483647u);
    int want = static_cast<int>(neg ? -static_cast<unsigned>(n) : static_cast<unsigned>(n));
#else
    int after = static_cast<int>(sx_choice(static_cast<std::uint64_t>(digits + 2), "digits after the point"));    // digits + 1: no point
    for (int i = 0; i <= digits; i++) {
        if (digits - i == after) buf[len++] = '.';
        if (i < digits) n = n * 10 + digit();
    }
    int scale = after > digits ? 0 : -after;
#if EXPO
    buf[len++] = sx_choice(2, "e") ? 'e' : 'E';
    int  es   = static_cast<int>(sx_choice(3, "exponent sign"));
    if (es) buf[len++] = es == 1 ? '-' : '+';
    int e = static_cast<int>(sx_choice(10, "exponent"));
    buf[len++] = static_cast<char>('0' + e);
    scale += es == 1 ? -e : e;
#endif
    double pow = 1;
    for (int i = 0; i < (scale < 0 ? -scale : scale); i++) pow *= 10;
    double want = static_cast<double>(static_cast<long>(n));
    if (scale < 0) want /= pow;
    if (scale > 0) want *= pow;
    if (neg) want = -want;
#endif
    buf[len]            = 0;
    char const* name    = KIND ? "-r" : "-n";
    char const* argv[]  = {"app", "-t", "12", name, buf, "-l", "21"};
    int         where   = static_cast<int>(sx_choice(3, "arguments around it"));
    char const* alone[] = {name, buf};
    char const* again[] = {name, "77", name, buf};
    auto parser = argv_parser<options>::instance({{"-t", &options::text}, {"-n", &options::number}, {"-r", &options::real}, {"-l", &options::last}});
    options o   = where == 0 ? parser->parse(7, argv) : where == 1 ? parser->parse(2, alone) : parser->parse(4, again);
#if KIND == 0
    SX_ASSERT(o.number == want, "an int option gets exactly the number");
    SX_ASSERT(o.real == 0.5, "the other options keep their defaults");
#else
    SX_ASSERT(std::bit_cast<std::uint64_t>(o.real) == std::bit_cast<std::uint64_t>(want) || o.real == want, "a double option gets exactly the number");
    SX_ASSERT(o.number == -7, "the other options keep their defaults");
#endif
    SX_ASSERT(o.text == (where ? "default" : "12") && o.last == (where ? -8 : 21), "the other options keep their values");
    sx_cover("parsed");
    if (neg) sx_cover("negative");
}
