// G01, G03: every command line of up to ARGS arguments of up to LEN arbitrary characters.
// NUMS: int and double options are registered as well; FIRST: arguments are drawn from names and arbitrary strings
#include "sx.h"
#include <xitren/func/argv_parser.hpp>
#include <string>
#ifndef ARGS
#define ARGS 3
#endif
#ifndef LEN
#define LEN 2
#endif
#ifndef NUMS
#define NUMS 0
#endif
#ifndef MINLEN
#define MINLEN 0
#endif
#ifndef BIGLEN
#define BIGLEN 0    // 1: lengths from a list up to 1025
#endif
#ifndef MANY
#define MANY 0    // number of arguments, all but a few of them unknown
#endif
enum { G1 = 1 << 1, G3 = 1 << 3 };    // the properties that share this harness
using namespace xitren::func;

struct options {
    std::string text{"default"};
    std::string other{"else"};
    bool        flag{false};
    bool        second{false};
    int         number{-7};
    double      real{0.5};
};
static char const* const names[]{"-t", "--o", "f", "-f", "-n", "-r"};

struct view { char const* p; std::size_t n; };
static bool
same(view a, char const* b)
{
    std::size_t n = 0;
    while (b[n]) n++;
    if (a.n != n) return false;
    bool eq = true;
    for (std::size_t i = 0; i < n; i++) eq = eq & (a.p[i] == b[i]);
    return eq;
}

// the value of the last occurrence of a name that has an argument after it, or -1
static int
value_at(view const* a, int argc, char const* name)
{
    int r = -1;
    for (int i = 0; i + 1 < argc; i++)
        if (same(a[i], name)) r = i + 1;
    return r;
}
static bool
present(view const* a, int argc, char const* name)
{
    bool r = false;
    for (int i = 0; i < argc; i++)
        if (same(a[i], name)) r = true;
    return r;
}
static void
check_text(std::string const& s, view const* a, int argc, char const* name, char const* def)
{
    int v = value_at(a, argc, name);
    if (v < 0) {
        SX_OF(G3, s == def, "an option without value keeps its default");
        if (present(a, argc, name)) sx_cover("name without value");
        return;
    }
    sx_cover("text option");
    bool eq = s.size() == a[v].n;
    for (std::size_t i = 0; eq && i < a[v].n; i++) eq = s[i] == a[v].p[i];
    SX_OF(G1, eq, "a string option gets its argument verbatim");
}

extern "C" void
sx_main()
{
    // exactly as many pointers as arguments: reading further is out of bounds
#if MANY
    int          argc = MANY;
#else
    int          argc = static_cast<int>(sx_choice(ARGS + 1, "argc"));
#endif
    char const** argv = static_cast<char const**>(operator new(sizeof(char*) * static_cast<std::size_t>(argc)));
    view         args[(MANY ? MANY : ARGS) + 1];
#if MANY
    for (int i = 0; i < argc; i++) args[i] = {argv[i] = "x", 1};
    static constexpr int places[2][8]{{0, 127, 255, MANY - 2}, {0, 63, 126, 128, 254, 255, 256, MANY - 1}};
    for (int j = 0; j < 2; j++) {
        int const   i = places[j][sx_choice(j ? 8 : 4, "position of a name")];
        char const* n = names[sx_choice(4 + 2 * NUMS, "name")];
        args[i]       = {argv[i] = n, std::char_traits<char>::length(n)};
    }
#else
    for (int i = 0; i < argc; i++) {
#ifdef NAMED
        // a name, or arbitrary characters
        unsigned k = sx_choice(2 + 2 * NUMS + 3, "argument");
        if (k < 4 + 2 * NUMS) {
            char const* n = names[k];
            args[i]       = {n, std::char_traits<char>::length(n)};
            argv[i]       = n;
            continue;
        }
#endif
#if BIGLEN
        static constexpr std::size_t lengths[]{31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 1023, 1024, 1025};
        std::size_t                  n = lengths[sx_choice(16, "length of an argument")];
#else
        std::size_t n = MINLEN + sx_choice(LEN - MINLEN + 1, "length of an argument");
#endif
        auto*       s = static_cast<char*>(operator new(n + 1));
        for (std::size_t j = 0; j < n; j++) {
            s[j] = sx_sym<char>("character");
            SX_ASSUME(s[j] != 0);
        }
        s[n]    = 0;
        args[i] = {s, n};
        argv[i] = s;
    }
#endif
    auto parser = argv_parser<options>::instance({
        {names[0], &options::text},
        {names[1], &options::other},
        {names[2], &options::flag},
        {names[3], &options::second},
#if NUMS
        {names[4], &options::number},
        {names[5], &options::real},
#endif
    });
    options o = parser->parse(argc, argv);
    check_text(o.text, args, argc, names[0], "default");
    check_text(o.other, args, argc, names[1], "else");
    bool f1 = present(args, argc, names[2]), f2 = present(args, argc, names[3]);
    SX_OF(f1 ? G1 : G1 | G3, o.flag == f1, "a flag option tells whether its name appears");
    SX_OF(f2 ? G1 : G1 | G3, o.second == f2, "a flag option tells whether its name appears");
    if (o.flag) sx_cover("flag");
    if (!NUMS || value_at(args, argc, names[4]) < 0) SX_OF(G3, o.number == -7, "an int option without value keeps its default");
    if (!NUMS || value_at(args, argc, names[5]) < 0) SX_OF(G3, o.real == 0.5, "a double option without value keeps its default");
}
