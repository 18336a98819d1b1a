// G01-G03: two parsers of one set of options, each with names of its own: they take only their own names and share no values.
#include "sx.h"
#include <memory>
#include <string>
#include <cstring>
#include <xitren/func/argv_parser.hpp>
using namespace xitren::func;
enum { G1 = 1 << 1, G2 = 1 << 2, G3 = 1 << 3 };
#ifndef ARGS
#define ARGS 3
#endif
struct options {
    std::string text{"default"};
    int         number{-7};
    bool        flag{false};
};
static char const* const own[2][3] = {{"--text", "--number", "--flag"}, {"--number", "--flag", "-t"}};    // names of text, number and flag

static void
check(options const& o, unsigned w, int argc, char const* const* argv)
{
    char const* text = nullptr;
    char const* num  = nullptr;
    bool        flag = false;
    for (int i = 0; i < argc; i++) {
        if (!std::strcmp(argv[i], own[w][0]) && i + 1 < argc) text = argv[i + 1];
        if (!std::strcmp(argv[i], own[w][1]) && i + 1 < argc) num = argv[i + 1];
        flag |= !std::strcmp(argv[i], own[w][2]);
    }
    SX_OF(text ? G1 : G3, o.text == (text ? text : "default"), "the text is this parser's own");
    bool const digit = num && num[0] >= '0' && num[0] <= '9';
    if (!num) SX_OF(G3, o.number == -7, "the number keeps this parser's default");
    if (digit) SX_OF(G2, o.number == num[0] - '0', "the number is this parser's own");
    SX_OF(G1, o.flag == flag, "the flag is this parser's own");
}

extern "C" void
sx_main()
{
    using parser = argv_parser<options>;
    char         digit[2][2]{};
    std::unique_ptr<parser> p[2];
    bool const together = sx_choice(2, "both made first") != 0;
    auto make = [&](unsigned w) { p[w] = parser::instance({{own[w][0], &options::text}, {own[w][1], &options::number}, {own[w][2], &options::flag}}); };
    if (together) make(0), make(1);
    char const* argv[2][ARGS];
    int         argc[2];
    options     result[2];
    for (unsigned w = 0; w < 2; w++) {
        if (!together) make(w);
        argc[w] = static_cast<int>(sx_choice(ARGS + 1, "argc"));
        digit[w][0] = static_cast<char>('0' + sx_range<unsigned>("digit", 0, 9));
        for (int i = 0; i < argc[w]; i++) {
            static char const* const all[] = {"--text", "--number", "--flag", "-t"};
            auto const k = sx_choice(5, "argument");
            argv[w][i]   = k == 4 ? digit[w] : all[k];
        }
        result[w] = p[w]->parse(argc[w], argv[w]);
        if (!together && w == 0 && sx_choice(2, "destroy the first")) p[0].reset();
    }
    for (unsigned w = 0; w < 2; w++) check(result[w], w, argc[w], argv[w]);
    sx_cover("done");
}
