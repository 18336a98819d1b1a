// F01: a fast_pimpl performs exactly the operations asked for, once, on one object that lies aligned inside it.
#include "sx.h"
#include <initializer_list>
#include <new>
#include <string>
#include <xitren/func/fast_pimpl.hpp>
using xitren::func::fast_pimpl;

#ifndef OPS
#define OPS 4
#endif
#ifndef SLOTS
#define SLOTS 3
#endif
#ifndef ALIGN
#define ALIGN 8
#endif
#ifndef EXTRA
#define EXTRA 0
#endif

enum { MAKE, MAKE2, DEFAULT, COPY, MOVE, CASSIGN, MASSIGN, GONE, KINDS };
static unsigned              calls[KINDS];
static constexpr std::size_t HOLD = 8;
static void const*           living[HOLD];
static int                   alive;

static void
born(void const* p)
{
    SX_ASSERT(reinterpret_cast<std::uintptr_t>(p) % ALIGN == 0, "the wrapped object is aligned");
    bool placed = false;
    for (auto& l : living) {
        SX_ASSERT(l != p, "no object is constructed where one already lives");
        if (!placed && !l) l = p, placed = true;
    }
    alive++;
}
static bool
lives(void const* p)
{
    for (auto l : living)
        if (l == p) return true;
    return false;
}

struct token { std::uint64_t v; token(std::uint64_t x) : v(x) {} token(token const&) = default; token(token&& o) noexcept : v(o.v) { o.v = 0; } };

static constexpr std::uint64_t moved_mark = 0x4d4f564544ull;
struct boom {};
static bool throwing;

struct alignas(ALIGN) thing {
    std::uint64_t value;
    std::uint32_t second;
    std::uint8_t  bulk[EXTRA + 3];
    thing() : value(7), second(8) { calls[DEFAULT]++; fill(); born(this); }
    explicit thing(std::uint64_t v) : value(v), second(1)
    {
        if (throwing) throw boom{};
        calls[MAKE]++; fill(); born(this);
    }
    thing(token t, std::uint32_t& out, std::uint32_t s) : value(t.v), second(s) { calls[MAKE2]++; fill(); born(this); out = s + 1; }
    thing(thing const& o) : value(o.value), second(o.second)
    {
        SX_ASSERT(lives(&o), "a copy is made of a living object");
        calls[COPY]++; take(o); born(this);
    }
    thing(thing&& o) noexcept : value(o.value), second(o.second)
    {
        SX_ASSERT(lives(&o), "a living object is moved from");
        calls[MOVE]++; take(o); o.value = moved_mark; born(this);
    }
    thing& operator=(thing const& o)
    {
        SX_ASSERT(lives(&o) && lives(this), "assignment between living objects");
        calls[CASSIGN]++; value = o.value; second = o.second; take(o);
        return *this;
    }
    thing& operator=(thing&& o) noexcept
    {
        SX_ASSERT(lives(&o) && lives(this), "assignment between living objects");
        calls[MASSIGN]++; value = o.value; second = o.second; take(o);
        if (&o != this) o.value = moved_mark;
        return *this;
    }
    ~thing()
    {
        SX_ASSERT(lives(this), "only a living object is destroyed");
        for (auto& l : living)
            if (l == this) l = nullptr;
        alive--;
        calls[GONE]++;
    }
    void fill() { for (auto& b : bulk) b = std::uint8_t(value); }
    void take(thing const& o) { for (std::size_t i = 0; i < sizeof bulk; i++) bulk[i] = o.bulk[i]; }
};

// a type whose braces mean something else than its parentheses
struct listy {
    int n;
    listy(std::initializer_list<int> l) noexcept : n(-int(l.size())) {}
    explicit listy(int v) : n(v) { if (throwing) throw boom{}; }
};

using wrap = fast_pimpl<thing, sizeof(thing) + EXTRA / 8 * ALIGN, ALIGN>;
static_assert(alignof(wrap) % ALIGN == 0 && sizeof(wrap) >= sizeof(thing));

static wrap*         w[SLOTS];
static std::uint64_t val[SLOTS];
static std::uint32_t sec[SLOTS];
static std::uint8_t  blk[SLOTS];
alignas(wrap) static unsigned char room[SLOTS][sizeof(wrap)];

static void
expect(int kind, unsigned const* before)
{
    for (int k = 0; k < KINDS; k++) SX_ASSERT(calls[k] == before[k] + unsigned(k == kind), "exactly the operation asked for, once");
}
static void
look()
{
    int n = 0;
    for (int i = 0; i < SLOTS; i++) {
        if (!w[i]) continue;
        n++;
        wrap const& c = *w[i];
        thing*       p = w[i]->operator->();
        thing const* q = c.operator->();
        SX_ASSERT(p == q && p == &**w[i] && q == &*c, "all ways of access reach the same object");
        auto const base = reinterpret_cast<std::uintptr_t>(w[i]), at = reinterpret_cast<std::uintptr_t>(p);
        SX_ASSERT(at >= base && at + sizeof(thing) <= base + sizeof(wrap), "the object lies inside the wrapper");
        SX_ASSERT(lives(p), "the object reached is alive");
        SX_ASSERT(p->value == val[i] && (*c).second == sec[i], "the object has its own value");
        bool same = true;
        for (auto b : (*c).bulk) same &= b == blk[i];
        SX_ASSERT(same, "all of the object has its own value");
    }
    SX_ASSERT(n == alive, "as many objects as wrappers");
}

extern "C" void
sx_main()
{
    for (int op = 0; op < OPS; op++) {
        unsigned before[KINDS];
        for (int k = 0; k < KINDS; k++) before[k] = calls[k];
        int const i = sx_choice(SLOTS, "wrapper");
        if (!w[i]) {
            switch (sx_choice(6, "construct")) {
            case 0:
                val[i] = sx_sym<std::uint64_t>("value"); sec[i] = 1;
                w[i] = new (room[i]) wrap(val[i]);
                blk[i] = std::uint8_t(val[i]);
                expect(MAKE, before);
                sx_cover("constructed");
                break;
            case 1: {
                token         t{sx_sym<std::uint64_t>("value")};
                std::uint32_t s = sx_sym<std::uint32_t>("second"), out = 0;
                val[i] = t.v; sec[i] = s; blk[i] = std::uint8_t(t.v);
                bool const give = sx_choice(2, "as temporary");
                if (give) w[i] = new (room[i]) wrap(std::move(t), out, s);
                else w[i] = new (room[i]) wrap(t, out, s);
                SX_ASSERT(out == s + 1, "a reference argument is passed as a reference");
                SX_ASSERT(t.v == (give ? 0 : val[i]), "a temporary argument is moved, another one copied");
                expect(MAKE2, before);
                break;
            }
            case 2:
                w[i] = new (room[i]) wrap();
                val[i] = 7; sec[i] = 8; blk[i] = 7;
                expect(DEFAULT, before);
                break;
            case 3: {    // the constructor throws
                throwing = true;
                bool thrown = false;
                std::uint64_t const v = 5;
                try { new (room[i]) wrap(v); } catch (boom&) { thrown = true; }
                throwing = false;
                SX_ASSERT(thrown, "what the constructor throws comes out");
                expect(-1, before);
                sx_cover("constructor threw");
                break;
            }
            default: {
                int const j = sx_choice(SLOTS, "source");
                SX_ASSUME(j != i && w[j]);
                if (sx_choice(2, "move")) {
                    w[i] = new (room[i]) wrap(std::move(*w[j]));
                    val[i] = val[j]; sec[i] = sec[j]; blk[i] = blk[j];
                    val[j] = moved_mark;
                    expect(MOVE, before);
                    sx_cover("moved");
                } else {
                    w[i] = new (room[i]) wrap(static_cast<wrap const&>(*w[j]));
                    val[i] = val[j]; sec[i] = sec[j]; blk[i] = blk[j];
                    expect(COPY, before);
                    sx_cover("copied");
                }
            }
            }
        } else {
            switch (sx_choice(5, "operation")) {
            case 0: {
                int const j = sx_choice(SLOTS, "source");
                SX_ASSUME(w[j]);
                wrap& r = (*w[i] = static_cast<wrap const&>(*w[j]));
                SX_ASSERT(&r == w[i], "assignment gives the wrapper");
                val[i] = val[j]; sec[i] = sec[j]; blk[i] = blk[j];
                expect(CASSIGN, before);
                sx_cover("assigned");
                break;
            }
            case 1: {
                int const j = sx_choice(SLOTS, "source");
                SX_ASSUME(w[j]);
                wrap& r = (*w[i] = std::move(*w[j]));
                SX_ASSERT(&r == w[i], "assignment gives the wrapper");
                val[i] = val[j]; sec[i] = sec[j]; blk[i] = blk[j];
                if (i != j) val[j] = moved_mark;
                expect(MASSIGN, before);
                break;
            }
            case 2:
                w[i]->~wrap();
                w[i] = nullptr;
                expect(GONE, before);
                sx_cover("destroyed");
                break;
            case 3:
                val[i] = sx_sym<std::uint64_t>("new value");
                (*w[i])->value = val[i];
                expect(-1, before);
                break;
            default:
                sec[i] = sx_sym<std::uint32_t>("new second");
                (**w[i]).second = sec[i];
                expect(-1, before);
            }
        }
        look();
    }
    for (int i = 0; i < SLOTS; i++)
        if (w[i]) w[i]->~wrap(), w[i] = nullptr;
    SX_ASSERT(alive == 0, "every object is destroyed");
    SX_ASSERT(calls[GONE] == calls[MAKE] + calls[MAKE2] + calls[DEFAULT] + calls[COPY] + calls[MOVE], "every object is destroyed exactly once");

    // a real owner of memory
    using text = fast_pimpl<std::string, sizeof(std::string), alignof(std::string), true>;
    char const ch     = sx_sym<char>("letter");
    long const before = sx_live_heap();
    {
        text        a(std::size_t{20}, 'a');
        text const  b(static_cast<text const&>(a));
        (*a)[3] = ch;
        SX_ASSERT((*b)[3] == 'a' && b->size() == 20, "a copy is independent of its original");
        text c(std::move(a));
        SX_ASSERT((*c)[3] == ch && (*c)[4] == 'a', "a move takes the content along");
        a = b;
        *a += 'z';
        SX_ASSERT(a->size() == 21 && b->size() == 20 && c->size() == 20, "an assigned copy is independent");
        c = std::move(a);
        SX_ASSERT(c->size() == 21 && (*c)[20] == 'z' && (*c)[3] == 'a', "a move assignment takes the content along");
    }
    SX_ASSERT(sx_live_heap() == before, "destruction releases what the object owned");
    {
        using list = fast_pimpl<listy, sizeof(listy), alignof(listy)>;
        int const  v = sx_sym<int>("number");
        list const a(v);
        SX_ASSERT(a->n == v, "the constructor that takes these arguments in parentheses is used");
        throwing    = true;
        bool thrown = false;
        try { list const b(v); } catch (boom&) { thrown = true; }
        throwing = false;
        SX_ASSERT(thrown, "what a constructor throws comes out");
    }
    sx_cover("done");
}
