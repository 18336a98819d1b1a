// Native counterpart of the executor's harness API: runs a harness on one concrete set of inputs against the real
// libstdc++, with sanitizers.  usage: prog VALUES   (lines "name#k value")
// exit 0: no assertion failed; 42: an assertion failed; 43: the inputs violate an assumption; 44: path outside bounds;
// anything else: crash / sanitizer report.
#include "sx.h"
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <mutex>
#include <new>
#include <string>
#include <thread>
#include <vector>
#include <malloc.h>

static std::map<std::string, unsigned long long> vals;
static std::map<std::string, unsigned>           cnt;
static std::mutex                                mx;
static std::atomic<unsigned long long>           trace{0};
static std::atomic<long>                         live{0};
static std::vector<std::thread>*                 threads;
static std::vector<std::atomic<bool>*>*          done;
static thread_local int                          self;

static unsigned long long
digest(std::string const& x)
{
    unsigned long long h = 14695981039346656037ull;
    for (unsigned char c : x) h = (h ^ c) * 1099511628211ull;
    return h;
}
[[noreturn]] static void
finish(int rc)
{
    std::printf("TRACE %llu\n", trace.load());
    std::fflush(stdout);
    std::_Exit(rc);
}
static unsigned long long
take(char const* name)
{
    std::lock_guard l(mx);
    auto n = std::string(name) + "#" + std::to_string(cnt[name]++);
    auto i = vals.find(n);
    return i == vals.end() ? 0 : i->second;
}
void* operator new(std::size_t n) { void* p = std::malloc(n ? n : 1); if (!p) throw std::bad_alloc(); live++; return p; }
void* operator new(std::size_t n, std::align_val_t a) { void* p = std::aligned_alloc((std::size_t)a, (n + (std::size_t)a - 1) / (std::size_t)a * (std::size_t)a); if (!p) throw std::bad_alloc(); live++; return p; }
void operator delete(void* p) noexcept { if (p) live--; std::free(p); }
void operator delete(void* p, std::size_t) noexcept { if (p) live--; std::free(p); }
void operator delete(void* p, std::align_val_t) noexcept { if (p) live--; std::free(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { if (p) live--; std::free(p); }

extern "C" {
__attribute__((weak)) std::int64_t
sx_clock()
{
    static std::int64_t t = 1000000000;
    return t;
}
void
sx_make(void* p, std::size_t n, char const* name)
{
    auto* b = static_cast<unsigned char*>(p);
    if (n <= 8) {
        unsigned long long v = take(name);
        std::memcpy(p, &v, n);
    } else
        for (std::size_t i = 0; i < n; i++) b[i] = (unsigned char)take(name);
}
std::uint64_t sx_bits(unsigned n, char const* name) { return take(name) & ((1ull << n) - 1); }
void sx_assume_(int c) { if (!c) finish(43); }
void
sx_assert_(int c, char const* label)
{
    trace += digest(std::string("A") + label);
    if (!c) {
        std::printf("ASSERT %s\n", label);
        finish(42);
    }
}
void sx_cover(char const* label) { trace += digest(std::string("C") + label); }
void sx_note(char const* label, std::uint64_t v)
{
    std::printf("NOTE %s=%llu\n", label, (unsigned long long)v);
    trace += digest(std::string("N") + label + "=" + std::to_string(v));
}
std::uint64_t sx_concretize(std::uint64_t v) { return v; }
std::uint32_t
sx_choice(std::uint64_t n, char const* name)
{
    auto v = take(name);
    return v < n ? (std::uint32_t)v : 0;
}
std::uint64_t sx_live_heap() { return live; }
void sx_stop() { finish(0); }
void sx_limit(char const*) { finish(44); }
int sx_symbolic() { return 0; }
std::uint64_t sx_object_size(void const* p) { return malloc_usable_size(const_cast<void*>(p)); }
void sx_drain() { std::this_thread::sleep_for(std::chrono::milliseconds(200)); }
std::uint64_t
sx_thread_create(void (*f)(void*), void* arg)
{
    std::lock_guard l(mx);
    if (!threads) { threads = new std::vector<std::thread>; done = new std::vector<std::atomic<bool>*>; }
    int id = (int)threads->size() + 1;
    auto* d = new std::atomic<bool>(false);
    done->push_back(d);
    threads->push_back(std::thread([=] { self = id; f(arg); *d = true; }));
    return id;
}
void sx_thread_join(std::uint64_t id) { (*threads)[id - 1].join(); }
int sx_thread_done(std::uint64_t id) { return (*done)[id - 1]->load(); }
int sx_self() { return self; }
std::uint64_t
sx_tick()
{
    static std::atomic<std::uint64_t> n{0};
    return ++n;
}
std::uint64_t sx_moment() { return sx_tick(); }
void sx_yield() { std::this_thread::yield(); }
}
namespace std::chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(sx_clock())); }
}
}
int
main(int argc, char** argv)
{
    if (argc > 1) {
        std::ifstream f(argv[1]);
        std::string   l;
        while (std::getline(f, l))
            if (auto p = l.rfind(' '); p != l.npos) vals[l.substr(0, p)] = std::strtoull(l.c_str() + p + 1, nullptr, 10);
    }
    sx_main();
    finish(0);
}
