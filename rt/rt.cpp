// Models of the out-of-line parts of libstdc++ / libc that the harnesses need, compiled to LLVM bitcode and
// linked with every harness.  Everything that lives in headers is executed from the headers themselves.
#include "sx.h"
#include <cerrno>
#include <chrono>
#include <condition_variable>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <list>
#include <map>
#include <mutex>
#include <new>
#include <optional>
#include <set>
#include <stdexcept>
#include <string>
#include <system_error>
#include <thread>
#include <typeinfo>
#include <unordered_map>
#include <variant>

// ---------------------------------------------------------------- libc
extern "C" {
__attribute__((weak)) int
sx_real_buckets()
{
    return 0;
}
__attribute__((weak)) std::int64_t
sx_clock()
{
    static std::int64_t t = 1000000000;
    return t;
}
std::size_t
strlen(char const* s) noexcept
{
    std::size_t n = 0;
    while (s[n]) n++;
    return n;
}
int
memcmp(void const* a, void const* b, std::size_t n) noexcept
{
    auto* x = static_cast<unsigned char const*>(a);
    auto* y = static_cast<unsigned char const*>(b);
    for (std::size_t i = 0; i < n; i++)
        if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
    return 0;
}
int
bcmp(void const* a, void const* b, std::size_t n) noexcept
{
    return memcmp(a, b, n);
}
int
strcmp(char const* a, char const* b) noexcept
{
    for (;; a++, b++) {
        unsigned char x = *a, y = *b;
        if (x != y) return x < y ? -1 : 1;
        if (!x) return 0;
    }
}
int
strncmp(char const* a, char const* b, std::size_t n) noexcept
{
    for (; n; a++, b++, n--) {
        unsigned char x = *a, y = *b;
        if (x != y) return x < y ? -1 : 1;
        if (!x) return 0;
    }
    return 0;
}
static inline bool
sp(char c)
{
    return c == ' ' || (c >= '\t' && c <= '\r');
}
long
strtol(char const* s, char** end, int base) noexcept
{
    char const* p = s;
    while (sp(*p)) p++;
    bool neg = false;
    if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X')) { base = 16; p += 2; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long v = 0, lim = neg ? 1ul << 63 : (1ul << 63) - 1;
    bool any = false, over = false;
    for (;; p++) {
        int d;
        char c = *p;
        if (c >= '0' && c <= '9') d = c - '0';
        else if (c >= 'a' && c <= 'z') d = c - 'a' + 10;
        else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10;
        else break;
        if (d >= base) break;
        any = true;
        if (v > (lim - d) / base) over = true;
        if (!over) v = v * base + d;
    }
    if (end) *end = const_cast<char*>(any ? p : s);
    if (over) { errno = ERANGE; return neg ? -__LONG_MAX__ - 1 : __LONG_MAX__; }
    return neg ? (long)(0 - v) : (long)v;
}
long long
strtoll(char const* s, char** end, int base) noexcept
{
    return strtol(s, end, base);
}
unsigned long
strtoul(char const* s, char** end, int base) noexcept
{
    return (unsigned long)strtol(s, end, base);
}
// decimal numbers with at most 15 significant digits and a small exponent: the quotient / product of two exactly
// representable numbers is the correctly rounded value
double
strtod(char const* s, char** end) noexcept
{
    char const* p = s;
    while (sp(*p)) p++;
    bool neg = false;
    if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
    std::int64_t m = 0;
    double den = 1;
    bool any = false;
    for (; *p >= '0' && *p <= '9'; p++) { m = m * 10 + (*p - '0'); any = true; }
    if (*p == '.' && (any || (p[1] >= '0' && p[1] <= '9'))) {
        p++;
        for (; *p >= '0' && *p <= '9'; p++) { m = m * 10 + (*p - '0'); den *= 10; any = true; }
    }
    if (any && (*p == 'e' || *p == 'E')) {
        char const* q = p + 1;
        bool en = false;
        if (*q == '-' || *q == '+') { en = *q == '-'; q++; }
        if (*q >= '0' && *q <= '9') {
            int e = 0;
            for (; *q >= '0' && *q <= '9'; q++) e = e * 10 + (*q - '0');
            double num = 1;
            for (int i = 0; i < e; i++) { if (en) den *= 10; else num *= 10; }
            p = q;
            if (end) *end = const_cast<char*>(p);
            double v = (double)m * num / den;
            return neg ? -v : v;
        }
    }
    if (end) *end = const_cast<char*>(any ? p : s);
    double v = (double)m / den;
    return neg ? -v : v;
}
float
strtof(char const* s, char** end) noexcept
{
    return (float)strtod(s, end);
}
int
isspace(int c) noexcept
{
    return sp((char)c);
}
int
isdigit(int c) noexcept
{
    return c >= '0' && c <= '9';
}
void const*
sx_memchr(void const* p, int c, std::size_t n)
{
    auto* s = static_cast<unsigned char const*>(p);
    for (std::size_t i = 0; i < n; i++)
        if (s[i] == (unsigned char)c) return s + i;
    return nullptr;
}
}
extern "C" void* sx_memchr_alias(void const*, int, std::size_t) __asm__("memchr");
extern "C" void*
sx_memchr_alias(void const* p, int c, std::size_t n)
{
    return const_cast<void*>(sx_memchr(p, c, n));
}

// ---------------------------------------------------------------- exceptions
namespace std {
exception::~exception() noexcept {}
char const* exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
char const* bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
char const* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
char const* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
char const* bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
char const* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
char const* bad_function_call::what() const noexcept { return "bad_function_call"; }

__cow_string::__cow_string() : _M_p("") {}
static char const*
dup(char const* s, size_t n)
{
    char* p = (char*)__builtin_malloc(n + 1);
    for (size_t i = 0; i < n; i++) p[i] = s[i];
    p[n] = 0;
    return p;
}
__cow_string::__cow_string(string const& s) : _M_p(dup(s.data(), s.size())) {}
__cow_string::__cow_string(char const* s, size_t n) : _M_p(dup(s, n)) {}
__cow_string::__cow_string(__cow_string const& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(__cow_string const& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string&& o) noexcept : _M_p(o._M_p) {}
__cow_string& __cow_string::operator=(__cow_string&& o) noexcept { _M_p = o._M_p; return *this; }

logic_error::logic_error(string const& s) : _M_msg(s) {}
logic_error::logic_error(char const* s) : _M_msg(s, strlen(s)) {}
logic_error::logic_error(logic_error const& o) noexcept : exception(o), _M_msg(o._M_msg) {}
logic_error::~logic_error() noexcept {}
char const* logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(string const& s) : _M_msg(s) {}
runtime_error::runtime_error(char const* s) : _M_msg(s, strlen(s)) {}
runtime_error::runtime_error(runtime_error const& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::~runtime_error() noexcept {}
char const* runtime_error::what() const noexcept { return _M_msg._M_p; }
#define DERIVED(D, B)                                   \
    D::D(string const& s) : B(s) {}                     \
    D::D(char const* s) : B(s) {}                       \
    D::~D() noexcept {}
DERIVED(domain_error, logic_error)
DERIVED(invalid_argument, logic_error)
DERIVED(length_error, logic_error)
DERIVED(out_of_range, logic_error)
DERIVED(range_error, runtime_error)
DERIVED(overflow_error, runtime_error)
DERIVED(underflow_error, runtime_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(char const* s) { throw logic_error(s); }
void __throw_domain_error(char const* s) { throw domain_error(s); }
void __throw_invalid_argument(char const* s) { throw invalid_argument(s); }
void __throw_length_error(char const* s) { throw length_error(s); }
void __throw_out_of_range(char const* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(char const* s, ...) { throw out_of_range(s); }
void __throw_runtime_error(char const* s) { throw runtime_error(s); }
void __throw_range_error(char const* s) { throw range_error(s); }
void __throw_overflow_error(char const* s) { throw overflow_error(s); }
void __throw_underflow_error(char const* s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
nothrow_t const nothrow{};

// ---------------------------------------------------------------- lists
namespace __detail {
void
_List_node_base::_M_hook(_List_node_base* const p) noexcept
{
    _M_next         = p;
    _M_prev         = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev      = this;
}
void
_List_node_base::_M_unhook() noexcept
{
    auto* n = _M_next;
    auto* p = _M_prev;
    p->_M_next = n;
    n->_M_prev = p;
}
void
_List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept
{
    if (this == last) return;
    last->_M_prev->_M_next  = this;
    first->_M_prev->_M_next = last;
    _M_prev->_M_next        = first;
    auto* tmp      = _M_prev;
    _M_prev        = last->_M_prev;
    last->_M_prev  = first->_M_prev;
    first->_M_prev = tmp;
}
void
_List_node_base::_M_reverse() noexcept
{
    auto* t = this;
    do {
        std::swap(t->_M_next, t->_M_prev);
        t = t->_M_prev;
    } while (t != this);
}
void
_List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept
{
    if (x._M_next != &x) {
        if (y._M_next != &y) {
            std::swap(x._M_next, y._M_next);
            std::swap(x._M_prev, y._M_prev);
            x._M_next->_M_prev = x._M_prev->_M_next = &x;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
        } else {
            y._M_next = x._M_next;
            y._M_prev = x._M_prev;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
            x._M_next = x._M_prev = &x;
        }
    } else if (y._M_next != &y) {
        x._M_next = y._M_next;
        x._M_prev = y._M_prev;
        x._M_next->_M_prev = x._M_prev->_M_next = &x;
        y._M_next = y._M_prev = &y;
    }
}
// hashing: one bucket only, so that keys are told apart by operator== alone; with sx_real_buckets the buckets of libstdc++
// (at a load factor of 1)
static unsigned const primes[] = {17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949, 7517, 8123, 8783, 9497, 10273, 11113, 12011, 12983, 14033, 15173, 16411, 17749, 19183, 20753, 22447, 24281, 26267, 28411, 30727, 33223, 35933, 38873, 42043, 45481, 49201, 53201, 57557, 62233, 67307, 72817, 78779, 85229, 92203, 99733, 107897, 116731, 126271, 136607, 147793, 159871, 172933, 187091, 202409, 218971, 236897, 256279, 277261, 299951, 324503, 351061, 379787, 410857, 444487, 480881, 520241, 562841, 608903, 658753, 712697, 771049, 834181, 902483, 976369, 1056323, 1142821, 1236397, 1337629, 1447153, 1565659, 1693859, 1832561, 1982627, 2144977, 2320627, 2510653, 2716249, 2938679, 3179303};
size_t
_Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    if (!sx_real_buckets()) {
        _M_next_resize = ~size_t(0);
        return 1;
    }
    static unsigned char const small[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
    if (n == 0) return 1;
    size_t r = n < sizeof small ? small[n] : 0;
    for (auto p = primes; !r; p++)
        if (*p >= n) r = *p;
    _M_next_resize = r;
    return r;
}
pair<bool, size_t>
_Prime_rehash_policy::_M_need_rehash(size_t buckets, size_t elements, size_t more) const
{
    if (!sx_real_buckets() || elements + more <= _M_next_resize) return {false, 0};
    size_t want = elements + more;
    if (!_M_next_resize && want < 11) want = 11;
    if (want >= buckets) return {true, _M_next_bkt(want + 1 > buckets * 2 ? want + 1 : buckets * 2)};
    _M_next_resize = buckets;
    return {false, 0};
}
}    // namespace __detail
size_t
_Hash_bytes(void const* p, size_t n, size_t seed)
{
    auto*  s = static_cast<unsigned char const*>(p);
    size_t h = 14695981039346656037ull ^ seed;
    for (size_t i = 0; i < n; i++) h = (h ^ s[i]) * 1099511628211ull;
    return h;
}

// ---------------------------------------------------------------- trees (unbalanced: only the order is observable)
static _Rb_tree_node_base*
inc(_Rb_tree_node_base* x)
{
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
    } else {
        auto* y = x->_M_parent;
        while (x == y->_M_right) {
            x = y;
            y = y->_M_parent;
        }
        if (x->_M_right != y) x = y;
    }
    return x;
}
static _Rb_tree_node_base*
dec(_Rb_tree_node_base* x)
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;    // header
    if (x->_M_left) {
        x = x->_M_left;
        while (x->_M_right) x = x->_M_right;
    } else {
        auto* y = x->_M_parent;
        while (x == y->_M_left) {
            x = y;
            y = y->_M_parent;
        }
        x = y;
    }
    return x;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { return inc(x); }
_Rb_tree_node_base const* _Rb_tree_increment(_Rb_tree_node_base const* x) noexcept { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { return dec(x); }
_Rb_tree_node_base const* _Rb_tree_decrement(_Rb_tree_node_base const* x) noexcept { return dec(const_cast<_Rb_tree_node_base*>(x)); }
void
_Rb_tree_insert_and_rebalance(bool const left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept
{
    x->_M_parent = p;
    x->_M_left = x->_M_right = nullptr;
    x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;    // also makes leftmost = x when p == &h
        if (p == &h) {
            h._M_parent = x;
            h._M_right  = x;
        } else if (p == h._M_left)
            h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base*
_Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept
{
    auto*& root = h._M_parent;
    auto* succ = inc(z);
    auto* pred = z == h._M_left ? nullptr : dec(z);
    bool wasL = z == h._M_left, wasR = z == h._M_right;
    auto replace = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) {
        if (root == a) root = b;
        else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b;
        else a->_M_parent->_M_right = b;
        if (b) b->_M_parent = a->_M_parent;
    };
    if (!z->_M_left) replace(z, z->_M_right);
    else if (!z->_M_right) replace(z, z->_M_left);
    else {
        auto* y = succ;
        if (y->_M_parent != z) {
            replace(y, y->_M_right);
            y->_M_right            = z->_M_right;
            y->_M_right->_M_parent = y;
        }
        replace(z, y);
        y->_M_left            = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    if (!root) h._M_left = h._M_right = &h;
    else {
        if (wasL) h._M_left = succ;
        if (wasR) h._M_right = pred;
    }
    return z;
}

// ---------------------------------------------------------------- threads
thread::_State::~_State() = default;
void
thread::_M_start_thread(_State_ptr s, void (*)())
{
    // native handles are 1-based so that a default-constructed id is "no thread"
    void (*entry)(void*) = [](void* p) {
        _State_ptr q(static_cast<_State*>(p));
        q->_M_run();
    };
    std::uint64_t tid = sx_thread_create(entry, s.release());
    _M_id = thread::id(static_cast<native_handle_type>(tid + 1));
}
void
thread::join()
{
    if (_M_id == id()) __throw_system_error(EINVAL);
    std::uint64_t n = 0;
    __builtin_memcpy(&n, &_M_id, sizeof(_M_id));
    sx_thread_join(n - 1);
    _M_id = id();
}
void
thread::detach()
{
    if (_M_id == id()) __throw_system_error(EINVAL);
    _M_id = id();
}
unsigned int thread::hardware_concurrency() noexcept { return 2; }
condition_variable::condition_variable() noexcept = default;
condition_variable::~condition_variable() noexcept = default;
void condition_variable::wait(unique_lock<mutex>& l) { pthread_cond_wait(native_handle(), l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal(native_handle()); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast(native_handle()); }
namespace this_thread {
void
__sleep_for(chrono::seconds, chrono::nanoseconds)
{
    sx_yield();
}
}    // namespace this_thread

// ---------------------------------------------------------------- clocks
namespace chrono {
inline namespace _V2 {
system_clock::time_point system_clock::now() noexcept { return time_point(duration(sx_clock())); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(sx_clock())); }
}    // namespace _V2
}    // namespace chrono
}    // namespace std
// the type_info objects of the fundamental types: the compiler emits them with this function
namespace __cxxabiv1 {
class __fundamental_type_info : public std::type_info {
public:
    explicit __fundamental_type_info(char const* n) : std::type_info(n) {}
    virtual ~__fundamental_type_info();
};
__fundamental_type_info::~__fundamental_type_info() {}
}    // namespace __cxxabiv1
