// O07: a dynamic observable used by several threads at the same time, with its locks compiled in (as on a platform
// that defines PTHREAD_MUTEX_DEFAULT as a macro). THREADS, M: calls per thread, N: observers, FILL of them subscribed first
#include "threads_common.h"
#include <cstdint>
#ifndef PTHREAD_MUTEX_DEFAULT
#define PTHREAD_MUTEX_DEFAULT PTHREAD_MUTEX_DEFAULT
#endif
#include <xitren/comm/observer.hpp>
#ifndef THREADS
#define THREADS 2
#endif
#ifndef M
#define M 2
#endif
#ifndef N
#define N 2
#endif
#ifndef FILL
#define FILL 1
#endif
#ifndef KINDS
#define KINDS 4
#endif
using namespace xitren::comm;

enum kind { add, remove_, notify, clear };
struct call {
    int           what, who;
    bool          refused;
    std::uint32_t message;
    unsigned      order[2 * N], n;    // the observers told, in order
    bool          intact;
    span_of_call  when;
    std::uint64_t told_at[2 * N];
};
static call                                calls[THREADS][M], final_call;
static call*                               current[THREADS];
static observable_dynamic<std::uint32_t>*  source;

struct seen : observer<std::uint32_t> {
    unsigned number = 0;
    void
    record(void const* src, bool same)
    {
        unsigned const t = static_cast<unsigned>(sx_self());
        SX_ASSERT(t < THREADS && current[t] != nullptr, "observers are called by the thread that notifies or clears");
        call& c = *current[t];
        SX_ASSERT(c.n < 2 * N, "an observer is called once");
        c.told_at[c.n]   = sx_moment();
        c.order[c.n++] = number;
        c.intact &= same & (src == source);
    }
    void data(void const* src, std::uint32_t const& m) override { record(src, (current[sx_self()]->what == notify) & (m == current[sx_self()]->message)); }
    void disconnect(void const* src) override { record(src, current[sx_self()]->what == clear); }
};
static seen observers[N];

struct model {
    unsigned list[N], n = 0;
    bool
    apply(call const& c)
    {
        unsigned at = 0;
        while (at < n && list[at] != static_cast<unsigned>(c.who)) at++;
        bool const there = at < n;
        bool       ok    = c.intact;
        switch (c.what) {
        case add:
            ok &= c.refused == there && c.n == 0;
            if (!there) list[n++] = static_cast<unsigned>(c.who);
            return ok;
        case remove_:
            ok &= c.refused == !there && c.n == 0;
            if (there) {
                for (n--; at < n; at++) list[at] = list[at + 1];
            }
            return ok;
        default:
            ok &= c.n == n && !c.refused;
            for (unsigned k = 0; k < n && k < c.n; k++) ok &= c.order[k] == list[k];
            if (c.what == clear) n = 0;
            return ok;
        }
    }
    bool
    done() const
    {
        model m = *this;
        return m.apply(final_call);
    }
};

static void
make(call& c)
{
    auto& now = current[sx_self()];
    now       = &c;
    c.intact  = true;
    c.when.begin = sx_moment();
    try {
        switch (c.what) {
        case add: source->add_observer(observers[c.who]); break;
        case remove_: source->remove_observer(observers[c.who]); break;
        case notify: source->notify_observers(c.message); break;
        default: source->clear_observers();
        }
    } catch (observable_dynamic<std::uint32_t>::exception const& e) {
        c.refused = true;
        SX_ASSERT(e.error == (c.what == add ? observer_errors::already_contains : observer_errors::not_found), "the refusal names its reason");
    }
    c.when.end = sx_tick();
    now = nullptr;
}

// whether `who` may be subscribed at time `at`: every removal of it that had returned by then may have been followed by an add
static bool
may_be_called(unsigned who, std::uint64_t at)
{
    bool ok = true;
    for (auto& thread : calls)
        for (auto& r : thread) {
            bool const removed = (r.what == clear) | ((r.what == remove_) & (r.who == static_cast<int>(who)) & !r.refused);
            if (!removed || r.when.end > at) continue;
            bool again = false;
            for (auto& others : calls)
                for (auto& a : others) again |= (a.what == add) & (a.who == static_cast<int>(who)) & (a.when.end > r.when.begin) & (a.when.begin < at);
            ok &= again;
        }
    return ok;
}

static void
work(void* p)
{
    for (auto& c : calls[reinterpret_cast<std::intptr_t>(p)]) make(c);
}

extern "C" void
sx_main()
{
    {
        observable_dynamic<std::uint32_t> x;
        source = &x;
        model m;
        for (int k = 0; k < N; k++) observers[k].number = static_cast<unsigned>(k);
        for (int k = 0; k < FILL; k++) {
            call c{};
            c.what = add;
            c.who  = k;
            make(c);
            SX_ASSERT(m.apply(c), "subscribed");
        }
        for (auto& thread : calls)
            for (auto& c : thread) {
                c.what = static_cast<int>(sx_choice(KINDS, "call"));
                if (c.what < notify) c.who = static_cast<int>(sx_choice(N, "observer"));
                if (c.what == notify) c.message = sx_sym<std::uint32_t>("message");
            }
        std::uint64_t id[THREADS];
        for (std::intptr_t t = 1; t < THREADS; t++) id[t] = sx_thread_create(work, reinterpret_cast<void*>(t));
        work(nullptr);
        for (int t = 1; t < THREADS; t++) sx_thread_join(id[t]);
        final_call.what    = notify;
        final_call.message = sx_sym<std::uint32_t>("message");
        make(final_call);
        for (auto& thread : calls)
            for (auto& c : thread)
                for (unsigned k = 0; k < c.n; k++) SX_ASSERT(may_be_called(c.order[k], c.told_at[k]), "an observer is not called once its removal has returned");
        SX_ASSERT(explained(calls, m), "the results and the notifications are those of the calls made one after the other");
        sx_cover("done");
        final_call      = {};
        final_call.what = clear;
        current[0]      = &final_call;    // the destructor disconnects
    }
}
