// Threads that use one object at the same time: is there an order of the operations that explains all results?
#pragma once
#include "sx.h"

// when a call was made: it comes after every call that had ended when it began
struct span_of_call {
    std::uint64_t begin = 0, end = 0;
};

// State: copyable; bool apply(Op const&): makes the operation and tells whether the recorded result is the one it gives;
// bool done() : whether the state is the one found at the end. Op has a member `when`.
template <class State, class Op, int TT, int MM>
static bool
explained(Op const (&ops)[TT][MM], State const& now, int const (&done)[TT])
{
    bool any = false, end = true;
    for (int t = 0; t < TT; t++) {
        if (done[t] == MM) continue;
        end        = false;
        bool first = true;
        for (int k = 0; k < TT; k++) first &= done[k] == MM || ops[k][done[k]].when.end > ops[t][done[t]].when.begin;
        if (!first) continue;
        State nxt = now;
        bool  fit = nxt.apply(ops[t][done[t]]);
        int   d[TT];
        for (int k = 0; k < TT; k++) d[k] = done[k] + (k == t);
        any |= fit & explained(ops, nxt, d);
    }
    return end ? now.done() : any;
}
template <class State, class Op, int TT, int MM>
static bool
explained(Op const (&ops)[TT][MM], State const& start)
{
    int const none[TT]{};
    return explained(ops, start, none);
}
