// Machine state of the symbolic executor.
#pragma once
#include "expr.hpp"
#include "solver.hpp"
#include <array>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/IntrinsicsX86.h>
#include <llvm/IR/Module.h>

constexpr int MAXT = 12;    // threads per path
using VC = std::array<uint32_t, MAXT>;
inline VC  vc0() { VC v{}; return v; }
inline void vcJoin(VC& a, VC const& b) { for (int i = 0; i < MAXT; i++) a[i] = std::max(a[i], b[i]); }

struct Val {
    E                                 e = nullptr;
    std::shared_ptr<std::vector<Val>> agg;
};

struct RaceCell {
    uint32_t off, size;
    VC       r{}, w{}, ar{}, aw{};    // last plain read / write, atomic read / write per thread
};

enum Kind : uint8_t { KGlobal, KStack, KHeap };

struct Obj {
    uint64_t           base = 0, size = 0;
    Kind               kind = KGlobal;
    bool               ro = false, dead = false, shared = false;
    int                owner = 0;    // thread owning a stack object
    std::string const* name = nullptr;
    std::vector<E>     b;
    std::vector<RaceCell> race;
    mutable uint64_t   hash = 0;
    mutable bool       hashOk = false;
};
using ObjP = std::shared_ptr<Obj>;

struct KFunc;
struct Opnd { int32_t i; };    // >= 0: register, < 0: constant ~i

struct KInst {
    llvm::Instruction const* I = nullptr;
    unsigned                 op = 0;
    int                      dest = -1;
    std::vector<int>         ops;
    KFunc*                   callee = nullptr;
    int                      builtin = -1;
    // gep
    int64_t                              gepConst = 0;
    std::vector<std::pair<int, int64_t>> gepVar;
    // branches
    std::vector<int> succ;         // target block index
    std::vector<char> backedge;
    bool sync = false;
    bool executed = false;
};

struct KBlock {
    int                    first = 0;
    llvm::BasicBlock const* bb = nullptr;
    int                    nphi = 0;
};

struct KFunc {
    llvm::Function*     f = nullptr;
    std::string         name;
    std::vector<KInst>  insts;
    std::vector<KBlock> blocks;
    std::map<llvm::BasicBlock const*, int> bidx;
    std::vector<Val>    consts;
    int                 nregs = 0, nargs = 0;
    bool                built = false, executed = false;
};

struct HeaderMark { int block; uint64_t fp, shared, disturbed; uint32_t visits; };

struct Frame {
    KFunc*                  f = nullptr;
    int                     pc = 0;
    int                     block = 0;
    std::vector<Val>        regs;
    std::vector<uint64_t>   allocas;
    std::vector<Val>        varargs;
    std::vector<HeaderMark> marks;
    bool                    isCtor = false;
};

enum class TS : uint8_t { Run, Mutex, Join, Futex, NoProgress, Cond, Drain, Done };

struct ExnCaught { uint64_t exc; };

struct Thread {
    int                id = 0;
    std::vector<Frame> st;
    TS                 status = TS::Run;
    uint64_t           waitAddr = 0, waitHash = 0;
    uint64_t           awayHash = 0, disturbed = 0;
    bool               granted = false, woken = false, atSync = false;
    int                condStage = 0;
    uint64_t           errnoAddr = 0;
    VC                 vc{}, relFence{}, acqPending{};
    bool               hasRelFence = false;
    std::vector<uint64_t> caught;
    int                uncaught = 0;
    std::map<llvm::GlobalVariable const*, uint64_t> tls;
};

struct ExnInfo { uint64_t tinfo = 0, dtor = 0, adjusted = 0; int handlers = 0; bool rethrown = false; };

struct MutexSt { int owner = -1; int count = 0; };

struct Note { std::string const* label; E e; };

struct State {
    std::vector<ObjP>       objs;    // ascending base
    std::vector<Thread>     th;
    int                     cur = 0;
    bool                    mt = false;
    std::vector<E>          cs;
    Model                   model;
    std::unordered_map<E, APInt> known;
    std::vector<uint32_t>   symCount;
    std::vector<uint32_t>   made;    // the symbols created on this path
    uint64_t                nextBase = 0;
    uint64_t                steps = 0, switches = 0;
    int                     preempt = 0;
    std::map<uint64_t, MutexSt> mutexes;
    std::map<uint64_t, VC>      hb;
    std::map<uint64_t, ExnInfo> exns;
    std::vector<Note>           notes;
    std::vector<uint8_t>        sched;
    uint64_t                    heapLive = 0, ticks = 0;
    int                         freed = 0;    // freed objects still in objs
    int                         depth = 0;
    uint64_t                    trace = 0;    // order-independent digest of the assertions and covers reached
    uint64_t                    counters[16] = {};
};
