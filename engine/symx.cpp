// symx: bounded symbolic execution of LLVM IR with Z3.
// See /verif/DESIGN.md, section "Engine".
#include "state.hpp"
#include <cxxabi.h>
#include <fcntl.h>
#include <fstream>
#include <functional>
#include <iostream>
#include <llvm/Analysis/CFG.h>
#include <llvm/IR/DebugLoc.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <sstream>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace llvm;
using std::string;
using std::vector;

struct Options {
    string   in, out, entry = "sx_main", decisions;
    uint64_t maxSteps = 200000000;    // per path
    uint64_t maxPaths = 100000000;
    double   maxTime = 600;
    int      preempt = 2;
    bool     delay = false;
    int      jobs = 1;
    int      maxViol = 1;
    bool     verbose = false, trace = false, checkAlign = false;
    uint64_t solverMs = 60000;
    string   dump;
    uint64_t dumpMax = 0, seed = 1, audit = 400;
    int      samples = 4;
    std::map<string, uint64_t> fix;    // concrete replay: symbol name -> value
    bool     concrete = false;
    vector<uint8_t> sched;
    string   schedStr;
} opt;

struct Kill {};          // end of path
struct Resched {};       // another thread was scheduled; instruction will be re-executed

struct Violation {
    string kind, label, where, detail;
    vector<std::pair<string, string>> model;
    vector<std::pair<string, string>> notes;
    vector<uint8_t> sched;
    bool symThreads = false, usesUninit = false;
};

struct Stats {
    uint64_t paths = 0, pathsAssumed = 0, steps = 0, forks = 0, asserts = 0, assertsSolver = 0, schedPoints = 0,
             switches = 0, assumes = 0, maxDepth = 0, limitHits = 0, accesses = 0, races = 0;
};

static double now()
{
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}

struct Engine {
    LLVMContext              ctx;
    std::unique_ptr<Module>  M;
    DataLayout const*        DL = nullptr;
    bool                     be = false;
    unsigned                 PW = 64;
    Solver                   sol;
    Stats                    st;
    vector<std::unique_ptr<State>> work;
    State*                   s = nullptr;
    E                        UNINIT;
    E                        byteC[256];
    std::map<string, uint64_t> covers, reached, discharged;
    struct Sample { vector<std::pair<string, string>> model; uint64_t trace; bool threads; };
    vector<Sample>           samples;
    uint64_t                 sampleSeen = 0, rng = 1;
    vector<Violation>        viol;
    std::set<string>         violKeys;
    bool                     incomplete = false;
    string                   incompleteWhy;
    std::map<string, uint64_t> unsupported;
    double                   t0 = now();

    [[noreturn]] void fatal(string const& m)
    {
        std::cerr << "symx: fatal: " << m << "\n";
        if (s && !s->th.empty()) std::cerr << where() << "\n";
        std::ofstream o(opt.out);
        o << "{\"status\":\"error\",\"error\":" << js(m + " at " + (s ? where() : string())) << "}\n";
        o.close();
        _exit(3);
    }
    static string js(string const& x)
    {
        string r = "\"";
        for (unsigned char c : x) {
            if (c == '"' || c == '\\') { r += '\\'; r += c; }
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
            else r += c;
        }
        return r + "\"";
    }

    // ------------------------------------------------------------------ module setup
    std::map<GlobalVariable const*, uint64_t> gaddr;
    std::map<Function const*, uint64_t>       faddr;
    std::map<uint64_t, Function*>             addrF;
    std::map<uint64_t, GlobalVariable*>       addrG;
    std::unordered_map<Function const*, std::unique_ptr<KFunc>> kf;
    std::unordered_map<string, int>           symIds;
    vector<string>                            symNames;
    std::set<string>                          internTab;
    string const* intern(string const& x) { return &*internTab.insert(x).first; }

    unsigned tw(Type* t)
    {
        if (t->isIntegerTy()) return t->getIntegerBitWidth();
        if (t->isPointerTy()) return PW;
        if (t->isFloatTy()) return 32;
        if (t->isDoubleTy()) return 64;
        if (t->isX86_FP80Ty()) return 80;
        fatal("unsupported type");
    }
    bool isAgg(Type* t) { return t->isStructTy() || t->isArrayTy() || t->isVectorTy(); }
    unsigned nelem(Type* t)
    {
        if (auto* st = dyn_cast<StructType>(t)) return st->getNumElements();
        if (auto* at = dyn_cast<ArrayType>(t)) return at->getNumElements();
        return cast<FixedVectorType>(t)->getNumElements();
    }
    Type* elemTy(Type* t, unsigned i)
    {
        if (auto* st = dyn_cast<StructType>(t)) return st->getElementType(i);
        if (auto* at = dyn_cast<ArrayType>(t)) return at->getElementType();
        return cast<FixedVectorType>(t)->getElementType();
    }
    uint64_t elemOff(Type* t, unsigned i)
    {
        if (auto* st = dyn_cast<StructType>(t)) return DL->getStructLayout(st)->getElementOffset(i);
        return DL->getTypeAllocSize(elemTy(t, 0)) * i;
    }
    Val zeroVal(Type* t)
    {
        Val v;
        if (isAgg(t)) {
            v.agg = std::make_shared<vector<Val>>();
            for (unsigned i = 0; i < nelem(t); i++) v.agg->push_back(zeroVal(elemTy(t, i)));
        } else
            v.e = X.c(tw(t), 0);
        return v;
    }
    Val mkv(E e) { Val v; v.e = e; return v; }
    // undef / poison: an arbitrary value, the same for every use of one width
    Val undefVal(Type* t)
    {
        Val v;
        if (isAgg(t)) {
            v.agg = std::make_shared<vector<Val>>();
            for (unsigned i = 0; i < nelem(t); i++) v.agg->push_back(undefVal(elemTy(t, i)));
        } else {
            string n = "uninit_undef#" + std::to_string(tw(t));
            auto   f = opt.fix.find(n);
            v.e = opt.concrete ? X.c(tw(t), f == opt.fix.end() ? 0 : f->second) : X.sym(n, tw(t));
        }
        return v;
    }

    Val evalConst(Constant const* c)
    {
        Type* t = c->getType();
        if (auto* ci = dyn_cast<ConstantInt>(c)) return mkv(X.c(ci->getValue()));
        if (auto* cf = dyn_cast<ConstantFP>(c)) return mkv(X.c(cf->getValueAPF().bitcastToAPInt()));
        if (isa<ConstantPointerNull>(c)) return mkv(X.c(PW, 0));
        if (isa<UndefValue>(c)) return undefVal(t);
        if (isa<ConstantAggregateZero>(c)) return zeroVal(t);
        if (auto* g = dyn_cast<GlobalVariable>(c)) return mkv(X.c(PW, gaddr.at(g)));
        if (auto* f = dyn_cast<Function>(c)) return mkv(X.c(PW, faddr.at(f)));
        if (auto* a = dyn_cast<GlobalAlias>(c)) return evalConst(a->getAliasee());
        if (auto* ca = dyn_cast<ConstantAggregate>(c)) {
            Val v;
            v.agg = std::make_shared<vector<Val>>();
            for (unsigned i = 0; i < ca->getNumOperands(); i++) v.agg->push_back(evalConst(ca->getOperand(i)));
            return v;
        }
        if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
            Val v;
            v.agg = std::make_shared<vector<Val>>();
            for (unsigned i = 0; i < cd->getNumElements(); i++) v.agg->push_back(evalConst(cd->getElementAsConstant(i)));
            return v;
        }
        if (auto* ce = dyn_cast<ConstantExpr>(c)) {
            auto op = [&](unsigned i) { return evalConst(ce->getOperand(i)).e; };
            switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                APInt off(64, 0);
                if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) fatal("constant gep");
                return mkv(X.add(op(0), X.c(off.sextOrTrunc(PW))));
            }
            case Instruction::BitCast: case Instruction::AddrSpaceCast: return mkv(op(0));
            case Instruction::IntToPtr: case Instruction::PtrToInt: return mkv(resize(op(0), tw(t)));
            case Instruction::Trunc: return mkv(X.extract(op(0), 0, tw(t)));
            case Instruction::Add: return mkv(X.add(op(0), op(1)));
            case Instruction::Sub: return mkv(X.sub(op(0), op(1)));
            case Instruction::Mul: return mkv(X.mul(op(0), op(1)));
            case Instruction::Xor: return mkv(X.bxor(op(0), op(1)));
            case Instruction::Shl: return mkv(X.shl(op(0), op(1)));
            case Instruction::ICmp: return mkv(icmp((CmpInst::Predicate)ce->getPredicate(), op(0), op(1)));
            default: fatal("constant expression");
            }
        }
        fatal("constant kind");
    }
    E resize(E e, unsigned w) { return e->w == w ? e : e->w > w ? X.extract(e, 0, w) : X.zext(e, w); }

    E icmp(CmpInst::Predicate p, E a, E b)
    {
        switch (p) {
        case CmpInst::ICMP_EQ: return X.eq(a, b);
        case CmpInst::ICMP_NE: return X.lnot(X.eq(a, b));
        case CmpInst::ICMP_ULT: return X.ult(a, b);
        case CmpInst::ICMP_ULE: return X.ule(a, b);
        case CmpInst::ICMP_UGT: return X.ult(b, a);
        case CmpInst::ICMP_UGE: return X.ule(b, a);
        case CmpInst::ICMP_SLT: return X.slt(a, b);
        case CmpInst::ICMP_SLE: return X.sle(a, b);
        case CmpInst::ICMP_SGT: return X.slt(b, a);
        case CmpInst::ICMP_SGE: return X.sle(b, a);
        default: fatal("icmp predicate");
        }
    }
    E fcmp(CmpInst::Predicate p, E a, E b)
    {
        auto feq = [&](E x, E y) { return X.fop(FEQ, 1, x, y); };
        auto flt = [&](E x, E y) { return X.fop(FLT, 1, x, y); };
        auto fle = [&](E x, E y) { return X.fop(FLE, 1, x, y); };
        E uno = X.bor(X.lnot(feq(a, a)), X.lnot(feq(b, b)));
        switch (p) {
        case CmpInst::FCMP_FALSE: return X.bit(false);
        case CmpInst::FCMP_TRUE: return X.bit(true);
        case CmpInst::FCMP_OEQ: return feq(a, b);
        case CmpInst::FCMP_OGT: return flt(b, a);
        case CmpInst::FCMP_OGE: return fle(b, a);
        case CmpInst::FCMP_OLT: return flt(a, b);
        case CmpInst::FCMP_OLE: return fle(a, b);
        case CmpInst::FCMP_ONE: return X.band(X.lnot(uno), X.lnot(feq(a, b)));
        case CmpInst::FCMP_ORD: return X.lnot(uno);
        case CmpInst::FCMP_UNO: return uno;
        case CmpInst::FCMP_UEQ: return X.bor(uno, feq(a, b));
        case CmpInst::FCMP_UGT: return X.bor(uno, flt(b, a));
        case CmpInst::FCMP_UGE: return X.bor(uno, fle(b, a));
        case CmpInst::FCMP_ULT: return X.bor(uno, flt(a, b));
        case CmpInst::FCMP_ULE: return X.bor(uno, fle(a, b));
        case CmpInst::FCMP_UNE: return X.lnot(feq(a, b));
        default: fatal("fcmp");
        }
    }

    // ------------------------------------------------------------------ function decoding
    std::unordered_map<string, int> builtinIdx;
    using Handler = bool (Engine::*)(KInst&, vector<Val>&, Val&);
    vector<std::pair<string, Handler>> builtins;
    std::set<int> syncBuiltins;

    KFunc* getF(Function* f)
    {
        auto& p = kf[f];
        if (!p) { p = std::make_unique<KFunc>(); p->f = f; p->name = f->getName().str(); }
        return p.get();
    }
    void build(KFunc* k)
    {
        if (k->built) return;
        k->built = true;
        Function* f = k->f;
        std::unordered_map<Value const*, int> reg;
        int n = 0;
        for (auto& a : f->args()) reg[&a] = n++;
        k->nargs = n;
        int bi = 0;
        for (auto& bb : *f) {
            k->bidx[&bb] = bi++;
            for (auto& i : bb)
                if (!i.getType()->isVoidTy()) reg[&i] = n++;
        }
        k->nregs = n;
        SmallVector<std::pair<BasicBlock const*, BasicBlock const*>, 16> be_;
        FindFunctionBackedges(*f, be_);
        std::set<std::pair<BasicBlock const*, BasicBlock const*>> back(be_.begin(), be_.end());
        std::unordered_map<Constant const*, int> cidx;
        auto opnd = [&](Value const* v) -> int {
            if (auto* c = dyn_cast<Constant>(v)) {
                auto it = cidx.find(c);
                if (it != cidx.end()) return ~it->second;
                int i = (int)k->consts.size();
                k->consts.push_back(evalConst(c));
                cidx[c] = i;
                return ~i;
            }
            if (isa<InlineAsm>(v) || isa<MetadataAsValue>(v) || isa<BasicBlock>(v)) return INT32_MIN;
            return reg.at(v);
        };
        for (auto& bb : *f) {
            KBlock kb;
            kb.first = (int)k->insts.size();
            kb.bb = &bb;
            for (auto& i : bb) {
                KInst ki;
                ki.I = &i;
                ki.op = i.getOpcode();
                if (!i.getType()->isVoidTy()) ki.dest = reg[&i];
                if (isa<PHINode>(i)) kb.nphi++;
                if (auto* g = dyn_cast<GetElementPtrInst>(&i)) {
                    ki.ops.push_back(opnd(g->getPointerOperand()));
                    if (!g->getType()->isPointerTy()) fatal("vector gep");
                    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
                        Value* idx = it.getOperand();
                        if (StructType* sty = it.getStructTypeOrNull()) {
                            ki.gepConst += DL->getStructLayout(sty)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                            continue;
                        }
                        int64_t sz = DL->getTypeAllocSize(it.getIndexedType());
                        if (auto* c = dyn_cast<ConstantInt>(idx)) ki.gepConst += c->getSExtValue() * sz;
                        else ki.gepVar.push_back({opnd(idx), sz});
                    }
                } else if (auto* cb = dyn_cast<CallBase>(&i)) {
                    if (!isa<DbgInfoIntrinsic>(i)) {
                        for (auto& a : cb->args()) ki.ops.push_back(opnd(a.get()));
                        Function* cf = nullptr;
                        Value* cv = cb->getCalledOperand()->stripPointerCasts();
                        if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliaseeObject();
                        cf = dyn_cast<Function>(cv);
                        if (cf) {
                            ki.callee = getF(cf);
                            if (cf->isDeclaration()) {
                                auto it = builtinIdx.find(cf->getName().str());
                                if (it != builtinIdx.end()) {
                                    ki.builtin = it->second;
                                    ki.sync = syncBuiltins.count(it->second);
                                }
                            }
                        } else if (!isa<InlineAsm>(cb->getCalledOperand()))
                            ki.ops.push_back(opnd(cb->getCalledOperand()));
                    }
                } else if (!isa<PHINode>(i) && !isa<LandingPadInst>(i)) {
                    for (auto& o : i.operands()) ki.ops.push_back(opnd(o.get()));
                } else if (isa<PHINode>(i)) {
                    for (auto& o : i.operands()) ki.ops.push_back(opnd(o.get()));
                }
                for (unsigned q = 0; i.isTerminator() && q < i.getNumSuccessors(); q++) {
                    ki.succ.push_back(k->bidx[i.getSuccessor(q)]);
                    ki.backedge.push_back(back.count({&bb, i.getSuccessor(q)}));
                }
                if (auto* l = dyn_cast<LoadInst>(&i)) ki.sync = l->isAtomic();
                if (auto* l = dyn_cast<StoreInst>(&i)) ki.sync = l->isAtomic();
                if (isa<AtomicRMWInst>(i) || isa<AtomicCmpXchgInst>(i) || isa<FenceInst>(i)) ki.sync = true;
                k->insts.push_back(std::move(ki));
            }
            k->blocks.push_back(kb);
        }
    }

    // ------------------------------------------------------------------ helpers on the current state
    Thread& T() { return s->th[s->cur]; }
    Frame&  F() { return T().st.back(); }
    Val const& get(Frame& fr, int i)
    {
        if (i >= 0) return fr.regs[i];
        return fr.f->consts[~i];
    }
    E norm(E e)
    {
        if (e->isC()) return e;
        auto it = s->known.find(e);
        return it == s->known.end() ? e : X.c(it->second);
    }
    E ge(KInst& k, unsigned i)
    {
        E e = get(F(), k.ops[i]).e;
        return e;
    }
    void setReg(int d, Val v)
    {
        if (d >= 0) F().regs[d] = std::move(v);
    }

    static string demangle(string const& n)
    {
        int   st = 0;
        char* d = abi::__cxa_demangle(n.c_str(), nullptr, nullptr, &st);
        string r = st == 0 && d ? d : n;
        free(d);
        return r;
    }
    string loc(Instruction const* I)
    {
        if (auto dl = I->getDebugLoc()) {
            auto* sc = dl->getScope();
            string fn = sc ? sc->getFilename().str() : "?";
            return fn + ":" + std::to_string(dl.getLine());
        }
        return "?";
    }
    string where()
    {
        string r;
        if (s->th.empty()) return r;
        int n = 0;
        for (auto it = T().st.rbegin(); it != T().st.rend() && n < 12; ++it, ++n) {
            auto& I = it->f->insts[std::min<size_t>(it->pc, it->f->insts.size() - 1)];
            string d = demangle(it->f->name);
            if (d.size() > 140) d = d.substr(0, 140) + "...";
            r += (n ? " <- " : "") + d + " (" + loc(I.I) + ")";
        }
        return r;
    }
    // innermost frame located in the project
    string projectWhere()
    {
        for (auto it = T().st.rbegin(); it != T().st.rend(); ++it) {
            auto& I = it->f->insts[std::min<size_t>(it->pc, it->f->insts.size() - 1)];
            string l = loc(I.I);
            if (l.find("xitren/") != string::npos) return l;
        }
        return where();
    }

    void addC(E c)
    {
        if (c->isC()) return;
        if (c->op == AND && c->w == 1) { addC(c->a); addC(c->b); return; }
        if (s->known.count(c)) return;
        s->cs.push_back(c);
        s->known[c] = APInt(1, 1);
        E n = X.lnot(c);
        s->known[n] = APInt(1, 0);
        if (c->op == EQ && c->b->isC()) s->known[c->a] = c->b->v;
    }
    APInt evalM(E e)
    {
        Evaluator ev(s->model);
        return ev.eval(e);
    }
    std::map<string, uint64_t> forkSites;
    void push(std::unique_ptr<State> n)
    {
        if (opt.verbose) forkSites[where().substr(0, 150)]++;
        st.forks++;
        n->depth++;
        st.maxDepth = std::max<uint64_t>(st.maxDepth, n->depth);
        work.push_back(std::move(n));
    }
    void note_incomplete(string const& w) { incomplete = true; if (incompleteWhy.empty()) incompleteWhy = w; }

    bool decide(E c)
    {
        c = norm(c);
        if (c->isC()) return !c->v.isZero();
        bool  mv = !evalM(c).isZero();
        E     other = mv ? X.lnot(c) : c;
        E     mine = mv ? c : X.lnot(c);
        Model m = s->model;
        Sat   r = sol.check(s->cs, other, &m, true);
        if (r == Sat::Yes) {
            auto n = std::make_unique<State>(*s);
            State* me = s;
            s = n.get();
            s->model = m;
            addC(other);
            s = me;
            push(std::move(n));
            addC(mine);
        } else if (r == Sat::No) {
            s->known[c] = APInt(1, mv);
            s->known[X.lnot(c)] = APInt(1, !mv);
        } else {
            note_incomplete("solver answered unknown at " + where());
            addC(mine);
        }
        return mv;
    }

    APInt concretize(E e)
    {
        e = norm(e);
        if (e->isC()) return e->v;
        APInt v = evalM(e);
        E     c = X.eq(e, X.c(v));
        Model m = s->model;
        Sat   r = sol.check(s->cs, X.lnot(c), &m, true);
        if (r == Sat::Yes) {
            auto   n = std::make_unique<State>(*s);
            State* me = s;
            s = n.get();
            s->model = m;
            addC(X.lnot(c));
            s = me;
            push(std::move(n));
            addC(c);
        } else if (r == Sat::Unknown)
            note_incomplete("solver answered unknown at " + where());
        s->known[e] = v;
        return v;
    }
    uint64_t conc64(E e) { return concretize(e).getZExtValue(); }

    E fresh(string const& name, unsigned w)
    {
        auto it = symIds.find(name);
        int  id;
        if (it == symIds.end()) { id = (int)symNames.size(); symIds[name] = id; symNames.push_back(name); }
        else id = it->second;
        if (s->symCount.size() <= (size_t)id) s->symCount.resize(id + 1);
        uint32_t k = s->symCount[id]++;
        string   n = name + "#" + std::to_string(k);
        if (opt.concrete) {
            auto f = opt.fix.find(n);
            return X.c(w, f == opt.fix.end() ? 0 : f->second);
        }
        E e = X.sym(n, w);
        s->made.push_back(e->aux);
        return e;
    }

    static uint64_t digest(string const& x, uint64_t h = 14695981039346656037ull)
    {
        for (unsigned char c : x) h = (h ^ c) * 1099511628211ull;
        return h;
    }
    // keeps a few completed paths, with the inputs that lead along them, for native validation
    void sample()
    {
        if (opt.concrete || opt.samples == 0) return;
        sampleSeen++;
        size_t at = samples.size();
        if ((int)at >= opt.samples) {
            rng = rng * 6364136223846793005ull + 1442695040888963407ull;
            at = (rng >> 33) % sampleSeen;
            if ((int)at >= opt.samples) return;
        }
        std::set<uint32_t> used, made(s->made.begin(), s->made.end());
        for (E c : s->cs) for (auto k : *X.symsOf(c)) used.insert(k);
        Model md = s->model;
        for (uint32_t k = 0; k < X.syms.size(); k++) {   // inputs the path does not constrain get arbitrary values
            if (used.count(k) || !made.count(k) || X.syms[k].name.rfind("uninit", 0) == 0) continue;
            rng = rng * 6364136223846793005ull + 1442695040888963407ull;
            md.set(k, APInt(64, rng >> 11 ^ rng << 53).zextOrTrunc(X.syms[k].w));
            used.insert(k);
        }
        Sample x;
        for (uint32_t k : used) {
            if (X.syms[k].name.rfind("uninit", 0) == 0) return;
            SmallString<64> str;
            md.get(k, X.syms[k].w).toString(str, 10, false);
            x.model.push_back({X.syms[k].name, str.str().str()});
        }
        x.trace = s->trace;
        x.threads = s->mt;
        for (auto& nt : s->notes) {
            Evaluator ev(md);
            x.trace += digest("N" + *nt.label + "=" + std::to_string(ev.eval(nt.e).getZExtValue()));
        }
        if (at >= samples.size()) samples.push_back(x);
        else samples[at] = x;
    }
    // ------------------------------------------------------------------ violations
    void report(string kind, string label, string detail, Model const& m)
    {
        Violation v;
        v.kind = kind;
        v.label = label;
        v.detail = detail;
        v.where = where();
        string key = kind + "|" + label + "|" + projectWhere();
        if (violKeys.count(key)) return;
        violKeys.insert(key);
        // all symbols created on this path
        std::set<uint32_t> used;
        for (E c : s->cs) for (auto k : *X.symsOf(c)) used.insert(k);
        for (auto& nt : s->notes) for (auto k : *X.symsOf(nt.e)) used.insert(k);
        std::set<uint32_t> made(s->made.begin(), s->made.end());
        for (auto& p : m.m) if (made.count(p.first) || X.syms[p.first].name.rfind("uninit", 0) == 0 || X.syms[p.first].name[0] == '<') used.insert(p.first);
        for (uint32_t k : used) {
            SmallString<64> str;
            m.get(k, X.syms[k].w).toString(str, 10, false);
            v.model.push_back({X.syms[k].name, str.str().str()});
            if (X.syms[k].name.rfind("uninit", 0) == 0) v.usesUninit = true;
        }
        for (auto& nt : s->notes) {
            Evaluator ev(m);
            SmallString<64> str;
            ev.eval(nt.e).toString(str, 10, false);
            v.notes.push_back({*nt.label, str.str().str()});
        }
        v.sched = s->sched;
        v.symThreads = s->mt;
        viol.push_back(v);
        if (opt.verbose) std::cerr << "VIOL " << kind << " " << label << " " << detail << "\n   " << v.where << "\n";
    }
    [[noreturn]] void fail(string kind, string detail, string label = "")
    {
        report(kind, label.empty() ? kind : label, detail, s->model);
        throw Kill{};
    }

    // ------------------------------------------------------------------ memory
    uint64_t alloc(uint64_t size, uint64_t align, Kind k, string const* name, bool zero)
    {
        if (s->freed > 64) forgetFreed();
        uint64_t a = std::max<uint64_t>(align, 1);
        uint64_t b = s->nextBase + 32;
        b = (b + 2 * a - 1) / (2 * a) * (2 * a) + a;    // aligned to exactly `align`
        s->nextBase = b + size;
        auto o = std::make_shared<Obj>();
        o->base = b;
        o->size = size;
        o->kind = k;
        o->name = name;
        o->owner = s->cur;
        o->b.assign(size, zero ? byteC[0] : UNINIT);
        s->objs.push_back(o);
        return b;
    }
    // the older half of the freed objects goes; their addresses are not used again, so an access is still out of bounds
    void forgetFreed()
    {
        int n = s->freed / 2;
        s->freed -= n;
        s->objs.erase(std::remove_if(s->objs.begin(), s->objs.end(), [&](auto const& o) { return o->dead && o->kind == KHeap && n-- > 0; }), s->objs.end());
    }
    int find(uint64_t a)
    {
        int lo = 0, hi = (int)s->objs.size();
        while (lo < hi) {
            int mid = (lo + hi) / 2;
            if (s->objs[mid]->base <= a) lo = mid + 1;
            else hi = mid;
        }
        return lo - 1;
    }
    string descr(uint64_t a)
    {
        std::ostringstream o;
        o << "0x" << std::hex << a << std::dec;
        int i = find(a);
        if (a < 4096) o << " (null page)";
        else if (i >= 0) {
            auto& ob = *s->objs[i];
            o << " (offset " << (a - ob.base) << " of " << (ob.dead ? "freed " : "")
              << (ob.kind == KStack ? "stack" : ob.kind == KHeap ? "heap" : "global") << " object "
              << (ob.name ? *ob.name : string()) << " size " << ob.size << ")";
        }
        return o.str();
    }
    Obj* resolve(E addr, uint64_t size, bool write, uint64_t& off, char const* what = nullptr)
    {
        uint64_t a = conc64(addr);
        int      i = find(a);
        if (i < 0 || a - s->objs[i]->base > s->objs[i]->size || s->objs[i]->size - (a - s->objs[i]->base) < size
            || s->objs[i]->dead) {
            if (size == 0) return nullptr;
            bool dead = i >= 0 && s->objs[i]->dead && a - s->objs[i]->base < s->objs[i]->size;
            fail(dead ? "use-after-free" : "invalid-access",
                 string(what ? what : write ? "write" : "read") + " of " + std::to_string(size) + " bytes at " + descr(a));
        }
        if (write && s->objs[i]->ro) fail("invalid-access", "write to read-only memory at " + descr(a));
        off = a - s->objs[i]->base;
        st.accesses++;
        return own(i, write);
    }
    Obj* own(int i, bool write)
    {
        auto& p = s->objs[i];
        bool mtTouch = s->mt && !p->ro;
        if ((write || mtTouch) && p.use_count() > 1) p = std::make_shared<Obj>(*p);
        if (write) p->hashOk = false;
        if (s->mt && p->owner != s->cur && !p->shared) { p->shared = true; }
        return p.get();
    }
    void race(Obj* o, uint64_t off, uint64_t size, bool write, bool atomic)
    {
        if (!s->mt || o->ro || size == 0) return;
        Thread& t = T();
        RaceCell* mine = nullptr;
        auto hb = [&](VC const& v) {
            for (int i = 0; i < MAXT; i++)
                if (i != t.id && v[i] > t.vc[i]) return i;
            return -1;
        };
        for (auto& c : o->race) {
            if (c.off + c.size <= off || off + size <= c.off) continue;
            int bad = -1;
            char const* k = "";
            if ((bad = hb(c.w)) >= 0) k = "plain write";
            else if (!atomic && (bad = hb(c.aw)) >= 0) k = "atomic write";
            else if (write && (bad = hb(c.r)) >= 0) k = "plain read";
            else if (write && !atomic && (bad = hb(c.ar)) >= 0) k = "atomic read";
            if (bad >= 0)
                fail("data-race", string(atomic ? "atomic " : "plain ") + (write ? "write" : "read") + " of "
                                      + descr(o->base + off) + " by thread " + std::to_string(t.id)
                                      + " races with a " + k + " by thread " + std::to_string(bad));
            if (c.off == off && c.size == size) mine = &c;
        }
        if (!mine) { o->race.push_back(RaceCell{(uint32_t)off, (uint32_t)size, {}, {}, {}, {}}); mine = &o->race.back(); }
        (atomic ? (write ? mine->aw : mine->ar) : (write ? mine->w : mine->r))[t.id] = t.vc[t.id];
    }
    E readByteAt(Obj* o, uint64_t off)
    {
        E b = o->b[off];
        if (b == UNINIT) {
            b = fresh("uninit", 8);
            o->b[off] = b;
            o->hashOk = false;
        }
        return b;
    }
    E loadBits(Obj* o, uint64_t off, unsigned w)
    {
        unsigned n = (w + 7) / 8;
        bool     allC = true, any = false;
        for (unsigned i = 0; i < n; i++) {
            E b = o->b[off + i];
            if (b == UNINIT) { any = true; break; }
            if (!b->isC()) { allC = false; break; }
        }
        if (any) {
            // own a copy before materialising unknown bytes
            int i = find(o->base);
            o = own(i, true);
            if (n == 1 || true)
                for (unsigned k = 0; k < n; k++) readByteAt(o, off + k);
            allC = false;
        }
        if (allC && n <= 8) {
            uint64_t v = 0;
            for (unsigned i = 0; i < n; i++) {
                uint64_t x = o->b[off + i]->u();
                v |= be ? x << (8 * (n - 1 - i)) : x << (8 * i);
            }
            return X.extract(X.c(8 * n, v), 0, w);
        }
        E r = nullptr;
        for (unsigned i = 0; i < n; i++) {
            E b = o->b[off + (be ? n - 1 - i : i)];
            r = r ? X.concat(b, r) : b;
        }
        return norm(X.extract(r, 0, w));
    }
    void storeBits(Obj* o, uint64_t off, E e)
    {
        unsigned n = (e->w + 7) / 8;
        e = X.zext(e, n * 8);
        if (e->isC() && n <= 8) {
            uint64_t v = e->u();
            for (unsigned i = 0; i < n; i++) o->b[off + (be ? n - 1 - i : i)] = byteC[(v >> (8 * i)) & 255];
            return;
        }
        for (unsigned i = 0; i < n; i++) o->b[off + (be ? n - 1 - i : i)] = X.extract(e, 8 * i, 8);
    }
    Val loadV(E addr, Type* t, bool atomic = false)
    {
        uint64_t sz = DL->getTypeStoreSize(t), off = 0;
        Obj*     o = resolve(addr, sz, false, off);
        if (!o) return zeroVal(t);
        race(o, off, sz, false, atomic);
        return loadT(o->base, off, t);
    }
    Val loadT(uint64_t base, uint64_t off, Type* t)
    {
        if (isAgg(t)) {
            Val v;
            v.agg = std::make_shared<vector<Val>>();
            for (unsigned i = 0; i < nelem(t); i++) v.agg->push_back(loadT(base, off + elemOff(t, i), elemTy(t, i)));
            return v;
        }
        return mkv(loadBits(s->objs[find(base)].get(), off, tw(t)));
    }
    void storeV(E addr, Type* t, Val const& v, bool atomic = false)
    {
        uint64_t sz = DL->getTypeStoreSize(t), off = 0;
        Obj*     o = resolve(addr, sz, true, off);
        if (!o) return;
        race(o, off, sz, true, atomic);
        storeT(o, off, t, v);
    }
    void storeT(Obj* o, uint64_t off, Type* t, Val const& v)
    {
        if (isAgg(t)) {
            for (unsigned i = 0; i < nelem(t); i++) storeT(o, off + elemOff(t, i), elemTy(t, i), (*v.agg)[i]);
            return;
        }
        storeBits(o, off, v.e);
    }
    void checkAlign(E addr, uint64_t al)
    {
        if (!opt.checkAlign) return;
        uint64_t a = conc64(addr);
        if (al > 1 && a % al) fail("misaligned-access", "address " + descr(a) + " is not aligned to " + std::to_string(al));
    }
    void writeConst(Obj* o, uint64_t off, Constant const* c)
    {
        Type* t = c->getType();
        if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
        if (isAgg(t)) {
            if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
                for (unsigned i = 0; i < cd->getNumElements(); i++)
                    writeConst(o, off + elemOff(t, i), cd->getElementAsConstant(i));
                return;
            }
            for (unsigned i = 0; i < nelem(t); i++) writeConst(o, off + elemOff(t, i), cast<Constant>(c->getOperand(i)));
            return;
        }
        storeBits(o, off, evalConst(c).e);
    }
    void freeObj(uint64_t a, char const* what)
    {
        int i = find(a);
        if (i < 0 || s->objs[i]->base != a || s->objs[i]->kind != KHeap) fail("invalid-free", string(what) + " of " + descr(a));
        if (s->objs[i]->dead) fail("double-free", string(what) + " of " + descr(a));
        Obj* o = own(i, true);
        race(o, 0, o->size, true, false);
        o->dead = true;
        o->b.clear();
        s->heapLive--;
        s->freed++;
    }
    void removeStack(uint64_t a)
    {
        int i = find(a);
        if (i < 0 || s->objs[i]->base != a) return;
        if (s->mt && s->objs[i]->shared && !s->objs[i]->race.empty()) {
            Obj* o = own(i, true);
            race(o, 0, o->size, true, false);
        }
        s->objs.erase(s->objs.begin() + i);
    }
    std::unordered_map<uint64_t, string> literals;    // texts in read-only memory
    string cstr(E addr)
    {
        string   r;
        uint64_t a = conc64(addr);
        auto     it = literals.find(a);
        if (it != literals.end()) return it->second;
        int i = find(a);
        bool const literal = i >= 0 && s->objs[i]->ro;
        for (uint64_t at = a;; at++) {
            uint64_t off = 0;
            Obj* o = resolve(X.c(PW, at), 1, false, off);
            E b = o->b[off];
            if (!b->isC() || b == UNINIT) return r + "<sym>";
            if (b->isZero()) break;
            r += (char)b->u();
        }
        if (literal) literals[a] = r;
        return r;
    }

    // ------------------------------------------------------------------ hashing (progress detection)
    static void mix(uint64_t& h, uint64_t x) { h ^= x + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; }
    uint64_t objHash(Obj const& o)
    {
        if (o.hashOk) return o.hash;
        uint64_t h = o.base;
        for (E b : o.b) mix(h, b->id + 1);
        o.hash = h;
        o.hashOk = true;
        return h;
    }
    uint64_t sharedHash()
    {
        uint64_t h = 1;
        for (auto& p : s->objs) {
            if (p->ro || p->dead) continue;
            if (p->kind == KStack && !p->shared) continue;
            mix(h, objHash(*p));
        }
        for (auto& m : s->mutexes)
            if (m.second.owner >= 0) { mix(h, m.first); mix(h, m.second.owner + 1); }
        return h;
    }
    void hashVal(uint64_t& h, Val const& v)
    {
        if (v.agg) for (auto& x : *v.agg) hashVal(h, x);
        else mix(h, v.e ? v.e->id + 1 : 0);
    }
    uint64_t threadHash(Thread& t)
    {
        uint64_t h = t.id;
        for (auto& f : t.st) {
            mix(h, (uint64_t)f.f);
            if (&f != &t.st.back()) mix(h, f.pc);
            for (auto& r : f.regs) hashVal(h, r);
        }
        for (auto& p : s->objs)
            if (p->kind == KStack && !p->shared && p->owner == t.id) mix(h, objHash(*p));
        return h;
    }

    // ------------------------------------------------------------------ scheduling
    bool enabled(int i, uint64_t& sh, bool& shOk)
    {
        Thread& t = s->th[i];
        switch (t.status) {
        case TS::Run: return true;
        case TS::Done: return false;
        case TS::Mutex: { auto it = s->mutexes.find(t.waitAddr); return it == s->mutexes.end() || it->second.owner < 0; }
        case TS::Join: return s->th[t.waitAddr].status == TS::Done;
        case TS::Futex: case TS::Cond: return t.woken;
        case TS::NoProgress:
            if (!shOk) { sh = sharedHash(); shOk = true; }
            return sh != t.waitHash;
        case TS::Drain: return false;
        }
        return false;
    }
    vector<int> others()
    {
        vector<int> r;
        uint64_t sh = 0; bool ok = false;
        for (auto& t : s->th)
            if (t.id != s->cur && enabled(t.id, sh, ok)) r.push_back(t.id);
        return r;
    }
    // x is the current state or a fresh copy of it
    void switchTo(State& x, int u)
    {
        // a thread that finds the shared state as it left it has run as if alone
        uint64_t sh = sharedHash();
        x.th[x.cur].awayHash = sh;
        if (x.th[u].awayHash != sh) x.th[u].disturbed++;
        x.cur = u;
        x.switches++;
        x.sched.push_back((uint8_t)u);
        Thread& t = x.th[u];
        if (t.status != TS::Run) { t.granted = t.status != TS::NoProgress; t.status = TS::Run; }
        else if (t.atSync) t.granted = true;
        t.atSync = false;
    }
    // called before a synchronisation operation
    void schedPoint()
    {
        if (!s->mt) return;
        Thread& t = T();
        if (t.granted) return;
        st.schedPoints++;
        t.atSync = true;    // paused exactly before this operation
        if (replaying()) {
            uint8_t c = nextSched();
            if (c != CONT) { switchTo(*s, c); throw Resched{}; }
        } else if (s->preempt < opt.preempt)
            for (int u : others()) {
                auto n = std::make_unique<State>(*s);
                switchTo(*n, u);
                n->preempt++;
                push(std::move(n));
            }
        T().atSync = false;
        T().granted = true;
        s->sched.push_back(CONT);
    }
    static constexpr uint8_t CONT = 254;
    size_t schedPos = 0;
    bool   replaying() const { return opt.concrete && schedPos < opt.sched.size(); }
    uint8_t nextSched() { return opt.sched[schedPos++]; }
    // current thread cannot go on (or gives way): run another one
    void switchAway(bool mustBlock, char const* why)
    {
        vector<int> o = others();
        if (o.empty()) {
            // a draining thread continues when nobody else can run
            for (auto& t : s->th)
                if (t.status == TS::Drain) { o.push_back(t.id); break; }
            if (o.empty() || (o.size() == 1 && o[0] == s->cur)) {
                if (o.size() == 1) { T().status = TS::Run; T().granted = true; return; }
                if (!mustBlock) return;
                string d;
                for (auto& t : s->th) {
                    if (t.status == TS::Done) continue;
                    int save = s->cur;
                    s->cur = t.id;
                    d += "[thread " + std::to_string(t.id) + " "
                         + (t.status == TS::Mutex ? "waits for a mutex" : t.status == TS::Join ? "waits for a thread to end"
                            : t.status == TS::Futex ? "waits for a wake-up" : t.status == TS::Cond ? "waits for a condition variable"
                            : t.status == TS::NoProgress ? "loops without progress" : "runs")
                         + " in " + (t.st.empty() ? string("?") : demangle(t.st.back().f->name)) + "] ";
                    s->cur = save;
                }
                fail("hang", string("no thread can make progress (") + why + "): " + d);
            }
        }
        if (replaying()) { switchTo(*s, nextSched()); return; }
        // delay-bounded: the next thread in turn goes on, another choice counts like a preemption
        if (opt.delay) std::stable_partition(o.begin(), o.end(), [&](int i) { return i > s->cur; });
        for (size_t i = 1; i < o.size() && (!opt.delay || s->preempt < opt.preempt); i++) {
            auto n = std::make_unique<State>(*s);
            switchTo(*n, o[i]);
            if (opt.delay) n->preempt++;
            push(std::move(n));
        }
        switchTo(*s, o[0]);
    }
    [[noreturn]] void block(TS status, uint64_t addr, char const* why)
    {
        Thread& t = T();
        t.status = status;
        t.waitAddr = addr;
        t.woken = false;
        t.granted = false;
        switchAway(true, why);
        throw Resched{};
    }
    void giveWay()
    {
        if (!s->mt) return;
        switchAway(false, "yield");
    }
    void onBackedge(int block)
    {
        Frame& f = F();
        HeaderMark* m = nullptr;
        for (auto& x : f.marks) if (x.block == block) m = &x;
        if (!m) { f.marks.push_back({block, 0, 0, ~0ull, 0}); m = &f.marks.back(); }
        m->visits++;
        if (!s->mt) {    // one thread: compared on two visits in a row, ever more rarely
            uint64_t v = m->visits;
            if (v < 2000 || ((v & (v - 1)) && ((v - 1) & (v - 2)))) return;
        }
        uint64_t fp = threadHash(T()), sh = sharedHash();
        bool same = m->fp == fp && m->shared == sh && m->disturbed == T().disturbed && m->visits > 1;
        m->fp = fp; m->shared = sh; m->disturbed = T().disturbed;
        if (!same) return;
        if (!s->mt) fail("hang", "loop repeats the same state forever");
        Thread& t = T();
        t.status = TS::NoProgress;
        t.waitHash = sh;
        t.granted = false;
        m->disturbed = ~0ull;
        switchAway(true, "spin loop");
        // pc already points to the loop header: nothing to re-execute
    }

    void release(uint64_t addr, bool joinExisting)
    {
        Thread& t = T();
        VC& h = s->hb[addr];
        if (joinExisting) vcJoin(h, t.vc); else h = t.vc;
        t.vc[t.id]++;
    }
    void acquire(uint64_t addr)
    {
        auto it = s->hb.find(addr);
        if (it != s->hb.end()) vcJoin(T().vc, it->second);
    }
    static bool isAcq(AtomicOrdering o) { return isAcquireOrStronger(o); }
    static bool isRel(AtomicOrdering o) { return isReleaseOrStronger(o); }
    void atomicLoadHB(uint64_t a, AtomicOrdering o)
    {
        if (!s->mt) return;
        if (isAcq(o)) acquire(a);
        else { auto it = s->hb.find(a); if (it != s->hb.end()) vcJoin(T().acqPending, it->second); }
    }
    void atomicStoreHB(uint64_t a, AtomicOrdering o, bool rmw)
    {
        if (!s->mt) return;
        Thread& t = T();
        if (isRel(o)) { release(a, rmw); return; }
        if (t.hasRelFence) { VC& h = s->hb[a]; if (rmw) vcJoin(h, t.relFence); else h = t.relFence; return; }
        if (!rmw) s->hb.erase(a);
    }

    // ------------------------------------------------------------------ calls
    void pushFrame(KFunc* k, vector<Val> const& args)
    {
        build(k);
        if (!k->executed) k->executed = true;
        if (T().st.size() > 400) fail("stack-overflow", "recursion deeper than 400 frames");
        Frame fr;
        fr.f = k;
        fr.regs.resize(k->nregs);
        for (int i = 0; i < k->nargs; i++) fr.regs[i] = args[i];
        for (size_t i = k->nargs; i < args.size(); i++) fr.varargs.push_back(args[i]);
        fr.block = 0;
        fr.pc = k->blocks[0].first;
        T().st.push_back(std::move(fr));
        // byval arguments
        unsigned ai = 0;
        for (auto& a : k->f->args()) {
            if (a.hasByValAttr()) {
                Type* t = a.getParamByValType();
                uint64_t sz = DL->getTypeAllocSize(t);
                uint64_t p = alloc(sz, std::max<uint64_t>(8, DL->getABITypeAlign(t).value()), KStack, intern("byval"), false);
                copyMem(X.c(PW, p), args[ai].e, sz);
                F().allocas.push_back(p);
                F().regs[ai] = mkv(X.c(PW, p));
            }
            ai++;
        }
    }
    void copyMem(E d, E sr, uint64_t n)
    {
        if (n == 0) return;
        uint64_t so = 0, dof = 0;
        Obj* o = resolve(sr, n, false, so, "read (copy)");
        race(o, so, n, false, false);
        vector<E> tmp(o->b.begin() + so, o->b.begin() + so + n);
        Obj* p = resolve(d, n, true, dof, "write (copy)");
        race(p, dof, n, true, false);
        std::copy(tmp.begin(), tmp.end(), p->b.begin() + dof);
    }
    void setMem(E d, E v, uint64_t n)
    {
        if (n == 0) return;
        uint64_t off = 0;
        Obj* o = resolve(d, n, true, off, "write (fill)");
        race(o, off, n, true, false);
        E b = X.extract(v, 0, 8);
        std::fill(o->b.begin() + off, o->b.begin() + off + n, b);
    }
    void popFrame()
    {
        Frame& f = F();
        vector<uint64_t> al = f.allocas;
        for (auto it = al.rbegin(); it != al.rend(); ++it) removeStack(*it);
        T().st.pop_back();
    }
    // finish the call instruction the top frame is at
    void finishCall(Val v)
    {
        Frame& f = F();
        KInst& k = f.f->insts[f.pc];
        if (k.dest >= 0) f.regs[k.dest] = std::move(v);
        if (k.op == Instruction::Invoke) jump(k, 0);
        else f.pc++;
    }
    void jump(KInst& k, unsigned which)
    {
        Frame& f = F();
        int    target = k.succ[which];
        KBlock const& b = f.f->blocks[target];
        if (b.nphi) {
            BasicBlock const* from = f.f->blocks[f.block].bb;
            SmallVector<Val, 8> vals;
            for (int i = 0; i < b.nphi; i++) {
                KInst& pi = f.f->insts[b.first + i];
                auto*  phi = cast<PHINode>(pi.I);
                vals.push_back(get(f, pi.ops[phi->getBasicBlockIndex(from)]));
            }
            for (int i = 0; i < b.nphi; i++) { f.regs[f.f->insts[b.first + i].dest] = vals[i]; f.f->insts[b.first + i].executed = true; }
        }
        f.block = target;
        f.pc = b.first + b.nphi;
        if (k.backedge[which]) onBackedge(target);
    }
    void threadEnd()
    {
        Thread& t = T();
        t.status = TS::Done;
        if (s->mt) t.vc[t.id]++;
        if (t.id == 0) { sample(); throw Kill{}; }
        switchAway(true, "thread ended");
        throw Resched{};
    }

    // ------------------------------------------------------------------ exceptions
    std::map<uint64_t, int> tids;
    int typeId(uint64_t ti)
    {
        auto it = tids.find(ti);
        if (it != tids.end()) return it->second;
        int n = (int)tids.size() + 1;
        return tids[ti] = n;
    }
    bool typeMatch(uint64_t want, uint64_t have, int64_t& adj)
    {
        if (want == have) return true;
        auto it = addrG.find(have);
        if (it == addrG.end() || !it->second->hasInitializer()) return false;
        auto* cs = dyn_cast<ConstantStruct>(it->second->getInitializer());
        if (!cs) return false;
        string vt;
        APInt  off(64, 0);
        if (auto* base = cs->getOperand(0)->stripAndAccumulateConstantOffsets(*DL, off, true)) vt = base->getName().str();
        auto gvAddr = [&](Constant* c) -> uint64_t { E e = evalConst(c).e; return e->u(); };
        if (vt.find("__si_class_type_info") != string::npos) return typeMatch(want, gvAddr(cs->getOperand(2)), adj);
        if (vt.find("__vmi_class_type_info") != string::npos) {
            unsigned n = cast<ConstantInt>(cs->getOperand(3))->getZExtValue();
            for (unsigned i = 0; i < n; i++) {
                int64_t of = cast<ConstantInt>(cs->getOperand(5 + 2 * i))->getSExtValue();
                if (of & 1) continue;    // virtual base: not supported
                int64_t a2 = adj + (of >> 8);
                if (typeMatch(want, gvAddr(cs->getOperand(4 + 2 * i)), a2)) { adj = a2; return true; }
            }
        }
        return false;
    }
    string tiName(uint64_t ti)
    {
        auto it = addrG.find(ti);
        if (it == addrG.end()) return "?";
        string n = it->second->getName().str();
        return n.rfind("_ZTI", 0) == 0 ? demangle("_Z" + n.substr(4)) : n;
    }
    void unwind(uint64_t exc)
    {
        ExnInfo& ei = s->exns[exc];
        // search phase: is there any handler at all?
        {
            bool found = false;
            for (int i = (int)T().st.size() - 1; i >= 0 && !found; i--) {
                Frame& f = T().st[i];
                KInst& k = f.f->insts[f.pc];
                if (k.op != Instruction::Invoke) {
                    if (auto* cb = dyn_cast<CallBase>(k.I); cb && f.f->f->doesNotThrow() && false) break;
                    continue;
                }
                auto* lp = cast<InvokeInst>(k.I)->getLandingPadInst();
                for (unsigned c = 0; c < lp->getNumClauses() && !found; c++) {
                    if (lp->isFilter(c)) { found = true; break; }
                    uint64_t ti = evalConst(lp->getClause(c)).e->u();
                    int64_t adj = 0;
                    if (ti == 0 || typeMatch(ti, ei.tinfo, adj)) found = true;
                }
            }
            if (!found) fail("uncaught-exception", "exception of type " + tiName(ei.tinfo) + " leaves the thread");
        }
        while (!T().st.empty()) {
            Frame& f = F();
            KInst& k = f.f->insts[f.pc];
            if (k.op == Instruction::Invoke) {
                auto* lp = cast<InvokeInst>(k.I)->getLandingPadInst();
                int   sel = 0;
                bool  take = lp->isCleanup();
                for (unsigned c = 0; c < lp->getNumClauses(); c++) {
                    if (lp->isFilter(c)) {
                        auto* arr = lp->getClause(c);
                        bool ok = false;
                        if (auto* ca = dyn_cast<ConstantArray>(arr))
                            for (auto& o : ca->operands()) {
                                int64_t adj = 0;
                                if (typeMatch(evalConst(cast<Constant>(o.get())).e->u(), ei.tinfo, adj)) ok = true;
                            }
                        if (!ok) { take = true; sel = -1; break; }
                        continue;
                    }
                    uint64_t ti = evalConst(lp->getClause(c)).e->u();
                    int64_t  adj = 0;
                    if (ti == 0 || typeMatch(ti, ei.tinfo, adj)) {
                        take = true;
                        sel = typeId(ti);
                        ei.adjusted = exc + adj;
                        break;
                    }
                }
                if (take) {
                    jump(k, 1);
                    Frame& g = F();
                    KInst& l = g.f->insts[g.pc];
                    if (l.op != Instruction::LandingPad) fatal("landing pad expected");
                    Val v;
                    v.agg = std::make_shared<vector<Val>>();
                    v.agg->push_back(mkv(X.c(PW, exc)));
                    v.agg->push_back(mkv(X.c(32, (uint64_t)(uint32_t)sel)));
                    g.regs[l.dest] = v;
                    l.executed = true;
                    g.pc++;
                    return;
                }
            }
            popFrame();
        }
        fail("uncaught-exception", "exception of type " + tiName(ei.tinfo) + " leaves the thread");
    }

#include "builtins.inc"
#include "exec.inc"
#include "driver.inc"
};

int main(int argc, char** argv)
{
    auto need = [&](int& i) -> string { if (i + 1 >= argc) { std::cerr << "missing value\n"; exit(3); } return argv[++i]; };
    for (int i = 1; i < argc; i++) {
        string a = argv[i];
        if (a == "--out") opt.out = need(i);
        else if (a == "--entry") opt.entry = need(i);
        else if (a == "--max-steps") opt.maxSteps = std::stoull(need(i));
        else if (a == "--max-paths") opt.maxPaths = std::stoull(need(i));
        else if (a == "--max-time") opt.maxTime = std::stod(need(i));
        else if (a == "--preempt") opt.preempt = std::stoi(need(i));
        else if (a == "--delay") opt.delay = true;
        else if (a == "--jobs") opt.jobs = std::stoi(need(i));
        else if (a == "--max-viol") opt.maxViol = std::stoi(need(i));
        else if (a == "--solver-ms") opt.solverMs = std::stoull(need(i));
        else if (a == "--dump") opt.dump = need(i);
        else if (a == "--dump-max") opt.dumpMax = std::stoull(need(i));
        else if (a == "--audit") opt.audit = std::stoull(need(i));
        else if (a == "--seed") opt.seed = std::stoull(need(i));
        else if (a == "--samples") opt.samples = std::stoi(need(i));
        else if (a == "--check-align") opt.checkAlign = true;
        else if (a == "--verbose") opt.verbose = true;
        else if (a == "--trace") opt.trace = true;
        else if (a == "--values") {
            std::ifstream f(need(i));
            string l;
            while (std::getline(f, l))
                if (auto p = l.rfind(' '); p != l.npos) opt.fix[l.substr(0, p)] = std::stoull(l.substr(p + 1));
            opt.concrete = true;
        } else if (a == "--sched") {
            opt.schedStr = need(i);
            if (opt.schedStr.starts_with("@")) {    // a file
                std::ifstream in(opt.schedStr.substr(1));
                opt.schedStr.assign(std::istreambuf_iterator<char>(in), {});
            }
            std::stringstream f(opt.schedStr);
            int x;
            while (f >> x) opt.sched.push_back((uint8_t)x);
            opt.concrete = true;
        } else opt.in = a;
    }
    Engine e;
    return e.main();
}
