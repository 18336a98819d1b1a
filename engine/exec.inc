    // ------------------------------------------------------------------ instruction execution
    Val binop(unsigned op, Val const& a, Val const& b, Instruction const* I)
    {
        if (a.agg) {
            Val r;
            r.agg = std::make_shared<vector<Val>>();
            for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(binop(op, (*a.agg)[i], (*b.agg)[i], I));
            return r;
        }
        E x = a.e, y = b.e;
        switch (op) {
        case Instruction::Add: return mkv(X.add(x, y));
        case Instruction::Sub: return mkv(X.sub(x, y));
        case Instruction::Mul: return mkv(X.mul(x, y));
        case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem:
            if (decide(X.eq(y, X.c(y->w, 0)))) fail("division-by-zero", "division by zero");
            if (op == Instruction::UDiv) return mkv(X.udiv(x, y));
            if (op == Instruction::SDiv) return mkv(X.sdiv(x, y));
            if (op == Instruction::URem) return mkv(X.urem(x, y));
            return mkv(X.srem(x, y));
        case Instruction::And: return mkv(X.band(x, y));
        case Instruction::Or: return mkv(X.bor(x, y));
        case Instruction::Xor: return mkv(X.bxor(x, y));
        case Instruction::Shl: return mkv(X.shl(x, y));
        case Instruction::LShr: return mkv(X.lshr(x, y));
        case Instruction::AShr: return mkv(X.ashr(x, y));
        case Instruction::FAdd: return mkv(X.fop(FADD, x->w, x, y));
        case Instruction::FSub: return mkv(X.fop(FSUB, x->w, x, y));
        case Instruction::FMul: return mkv(X.fop(FMUL, x->w, x, y));
        case Instruction::FDiv: return mkv(X.fop(FDIV, x->w, x, y));
        default: fatal(string("instruction ") + I->getOpcodeName());
        }
    }
    Val mapV(Val const& a, std::function<E(E)> f)
    {
        if (a.agg) {
            Val r;
            r.agg = std::make_shared<vector<Val>>();
            for (auto& x : *a.agg) r.agg->push_back(mapV(x, f));
            return r;
        }
        return mkv(f(a.e));
    }
    Type* scalarTy(Type* t) { return t->isVectorTy() ? cast<VectorType>(t)->getElementType() : t; }

    // executes one instruction of the current thread
    void step()
    {
        Frame& f = F();
        KInst& k = f.f->insts[f.pc];
        k.executed = true;
        if (k.sync && s->mt) {
            schedPoint();
            int me = s->cur;
            exec(k);
            s->th[me].granted = false;
            return;
        }
        exec(k);
    }
    void exec(KInst& k)
    {
        Frame& f = F();
        auto G = [&](unsigned i) -> Val const& { return get(f, k.ops[i]); };
        Instruction const* I = k.I;
        switch (k.op) {
        case Instruction::Ret: {
            Val v;
            if (!k.ops.empty()) v = G(0);
            popFrame();
            if (T().st.empty()) { threadEnd(); return; }
            Frame& c = F();
            if (c.isCtor) { c.isCtor = false; return; }
            finishCall(std::move(v));
            return;
        }
        case Instruction::Br:
            if (k.succ.size() == 1) { jump(k, 0); return; }
            jump(k, decide(G(0).e) ? 0 : 1);
            return;
        case Instruction::Switch: {
            E x = norm(G(0).e);
            auto* sw = cast<SwitchInst>(I);
            for (auto& c : sw->cases())
                if (decide(X.eq(x, X.c(c.getCaseValue()->getValue())))) { jump(k, c.getSuccessorIndex()); return; }
            jump(k, 0);
            return;
        }
        case Instruction::Unreachable: fail("unreachable", "code marked unreachable is reached");
        case Instruction::Resume: unwind(conc64((*G(0).agg)[0].e)); return;
        case Instruction::Alloca: {
            auto* ai = cast<AllocaInst>(I);
            uint64_t n = DL->getTypeAllocSize(ai->getAllocatedType()) * conc64(G(0).e);
            string const* nm = intern(I->getName().str());
            uint64_t p = alloc(n, ai->getAlign().value(), KStack, nm, false);
            f.allocas.push_back(p);
            f.regs[k.dest] = ptr(p);
            f.pc++;
            return;
        }
        case Instruction::Load: {
            auto* l = cast<LoadInst>(I);
            E ad = norm(G(0).e);
            checkAlign(ad, l->getAlign().value());
            Val v = loadV(ad, l->getType(), l->isAtomic());
            if (l->isAtomic()) atomicLoadHB(conc64(ad), l->getOrdering());
            setReg(k.dest, std::move(v));
            F().pc++;
            return;
        }
        case Instruction::Store: {
            auto* l = cast<StoreInst>(I);
            E ad = norm(G(1).e);
            checkAlign(ad, l->getAlign().value());
            storeV(ad, l->getValueOperand()->getType(), G(0), l->isAtomic());
            if (l->isAtomic()) atomicStoreHB(conc64(ad), l->getOrdering(), false);
            F().pc++;
            return;
        }
        case Instruction::Fence: {
            auto o = cast<FenceInst>(I)->getOrdering();
            Thread& t = T();
            if (isAcq(o)) vcJoin(t.vc, t.acqPending);
            if (isRel(o)) { t.relFence = t.vc; t.hasRelFence = true; t.vc[t.id]++; }
            f.pc++;
            return;
        }
        case Instruction::AtomicRMW: {
            auto* r = cast<AtomicRMWInst>(I);
            E ad = norm(G(0).e), v = G(1).e;
            uint64_t sz = DL->getTypeStoreSize(r->getType()), off;
            Obj* o = resolve(ad, sz, true, off);
            E old = loadBits(o, off, tw(r->getType())), nw;
            o = own(find(conc64(ad)), true);
            switch (r->getOperation()) {
            case AtomicRMWInst::Xchg: nw = v; break;
            case AtomicRMWInst::Add: nw = X.add(old, v); break;
            case AtomicRMWInst::Sub: nw = X.sub(old, v); break;
            case AtomicRMWInst::And: nw = X.band(old, v); break;
            case AtomicRMWInst::Or: nw = X.bor(old, v); break;
            case AtomicRMWInst::Xor: nw = X.bxor(old, v); break;
            case AtomicRMWInst::Nand: nw = X.bxor(X.band(old, v), X.c(APInt::getAllOnes(v->w))); break;
            case AtomicRMWInst::Max: nw = X.ite(X.slt(old, v), v, old); break;
            case AtomicRMWInst::Min: nw = X.ite(X.slt(v, old), v, old); break;
            case AtomicRMWInst::UMax: nw = X.ite(X.ult(old, v), v, old); break;
            case AtomicRMWInst::UMin: nw = X.ite(X.ult(v, old), v, old); break;
            case AtomicRMWInst::FAdd: nw = X.fop(FADD, v->w, old, v); break;
            case AtomicRMWInst::FSub: nw = X.fop(FSUB, v->w, old, v); break;
            default: fatal("atomicrmw operation");
            }
            race(o, off, sz, true, true);
            atomicLoadHB(conc64(ad), r->getOrdering());
            storeBits(o, off, nw);
            atomicStoreHB(conc64(ad), r->getOrdering(), true);
            F().regs[k.dest] = mkv(old);
            F().pc++;
            return;
        }
        case Instruction::AtomicCmpXchg: {
            auto* r = cast<AtomicCmpXchgInst>(I);
            E ad = norm(G(0).e), ex = G(1).e, nw = G(2).e;
            uint64_t sz = DL->getTypeStoreSize(r->getNewValOperand()->getType()), off;
            Obj* o = resolve(ad, sz, true, off);
            E old = loadBits(o, off, ex->w);
            bool ok = decide(X.eq(old, ex));
            o = own(find(conc64(ad)), true);
            race(o, off, sz, ok, true);
            atomicLoadHB(conc64(ad), ok ? r->getSuccessOrdering() : r->getFailureOrdering());
            if (ok) {
                storeBits(o, off, nw);
                atomicStoreHB(conc64(ad), r->getSuccessOrdering(), true);
            }
            F().regs[k.dest] = pairV(old, X.bit(ok));
            F().pc++;
            return;
        }
        case Instruction::GetElementPtr: {
            E p = G(0).e;
            p = X.add(p, X.c(PW, (uint64_t)k.gepConst));
            for (auto& v : k.gepVar) {
                E i = get(f, v.first).e;
                i = i->w < PW ? X.sext(i, PW) : X.extract(i, 0, PW);
                p = X.add(p, X.mul(i, X.c(PW, (uint64_t)v.second)));
            }
            if (!p->isC()) p = X.c(concretize(p));    // pointers are kept concrete: one path per feasible address
            F().regs[k.dest] = mkv(p);
            F().pc++;
            return;
        }
        case Instruction::Trunc: { unsigned w = tw(scalarTy(I->getType())); f.regs[k.dest] = mapV(G(0), [&](E x) { return X.extract(x, 0, w); }); break; }
        case Instruction::ZExt: { unsigned w = tw(scalarTy(I->getType())); f.regs[k.dest] = mapV(G(0), [&](E x) { return X.zext(x, w); }); break; }
        case Instruction::SExt: { unsigned w = tw(scalarTy(I->getType())); f.regs[k.dest] = mapV(G(0), [&](E x) { return X.sext(x, w); }); break; }
        case Instruction::PtrToInt: case Instruction::IntToPtr: { unsigned w = tw(scalarTy(I->getType())); f.regs[k.dest] = mapV(G(0), [&](E x) { return resize(x, w); }); break; }
        case Instruction::AddrSpaceCast: f.regs[k.dest] = G(0); break;
        case Instruction::BitCast: {
            Type *a = I->getOperand(0)->getType(), *b = I->getType();
            if (!isAgg(a) && !isAgg(b)) f.regs[k.dest] = G(0);
            else {
                // through memory layout
                uint64_t sz = DL->getTypeStoreSize(a);
                Obj tmp;
                tmp.b.assign(sz, byteC[0]);
                storeT(&tmp, 0, a, G(0));
                E all = nullptr;
                for (uint64_t i = 0; i < sz; i++) { E x = tmp.b[be ? sz - 1 - i : i]; all = all ? X.concat(x, all) : x; }
                if (!isAgg(b)) f.regs[k.dest] = mkv(all);
                else {
                    Val v;
                    v.agg = std::make_shared<vector<Val>>();
                    unsigned w = tw(elemTy(b, 0)), n = nelem(b);
                    for (unsigned i = 0; i < n; i++) v.agg->push_back(mkv(X.extract(all, (be ? n - 1 - i : i) * w, w)));
                    f.regs[k.dest] = v;
                }
            }
            break;
        }
        case Instruction::FPExt: case Instruction::FPTrunc: { unsigned w = tw(I->getType()); E x = G(0).e; f.regs[k.dest] = mkv(X.fop(F2F, w, x)); break; }
        case Instruction::SIToFP: { unsigned w = tw(I->getType()); E x = G(0).e; f.regs[k.dest] = mkv(X.fop(SI2F, w, x)); break; }
        case Instruction::UIToFP: { unsigned w = tw(I->getType()); E x = G(0).e; f.regs[k.dest] = mkv(X.fop(UI2F, w, x)); break; }
        case Instruction::FPToSI: { unsigned w = tw(I->getType()); E x = G(0).e; f.regs[k.dest] = mkv(X.fop(F2SI, w, x)); break; }
        case Instruction::FPToUI: { unsigned w = tw(I->getType()); E x = G(0).e; f.regs[k.dest] = mkv(X.fop(F2UI, w, x)); break; }
        case Instruction::FNeg: { E x = G(0).e; f.regs[k.dest] = mkv(X.bxor(x, X.c(APInt::getSignMask(x->w)))); break; }
        case Instruction::ICmp: {
            auto p = cast<ICmpInst>(I)->getPredicate();
            Val const &a = G(0), &b = G(1);
            if (a.agg) {
                Val r;
                r.agg = std::make_shared<vector<Val>>();
                for (size_t i = 0; i < a.agg->size(); i++) r.agg->push_back(mkv(icmp(p, (*a.agg)[i].e, (*b.agg)[i].e)));
                f.regs[k.dest] = r;
            } else
                f.regs[k.dest] = mkv(icmp(p, a.e, b.e));
            break;
        }
        case Instruction::FCmp: f.regs[k.dest] = mkv(fcmp(cast<FCmpInst>(I)->getPredicate(), G(0).e, G(1).e)); break;
        case Instruction::Select: {
            Val c = G(0);
            if (c.agg) {
                Val r;
                r.agg = std::make_shared<vector<Val>>();
                for (size_t i = 0; i < c.agg->size(); i++)
                    r.agg->push_back(mkv(X.ite((*c.agg)[i].e, (*G(1).agg)[i].e, (*G(2).agg)[i].e)));
                f.regs[k.dest] = r;
            } else if (G(1).agg) {
                bool b = decide(c.e);
                Frame& g = F();
                g.regs[k.dest] = get(g, k.ops[b ? 1 : 2]);
                g.pc++;
                return;
            } else {
                E cc = norm(c.e);
                E v = X.ite(cc, G(1).e, G(2).e);
                if (!v->isC() && I->getType()->isPointerTy()) {
                    bool b = decide(cc);
                    Frame& g = F();
                    g.regs[k.dest] = get(g, k.ops[b ? 1 : 2]);
                    g.pc++;
                    return;
                }
                f.regs[k.dest] = mkv(v);
            }
            break;
        }
        case Instruction::Freeze: f.regs[k.dest] = G(0); break;
        case Instruction::ExtractValue: {
            Val v = G(0);
            for (unsigned i : cast<ExtractValueInst>(I)->indices()) { Val x = (*v.agg)[i]; v = x; }
            f.regs[k.dest] = v;
            break;
        }
        case Instruction::InsertValue: {
            Val v = G(0);
            auto idx = cast<InsertValueInst>(I)->getIndices();
            std::function<Val(Val const&, unsigned)> ins = [&](Val const& a, unsigned d) -> Val {
                if (d == idx.size()) return G(1);
                Val r;
                r.agg = std::make_shared<vector<Val>>(*a.agg);
                (*r.agg)[idx[d]] = ins((*a.agg)[idx[d]], d + 1);
                return r;
            };
            f.regs[k.dest] = ins(v, 0);
            break;
        }
        case Instruction::ExtractElement: {
            uint64_t i = conc64(G(1).e);
            Val v = (*G(0).agg)[i];
            f.regs[k.dest] = v;
            break;
        }
        case Instruction::InsertElement: {
            uint64_t i = conc64(G(2).e);
            Val r;
            r.agg = std::make_shared<vector<Val>>(*G(0).agg);
            (*r.agg)[i] = G(1);
            f.regs[k.dest] = r;
            break;
        }
        case Instruction::ShuffleVector: {
            auto* sv = cast<ShuffleVectorInst>(I);
            Val r;
            r.agg = std::make_shared<vector<Val>>();
            size_t n = G(0).agg->size();
            for (int m : sv->getShuffleMask())
                r.agg->push_back(m < 0 ? zeroVal(elemTy(sv->getType(), 0)) : (size_t)m < n ? (*G(0).agg)[m] : (*G(1).agg)[m - n]);
            f.regs[k.dest] = r;
            break;
        }
        case Instruction::Call: case Instruction::Invoke: call(k); return;
        default:
            if (I->isBinaryOp()) {
                Val v = binop(k.op, G(0), G(1), I);
                setReg(k.dest, std::move(v));
                break;
            }
            fatal(string("instruction ") + I->getOpcodeName());
        }
        F().pc++;
    }
    KFunc* called = nullptr;    // the external function being called
    void call(KInst& k)
    {
        auto* cb = cast<CallBase>(k.I);
        if (isa<DbgInfoIntrinsic>(cb)) { F().pc++; return; }
        KFunc* callee = k.callee;
        if (!callee) {
            if (auto* ia = dyn_cast<InlineAsm>(cb->getCalledOperand())) {
                string a = ia->getAsmString();
                if (a.empty() || a == "pause" || a.find("rep; nop") != string::npos || a.find("nop") != string::npos) { finishCall(cb->getType()->isVoidTy() ? Val{} : zeroVal(cb->getType())); return; }
                fatal("inline assembly: " + a);
            }
            uint64_t p = conc64(get(F(), k.ops.back()).e);
            auto it = addrF.find(p);
            if (it == addrF.end()) fail("invalid-call", "call through a pointer that is not a function: " + descr(p));
            callee = getF(it->second);
        }
        vector<Val> args;
        unsigned n = cb->arg_size();
        args.reserve(n);
        for (unsigned i = 0; i < n; i++)
            args.push_back(k.ops[i] == INT32_MIN ? Val{} : get(F(), k.ops[i]));
        if (callee->f->isIntrinsic()) {
            Val r;
            if (!intrinsic(k, callee->f->getIntrinsicID(), args, r)) fatal("intrinsic " + callee->name);
            finishCall(std::move(r));
            return;
        }
        if (!callee->f->isDeclaration()) {
            if (callee->f->arg_size() > args.size()) fail("invalid-call", "call of " + demangle(callee->name) + " with too few arguments");
            pushFrame(callee, args);
            return;
        }
        int b = k.callee ? k.builtin : -1;
        if (b < 0) {
            auto it = builtinIdx.find(callee->name);
            if (it != builtinIdx.end()) b = it->second;
        }
        if (b < 0) fatal("external function without a model: " + demangle(callee->name));
        Val r;
        called = callee;
        if ((this->*builtins[b].second)(k, args, r)) finishCall(std::move(r));
    }
