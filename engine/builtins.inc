    // ------------------------------------------------------------------ external functions
    using Args = vector<Val>;
    E arg(Args& a, unsigned i) { return norm(a[i].e); }
    Val ptr(uint64_t a) { return mkv(X.c(PW, a)); }

    bool b_make(KInst&, Args& a, Val&)
    {
        uint64_t n = conc64(arg(a, 1));
        string   nm = cstr(arg(a, 2));
        uint64_t off;
        Obj* o = resolve(arg(a, 0), n, true, off);
        race(o, off, n, true, false);
        if (n <= 8) storeBits(o, off, fresh(nm, 8 * n));
        else for (uint64_t i = 0; i < n; i++) o->b[off + i] = fresh(nm, 8);
        return true;
    }
    bool b_bits(KInst&, Args& a, Val& r)
    {
        uint64_t n = conc64(arg(a, 0));
        r = mkv(X.zext(fresh(cstr(arg(a, 1)), n), 64));
        return true;
    }
    bool b_assume(KInst&, Args& a, Val&)
    {
        E c = norm(X.lnot(X.eq(arg(a, 0), X.c(arg(a, 0)->w, 0))));
        st.assumes++;
        if (c->isC()) { if (c->isZero()) { st.pathsAssumed++; throw Kill{}; } return true; }
        if (evalM(c).isZero()) {
            Model m = s->model;
            Sat r = sol.check(s->cs, c, &m, true);
            if (r == Sat::Unknown) note_incomplete("solver answered unknown at " + where());
            if (r != Sat::Yes) { st.pathsAssumed++; throw Kill{}; }
            s->model = m;
        }
        addC(c);
        return true;
    }
    bool b_assert(KInst&, Args& a, Val&)
    {
        string label = cstr(arg(a, 1));
        E c = norm(X.lnot(X.eq(arg(a, 0), X.c(arg(a, 0)->w, 0))));
        st.asserts++;
        reached[label]++;
        s->trace += digest("A" + label);
        if (c->isC()) {
            if (c->isZero()) { report("assert", label, "", s->model); throw Kill{}; }
            return true;
        }
        st.assertsSolver++;
        Model m = s->model;
        Sat r;
        E n = X.lnot(c);
        if (evalM(c).isZero()) r = Sat::Yes;
        else r = sol.check(s->cs, n, &m);
        if (r == Sat::Yes) {
            report("assert", label, "", m);
            // go on with the values that satisfy it
            Model m2 = s->model;
            if (evalM(c).isZero()) {
                if (sol.check(s->cs, c, &m2) != Sat::Yes) throw Kill{};
                s->model = m2;
            }
            addC(c);
        } else if (r == Sat::No) {
            discharged[label]++;
            s->known[c] = APInt(1, 1);
            s->known[n] = APInt(1, 0);
        } else
            note_incomplete("solver answered unknown for assertion " + label);
        return true;
    }
    bool b_cover(KInst&, Args& a, Val&) { string l = cstr(arg(a, 0)); covers[l]++; s->trace += digest("C" + l); return true; }
    bool b_note(KInst&, Args& a, Val&)
    {
        if (s->notes.size() < 200) s->notes.push_back({intern(cstr(arg(a, 0))), arg(a, 1)});
        return true;
    }
    bool b_concretize(KInst&, Args& a, Val& r) { r = mkv(X.c(concretize(arg(a, 0)))); return true; }
    bool b_choice(KInst&, Args& a, Val& r)
    {
        // the symbol must be created once although the instruction may be re-executed after a fork
        uint64_t n = conc64(arg(a, 0));
        string nm = cstr(arg(a, 1));
        if (n == 0) throw Kill{};
        auto keep = s->symCount;
        E y = fresh(nm, 32);
        if (y->isC()) { r = y->u() < n ? mkv(y) : mkv(X.c(32, 0)); return true; }
        auto kv = s->known.find(y);
        uint64_t v;
        if (kv != s->known.end()) v = kv->second.getZExtValue();
        else {
            auto after = s->symCount;
            Model m0 = s->model;
            for (uint64_t i = n; i-- > 1;) {
                auto nst = std::make_unique<State>(*s);
                nst->symCount = keep;
                State* me = s;
                s = nst.get();
                s->model.set(y->aux, APInt(32, i));
                addC(X.eq(y, X.c(32, i)));
                s = me;
                push(std::move(nst));
            }
            s->symCount = after;
            s->model.set(y->aux, APInt(32, 0));
            addC(X.eq(y, X.c(32, 0)));
            v = 0;
        }
        r = mkv(X.c(32, v));
        return true;
    }
    bool b_liveheap(KInst&, Args&, Val& r) { r = mkv(X.c(64, s->heapLive)); return true; }
    bool b_stop(KInst&, Args&, Val&) { throw Kill{}; }
    bool b_limit(KInst&, Args& a, Val&) { covers["limit:" + cstr(arg(a, 0))]++; throw Kill{}; }
    bool b_symbolic(KInst&, Args&, Val& r) { r = mkv(X.c(32, opt.concrete ? 0 : 1)); return true; }
    bool b_objsize(KInst&, Args& a, Val& r)
    {
        uint64_t p = conc64(arg(a, 0));
        int i = find(p);
        r = mkv(X.c(64, i >= 0 && !s->objs[i]->dead && p - s->objs[i]->base < s->objs[i]->size
                            ? s->objs[i]->size - (p - s->objs[i]->base) : 0));
        return true;
    }

    // memory
    bool doAlloc(uint64_t n, uint64_t al, Val& r)
    {
        if (n > (1u << 24)) fail("allocation-too-large", "request of " + std::to_string(n) + " bytes");
        r = ptr(alloc(n, al, KHeap, intern("heap"), false));
        s->heapLive++;
        return true;
    }
    bool b_malloc(KInst&, Args& a, Val& r) { return doAlloc(conc64(arg(a, 0)), 16, r); }
    bool b_newal(KInst&, Args& a, Val& r) { return doAlloc(conc64(arg(a, 0)), conc64(arg(a, 1)), r); }
    bool b_memalign(KInst&, Args& a, Val& r) { return doAlloc(conc64(arg(a, 1)), conc64(arg(a, 0)), r); }
    bool b_calloc(KInst&, Args& a, Val& r)
    {
        uint64_t n = conc64(arg(a, 0)) * conc64(arg(a, 1));
        doAlloc(n, 16, r);
        setMem(r.e, X.c(8, 0), n);
        return true;
    }
    bool b_free(KInst&, Args& a, Val&)
    {
        uint64_t p = conc64(arg(a, 0));
        if (p) freeObj(p, "free");
        return true;
    }
    bool b_memcpy(KInst&, Args& a, Val& r)
    {
        uint64_t n = conc64(arg(a, 2));
        copyMem(arg(a, 0), arg(a, 1), n);
        r = a[0];
        return true;
    }
    bool b_memset(KInst&, Args& a, Val& r)
    {
        uint64_t n = conc64(arg(a, 2));
        setMem(arg(a, 0), arg(a, 1), n);
        r = a[0];
        return true;
    }
    bool b_nop(KInst&, Args&, Val& r) { r = mkv(X.c(64, 0)); return true; }
    bool b_zero(KInst& k, Args&, Val& r)
    {
        if (!k.I->getType()->isVoidTy()) r = zeroVal(k.I->getType());
        return true;
    }
    bool b_one(KInst& k, Args&, Val& r) { r = mkv(X.c(tw(k.I->getType()), 1)); return true; }
    bool b_abort(KInst& k, Args&, Val&) { fail("abort", "call of " + demangle(called->name)); }
    bool b_assertfail(KInst& k, Args& a, Val&)
    {
        string m;
        for (auto& x : a) if (x.e && x.e->isC() && x.e->w == PW && x.e->u() > 4096 && find(x.e->u()) >= 0) m += cstr(x.e) + " ";
        fail("library-assertion", m);
    }
    bool b_terminate(KInst&, Args&, Val&)
    {
        string d = "std::terminate";
        if (!T().caught.empty()) d += " because of an exception of type " + tiName(s->exns[T().caught.back()].tinfo);
        fail("terminate", d);
    }
    bool b_errno(KInst&, Args&, Val& r)
    {
        if (!T().errnoAddr) { uint64_t p = alloc(4, 4, KGlobal, intern("errno"), true); T().errnoAddr = p; }
        r = ptr(T().errnoAddr);
        return true;
    }
    void setErrno(int v)
    {
        if (!T().errnoAddr) { uint64_t p = alloc(4, 4, KGlobal, intern("errno"), true); T().errnoAddr = p; }
        int i = find(T().errnoAddr);
        storeBits(own(i, true), 0, X.c(32, v));
    }
    // static initialisation guards
    bool b_guard_acquire(KInst&, Args& a, Val& r)
    {
        uint64_t p = conc64(arg(a, 0)), off;
        Obj* o = resolve(X.c(PW, p), 8, true, off);
        bool done = !loadBits(o, off, 8)->isZero();
        if (done) acquire(p);
        r = mkv(X.c(32, done ? 0 : 1));
        return true;
    }
    bool b_guard_release(KInst&, Args& a, Val&)
    {
        uint64_t p = conc64(arg(a, 0)), off;
        Obj* o = resolve(X.c(PW, p), 8, true, off);
        storeBits(o, off, X.c(8, 1));
        if (s->mt) release(p, false);
        return true;
    }
    // exceptions
    bool b_exn_alloc(KInst&, Args& a, Val& r)
    {
        uint64_t n = conc64(arg(a, 0));
        r = ptr(alloc(n, 16, KHeap, intern("exception"), false));
        return true;
    }
    bool b_exn_free(KInst&, Args&, Val&) { return true; }
    bool b_throw(KInst&, Args& a, Val&)
    {
        uint64_t x = conc64(arg(a, 0)), ti = conc64(arg(a, 1)), d = conc64(arg(a, 2));
        ExnInfo e;
        e.tinfo = ti;
        e.dtor = d;
        e.adjusted = x;
        s->exns[x] = e;
        T().uncaught++;
        unwind(x);
        return false;
    }
    bool b_rethrow(KInst&, Args&, Val&)
    {
        if (T().caught.empty()) fail("terminate", "rethrow without an exception");
        uint64_t x = T().caught.back();
        s->exns[x].rethrown = true;
        T().uncaught++;
        unwind(x);
        return false;
    }
    bool b_resume(KInst&, Args& a, Val&) { unwind(conc64(arg(a, 0))); return false; }
    bool b_begin_catch(KInst&, Args& a, Val& r)
    {
        uint64_t x = conc64(arg(a, 0));
        T().caught.push_back(x);
        auto& e = s->exns[x];
        e.handlers++;
        e.rethrown = false;
        if (T().uncaught > 0) T().uncaught--;
        r = ptr(e.adjusted ? e.adjusted : x);
        return true;
    }
    bool b_exn_ptr(KInst&, Args& a, Val& r)
    {
        uint64_t x = conc64(arg(a, 0));
        r = ptr(s->exns[x].adjusted ? s->exns[x].adjusted : x);
        return true;
    }
    bool b_end_catch(KInst&, Args&, Val& r)
    {
        if (T().caught.empty()) return true;
        uint64_t x = T().caught.back();
        T().caught.pop_back();
        auto& e = s->exns[x];
        e.handlers--;
        if (e.handlers == 0 && !e.rethrown && e.dtor) {
            auto it = addrF.find(e.dtor);
            if (it != addrF.end() && !it->second->isDeclaration()) {
                uint64_t d = e.dtor;
                e.dtor = 0;
                pushFrame(getF(addrF[d]), {ptr(x)});
                return false;
            }
        }
        return true;
    }
    bool b_uncaught(KInst& k, Args&, Val& r) { r = mkv(X.c(tw(k.I->getType()), T().uncaught)); return true; }

    // threads
    bool b_thread_create(KInst&, Args& a, Val& r)
    {
        uint64_t f = conc64(arg(a, 0));
        if (!addrF.count(f)) fail("invalid-call", "thread entry is not a function");
        if (s->th.size() >= MAXT) fail("limit", "more than " + std::to_string(MAXT) + " threads");
        Thread t;
        t.id = (int)s->th.size();
        s->mt = true;
        T().vc[T().id] = std::max<uint32_t>(T().vc[T().id], 1);
        t.vc = T().vc;
        t.vc[t.id] = 1;
        T().vc[T().id]++;
        int me = s->cur, id = t.id;
        s->th.push_back(std::move(t));
        s->cur = id;
        pushFrame(getF(addrF[f]), {a[1]});
        s->cur = me;
        r = mkv(X.c(64, id));
        return true;
    }
    bool b_thread_join(KInst&, Args& a, Val&)
    {
        uint64_t id = conc64(arg(a, 0));
        if (id >= s->th.size()) fail("invalid-call", "join of an unknown thread");
        if ((int)id == s->cur) fail("hang", "thread joins itself");
        if (s->th[id].status != TS::Done) block(TS::Join, id, "join");
        vcJoin(T().vc, s->th[id].vc);
        return true;
    }
    bool b_thread_done(KInst&, Args& a, Val& r)
    {
        uint64_t id = conc64(arg(a, 0));
        r = mkv(X.c(32, id < s->th.size() && s->th[id].status == TS::Done ? 1 : 0));
        return true;
    }
    bool b_tick(KInst& k, Args&, Val& r) { r = mkv(X.c(tw(k.I->getType()), ++s->ticks)); return true; }
    bool b_self(KInst& k, Args&, Val& r) { r = mkv(X.c(tw(k.I->getType()), s->cur)); return true; }
    bool b_yield(KInst& k, Args&, Val& r)
    {
        if (!k.I->getType()->isVoidTy()) r = zeroVal(k.I->getType());
        if (!s->mt) return true;
        finishCall(r);
        T().granted = false;
        giveWay();
        return false;
    }
    bool b_drain(KInst&, Args&, Val& r)
    {
        if (!s->mt) return true;
        finishCall(r);
        T().granted = false;
        T().status = TS::Drain;
        switchAway(false, "drain");
        return false;
    }
    bool b_mutex_lock(KInst&, Args& a, Val& r)
    {
        uint64_t m = conc64(arg(a, 0));
        r = mkv(X.c(32, 0));
        auto& ms = s->mutexes[m];
        if (ms.owner >= 0 && ms.owner == s->cur) {
            uint64_t off;
            Obj* o = resolve(X.c(PW, m), 20, false, off);
            E kind = loadBits(o, off + 16, 32);
            if (kind->isC() && kind->u() == 1) { ms.count++; return true; }
            if (kind->isC() && kind->u() == 2) { r = mkv(X.c(32, 35)); return true; }
            fail("hang", "thread locks a mutex it already holds");
        }
        if (ms.owner >= 0) block(TS::Mutex, m, "mutex");
        uint64_t off;
        resolve(X.c(PW, m), 8, false, off, "lock");
        ms.owner = s->cur;
        ms.count = 1;
        if (s->mt) acquire(m);
        return true;
    }
    bool b_mutex_trylock(KInst&, Args& a, Val& r)
    {
        uint64_t m = conc64(arg(a, 0));
        auto& ms = s->mutexes[m];
        if (ms.owner >= 0) { r = mkv(X.c(32, 16)); return true; }
        ms.owner = s->cur;
        ms.count = 1;
        if (s->mt) acquire(m);
        r = mkv(X.c(32, 0));
        return true;
    }
    bool b_mutex_unlock(KInst&, Args& a, Val& r)
    {
        uint64_t m = conc64(arg(a, 0));
        uint64_t off;
        resolve(X.c(PW, m), 8, false, off, "unlock");
        auto& ms = s->mutexes[m];
        r = mkv(X.c(32, 0));
        if (ms.owner != s->cur) fail("mutex", "unlock of a mutex the thread does not hold");
        if (--ms.count > 0) return true;
        ms.owner = -1;
        if (s->mt) release(m, false);
        return true;
    }
    bool b_cond_wait(KInst&, Args& a, Val& r)
    {
        uint64_t c = conc64(arg(a, 0)), m = conc64(arg(a, 1));
        r = mkv(X.c(32, 0));
        auto& ms = s->mutexes[m];
        if (T().condStage == 0) {
            if (ms.owner != s->cur) fail("mutex", "condition wait without holding the mutex");
            ms.owner = -1;
            if (s->mt) release(m, false);
            T().condStage = 1;
            block(TS::Cond, c, "condition variable");
        }
        if (ms.owner >= 0) block(TS::Mutex, m, "mutex");
        T().condStage = 0;
        ms.owner = s->cur;
        ms.count = 1;
        acquire(m);
        return true;
    }
    bool b_cond_timedwait(KInst&, Args& a, Val& r)
    {
        // always times out after giving way once
        uint64_t m = conc64(arg(a, 1));
        auto& ms = s->mutexes[m];
        if (T().condStage == 0) {
            if (ms.owner != s->cur) fail("mutex", "condition wait without holding the mutex");
            ms.owner = -1;
            if (s->mt) release(m, false);
            T().condStage = 1;
            T().granted = false;
            T().atSync = true;
            vector<int> o = others();
            if (!o.empty()) { switchAway(false, "timed wait"); throw Resched{}; }
            T().atSync = false;
        }
        if (ms.owner >= 0) block(TS::Mutex, m, "mutex");
        T().condStage = 0;
        ms.owner = s->cur;
        ms.count = 1;
        if (s->mt) acquire(m);
        r = mkv(X.c(32, 110));
        return true;
    }
    bool b_cond_signal(KInst& k, Args& a, Val& r)
    {
        uint64_t c = conc64(arg(a, 0));
        bool all = called->name == "pthread_cond_broadcast";
        int n = 0;
        for (auto& t : s->th)
            if (t.status == TS::Cond && t.waitAddr == c && !t.woken) {
                if (!all && n) { note_incomplete("signal with several waiters: only one choice explored"); break; }
                t.woken = true;
                n++;
            }
        r = mkv(X.c(32, 0));
        return true;
    }
    bool b_syscall(KInst&, Args& a, Val& r)
    {
        uint64_t nr = conc64(arg(a, 0));
        if (nr != 202) fatal("system call " + std::to_string(nr));
        uint64_t ad = conc64(arg(a, 1)), op = conc64(arg(a, 2)) & 127, val = conc64(arg(a, 3));
        if (op == 0 || op == 9) {
            if (T().woken) { T().woken = false; r = mkv(X.c(64, 0)); return true; }
            uint64_t off;
            Obj* o = resolve(X.c(PW, ad), 4, false, off);
            uint64_t v = conc64(loadBits(o, off, 32));
            if (v != (val & 0xffffffffu)) { setErrno(11); r = mkv(X.c(64, ~0ull)); return true; }
            block(TS::Futex, ad, "atomic wait");
        }
        if (op == 1 || op == 10) {
            uint64_t n = 0;
            for (auto& t : s->th)
                if (t.status == TS::Futex && t.waitAddr == ad && !t.woken) {
                    if (n >= (val & 0xffffffffu)) { note_incomplete("wake-up with several waiters: only one choice explored"); break; }
                    t.woken = true;
                    n++;
                }
            r = mkv(X.c(64, n));
            return true;
        }
        fatal("futex operation " + std::to_string(op));
    }

    void reg(char const* n, Handler h, bool sync = false)
    {
        if (sync) syncBuiltins.insert((int)builtins.size());
        builtinIdx[n] = (int)builtins.size();
        builtins.push_back({n, h});
    }
    void registerBuiltins()
    {
        reg("sx_make", &Engine::b_make);
        reg("sx_bits", &Engine::b_bits);
        reg("sx_assume_", &Engine::b_assume);
        reg("sx_assert_", &Engine::b_assert);
        reg("sx_cover", &Engine::b_cover);
        reg("sx_note", &Engine::b_note);
        reg("sx_concretize", &Engine::b_concretize);
        reg("sx_choice", &Engine::b_choice);
        reg("sx_live_heap", &Engine::b_liveheap);
        reg("sx_stop", &Engine::b_stop);
        reg("sx_limit", &Engine::b_limit);
        reg("sx_symbolic", &Engine::b_symbolic);
        reg("sx_object_size", &Engine::b_objsize);
        reg("sx_drain", &Engine::b_drain, false);
        reg("sx_thread_create", &Engine::b_thread_create);
        reg("sx_thread_join", &Engine::b_thread_join, true);
        reg("sx_thread_done", &Engine::b_thread_done, true);
        reg("sx_self", &Engine::b_self);
        reg("sx_tick", &Engine::b_tick);
        reg("sx_moment", &Engine::b_tick, true);
        reg("sx_yield", &Engine::b_yield);
        for (char const* n : {"malloc", "_Znwm", "_Znam"}) reg(n, &Engine::b_malloc);
        reg("_ZnwmRKSt9nothrow_t", &Engine::b_malloc);
        reg("_ZnamRKSt9nothrow_t", &Engine::b_malloc);
        reg("_ZnwmSt11align_val_t", &Engine::b_newal);
        reg("_ZnamSt11align_val_t", &Engine::b_newal);
        reg("aligned_alloc", &Engine::b_memalign);
        reg("calloc", &Engine::b_calloc);
        for (char const* n : {"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t",
                              "_ZdaPvSt11align_val_t", "_ZdaPvmSt11align_val_t", "_ZdlPvRKSt9nothrow_t"})
            reg(n, &Engine::b_free);
        reg("memcpy", &Engine::b_memcpy);
        reg("memmove", &Engine::b_memcpy);
        reg("memset", &Engine::b_memset);
        for (char const* n : {"abort", "exit", "_exit", "quick_exit", "__cxa_pure_virtual", "__cxa_deleted_virtual", "__stack_chk_fail", "__cxa_throw_bad_array_new_length", "__cxa_bad_cast", "__cxa_bad_typeid"})
            reg(n, &Engine::b_abort);
        reg("__assert_fail", &Engine::b_assertfail);
        reg("_ZSt21__glibcxx_assert_failPKciS0_S0_", &Engine::b_assertfail);
        reg("_ZSt9terminatev", &Engine::b_terminate);
        reg("__errno_location", &Engine::b_errno);
        reg("__cxa_guard_acquire", &Engine::b_guard_acquire);
        reg("__cxa_guard_release", &Engine::b_guard_release);
        reg("__cxa_guard_abort", &Engine::b_nop);
        reg("__cxa_allocate_exception", &Engine::b_exn_alloc);
        reg("__cxa_free_exception", &Engine::b_exn_free);
        reg("__cxa_throw", &Engine::b_throw);
        reg("__cxa_rethrow", &Engine::b_rethrow);
        reg("_Unwind_Resume", &Engine::b_resume);
        reg("__cxa_begin_catch", &Engine::b_begin_catch);
        reg("__cxa_get_exception_ptr", &Engine::b_exn_ptr);
        reg("__cxa_end_catch", &Engine::b_end_catch);
        reg("_ZSt18uncaught_exceptionv", &Engine::b_uncaught);
        reg("_ZSt19uncaught_exceptionsv", &Engine::b_uncaught);
        for (char const* n : {"__cxa_atexit", "atexit", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_cond_init", "pthread_cond_destroy",
                              "pthread_mutexattr_init", "pthread_mutexattr_destroy", "pthread_rwlock_init", "pthread_rwlock_destroy",
                              "pthread_detach", "__cxa_thread_atexit"})
            reg(n, &Engine::b_zero);
        reg("pthread_self", &Engine::b_self);
        for (char const* n : {"sched_yield", "nanosleep", "clock_nanosleep", "usleep", "pthread_yield"}) reg(n, &Engine::b_yield);
        for (char const* n : {"pthread_mutex_lock", "pthread_rwlock_wrlock", "pthread_rwlock_rdlock"}) reg(n, &Engine::b_mutex_lock, true);
        for (char const* n : {"pthread_mutex_trylock", "pthread_rwlock_trywrlock", "pthread_rwlock_tryrdlock"})
            reg(n, &Engine::b_mutex_trylock, true);
        for (char const* n : {"pthread_mutex_unlock", "pthread_rwlock_unlock"}) reg(n, &Engine::b_mutex_unlock);
        reg("pthread_cond_wait", &Engine::b_cond_wait, true);
        reg("pthread_cond_timedwait", &Engine::b_cond_timedwait, true);
        reg("pthread_cond_clockwait", &Engine::b_cond_timedwait, true);
        reg("pthread_cond_signal", &Engine::b_cond_signal, true);
        reg("pthread_cond_broadcast", &Engine::b_cond_signal, true);
        reg("syscall", &Engine::b_syscall, true);
    }

    // ------------------------------------------------------------------ intrinsics
    E popcnt(E x)
    {
        E r = X.c(x->w, 0);
        for (unsigned i = 0; i < x->w; i++) r = X.add(r, X.zext(X.extract(x, i, 1), x->w));
        return r;
    }
    E clz(E x, bool trailing)
    {
        E r = X.c(x->w, x->w);
        for (unsigned i = 0; i < x->w; i++) {
            unsigned bit = trailing ? x->w - 1 - i : i;
            r = X.ite(X.extract(x, bit, 1), X.c(x->w, trailing ? bit : x->w - 1 - bit), r);
        }
        return r;
    }
    Val pairV(E a, E b)
    {
        Val v;
        v.agg = std::make_shared<vector<Val>>();
        v.agg->push_back(mkv(a));
        v.agg->push_back(mkv(b));
        return v;
    }
    // returns false when not handled
    bool intrinsic(KInst& k, Intrinsic::ID id, Args& a, Val& r)
    {
        switch (id) {
        case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::dbg_label: case Intrinsic::dbg_assign:
        case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing:
        case Intrinsic::prefetch: case Intrinsic::var_annotation: case Intrinsic::invariant_end:
        case Intrinsic::stackrestore: case Intrinsic::x86_sse2_pause: case Intrinsic::sideeffect:
            return true;
        case Intrinsic::invariant_start: case Intrinsic::stacksave: r = mkv(X.c(PW, 0)); return true;
        case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: {
            uint64_t p = conc64(arg(a, 1));
            int i = find(p);
            if (i < 0 || s->objs[i]->base != p || s->objs[i]->kind != KStack) return true;
            Obj* o = own(i, true);
            if (id == Intrinsic::lifetime_start) {
                o->dead = false;
                o->b.assign(o->size, UNINIT);
                o->race.clear();
                o->shared = false;
            } else {
                if (s->mt && o->shared) race(o, 0, o->size, true, false);
                o->dead = true;
            }
            return true;
        }
        case Intrinsic::memcpy: case Intrinsic::memcpy_inline: case Intrinsic::memmove: {
            uint64_t n = conc64(arg(a, 2));
            copyMem(arg(a, 0), arg(a, 1), n);
            return true;
        }
        case Intrinsic::memset: case Intrinsic::memset_inline: {
            uint64_t n = conc64(arg(a, 2));
            setMem(arg(a, 0), arg(a, 1), n);
            return true;
        }
        case Intrinsic::expect: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group:
        case Intrinsic::ssa_copy: case Intrinsic::expect_with_probability: case Intrinsic::ptr_annotation:
            r = a[0];
            return true;
        case Intrinsic::is_constant: r = mkv(X.bit(false)); return true;
        case Intrinsic::objectsize: r = mkv(X.c(tw(k.I->getType()), a[1].e->isZero() ? ~0ull : 0)); return true;
        case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: fail("trap", "trap instruction executed");
        case Intrinsic::umax: case Intrinsic::umin: case Intrinsic::smax: case Intrinsic::smin: {
            E x = a[0].e, y = a[1].e;
            E c = id == Intrinsic::umax ? X.ult(y, x) : id == Intrinsic::umin ? X.ult(x, y) : id == Intrinsic::smax ? X.slt(y, x) : X.slt(x, y);
            r = mkv(X.ite(c, x, y));
            return true;
        }
        case Intrinsic::abs: {
            E x = a[0].e;
            r = mkv(X.ite(X.slt(x, X.c(x->w, 0)), X.sub(X.c(x->w, 0), x), x));
            return true;
        }
        case Intrinsic::bswap: {
            E x = a[0].e, o = nullptr;
            for (unsigned i = 0; i < x->w / 8; i++) { E b = X.extract(x, 8 * i, 8); o = o ? X.concat(o, b) : b; }
            r = mkv(o);
            return true;
        }
        case Intrinsic::bitreverse: {
            E x = a[0].e, o = nullptr;
            for (unsigned i = 0; i < x->w; i++) { E b = X.extract(x, i, 1); o = o ? X.concat(o, b) : b; }
            r = mkv(o);
            return true;
        }
        case Intrinsic::ctpop: r = mkv(popcnt(a[0].e)); return true;
        case Intrinsic::ctlz: r = mkv(clz(a[0].e, false)); return true;
        case Intrinsic::cttz: r = mkv(clz(a[0].e, true)); return true;
        case Intrinsic::fshl: case Intrinsic::fshr: {
            unsigned w = a[0].e->w;
            E sh = X.urem(a[2].e, X.c(w, w));
            E cc = X.concat(a[0].e, a[1].e);
            E sw = X.zext(sh, 2 * w);
            r = id == Intrinsic::fshl ? mkv(X.extract(X.shl(cc, sw), w, w)) : mkv(X.extract(X.lshr(cc, sw), 0, w));
            return true;
        }
        case Intrinsic::uadd_with_overflow: {
            E x = a[0].e, y = a[1].e, z = X.add(x, y);
            r = pairV(z, X.ult(z, x));
            return true;
        }
        case Intrinsic::usub_with_overflow: r = pairV(X.sub(a[0].e, a[1].e), X.ult(a[0].e, a[1].e)); return true;
        case Intrinsic::umul_with_overflow: {
            unsigned w = a[0].e->w;
            E z = X.mul(X.zext(a[0].e, 2 * w), X.zext(a[1].e, 2 * w));
            r = pairV(X.extract(z, 0, w), X.lnot(X.eq(X.extract(z, w, w), X.c(w, 0))));
            return true;
        }
        case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
            unsigned w = a[0].e->w, ww = id == Intrinsic::smul_with_overflow ? 2 * w : w + 1;
            E x = X.sext(a[0].e, ww), y = X.sext(a[1].e, ww);
            E z = id == Intrinsic::sadd_with_overflow ? X.add(x, y) : id == Intrinsic::ssub_with_overflow ? X.sub(x, y) : X.mul(x, y);
            E lo = X.extract(z, 0, w);
            r = pairV(lo, X.lnot(X.eq(X.sext(lo, ww), z)));
            return true;
        }
        case Intrinsic::uadd_sat: {
            E x = a[0].e, z = X.add(x, a[1].e);
            r = mkv(X.ite(X.ult(z, x), X.c(APInt::getAllOnes(x->w)), z));
            return true;
        }
        case Intrinsic::usub_sat: r = mkv(X.ite(X.ult(a[0].e, a[1].e), X.c(a[0].e->w, 0), X.sub(a[0].e, a[1].e))); return true;
        case Intrinsic::ptrmask: r = mkv(X.band(a[0].e, resize(a[1].e, PW))); return true;
        case Intrinsic::threadlocal_address: {
            auto* g = cast<GlobalVariable>(cast<CallBase>(k.I)->getArgOperand(0)->stripPointerCasts());
            auto& t = T();
            auto it = t.tls.find(g);
            if (it == t.tls.end()) {
                uint64_t sz = DL->getTypeAllocSize(g->getValueType());
                uint64_t p = alloc(sz, 16, KGlobal, intern(g->getName().str()), true);
                if (g->hasInitializer()) writeConst(own(find(p), true), 0, g->getInitializer());
                it = T().tls.emplace(g, p).first;
            }
            r = ptr(it->second);
            return true;
        }
        case Intrinsic::eh_typeid_for: r = mkv(X.c(32, typeId(conc64(arg(a, 0))))); return true;
        case Intrinsic::fabs: r = mkv(X.band(a[0].e, X.c(APInt::getSignedMaxValue(a[0].e->w)))); return true;
        case Intrinsic::fmuladd: r = mkv(X.fop(FADD, a[0].e->w, X.fop(FMUL, a[0].e->w, a[0].e, a[1].e), a[2].e)); return true;
        case Intrinsic::vector_reduce_add: case Intrinsic::vector_reduce_or: case Intrinsic::vector_reduce_and:
        case Intrinsic::vector_reduce_xor: {
            E x = (*a[0].agg)[0].e;
            for (size_t i = 1; i < a[0].agg->size(); i++) {
                E y = (*a[0].agg)[i].e;
                x = id == Intrinsic::vector_reduce_add ? X.add(x, y) : id == Intrinsic::vector_reduce_or ? X.bor(x, y)
                  : id == Intrinsic::vector_reduce_and ? X.band(x, y) : X.bxor(x, y);
            }
            r = mkv(x);
            return true;
        }
        default: return false;
        }
    }
