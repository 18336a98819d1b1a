    // ------------------------------------------------------------------ start-up and search
    void setup()
    {
        SMDiagnostic err;
        M = parseIRFile(opt.in, err, ctx);
        if (!M) { err.print("symx", errs()); exit(3); }
        DL = &M->getDataLayout();
        be = DL->isBigEndian();
        PW = DL->getPointerSizeInBits();
        sol.timeoutMs = opt.solverMs;
        sol.dumpDir = opt.dump;
        sol.dumpMax = opt.dumpMax;
        sol.tinyConfirm = opt.audit / 4;
        for (int i = 0; i < 256; i++) byteC[i] = X.c(8, i);
        UNINIT = X.sym("<uninitialised>", 8);
        registerBuiltins();
        rng = opt.seed * 2654435761u + 1;
    }
    std::unique_ptr<State> initial()
    {
        auto st0 = std::make_unique<State>();
        s = st0.get();
        s->nextBase = 0x200000;
        Thread t;
        t.id = 0;
        t.vc[0] = 1;
        s->th.push_back(t);
        uint64_t fa = 0x10000;
        for (auto& f : *M) { faddr[&f] = fa; addrF[fa] = &f; fa += 16; }
        if (fa > 0x200000) s->nextBase = fa + 0x1000;
        for (auto& g : M->globals()) {
            uint64_t sz = g.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(g.getValueType()) : 8;
            if (!g.hasInitializer() && sz < 64) sz = 64;
            uint64_t al = g.getAlign() ? g.getAlign()->value() : DL->getPreferredAlign(&g).value();
            uint64_t a = alloc(sz, al, KGlobal, intern(g.getName().str()), true);
            gaddr[&g] = a;
            addrG[a] = &g;
        }
        for (auto& g : M->globals()) {
            if (!g.hasInitializer()) continue;
            int i = find(gaddr[&g]);
            writeConst(s->objs[i].get(), 0, g.getInitializer());
            s->objs[i]->ro = g.isConstant();
        }
        return st0;
    }
    void runCtors()
    {
        auto* g = M->getGlobalVariable("llvm.global_ctors");
        Function* e = M->getFunction(opt.entry);
        if (!e || e->isDeclaration()) fatal("entry function " + opt.entry + " not found");
        vector<std::pair<uint64_t, Function*>> cs;
        if (g && g->hasInitializer())
            if (auto* a = dyn_cast<ConstantArray>(g->getInitializer()))
                for (auto& o : a->operands()) {
                    auto* c = cast<ConstantStruct>(o.get());
                    if (auto* f = dyn_cast<Function>(c->getOperand(1)->stripPointerCasts()))
                        cs.push_back({cast<ConstantInt>(c->getOperand(0))->getZExtValue(), f});
                }
        std::stable_sort(cs.begin(), cs.end(), [](auto& x, auto& y) { return x.first < y.first; });
        pushFrame(getF(e), vector<Val>(e->arg_size(), mkv(X.c(64, 0))));
        for (auto it = cs.rbegin(); it != cs.rend(); ++it) {
            F().isCtor = true;
            pushFrame(getF(it->second), {});
        }
    }
    bool stopNow() const { return (int)viol.size() >= opt.maxViol; }
    // runs s until it ends; children are pushed on `work`
    void runState()
    {
        uint64_t n = 0;
        try {
            for (;;) {
                if (++n % 4096 == 0 && now() - t0 > opt.maxTime) { note_incomplete("time limit"); return; }
                if (++s->steps > opt.maxSteps) fail("step-limit", "path longer than " + std::to_string(opt.maxSteps) + " instructions");
                st.steps++;
                if (opt.trace) traceInst();
                try { step(); } catch (Resched&) {}
            }
        } catch (Kill&) {}
        st.paths++;
    }
    void traceInst()
    {
        Frame& f = F();
        string str;
        raw_string_ostream o(str);
        f.f->insts[f.pc].I->print(o);
        std::cerr << "[" << s->cur << "] " << f.f->name.substr(0, 60) << ": " << str << "\n";
    }
    // depth-first search until the work list is empty or a limit is hit
    void dfs(double budget)
    {
        double b0 = now();
        while (!work.empty() && !stopNow()) {
            if (now() - t0 > opt.maxTime) { note_incomplete("time limit"); return; }
            if (st.paths >= opt.maxPaths) { note_incomplete("path limit"); return; }
            if (budget > 0 && now() - b0 > budget) return;
            std::unique_ptr<State> x = std::move(work.back());
            work.pop_back();
            s = x.get();
            runState();
            s = nullptr;
        }
    }
    static string jarr(vector<string> const& v)
    {
        string r = "[";
        for (size_t i = 0; i < v.size(); i++) r += (i ? "," : "") + v[i];
        return r + "]";
    }
    static string jmap(std::map<string, uint64_t> const& m)
    {
        string r = "{";
        bool first = true;
        for (auto& p : m) { r += (first ? "" : ",") + js(p.first) + ":" + std::to_string(p.second); first = false; }
        return r + "}";
    }
    void funcInfo(vector<string>& funcs, std::map<string, std::set<unsigned>>& lines)
    {
        for (auto& p : kf) {
            KFunc* k = p.second.get();
            if (!k->executed) continue;
            string file;
            unsigned line = 0;
            if (auto* sp = k->f->getSubprogram()) { file = sp->getFilename().str(); line = sp->getLine(); }
            if (file.find("xitren/") == string::npos) continue;
            funcs.push_back(js(demangle(k->name) + " @ " + file.substr(file.find("xitren/")) + ":" + std::to_string(line)));
            for (auto& i : k->insts)
                if (i.executed)
                    if (auto dl = i.I->getDebugLoc())
                        if (auto* sc = dl->getScope())
                            if (sc->getFilename().str().find("xitren/") != string::npos && dl.getLine())
                                lines[sc->getFilename().str().substr(sc->getFilename().str().find("xitren/"))].insert(dl.getLine());
        }
    }
    string sampleJson()
    {
        vector<string> v;
        for (auto& x : samples) {
            string m = "{";
            for (size_t i = 0; i < x.model.size(); i++) m += (i ? "," : "") + js(x.model[i].first) + ":" + js(x.model[i].second);
            v.push_back("{\"model\":" + m + "},\"trace\":\"" + std::to_string(x.trace) + "\",\"threads\":" + (x.threads ? "true" : "false") + "}");
        }
        return jarr(v);
    }
    string result()
    {
        if (uint64_t bad = sol.auditRewrites(opt.audit)) note_incomplete("the solver refutes " + std::to_string(bad) + " simplifications of the executor");
        std::ostringstream o;
        vector<string> fs, vs;
        std::map<string, std::set<unsigned>> lines;
        funcInfo(fs, lines);
        std::sort(fs.begin(), fs.end());
        for (auto& v : viol) {
            string m = "{", n = "[", sc = "[";
            for (size_t i = 0; i < v.model.size(); i++) m += (i ? "," : "") + js(v.model[i].first) + ":" + js(v.model[i].second);
            for (size_t i = 0; i < v.notes.size(); i++) n += string(i ? "," : "") + "[" + js(v.notes[i].first) + "," + js(v.notes[i].second) + "]";
            for (size_t i = 0; i < v.sched.size(); i++) sc += (i ? "," : "") + std::to_string(v.sched[i]);
            vs.push_back("{\"kind\":" + js(v.kind) + ",\"label\":" + js(v.label) + ",\"detail\":" + js(v.detail) + ",\"where\":" + js(v.where)
                         + ",\"model\":" + m + "},\"notes\":" + n + "],\"sched\":" + sc + "],\"threads\":" + (v.symThreads ? "true" : "false")
                         + ",\"uninit\":" + (v.usesUninit ? "true" : "false") + "}");
        }
        o << "{\"status\":" << js(!viol.empty() ? "violation" : incomplete ? "incomplete" : "ok")
          << ",\"why\":" << js(incompleteWhy) << ",\"violations\":" << jarr(vs) << ",\"covers\":" << jmap(covers)
          << ",\"reached\":" << jmap(reached) << ",\"discharged\":" << jmap(discharged) << ",\"functions\":" << jarr(fs) << ",\"lines\":{";
        bool first = true;
        for (auto& p : lines) {
            o << (first ? "" : ",") << js(p.first) << ":[";
            bool f2 = true;
            for (unsigned l : p.second) { o << (f2 ? "" : ",") << l; f2 = false; }
            o << "]";
            first = false;
        }
        o << "},\"samples\":" << sampleJson() << ",\"stats\":{\"paths\":" << st.paths << ",\"infeasible_by_assumption\":" << st.pathsAssumed << ",\"instructions\":" << st.steps
          << ",\"forks\":" << st.forks << ",\"asserts\":" << st.asserts << ",\"asserts_by_solver\":" << st.assertsSolver
          << ",\"memory_accesses\":" << st.accesses << ",\"sched_points\":" << st.schedPoints << ",\"max_depth\":" << st.maxDepth
          << ",\"queries\":" << sol.st.queries << ",\"rewrites\":" << X.audit.size() << ",\"rewrites_checked\":" << sol.st.rewritesChecked << ",\"tiny\":" << sol.st.tiny << ",\"cache_hits\":" << sol.st.cacheHits << ",\"sat\":" << sol.st.sat
          << ",\"unsat\":" << sol.st.unsat << ",\"unknown\":" << sol.st.unknown << ",\"solver_seconds\":" << sol.st.seconds
          << ",\"max_query_seconds\":" << sol.st.maxSeconds << ",\"dumped\":" << sol.dumped << ",\"seconds\":" << now() - t0 << "}}";
        return o.str();
    }
    int main()
    {
        setup();
        auto first = initial();
        runCtors();
        work.push_back(std::move(first));
        vector<string> parts;
        if (opt.jobs <= 1) dfs(0);
        else {
            dfs(1.0);
            if (!work.empty() && !stopNow() && !incomplete) {
                // widen the frontier (oldest states first), then share it among worker processes
                size_t want = (size_t)opt.jobs * 24;
                double b0 = now();
                while (!work.empty() && work.size() < want && !stopNow() && now() - b0 < 5) {
                    std::unique_ptr<State> x = std::move(work.front());
                    work.erase(work.begin());
                    s = x.get();
                    runState();
                    s = nullptr;
                }
                if (!work.empty() && !stopNow()) parts = parallel();
            }
        }
        if (opt.verbose) {
            vector<std::pair<uint64_t, string>> v;
            for (auto& p : forkSites) v.push_back({p.second, p.first});
            std::sort(v.rbegin(), v.rend());
            for (size_t i = 0; i < v.size() && i < 12; i++) std::cerr << "fork " << v[i].first << " " << v[i].second << "\n";
        }
        std::ofstream o(opt.out);
        if (parts.empty()) o << "[" << result() << "]\n";
        else {
            parts.push_back(result());
            o << jarr(parts) << "\n";
        }
        o.close();
        _exit(0);
    }
    vector<string> parallel()
    {
        struct Sh { std::atomic<size_t> next; std::atomic<int> stop; };
        auto* sh = (Sh*)mmap(nullptr, sizeof(Sh), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        new (sh) Sh{};
        vector<std::unique_ptr<State>> all = std::move(work);
        work.clear();
        // oldest states carry the largest subtrees: hand them out first
        vector<pid_t> pids;
        vector<string> parts;
        for (int j = 0; j < opt.jobs; j++) {
            pid_t p = fork();
            if (p == 0) {
                st = Stats{};
                sol.st = SolverStats{};
                covers.clear(); reached.clear(); discharged.clear(); samples.clear(); sampleSeen = 0; rng += j + 1;
                for (;;) {
                    size_t i = sh->next++;
                    if (i >= all.size() || sh->stop) break;
                    work.push_back(std::move(all[i]));
                    while (!work.empty() && !sh->stop) {
                        dfs(0.25);
                        if (incomplete) break;
                        if (stopNow()) { sh->stop = 1; break; }
                    }
                    work.clear();
                    if (incomplete) break;
                }
                if (sh->stop && !stopNow() && !incomplete) {}
                std::ofstream o(opt.out + "." + std::to_string(j));
                o << result();
                o.close();
                _exit(0);
            }
            pids.push_back(p);
        }
        for (int j = 0; j < opt.jobs; j++) {
            int stt = 0;
            waitpid(pids[j], &stt, 0);
            string fn = opt.out + "." + std::to_string(j);
            if (!WIFEXITED(stt) || WEXITSTATUS(stt) != 0) {
                note_incomplete("worker process failed");
                std::ifstream mainOut(opt.out);
                continue;
            }
            std::ifstream i(fn);
            std::stringstream b;
            b << i.rdbuf();
            parts.push_back(b.str());
            unlink(fn.c_str());
        }
        return parts;
    }
