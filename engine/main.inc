// ------------------------------------------------------------------ driver
static std::string jesc(const std::string& s) { std::string r; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r; }
// every mutable object of static storage duration that a function of the library refers to, and every direct use of a global allocation function
static bool constType(const DIType* t) { while (t) { auto* d = dyn_cast<DIDerivedType>(t); if (!d) { auto* c = dyn_cast<DICompositeType>(t); if (c && c->getTag() == dwarf::DW_TAG_array_type) { t = c->getBaseType(); continue; } return false; } if (d->getTag() == dwarf::DW_TAG_const_type) return true; if (d->getTag() != dwarf::DW_TAG_typedef && d->getTag() != dwarf::DW_TAG_member) return false; t = d->getBaseType(); } return false; }
static bool constGlobal(const GlobalVariable* g) {
    if (g->isConstant()) return true;
    if (g->getName().starts_with("_ZGV") || g->getName() == "__dso_handle") return true;   // guard of a function local static: judged by the object it guards
    SmallVector<DIGlobalVariableExpression*, 2> ds; g->getDebugInfo(ds); for (auto* d : ds) if (constType(d->getVariable()->getType())) return true;
    return false;
}
static void usedGlobals(const Value* v, std::set<const GlobalVariable*>& out, std::set<const Value*>& seen) { auto* c = dyn_cast<Constant>(v); if (!c || !seen.insert(v).second) return; if (auto* g = dyn_cast<GlobalVariable>(c)) { out.insert(g); return; } if (isa<Function>(c)) return; for (auto& o : c->operands()) usedGlobals(o, out, seen); }
// does the value depend on an argument of its function? (backward slice through the locals of the unoptimised code)
static bool fromArgs(const Value* v, std::set<const Value*>& seen) {
    if (!seen.insert(v).second) return false;
    if (isa<Argument>(v)) return true;
    auto* i = dyn_cast<Instruction>(v); if (!i) { if (auto* c = dyn_cast<ConstantExpr>(v)) { for (auto& o : c->operands()) if (fromArgs(o, seen)) return true; } return false; }
    if (isa<AllocaInst>(i)) { for (auto* u : i->users()) { if (auto* s = dyn_cast<StoreInst>(u)) { if (s->getPointerOperand() == i && fromArgs(s->getValueOperand(), seen)) return true; } else if (auto* c = dyn_cast<CallBase>(u)) { if (!c->isLifetimeStartOrEnd() && !isa<DbgInfoIntrinsic>(c) && c != v && fromArgs(c, seen)) return true; } } return false; }
    for (auto& o : i->operands()) if (!isa<BasicBlock>(o) && fromArgs(o, seen)) return true;
    return false;
}
static const GlobalVariable* baseGlobal(const Value* v) { for (int k = 0; k < 16; ++k) { if (auto* g = dyn_cast<GlobalVariable>(v)) return g; if (auto* e = dyn_cast<GEPOperator>(v)) v = e->getPointerOperand(); else if (auto* i = dyn_cast<IntrinsicInst>(v)) { if (i->getIntrinsicID() != Intrinsic::threadlocal_address) return nullptr; v = i->getArgOperand(0); } else return nullptr; } return nullptr; }
// a constant object that is initialised at run time, once, from the arguments of whoever comes first, is state shared between the containers
static const GlobalVariable* onceFromArgs(const Instruction& I) {
    if (auto* s = dyn_cast<StoreInst>(&I)) { auto* g = baseGlobal(s->getPointerOperand()); std::set<const Value*> seen; return g && !g->getName().starts_with("_ZGV") && fromArgs(s->getValueOperand(), seen) ? g : nullptr; }
    if (auto* c = dyn_cast<CallBase>(&I)) { if (isa<DbgInfoIntrinsic>(c) || c->isLifetimeStartOrEnd()) return nullptr; const GlobalVariable* g = nullptr; unsigned at = 0;
        auto* f = c->getCalledFunction(); bool ctor = false; if (f) { llvm::ItaniumPartialDemangler d; std::string n = f->getName().str(); ctor = !d.partialDemangle(n.c_str()) && d.isCtorOrDtor() && llvm::demangle(n).find('~') == std::string::npos; }
        if (c->arg_size() && (ctor || c->paramHasAttr(0, Attribute::StructRet) || isa<MemIntrinsic>(c))) g = baseGlobal(c->getArgOperand(0));   // constructor call, result slot or memcpy
        if (!g || g->getName().starts_with("_ZGV") || g->getName().starts_with(".str")) return nullptr;
        if (!c->getMetadata("dbg") || g->isConstant()) return nullptr;
        for (unsigned k = 0; k < c->arg_size(); ++k) if (k != at) { std::set<const Value*> seen; if (fromArgs(c->getArgOperand(k), seen)) return g; } }
    return nullptr;
}
static bool libFile(StringRef f) { return f.contains("boost/circular_buffer"); }
static int scanGlobals(const std::string& out) {
    long nf = 0, ni = 0, ng = 0, nc = 0; std::string vs; bool first = true; std::set<std::string> done; std::set<std::string> files;
    auto add = [&](const std::string& tag, const std::string& msg, const Instruction& I, const Function& F) {
        std::string where; if (auto& dl = I.getDebugLoc()) { auto* l = dl.get(); StringRef f = l->getFilename(); size_t p = f.find("boost/circular_buffer"); if (p != StringRef::npos) f = f.substr(p); where = f.str() + ":" + std::to_string(l->getLine()); }
        std::string fn = llvm::demangle(F.getName().str()); if (!done.insert(tag + where + msg).second) return;
        if (!first) vs += ",\n"; first = false;
        vs += "{\"tag\":\"" + tag + "\",\"msg\":\"" + jesc(msg) + "\",\"where\":\"" + jesc(where) + "\",\"function\":\"" + jesc(fn) + "\",\"entry\":\"\",\"example\":\"\",\"stack\":\"\",\"count\":1}"; };
    for (auto& F : *M) {
        if (F.isDeclaration()) continue; auto* sp = F.getSubprogram(); if (!sp || !libFile(sp->getFilename())) continue;
        ++nf; files.insert(sp->getFilename().str());
        for (auto& B : F) for (auto& I : B) { ++ni;
            std::set<const GlobalVariable*> gs; std::set<const Value*> seen; for (auto& o : I.operands()) usedGlobals(o, gs, seen);
            for (auto* g : gs) { ++ng; if (!constGlobal(g)) add("global", "the library uses the mutable object '" + llvm::demangle(g->getName().str()) + "' of static storage duration", I, F); }
            if (auto* g = onceFromArgs(I)) if (constGlobal(g)) add("global", "the object '" + llvm::demangle(g->getName().str()) + "' of static storage duration is initialised from the arguments of the first call and used by all", I, F);
            if (auto* c = dyn_cast<CallBase>(&I)) { ++nc; if (auto* f = c->getCalledFunction()) { StringRef n = f->getName();
                if (n == "_Znwm" || n == "_Znam" || n == "_ZdlPv" || n == "_ZdlPvm" || n == "_ZdaPv" || n == "_ZdaPvm" || n == "malloc" || n == "calloc" || n == "realloc" || n == "free" || n.starts_with("_ZnwmSt") || n.starts_with("_ZnwmRK") || n.starts_with("_ZnamRK")) add("bypass", "the library calls " + llvm::demangle(n.str()) + " directly instead of the allocator", I, F); } } }
    }
    std::string o = "{\"functions\":" + std::to_string(nf) + ",\"instructions\":" + std::to_string(ni) + ",\"global_uses\":" + std::to_string(ng) + ",\"calls\":" + std::to_string(nc) + ",\"violations\":[\n" + vs + "\n]}\n";
    FILE* f = fopen(out.c_str(), "w"); fputs(o.c_str(), f); fclose(f); return 0;
}
// integer constants the library's own code compares, divides, counts with or passes on: sizes at which its behaviour may change
static std::set<long> libConstants(const Function* F) {
    static std::map<const Function*, std::pair<std::set<long>, std::vector<const Function*>>> memo; std::set<long> out; std::set<const Function*> seen; std::vector<const Function*> todo{ F };
    while (!todo.empty()) { const Function* f = todo.back(); todo.pop_back(); if (!seen.insert(f).second || f->isDeclaration()) continue;
        if (!memo.count(f)) { auto& m = memo[f]; auto* sp = f->getSubprogram(); bool lib = sp && libFile(sp->getFilename());
            for (auto& B : *f) for (auto& I : B) {
                if (auto* c = dyn_cast<CallBase>(&I)) if (auto* g = c->getCalledFunction()) if (!g->isDeclaration()) m.second.push_back(g);
                if (!lib || isa<IntrinsicInst>(I) || isa<GetElementPtrInst>(I) || isa<AllocaInst>(I) || isa<InvokeInst>(I) && !cast<InvokeInst>(I).getCalledFunction()) continue;
                if (auto* e = dyn_cast<PossiblyExactOperator>(&I)) if (I.getOpcode() == Instruction::SDiv && e->isExact()) continue;   // difference of pointers
                auto add = [&](const Value* v) { auto* k = dyn_cast<ConstantInt>(v); if (!k || k->getBitWidth() > 64 || k->getBitWidth() < 32) return; long x = k->getSExtValue(); if (I.isShift() && x > 0 && x < 20) x = 1L << x; if (x < 0) x = -x; if (x > 4 && x <= 4096) m.first.insert(x); };
                if (auto* c = dyn_cast<CallBase>(&I)) { if (!c->getCalledFunction() || c->getCalledFunction()->getName().contains("assertion_failed")) continue; for (auto& o : c->args()) add(o); }
                else if (isa<ICmpInst>(I) || isa<BinaryOperator>(I) || isa<SelectInst>(I) || isa<StoreInst>(I) || isa<PHINode>(I) || isa<ReturnInst>(I)) for (auto& o : I.operands()) add(o); } }
        auto& m = memo[f]; out.insert(m.first.begin(), m.first.end()); todo.insert(todo.end(), m.second.begin(), m.second.end()); }
    return out;
}
// analyses the entries selected and writes the report
static int analyse(const std::vector<std::string>& pats, const std::string& out, bool list) {
    if (optBox) { if (!stepsGiven) optMaxSteps = 2000000000; optMaxOuts = 100000; }
    std::vector<Function*> entries;
    for (auto& F : *M) if (!F.isDeclaration() && F.getName().starts_with("sa_entry_")) entries.push_back(&F);
    std::sort(entries.begin(), entries.end(), [](Function* a, Function* b) { return a->getName() < b->getName(); });
    std::vector<std::string> entJson;
    int ran = 0; bool fail = false;
    for (Function* F : entries) {
        std::string n = F->getName().substr(9).str();
        bool sel = pats.empty(); for (auto& p : pats) { if (p.back() == '*' ? n.compare(0, p.size() - 1, p, 0, p.size() - 1) == 0 : n == p) sel = true; }
        if (!sel) continue;
        if (list) { outs() << n; for (long k : libConstants(F)) outs() << " " << k; outs() << "\n"; continue; }
        ++ran; curEntry = n; nSteps = 0; entryStart = std::chrono::steady_clock::now();
        long st0 = nSteps, pa0 = nPaths, ob0 = nOblig; unsigned long long lp0 = lpCalls; (void)st0;
        symName.clear(); symMag.clear(); muted = 0;
        std::string bud;
        std::vector<CallOut> res;
        try { State s; std::vector<Val> args; execCall(std::move(s), 0, F, args, res); }
        catch (Budget& b) { bud = b.why; muted = 0; ++undecided["budget: " + b.why + " in " + n]; ++undecidedEntry[n]; if (optVerbose) errs() << "BUDGET " << n << " " << b.why << "\n"; }
        for (auto& r : res) if (r.unw) { report(r.s, "terminate", "exception escapes the harness"); }
        double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - entryStart).count();
        char buf[512]; snprintf(buf, sizeof buf, "{\"name\":\"%s\",\"steps\":%ld,\"paths\":%ld,\"ends\":%ld,\"obligations\":%ld,\"lp\":%llu,\"undecided\":%ld,\"seconds\":%.2f,\"budget\":\"%s\"}", n.c_str(), nSteps, nPaths - pa0, (long)res.size(), nOblig - ob0, lpCalls - lp0, undecidedEntry[n], t, bud.c_str());
        entJson.push_back(buf);
        if (optVerbose) errs() << buf << "\n";
    }
    if (list) return 0;
    if (!ran) { errs() << "cbsa: no entry selected\n"; fail = true; }
    std::string o = "{\n\"entries\":[\n";
    for (size_t i = 0; i < entJson.size(); ++i) o += entJson[i] + (i + 1 < entJson.size() ? ",\n" : "\n");
    o += "],\n\"violations\":[\n"; bool first = true;
    for (auto& kv : violations) { auto& v = kv.second; if (!first) o += ",\n"; first = false; o += "{\"tag\":\"" + jesc(v.tag) + "\",\"msg\":\"" + jesc(v.msg) + "\",\"where\":\"" + jesc(v.where) + "\",\"function\":\"" + jesc(v.fn) + "\",\"entry\":\"" + jesc(v.entry) + "\",\"example\":\"" + jesc(v.model) + "\",\"stack\":\"" + jesc(v.stack) + "\",\"count\":" + std::to_string(v.count) + "}"; }
    o += "\n],\n\"undecided\":{"; first = true; for (auto& kv : undecided) { if (!first) o += ","; first = false; o += "\n\"" + jesc(kv.first) + "\":" + std::to_string(kv.second); }
    o += "},\n\"suspects\":{"; first = true; for (auto& kv : suspects) { if (!first) o += ","; first = false; o += "\n\"" + jesc(kv.first) + "\":" + std::to_string(kv.second); }
    o += "},\n\"obligations_by_tag\":{"; first = true; for (auto& kv : obligByTag) { if (!first) o += ","; first = false; o += "\"" + jesc(kv.first) + "\":" + std::to_string(kv.second); }
    o += "},\n\"sites\":{"; first = true; for (auto& kv : siteCount) { if (!first) o += ","; first = false; o += "\"" + jesc(kv.first) + "\":" + std::to_string(kv.second); }
    long lib = 0; std::string fl; for (auto& f : fnsAnalysed) { std::string d = llvm::demangle(f); if (d.find("boost::circular_buffer") != std::string::npos || d.find("cb_details") != std::string::npos) { ++lib; } }
    o += "},\n\"functions\":" + std::to_string(fnsAnalysed.size()) + ",\"library_functions\":" + std::to_string(lib) + ",\"loops\":" + std::to_string(nLoops) + ",\"splits\":" + std::to_string(nSplits) + ",\"obligations\":" + std::to_string(nOblig) + ",\"paths\":" + std::to_string(nPaths) + "\n}\n";
    if (!out.empty()) { FILE* f = fopen(out.c_str(), "w"); fputs(o.c_str(), f); fclose(f); } else outs() << o;
    return fail ? 3 : 0;
}
// one request per line on stdin: ID ENTRY BOX SECONDS OUT (BOX 0: widened, negative: a slice, below -1000000: one next to a constant of the code); each is analysed in a fork of this process, "ID STATUS" is printed when it ends
static int serve() {
    std::map<pid_t, std::string> running; std::string buf; bool eof = false; signal(SIGCHLD, [](int) {}); signal(SIGPIPE, SIG_DFL);
    while (!eof || !running.empty()) {
        pollfd p{0, POLLIN, 0}; int n = eof ? (usleep(20000), 0) : poll(&p, 1, 50);
        if (n > 0) { char t[65536]; ssize_t k = read(0, t, sizeof t); if (k <= 0) eof = true; else buf.append(t, k); }
        for (size_t e; (e = buf.find('\n')) != std::string::npos; buf.erase(0, e + 1)) {
            std::istringstream l(buf.substr(0, e)); std::string id, entry, out; long box = 0; double tl = 0; if (!(l >> id >> entry >> box >> tl >> out)) continue;
            pid_t c = fork();
            if (c == 0) { optBox = box < 0 ? -box : box; optSlice = box < 0; if (optSlice && optBox > 1000000) { optBox -= 1000000; optFine = true; } optTimeout = tl; alarm(unsigned(tl) + 30); int rc = analyse({entry}, out, false); _exit(rc); }
            if (c < 0) { printf("%s 255\n", id.c_str()); fflush(stdout); } else running[c] = id;
        }
        int st; for (pid_t c; (c = waitpid(-1, &st, WNOHANG)) > 0;) { printf("%s %d\n", running[c].c_str(), WIFEXITED(st) ? WEXITSTATUS(st) : 254); fflush(stdout); running.erase(c); }
    }
    return 0;
}
int main(int argc, char** argv) {
    std::string file, out; std::vector<std::string> pats; bool list = false, globals = false, server = false;
    for (int i = 1; i < argc; ++i) { std::string a = argv[i];
        if (a == "-o") out = argv[++i]; else if (a == "-e") pats.push_back(argv[++i]); else if (a == "-t") optTags.insert(argv[++i]);
        else if (a == "--version") { outs() << "cbsa\n"; return 0; } else if (a == "-v") optVerbose = true; else if (a == "--loops") optTraceLoops = true; else if (a == "--list") list = true; else if (a == "--globals") globals = true; else if (a == "--serve") server = true;
        else if (a == "--timeout") optTimeout = atof(argv[++i]); else if (a == "--box") optBox = atol(argv[++i]); else if (a == "--fine") optFine = true; else if (a == "--slice") { optBox = atol(argv[++i]); optSlice = true; } else if (a == "--steps") stepsGiven = true, optMaxSteps = atol(argv[++i]); else file = a; }
    LLVMContext ctx; SMDiagnostic err; std::unique_ptr<Module> mod = parseIRFile(file, err, ctx);
    if (!mod) { err.print("cbsa", errs()); return 3; }
    M = mod.get(); DL = &M->getDataLayout();
    {   PassBuilder PB; LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CAM; ModuleAnalysisManager MAM;
        PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CAM, MAM);
        FunctionPassManager FPM; FPM.addPass(PromotePass()); FPM.addPass(LoopSimplifyPass());
        for (auto& F : *M) if (!F.isDeclaration()) FPM.run(F, FAM); }
    if (globals) return scanGlobals(out);
    if (server) { analyse(pats, out, true); outs() << "ready\n"; outs().flush(); return serve(); }
    return analyse(pats, out, list);
}
