// ------------------------------------------------------------------ intrinsics (harness vocabulary and runtime)
static std::map<const Function*, std::string> demCache;
static const std::string& dem(const Function* f) { auto& s = demCache[f]; if (s.empty()) s = llvm::demangle(f->getName().str()); return s; }
static bool starts(const std::string& s, const char* p) { return s.compare(0, strlen(p), p) == 0; }
static std::string strArg(State& s, const Val& v) {
    if (v.k != Val::Ptr || v.obj < GLOBAL_BASE) return "?";
    const GlobalVariable* g = idGlobal[v.obj]; if (!g->hasInitializer()) return "?";
    if (auto* d = dyn_cast<ConstantDataArray>(g->getInitializer())) if (d->isString()) { std::string t = d->getAsString().str(); while (!t.empty() && t.back() == 0) t.pop_back(); return t; }
    return ""; }
static void pushRet(std::vector<CallOut>& res, State s, const Val& v) { CallOut c; c.s = std::move(s); c.unw = false; c.v = v; res.push_back(std::move(c)); }
static void pushThrow(std::vector<CallOut>& res, State s, int kind) { CallOut c; c.s = std::move(s); c.s.exc = kind; c.s.lastExc = kind; c.s.flags |= EV_THROWN; c.unw = true; res.push_back(std::move(c)); }
static int excKind(const std::string& n) {
    if (n.find("out_of_range") != std::string::npos) return 4; if (n.find("length_error") != std::string::npos) return 3;
    if (n.find("bad_alloc") != std::string::npos || n.find("bad_array") != std::string::npos) return 2; return 9; }
static std::string tagSuffix(State& s) { return (s.flags & EV_THROWN) ? "-exc" : ""; }
static void destroySlot(State& s, const Val& p) {
    checkAccess(s, p, 1, "destruction");
    const Obj* o = getObj(s, p.obj);
    SlotV v = slotRead(s, p); obligation(s, "lifetime");
    if (v.st == 0) { report(s, "lifetime" + tagSuffix(s), "destroys storage that holds no live element in " + o->name); throw Kill(); }
    if (v.st == 2) undecidedHere(s, "destroy: slot state unknown");
    if (o->frozen) frozenStore(s, o, Val());
    s.flags |= EV_DTOR;
    SlotV n; n.st = 0; slotWrite(s, p, n); ++s.work[1];
}
static void constructSlot(State& s, const Val& p, const Content& c, bool alloc) {
    checkAccess(s, p, 1, "construction");
    const Obj* o = getObj(s, p.obj);
    SlotV v = slotRead(s, p); obligation(s, "lifetime");
    if (v.st == 1) { report(s, "lifetime" + tagSuffix(s), "constructs an element over a live element in " + o->name); throw Kill(); }
    if (v.st == 2) undecidedHere(s, "construct: slot state unknown");
    if (o->frozen) frozenStore(s, o, Val());
    SlotV n(1, c); slotWrite(s, p, n);
}
static SlotV useSlot(State& s, const Val& p, const char* what) {
    checkAccess(s, p, 1, what);
    const Obj* o = getObj(s, p.obj);
    SlotV v = slotRead(s, p); obligation(s, "lifetime");
    if (v.st == 0) { report(s, "lifetime" + tagSuffix(s), std::string(what) + " of storage that holds no live element in " + o->name); throw Kill(); }
    if (v.st == 2) undecidedHere(s, std::string(what) + ": slot state unknown");
    return v;
}
static bool isOldTag(int t) { return t == T_A || t == T_B; }
// op: 0 default ctor, 1 copy ctor, 2 move ctor, 3 copy assign, 4 move assign, 5 dtor
static void elementOp(State& s, int op, const Val& p, const Val& q, bool nothrow, std::vector<CallOut>& res) {
    static const uint64_t ev[] = { EV_DEFCTOR, EV_CCTOR, EV_MCTOR, EV_CASG, EV_MASG, EV_DTOR };
    if (op == 5) { destroySlot(s, p); pushRet(res, std::move(s), Val()); return; }
    Content c(T_DEF, Lin(0));
    bool canThrow = !nothrow && (s.throwMode & 1);
    SlotV src; const Obj* so = 0;
    if (op >= 1) { src = useSlot(s, q, op == 1 || op == 3 ? "copying" : "moving"); c = src.st == 2 ? Content() : src.c; so = getObj(s, q.obj); }
    s.flags |= ev[op];
    if (so) {
        bool ext = so->kind == Obj::Ext;
        if (op == 1 || op == 3) { if (c.tag == T_ITEM) s.flags |= EV_COPYITEM; if (isOldTag(c.tag) || c.tag == T_UNK) s.flags |= EV_COPYOLD; obligation(s, "copyrule"); if (so->bclass == 77) report(s, "copyrule", "an element passed as an rvalue is copied"); if (so->slotty && so->kind == Obj::Block && so->bclass == 1) {} }
        if (op == 2 || op == 4) { if (c.tag == T_ITEM) s.flags |= EV_MOVEITEM; if (isOldTag(c.tag) && so->kind == Obj::Block) s.flags |= EV_MOVEDOLD; if (ext && so->bclass != 77) { s.flags |= EV_MOVEDEXT; obligation(s, "srcmod"); report(s, "srcmod", "an lvalue argument or source range element is moved from"); } }
        if ((op == 1 || op == 3) && c.tag == T_MOVED) { }
    }
    if (op == 3 || op == 4) {
        SlotV d = useSlot(s, p, "assignment");
        const Obj* o = getObj(s, p.obj); if (o->frozen) frozenStore(s, o, Val()); if (o->kind == Obj::Ext && o->bclass != 77) { obligation(s, "srcmod"); report(s, "srcmod", "a source element is assigned to"); }
        if (d.orig) s.flags |= EV_TOUCHOLD;
    } else { checkAccess(s, p, 1, "construction"); const Obj* o = getObj(s, p.obj); SlotV v = slotRead(s, p); obligation(s, "lifetime");
        if (v.st == 1) { report(s, "lifetime" + tagSuffix(s), "constructs an element over a live element in " + o->name); throw Kill(); }
        if (v.st == 2) undecidedHere(s, "construct: slot state unknown"); if (o->frozen) frozenStore(s, o, Val()); }
    if (canThrow) {
        State t = s;
        // a failed assignment leaves the target alive with its value unchanged or unspecified: keep it alive, value unspecified
        if (op == 3 || op == 4) { SlotV n(1, Content(T_UNK, Lin())); slotWrite(t, p, n); }
        if (op == 2 || op == 4) { SlotV n(1, Content(T_MOVED, Lin())); slotWrite(t, q, n); }
        pushThrow(res, std::move(t), 1);
    }
    bool same = (op == 3 || op == 4) && p.obj == q.obj && decideEq(s, p.l - q.l);
    if ((op == 2 || op == 4) && !same) { SlotV n(1, Content(T_MOVED, Lin())); const Obj* o = getObj(s, q.obj); if (o->frozen) frozenStore(s, o, Val()); slotWrite(s, q, n); }
    if (same) { ++s.work[0]; pushRet(res, std::move(s), Val()); return; }
    SlotV n(1, c); slotWrite(s, p, n); ++s.work[0];
    pushRet(res, std::move(s), Val());
}
static int newBlock(State& s, const Lin& n, long es, const std::string& name) {
    ObjP o = std::make_shared<Obj>(); o->kind = Obj::Block; o->slotty = true; o->es = es; o->count = n; o->size = n * es; o->sizeKnown = true; o->name = name;
    auto l = std::make_shared<LogNode>(); l->k = LogNode::All; l->v = SlotV(); o->log = l; return s.add(o); }

static bool handleIntrinsic(State& s, const CallBase* CB, const Function* f, std::vector<Val>& args, std::vector<CallOut>& res) {
    StringRef nm = f->getName();
    auto R = [&](const Val& v) { pushRet(res, std::move(s), v); return true; };
    auto I = [&](unsigned i) -> Lin { return args[i].k == Val::Int ? args[i].l : Lin(0); };
    auto IC = [&](unsigned i) -> long long { Lin l = s.poly->norm(I(i)); return (long long)l.c; };
    if (nm.starts_with("__sa_")) {
        StringRef n = nm.substr(5);
        if (n == "choice") { long long c = IC(0); for (long long i = 0; i < c; ++i) pushRet(res, s, Val::mkInt(Lin((long long)i))); return true; }
        if (n == "bound") return R(Val::mkInt(Lin(optBox ? (i128)optBox : (i128)20)));
        if (n == "sym") { // (name, lo, hi)
            Lin lo = asUnsigned(s, I(1), 64), hi = asUnsigned(s, I(2), 64);
            if (optBox && hi.isConst() && hi.c > 1000000) { std::string nm2 = strArg(s, args[0]); if (nm2[0] != '!') hi = Lin(optBox + (nm2 == "C" || nm2 == "D" ? 0 : 2)); }
            if (optSlice) { lo = s.poly->norm(lo); hi = s.poly->norm(hi); std::string nm2 = strArg(s, args[0]);
                static const std::set<std::string> sliced = { "C", "D", "F", "G", "S", "R", "K", "M", "K2", "M2", "n", "p", "q", "i", "j", "c", "d" };
                if (sliced.count(nm2) && lo.isConst() && hi.isConst() && lo.c >= 0 && hi.c - lo.c < 100000) { // the ends of the range and its middle, at one large capacity
                    i128 l = lo.c, h = hi.c, m = (l + h) / 2; std::set<i128> v; if (h < l) return true;
                    bool so = s.sliceSO; if (nm2 == "K") so = true;
                    if (nm2 == "C") v = { h }; else if (nm2 == "K") v = { l, l + 2, 3 * l + 1, l == 0 ? (i128)optBox : l }; else if (nm2 == "M") v = { l, h }; else if (nm2 == "D" || nm2 == "K2" || nm2 == "M2" || nm2 == "G") { if (so) v = { l, h }; else v = { l, m, h }; }
                    else if (nm2 == "F") { if (so) v = { l, m + 1 }; else v = { l, m + 1, h }; } else if (nm2 == "n" || nm2 == "c") { if (so) v = { l, l + 1, h - 2, h }; else v = { l, l + 1, m, h - 2, h }; } else { if (so) v = { l, m, h - 1, h }; else v = { l, l + 1, m, h - 1, h }; }
                    if (optFine) { if (nm2 == "F") v = { l, m + 1 }; else if (nm2 == "S" || nm2 == "R") v = { m, h - 2, h - 1, h }; else if (nm2 == "n" || nm2 == "c") v = { l + 1, h - 4, h - 3, h }; else if (nm2 == "p" || nm2 == "q" || nm2 == "i" || nm2 == "j" || nm2 == "d") v = { l, m, (l + 3 * h) / 4, h }; }
                    s.sliceSO = so;
                    for (i128 x : v) { if (x < l || (x > h && nm2 != "K")) continue; State t = s; int y = mkSym(strArg(s, args[0]), x); t.P().addEq(Lin::sym(y) - Lin(x)); pushRet(res, std::move(t), Val::mkInt(Lin(x))); }
                    return true; } }
            i128 mag = hi.isConst() ? hi.c : (i128)magOf(hi); if (lo.isConst() && -lo.c > mag) mag = -lo.c;
            int y = mkSym(strArg(s, args[0]), mag); s.P().addIneq(Lin::sym(y) - lo); s.P().addIneq(hi - Lin::sym(y));
            if (!s.poly->feasible()) return true;
            { Lin r = Lin::sym(y); if (lo.isConst() && lo.c >= TWO63) r.c -= TWO64; return R(Val::mkInt(r)); } }
        if (n == "ssym") { Lin lo = I(1), hi = I(2); i128 mag = std::max(magOf(lo), magOf(hi)); int y = mkSym(strArg(s, args[0]), mag); s.P().addIneq(Lin::sym(y) - lo); s.P().addIneq(hi - Lin::sym(y)); if (!s.poly->feasible()) return true; return R(Val::mkInt(Lin::sym(y))); }
        if (n == "assume") { Val c = args[0]; if (isConstInt(c) && c.l.c == 0) return true; if (!isConstInt(c)) undecidedHere(s, "harness: assume on unknown"); return R(Val()); }
        if (n == "check") { // (tag, cond, msg)
            std::string tag = strArg(s, args[0]); obligation(s, tag);
            if (args[1].k == Val::Unknown || args[1].k == Val::Undef) { if (args[1].k == Val::Undef && (optTags.empty() || optTags.count(tag))) report(s, tag, strArg(s, args[2]) + " (uninitialised)"); else if (optTags.empty() || optTags.count(tag)) undecidedHere(s, "check on unknown value: " + tag + ": " + strArg(s, args[2])); return R(Val()); }
            if (isConstInt(args[1]) && args[1].l.c == 0) { report(s, tag, strArg(s, args[2])); if (s.inexact || !s.degraded.empty()) return true; }
            return R(Val()); }
        if (n == "end") { ++nPaths; return true; }
        if (n == "note") { s.notes.push_back(strArg(s, args[0])); return R(Val()); }
        if (n == "block") { int id = newBlock(s, I(0), (long)IC(1), "the element block"); Obj* o = s.mut(id); o->allocId = args[2]; o->bclass = 1; return R(Val::mkPtr(id, Lin(0))); }
        if (n == "live") { // (p, count, es, tag, tagbase)
            Obj* o = s.mut(args[0].obj); if (!o) return true; auto l = std::make_shared<LogNode>(); l->k = LogNode::Range; l->from = s.poly->norm(args[0].l); l->count = I(1); l->es = (long)IC(2); l->tag = (int)IC(3); l->tagbase = I(4); l->next = o->log; o->log = l; return R(Val()); }
        if (n == "ext") { // (count, es, tag, movable) external immutable elements
            int id = newBlock(s, I(0), (long)IC(1), "the source elements"); Obj* o = s.mut(id); o->kind = Obj::Ext; o->bclass = IC(3) ? 77 : 0;
            auto l = std::make_shared<LogNode>(); l->k = LogNode::Range; l->from = Lin(0); l->count = I(0); l->es = o->es; l->tag = (int)IC(2); l->tagbase = Lin(0); l->next = o->log; o->log = l;
            return R(Val::mkPtr(id, Lin(0))); }
        if (n == "status") { if (args[0].k != Val::Ptr) return R(Val::unk()); checkAccess(s, args[0], 1, "harness access"); SlotV v = slotRead(s, args[0]); if (v.st == 2) return R(Val::unk()); return R(Val::mkInt(Lin(v.st))); }
        if (n == "filled") { if (args[0].k != Val::Ptr) return R(Val::unk()); checkAccess(s, args[0], 1, "harness access"); SlotV v = slotRead(s, args[0]); if (v.st == 2) return R(Val::unk()); return R(Val::mkInt(Lin(v.st == 0 && v.c.tag == T_FILL ? 1 : 0))); }
        if (n == "fill") { if (args[0].k != Val::Ptr) return R(Val()); Obj* m = s.mut(args[0].obj); auto nn = std::make_shared<LogNode>(); nn->k = LogNode::All; nn->v = SlotV(); nn->v.st = 0; nn->v.c = Content(T_FILL, Lin(0)); m->log = nn; return R(Val()); }
        if (n == "tag") { if (args[0].k != Val::Ptr) return R(Val::unk()); checkAccess(s, args[0], 1, "harness access"); SlotV v = slotRead(s, args[0]); if (v.st != 1) { return R(v.st == 2 ? Val::unk() : Val::mkInt(Lin(-1))); } if (v.c.tag == T_UNK) return R(Val::unk()); return R(Val::mkInt(Lin(v.c.tag))); }
        if (n == "idx") { checkAccess(s, args[0], 1, "harness access"); SlotV v = slotRead(s, args[0]); return R(v.st == 1 ? Val::mkInt(v.c.idx) : Val::unk()); }
        if (n == "orig") { checkAccess(s, args[0], 1, "harness access"); SlotV v = slotRead(s, args[0]); return R(v.st == 2 ? Val::unk() : Val::mkInt(Lin(v.orig ? 1 : 0))); }
        if (n == "ctag") { if (args[0].k == Val::Cont) return R(Val::mkInt(Lin(args[0].tag))); if (args[0].k == Val::Int) return R(Val::mkInt(Lin(T_CONST))); return R(Val::unk()); }
        if (n == "cidx") { if (args[0].k == Val::Cont || args[0].k == Val::Int) return R(Val::mkInt(args[0].l)); return R(Val::unk()); }
        if (n == "throwmode") { s.throwMode = (int)IC(0); return R(Val()); }
        if (n == "ghost") { if (!s.ghostId) { ObjP o = std::make_shared<Obj>(); o->kind = Obj::Other; o->name = "analysis state"; o->size = Lin(64); o->sizeKnown = true; for (long b = 0; b < 64; b += 8) { o->cells[b] = Val::mkInt(Lin(0)); o->csz[b] = 8; } s.ghostId = s.add(o); } return R(Val::mkPtr(s.ghostId, Lin(0))); }
        if (n == "exc") return R(Val::mkInt(Lin(s.lastExc)));
        if (n == "flags_clear") { s.flags &= ~(uint64_t)IC(0); return R(Val()); }
        if (n == "flag") { return R(Val::mkInt(Lin((s.flags & (uint64_t)IC(0)) ? 1 : 0))); }
        if (n == "flag_set") { s.flags |= (uint64_t)IC(0); return R(Val()); }
        if (n == "freeze") { if (args[0].k == Val::Ptr && args[0].obj) { getObj(s, args[0].obj); Obj* o = s.mut(args[0].obj); o->frozen = IC(1) != 0; } return R(Val()); }
        if (n == "elem_op") { elementOp(s, (int)IC(0), args[1], args[2], false, res); return true; }
        if (n == "elem_op_nt") { elementOp(s, (int)IC(0), args[1], args[2], true, res); return true; }
        if (n == "sameobj") { return R(args[0].k == Val::Ptr && args[1].k == Val::Ptr ? Val::mkInt(Lin(args[0].obj == args[1].obj)) : Val::unk()); }
        if (n == "offset") { return R(args[0].k == Val::Ptr ? Val::mkInt(s.poly->norm(args[0].l)) : Val::unk()); }
        if (n == "defined") { const Val& p = args[0]; if (p.k != Val::Ptr || p.obj == 0) return R(Val::mkInt(Lin(0))); const Obj* o = getObj(s, p.obj); if (!o || o->slotty || !p.l.isConst()) return R(Val::mkInt(Lin(0))); auto it = o->cells.find((long)p.l.c); return R(Val::mkInt(Lin(it != o->cells.end() && it->second.k != Val::Undef ? 1 : 0))); }
        if (n == "work") return R(s.workKnown ? Val::mkInt(Lin(s.work[IC(0) & 3])) : Val::unk()); // 0 constructions and assignments, 1 destructions, 2 loop iterations, 3 comparisons
        if (n == "compare") { // element comparison a op b: (p, q, op) -> opaque bool ; ghost-records
            useSlot(s, args[0], "comparison"); useSlot(s, args[1], "comparison"); s.flags |= EV_CMP; ++s.work[3];
            State t = s; 
            if (s.throwMode & 1) { State u = s; pushThrow(res, std::move(u), 1); }
            pushRet(res, std::move(t), Val::mkInt(Lin(0))); return R(Val::mkInt(Lin(1))); }
        if (n == "mark") { // ghost write: slot p := (tag, idx), live
            SlotV v(1, Content((int)IC(1), I(2))); slotWrite(s, args[0], v); return R(Val()); }
        if (n == "anybool") { State t = s; pushRet(res, std::move(t), Val::mkInt(Lin(0))); return R(Val::mkInt(Lin(1))); }
        if (n == "maythrow") { if (s.throwMode & (int)IC(0)) { State t = s; pushThrow(res, std::move(t), IC(0) == 4 ? 5 : IC(0) == 2 ? 2 : 1); } return R(Val()); }
        if (n == "allocate") { // (count, es, id)
            s.flags |= EV_ALLOC; if (s.throwMode & 2) { State t = s; pushThrow(res, std::move(t), 2); }
            Lin cnt = I(0); if (args[0].k != Val::Int) { undecidedHere(s, "allocation of unknown size"); return true; }
            long es = (long)IC(1);
            if (magOf(cnt) * es >= TWO63) cnt = asUnsigned(s, cnt, 64);
            { // the size in bytes must be representable
                obligation(s, "length"); Lin lim = Lin::con(TWO63 / es) - cnt; if (!decideGe(s, lim)) { report(s, "length", "allocator asked for more than max_size() elements"); throw Kill(); } }
            obligation(s, "mem"); if (!decideGe(s, cnt - Lin(1))) { report(s, "mem", "allocator asked for zero elements"); }
            int id = newBlock(s, cnt, es, "a new element block"); Obj* o = s.mut(id); o->allocId = args[2]; o->bclass = 2; return R(Val::mkPtr(id, Lin(0))); }
        if (n == "deallocate") { // (p, count, id)
            s.flags |= EV_DEALLOC; const Val& p = args[0]; obligation(s, "mem");
            if (p.k != Val::Ptr) { if (p.k == Val::Undef) report(s, "mem", "releases an uninitialised pointer"); else undecidedHere(s, "deallocate of unknown pointer"); throw Kill(); }
            if (p.obj == 0) { report(s, "mem", "releases a null pointer"); throw Kill(); }
            const Obj* o = getObj(s, p.obj);
            if (!o || o->kind != Obj::Block) { report(s, "mem", "releases memory that is not an allocated block"); throw Kill(); }
            if (o->freed) { report(s, "mem", "releases a block twice"); throw Kill(); }
            if (!decideEq(s, p.l)) { report(s, "mem", "releases a pointer that is not the start of the block"); throw Kill(); }
            if (args[1].k == Val::Int) { if (!decideEq(s, args[1].l - o->count)) { report(s, "mem", "releases a block with a size different from the allocated one"); throw Kill(); } }
            else { if (args[1].k == Val::Undef) report(s, "mem", "releases a block with an uninitialised size"); else undecidedHere(s, "deallocate size unknown"); }
            if (args[2].k == Val::Int && o->allocId.k == Val::Int) { if (!decideEq(s, args[2].l - o->allocId.l)) { report(s, "mem", "releases a block through a different allocator"); throw Kill(); } }
            // live elements left?
            if (IC(3)) {}
            else if (!o->logUnknown) {
                int j = mkSym("slot", ((i128)1) << 50); // arbitrary slot
                (void)j;
                obligation(s, "lifetime");
                // analyse on a side state: the arbitrary slot must be raw
                State t = s; t.P().addIneq(Lin::sym(j)); t.P().addIneq(o->count - Lin::sym(j) - Lin(1));
                if (!muted && t.poly->feasible()) {
                    std::vector<State> w; w.push_back(t); int guard = 0;
                    while (!w.empty() && ++guard < 3000) {
                        State u = w.back(); w.pop_back();
                        try { SlotV v = slotRead(u, Val::mkPtr(p.obj, Lin::sym(j, o->es))); if (v.st == 1) report(u, "leak" + tagSuffix(u), "a block is released while it holds live elements"); else if (v.st == 2) undecidedHere(u, "slot state unknown at release"); }
                        catch (Split& sp) { for (auto& a : sp.alts) { State x = u; if (a.second) x.P().addEq(a.first); else x.P().addIneq(a.first); if (x.poly->feasible()) w.push_back(x); } }
                        catch (Kill&) {}
                    }
                }
            } else undecidedHere(s, "slot states unknown at release");
            Obj* m = s.mut(p.obj); m->freed = true; return R(Val()); }
        if (n == "leakcheck") { // (tag, a, b, c): every unreleased block must be one of these
            std::string tag = strArg(s, args[0]); obligation(s, tag);
            for (auto& h : s.heap) { const Obj* o = h.second.get(); if (o->kind != Obj::Block || o->freed) continue; bool ok = false; bool unk = false; for (unsigned i = 1; i < args.size(); ++i) { if (args[i].k == Val::Ptr && args[i].obj == h.first) ok = true; if (args[i].k == Val::Unknown) unk = true; }
                if (!ok) { if (unk) { undecidedHere(s, "leak check with unknown pointer"); break; } report(s, tag, "a memory block is leaked"); break; } }
            return R(Val()); }
        if (n == "isblock") { if (args[0].k != Val::Ptr) return R(Val::unk()); const Obj* o = args[0].obj ? getObj(s, args[0].obj) : 0; return R(Val::mkInt(Lin(o && o->kind == Obj::Block && o->slotty ? 1 : 0))); }
        if (n == "blockcount" || n == "blockalloc" || n == "blockfreed") { if (args[0].k != Val::Ptr) return R(Val::unk()); const Obj* o = args[0].obj ? getObj(s, args[0].obj) : 0; if (!o || o->kind != Obj::Block) return R(Val::mkInt(Lin(-1)));
            return R(n == "blockcount" ? Val::mkInt(o->count) : n == "blockalloc" ? o->allocId : Val::mkInt(Lin(o->freed ? 1 : 0))); }
        if (n == "content") return R(Val::cont(Content((int)IC(0), I(1))));
        if (n == "dump") { if (!muted) { errs() << "DUMP " << (args.size() ? strArg(s, args[0]) : "") << " poly: " << s.poly->str() << "\n"; for (auto& h : s.heap) if (h.second->slotty) { errs() << "  obj " << h.first << " " << h.second->name << ":"; int c = 0; for (const LogNode* x = h.second->log.get(); x && c < 30; x = x->next.get(), ++c) { if (x->k == LogNode::Point) errs() << " [" << x->off.str() << "]=" << x->v.st << "/" << x->v.c.tag << "[" << x->v.c.idx.str() << "]"; else if (x->k == LogNode::Range) errs() << " range " << x->from.str() << " n " << x->count.str(); else if (x->k == LogNode::Group) errs() << " group(" << x->bound.str() << "," << x->alts->size() << ")"; else errs() << " all"; } errs() << "\n"; } } return R(Val()); }
        errs() << "unknown intrinsic " << nm << "\n"; exit(3);
    }
    // ---- LLVM intrinsics
    if (f->isIntrinsic()) {
        switch (f->getIntrinsicID()) {
        case Intrinsic::memcpy: case Intrinsic::memmove: { if (!isConstInt(args[2]) && args[2].k == Val::Int) { Lin l = s.poly->norm(args[2].l); if (!l.isConst()) { if (copySlots(s, args[0], args[1], l)) return R(Val()); undecidedHere(s, "memcpy of symbolic length"); return true; } args[2].l = l; }
            if (isConstInt(args[2]) && args[2].l.c > 0 && args[0].k == Val::Ptr && args[0].obj && args[1].k == Val::Ptr && args[1].obj) { const Obj* so = getObj(s, args[1].obj); const Obj* d2 = getObj(s, args[0].obj); if (so && d2 && so->slotty && d2->slotty && args[2].l.c != so->es) { if (copySlots(s, args[0], args[1], args[2].l)) return R(Val()); } } if (!isConstInt(args[2])) { undecidedHere(s, "memcpy of unknown length"); return true; } copyMem(s, args[0], args[1], (long)args[2].l.c); return R(Val()); }
        case Intrinsic::memset: {
            Lin l = args[2].k == Val::Int ? s.poly->norm(args[2].l) : Lin(-1);
            if (l.isConst() && l.c == 0) return R(Val());
            if (args[0].k == Val::Ptr && args[0].obj == 0 && args[2].k == Val::Int) { if (decideEq(s, l)) return R(Val()); }
            if (args[0].k == Val::Ptr && getObj(s, args[0].obj) && getObj(s, args[0].obj)->slotty) { // debug fill of raw storage
                const Obj* o = getObj(s, args[0].obj); obligation(s, "bounds"); Lin hi = o->size - args[0].l - l; if (o->freed || !decideGe(s, args[0].l) || !decideGe(s, hi)) { report(s, "bounds", "fill outside the element block"); throw Kill(); }
                SlotV fv; fv.st = 0; if (isConstInt(args[1]) && (args[1].l.c & 255) == 0xcc) fv.c = Content(T_FILL, Lin(0)); o = getObj(s, args[0].obj); long es = o->es;
                Lin off = s.poly->norm(args[0].l);
                if (l.isConst() && (long)l.c == es) slotWrite(s, args[0], fv);
                else if (decideEq(s, off) && decideEq(s, o->size - l)) { Obj* m = s.mut(args[0].obj); auto nn = std::make_shared<LogNode>(); nn->k = LogNode::All; nn->v = fv; m->log = nn; }
                else if (l.isConst() && l.c % es == 0 && l.c / es <= 64) { for (long k = 0; k < (long)(l.c / es); ++k) { Val q = args[0]; q.l.c += k * es; slotWrite(s, q, fv); } }
                else undecidedHere(s, "fill of a part of a block");
                return R(Val()); }
            if (!l.isConst()) { undecidedHere(s, "memset of symbolic length"); return true; }
            checkAccess(s, args[0], (long)l.c, "write"); Lin off = s.poly->norm(args[0].l); const Obj* o = getObj(s, args[0].obj); frozenStore(s, o, Val());
            if (off.isConst()) { Obj* m = s.mut(args[0].obj); long A = (long)off.c; for (auto it = m->cells.lower_bound(A); it != m->cells.end() && it->first < A + (long)l.c;) { m->csz.erase(it->first); it = m->cells.erase(it); }
                if (isConstInt(args[1]) && args[1].l.c == 0) { long b = A; for (; b + 8 <= A + (long)l.c; b += 8) { m->cells[b] = Val::mkInt(Lin(0)); m->csz[b] = 8; } for (; b < A + (long)l.c; ++b) { m->cells[b] = Val::mkInt(Lin(0)); m->csz[b] = 1; } } }
            return R(Val()); }
        case Intrinsic::lifetime_start: { Val p = args[1]; if (p.k == Val::Ptr && p.obj && s.find(p.obj) >= 0 && s.get(p.obj)->ended) s.mut(p.obj)->ended = false; return R(Val()); }
        case Intrinsic::lifetime_end: { Val p = args[1]; if (p.k == Val::Ptr && p.obj && s.find(p.obj) >= 0 && s.get(p.obj)->kind == Obj::Stack) { const Obj* o = s.get(p.obj); localEnds(s, o); if (!o->ended) s.mut(p.obj)->ended = true; o = s.get(p.obj); if (!o->cells.empty() || !o->elems.empty()) { Obj* m = s.mut(p.obj); m->cells.clear(); m->csz.clear(); m->elems.clear(); } } return R(Val()); }
        case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: { if (args[0].k != Val::Int || args[1].k != Val::Int) return R(Val::unk()); unsigned w = widthOf(f->getReturnType()); bool sg = f->getIntrinsicID() == Intrinsic::smin || f->getIntrinsicID() == Intrinsic::smax; bool mn = f->getIntrinsicID() == Intrinsic::umin || f->getIntrinsicID() == Intrinsic::smin;
            Lin x = args[0].l, y = args[1].l; if (!sg) { x = asUnsigned(s, x, w); y = asUnsigned(s, y, w); } bool le = decideGe(s, y - x); return R(Val::mkInt((le == mn) ? args[0].l : args[1].l)); }
        case Intrinsic::abs: { if (args[0].k != Val::Int) return R(Val::unk()); bool ge = decideGe(s, args[0].l); return R(Val::mkInt(ge ? args[0].l : -args[0].l)); }
        case Intrinsic::expect: return R(args[0]);
        case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::prefetch: return R(Val());
        case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return R(args[0]);
        case Intrinsic::eh_typeid_for: return R(Val::mkInt(Lin(7)));
        case Intrinsic::is_constant: return R(Val::mkInt(Lin(0)));
        case Intrinsic::trap: obligation(s, "terminate"); report(s, "terminate", "trap reached"); return true;
        case Intrinsic::umul_with_overflow: case Intrinsic::uadd_with_overflow: {
            if (args[0].k != Val::Int || args[1].k != Val::Int) break;
            Lin x = asUnsigned(s, s.poly->norm(args[0].l), 64), y = asUnsigned(s, s.poly->norm(args[1].l), 64), r;
            if (f->getIntrinsicID() == Intrinsic::uadd_with_overflow) r = x + y; else { if (!y.isConst()) std::swap(x, y); if (!y.isConst() || y.c > (1ll << 40)) break; r = x * (long long)y.c; }
            Lin hi = -r; hi.c += TWO64 - 1; bool ok = decideGe(s, hi); Val v; v.k = Val::Agg; v.agg = std::make_shared<std::vector<Val> >(); v.agg->push_back(Val::mkInt(canon(s, r, 64))); v.agg->push_back(Val::mkInt(Lin(ok ? 0 : 1))); return R(v); }
        default: break; }
        undecidedHere(s, "unsupported intrinsic " + nm.str()); return R(f->getReturnType()->isVoidTy() ? Val() : Val::unk());
    }
    // ---- exception runtime
    if (nm == "__cxa_begin_catch") { s.caught.push_back(s.exc); s.exc = 0; return R(args[0]); }
    if (nm == "__cxa_end_catch") { if (!s.caught.empty()) s.caught.pop_back(); return R(Val()); }
    if (nm == "__cxa_rethrow") { int k = s.caught.empty() ? 9 : s.caught.back(); pushThrow(res, std::move(s), k); return true; }
    if (nm == "__cxa_allocate_exception") { ObjP o = std::make_shared<Obj>(); o->kind = Obj::Other; o->name = "exception"; o->size = Lin(4096); o->sizeKnown = true; int id = s.add(o); return R(Val::mkPtr(id, Lin(0))); }
    if (nm == "__cxa_free_exception") return R(Val());
    if (nm == "__cxa_throw") { std::string n = "?"; if (args[1].k == Val::Ptr && args[1].obj >= GLOBAL_BASE) n = idGlobal[args[1].obj]->getName().str(); int k = excKind(n); pushThrow(res, std::move(s), k); return true; }
    if (nm == "__cxa_get_exception_ptr" ) return R(Val::mkPtr(0, Lin(1)));
    if (nm == "__clang_call_terminate" || nm == "_ZSt9terminatev" || nm == "abort") { obligation(s, "terminate"); report(s, "terminate", "std::terminate is reached"); return true; }
    if (nm == "__cxa_pure_virtual") { return true; }
    if (nm == "__gxx_personality_v0") return R(Val());
    if (nm == "__assert_fail" || nm == "__assert") { obligation(s, "assert"); report(s, "assert", "assertion failed: " + strArg(s, args[0])); return true; }
    const std::string& d = dem(f);
    if (d.find("boost::throw_exception") != std::string::npos && d.find("boost::throw_exception_") == std::string::npos) { int k = excKind(d); if (k == 9) k = 9; pushThrow(res, std::move(s), k); return true; }
    if (starts(d, "std::__throw_") || d.find(" std::__throw_") != std::string::npos) { int k = excKind(d); pushThrow(res, std::move(s), k); return true; }
    if (d.find("boost::assertion_failed") == 0 && (s.flags & (1ul << 22))) { obligation(s, "C31"); return true; } // the harness misuses the container: stopped as required
    if (d.find("boost::assertion_failed") == 0) { obligation(s, "assert"); report(s, "assert", "assertion failed: " + strArg(s, args[0])); return true; }
    if (starts(d, "operator new")) { s.flags |= EV_NEW; obligation(s, "allocator"); if (f->arg_size() >= 2 && f->getArg(1)->getType()->isPointerTy() && d.find("nothrow") == std::string::npos) return R(args[1]);
        report(s, "allocator", "memory obtained from global operator new"); ObjP o = std::make_shared<Obj>(); o->kind = Obj::Block; o->name = "heap"; o->size = I(0); o->sizeKnown = true; int id = s.add(o); return R(Val::mkPtr(id, Lin(0))); }
    if (starts(d, "operator delete")) { s.flags |= EV_NEW; obligation(s, "allocator"); report(s, "allocator", "memory released through global operator delete"); return R(Val()); }
    if (nm == "malloc" || nm == "calloc" || nm == "free" || nm == "realloc") { s.flags |= EV_NEW; obligation(s, "allocator"); report(s, "allocator", "C heap function called"); return R(Val::unk()); }
    if (f->isDeclaration() || starts(d, "std::out_of_range::") || starts(d, "std::length_error::") || starts(d, "std::basic_string") || starts(d, "std::__cxx11::basic_string")) {
        if (d.find("std::out_of_range::") == 0 || d.find("std::length_error::") == 0 || d.find("std::logic_error::") == 0 || d.find("std::exception::") == 0 || d.find("std::bad_alloc") == 0 || d.find("std::runtime_error::") == 0) return R(f->getReturnType()->isVoidTy() ? Val() : Val::unk());
        if (d.find("std::__cxx11::basic_string") == 0 || d.find("std::basic_string") == 0 || d.find("std::allocator<char>") == 0) return R(f->getReturnType()->isVoidTy() ? Val() : Val::unk());
    }
    return false;
}
