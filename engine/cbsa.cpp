// cbsa: abstract interpreter over LLVM IR for ring-buffer containers.
//   domain   : disjunctive (trace partitioned) states; convex polyhedra over linear symbols for integers and
//              pointers; slot typestate + content tags for element storage (affine write log)
//   loops    : never unrolled symbolically; partition-wise polyhedral fixpoint with affine / ring step forms
//   calls    : fully context sensitive; opaque element / allocator / iterator operations are typestate
//              transitions and possible throw points
#include "poly.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IR/PassManager.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Transforms/Scalar/SROA.h>
#include <llvm/Transforms/Utils/Mem2Reg.h>
#include <llvm/Transforms/Utils/LoopSimplify.h>
#include <llvm/Demangle/Demangle.h>
#include <sstream>
#include <unistd.h>
#include <poll.h>
#include <signal.h>
#include <sys/wait.h>
#include <set>
#include <functional>
#include <chrono>
#include <cstring>
#include <iostream>
using namespace llvm;

// ------------------------------------------------------------------ options and results
static std::set<std::string> optTags;      // reported tags (empty = all)
static bool optVerbose = false, optTraceLoops = false, optTrace = false;
static long optMaxSteps = 3000000; static long optMaxOuts = 6000; static bool stepsGiven = false; static double optTimeout = 600;
static int optMaxParts = 48; static long optBox = 0; static bool optSlice = false, optFine = false; // >0: refinement inside capacities up to this bound
static std::map<std::string, long> suspects;
static int muted = 0;
static std::string curEntry;
static long nSteps = 0, nPaths = 0, nOblig = 0, nLoops = 0, nSplits = 0; static long nOnce = 0;
static std::map<std::string, long> obligByTag;
struct Violation { std::string tag, msg, where, entry, model, stack, fn; long count; };
static std::map<std::string, Violation> violations;
static std::map<std::string, long> undecided;      // reason -> count
static std::map<std::string, long> undecidedEntry;
static std::set<std::string> fnsAnalysed, libFns;
static std::map<std::string, long> siteCount;      // repo source locations at which obligations were checked
static std::chrono::steady_clock::time_point entryStart;
static std::vector<i128> symMag;
static const i128 BIG = ((i128)1) << 62;
static int mkSym(const std::string& n, i128 mag) { int s = newSym(n); while ((int)symMag.size() <= s) symMag.push_back(BIG); symMag[s] = mag; return s; }

enum Tag { T_UNK = 0, T_A = 1, T_B = 2, T_ITEM = 3, T_EXT = 4, T_DEF = 5, T_MOVED = 6, T_CONST = 7, T_FILL = 8 };
enum Ev : uint64_t { EV_ALLOC = 1, EV_DEALLOC = 2, EV_CCTOR = 4, EV_MCTOR = 8, EV_CASG = 16, EV_MASG = 32, EV_DEFCTOR = 64, EV_DTOR = 128,
    EV_LOOP = 256, EV_GSTORE = 512, EV_NEW = 1024, EV_THROWN = 2048, EV_CMP = 4096, EV_AKOS = 8192, EV_MOVEDOLD = 16384, EV_DEREF = 32768, EV_TOUCHOLD = 65536,
    EV_RAWCTOR = 1 << 17, EV_COPYITEM = 1 << 18, EV_MOVEITEM = 1 << 19, EV_MOVEDEXT = 1 << 20, EV_COPYOLD = 1 << 21 };

struct Content { int tag; Lin idx; Content() : tag(T_UNK) {} Content(int t, const Lin& l) : tag(t), idx(l) {}
    bool operator==(const Content& o) const { return tag == o.tag && idx == o.idx; } };
struct SlotV { int st; Content c; bool orig; SlotV() : st(0), orig(false) {} SlotV(int s, const Content& cc) : st(s), c(cc), orig(false) {}
    bool operator==(const SlotV& o) const { return st == o.st && c == o.c && orig == o.orig; } };

struct Val {
    enum K { Undef, Int, Ptr, PtrInt, Agg, Cont, Fn, Unknown } k;
    int obj; Lin l; std::shared_ptr<std::vector<Val> > agg; int tag; const Function* fn;
    Val() : k(Undef), obj(0), tag(0), fn(0) {}
    static Val mkInt(const Lin& l) { Val v; v.k = Int; v.l = l; return v; }
    static Val mkPtr(int o, const Lin& l) { Val v; v.k = Ptr; v.obj = o; v.l = l; return v; }
    static Val null() { return mkPtr(0, Lin(0)); }
    static Val unk() { Val v; v.k = Unknown; return v; }
    static Val cont(const Content& c) { if (c.tag == T_CONST) return mkInt(c.idx); Val v; v.k = Cont; v.tag = c.tag; v.l = c.idx; return v; }
    bool operator==(const Val& o) const {
        if (k != o.k) return false;
        switch (k) { case Undef: case Unknown: return true; case Int: return l == o.l; case Ptr: case PtrInt: return obj == o.obj && l == o.l;
            case Cont: return tag == o.tag && l == o.l; case Fn: return fn == o.fn;
            case Agg: if (agg->size() != o.agg->size()) return false; for (size_t i = 0; i < agg->size(); ++i) if (!((*agg)[i] == (*o.agg)[i])) return false; return true; }
        return false; }
    std::string str() const { switch (k) { case Undef: return "undef"; case Unknown: return "?"; case Int: return l.str(); case Ptr: return obj ? "o" + std::to_string(obj) + "+(" + l.str() + ")" : "null+" + l.str();
        case PtrInt: return "pi:o" + std::to_string(obj) + "+" + l.str(); case Cont: return "c" + std::to_string(tag) + "[" + l.str() + "]"; case Fn: return "fn"; case Agg: { std::string s = "{"; for (auto& x : *agg) s += x.str() + ","; return s + "}"; } } return ""; }
};

struct Write { Lin off; SlotV v; };
struct Alt { std::vector<Lin> guards, geq; std::vector<Write> w;
    bool operator==(const Alt& o) const { if (guards != o.guards || geq != o.geq || w.size() != o.w.size()) return false;
        for (size_t i = 0; i < w.size(); ++i) if (!(w[i].off == o.w[i].off && w[i].v == o.w[i].v)) return false; return true; } };
struct LogNode;
typedef std::shared_ptr<const LogNode> LogP;
struct LogNode {
    enum K { Point, Range, Group, All, Copy } k; LogP next; LogP src;   // Copy: bytes [from, from + count) are those of src at off + tagbase
    Lin off; SlotV v;                       // Point / All
    Lin from, count, tagbase; int tag = 0; long es = 1;   // Range
    int J = -1; Lin bound; std::shared_ptr<const std::vector<Alt> > alts; // Group
};
struct Obj {
    enum Kind { Stack, Global, Block, Ext, Other } kind = Stack;
    bool slotty = false, freed = false, frozen = false, logUnknown = false, isConst = false, global = false, ended = false;
    Lin size; bool sizeKnown = false; long es = 0; Lin count; Val allocId; int bclass = 0;
    std::map<long, Val> cells; std::map<long, int> csz; std::map<long, SlotV> elems; LogP log; std::string name; const GlobalVariable* gv = 0;
};
typedef std::shared_ptr<Obj> ObjP;
struct Frame { const Function* f = 0; std::vector<Val> vals; std::vector<int> allocas; const Instruction* call = 0; };
typedef std::shared_ptr<Frame> FrameP;

struct Fn { Function* f; std::unordered_map<const Value*, int> num; std::unique_ptr<DominatorTree> DT; std::unique_ptr<LoopInfo> LI; };
static std::map<const Function*, std::unique_ptr<Fn> > fnCache;
static Module* M; static const DataLayout* DL;

struct Kill {}; // path dropped
struct Split { std::vector<std::pair<Lin, bool> > alts; }; // (lin, isEq)
struct EntrySplit { Lin c; };
struct Budget { std::string why; };

struct State {
    std::shared_ptr<Poly> poly;
    std::vector<std::pair<int, ObjP> > heap; // sorted by id
    std::vector<FrameP> frames; int ghostId = 0;
    uint64_t flags = 0; int nextObj = 1; int exc = 0; std::vector<int> caught; int throwMode = 0; int lastExc = 0; long work[4] = { 0, 0, 0, 0 }; bool workKnown = true, sliceSO = false;
    std::string degraded; bool inexact = false; std::vector<std::string> notes; const Instruction* loopAt = 0;
    State() : poly(std::make_shared<Poly>()) {}
    Poly& P() { if (poly.use_count() > 1) poly = std::make_shared<Poly>(*poly); return *poly; }
    Frame& top() { FrameP& f = frames.back(); if (f.use_count() > 1) f = std::make_shared<Frame>(*f); return *f; }
    int find(int id) const { int lo = 0, hi = (int)heap.size(); while (lo < hi) { int m = (lo + hi) / 2; if (heap[m].first < id) lo = m + 1; else hi = m; } return lo < (int)heap.size() && heap[lo].first == id ? lo : -1; }
    const Obj* get(int id) const { int i = find(id); return i < 0 ? 0 : heap[i].second.get(); }
    Obj* mut(int id) { int i = find(id); if (i < 0) return 0; ObjP& o = heap[i].second; if (o.use_count() > 1) o = std::make_shared<Obj>(*o); return o.get(); }
    int add(const ObjP& o) { int id = nextObj++; heap.push_back(std::make_pair(id, o)); return id; }
    void remove(int id) { int i = find(id); if (i >= 0) heap.erase(heap.begin() + i); }
};

static void undecidedHere(const State& s, const std::string& why);

static bool entGe(State& s, const Lin& l) { return s.poly->entails(l); }
// l >= 0 ?
static bool decideGe(State& s, const Lin& l) {
    Lin n = s.poly->norm(l);
    if (n.isConst()) return n.c >= 0;
    Tri t = s.poly->testGe(n);
    if (t != MAYBE) return t == YES;
    Split sp; Lin neg = -n; neg.c -= 1; sp.alts.push_back(std::make_pair(n, false)); sp.alts.push_back(std::make_pair(neg, false)); throw sp;
}
static bool decideEq(State& s, const Lin& l) {
    Lin n = s.poly->norm(l);
    if (n.isConst()) return n.c == 0;
    Lin gt = n; gt.c -= 1; Lin lt = -n; lt.c -= 1;
    { i128 g = 0; for (auto& p : n.t) g = gcd128(g, p.second); if (g > 1 && n.c % g != 0) return false; }
    if (s.poly->entails(gt) || s.poly->entails(lt)) return false;
    bool ge = s.poly->entails(n), le = s.poly->entails(-n);
    if (ge && le) return true;
    Split sp; sp.alts.push_back(std::make_pair(n, true));
    if (!le) sp.alts.push_back(std::make_pair(gt, false));
    if (!ge) sp.alts.push_back(std::make_pair(lt, false));
    throw sp;
}

// ------------------------------------------------------------------ reporting
static std::string locOf(const Instruction* I, bool* inRepo = 0) {
    if (inRepo) *inRepo = false;
    if (!I) return "?";
    const DebugLoc& d = I->getDebugLoc(); if (!d) return "?";
    std::string f = d->getFilename().str();
    size_t p = f.find("boost/circular_buffer");
    if (p != std::string::npos && f.find("/usr/include") == std::string::npos) { if (inRepo) *inRepo = true; f = f.substr(p); }
    else { size_t q = f.rfind('/'); if (q != std::string::npos) f = f.substr(q + 1); }
    return f + ":" + std::to_string(d.getLine());
}
static const Instruction* curInst = 0;
static std::string where(const State& s, std::string* stack = 0, std::string* fn = 0) {
    std::string first, st; bool r; const Instruction* I = curInst;
    for (int i = (int)s.frames.size() - 1; i >= 0; --i) {
        std::string l = locOf(I, &r);
        if (r && first.empty()) { first = l; if (fn) { auto* sp = I->getDebugLoc()->getScope()->getSubprogram(); if (sp) { *fn = sp->getName().str(); size_t q = fn->find('<'); if (q != std::string::npos && q > 0) fn->resize(q); } } }
        if (l != "?") { if (!st.empty()) st += " < "; st += l; }
        I = s.frames[i]->call;
    }
    if (stack) *stack = st;
    return first.empty() ? (st.empty() ? "?" : st.substr(0, st.find(" < "))) : first;
}
static void undecidedHere(const State& s, const std::string& why) {
    if (muted) return;
    std::string w = why + " @ " + where(s);
    if (optVerbose && !undecided.count(w)) { std::string st; where(s, &st); errs() << "UNDECIDED " << curEntry << ": " << w << "\n   stack " << st << "\n"; }
    ++undecided[w]; ++undecidedEntry[curEntry];
}
static void obligation(const State& s, const std::string& tag) {
    if (muted) return;
    ++nOblig; ++obligByTag[tag];
    std::string w = where(s); if (w.compare(0, 5, "boost") == 0) ++siteCount[w];
}
// called in a state whose constraints already contain the failing condition
static void report(State& s, const std::string& tag, const std::string& msg) {
    if (muted) return;
    if (!optTags.empty() && !optTags.count(tag)) return;
    if (!s.degraded.empty()) { undecidedHere(s, "imprecise (" + s.degraded + "): " + tag + ": " + msg); return; }
    std::map<int, i128> model; int r = s.poly->integerPoint(model);
    if (r == 0) return;
    if (r == 2) { undecidedHere(s, "integer search budget: " + tag); return; }
    std::string st, fn; std::string w = where(s, &st, &fn);
    if (tag == "C16" && s.loopAt) { bool r; std::string l = locOf(s.loopAt, &r); if (r) w = l; }
    std::string key = tag + "|" + msg + "|" + w + "|" + curEntry;
    if (s.inexact) { ++suspects[tag + ": " + msg + " @ " + w + " in " + curEntry]; undecidedHere(s, "unconfirmed after loop invariant: " + tag + ": " + msg); return; }
    auto it = violations.find(key);
    if (it != violations.end()) { ++it->second.count; return; }
    Violation v; v.tag = tag; v.msg = msg; v.where = w; v.entry = curEntry; v.stack = st; v.fn = fn; v.count = 1;
    std::string m; for (auto& kv : model) { if (symName[kv.first][0] == '$') continue; m += symName[kv.first] + "=" + i128s(kv.second) + " "; }
    for (auto& n : s.notes) m += "[" + n + "] ";
    v.model = m;
    violations[key] = v;
    if (optVerbose) { errs() << "VIOL " << curEntry << " " << tag << ": " << msg << " @ " << w << "\n   stack " << st << "\n   e.g. " << m << "\n   poly " << s.poly->str() << "\n"; }
}

// ------------------------------------------------------------------ values
static Fn& fnInfo(const Function* f) {
    auto& p = fnCache[f];
    if (!p) {
        p.reset(new Fn); p->f = const_cast<Function*>(f); int n = 0;
        for (auto& a : p->f->args()) p->num[&a] = n++;
        for (auto& b : *p->f) for (auto& i : b) if (!i.getType()->isVoidTy()) p->num[&i] = n++;
        p->DT.reset(new DominatorTree(*p->f)); p->LI.reset(new LoopInfo(*p->DT));
    }
    return *p;
}
static std::map<const GlobalVariable*, int> globalId; static std::map<int, const GlobalVariable*> idGlobal;
static const int GLOBAL_BASE = 1000000000;
static int globalObj(State& s, const GlobalVariable* g);
static Val constVal(State& s, const Constant* c) {
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
        if (ci->getBitWidth() == 1) return Val::mkInt(Lin(ci->isZero() ? 0 : 1));
        if (ci->getBitWidth() > 64) return Val::unk();
        return Val::mkInt(Lin::con((i128)ci->getSExtValue()));
    }
    if (isa<ConstantPointerNull>(c)) return Val::null();
    if (isa<UndefValue>(c)) {
        if (auto* st = dyn_cast<StructType>(c->getType())) { Val v; v.k = Val::Agg; v.agg = std::make_shared<std::vector<Val> >(st->getNumElements()); return v; }
        return Val(); }
    if (auto* f = dyn_cast<Function>(c)) { Val v; v.k = Val::Fn; v.fn = f; return v; }
    if (auto* g = dyn_cast<GlobalVariable>(c)) return Val::mkPtr(globalObj(s, g), Lin(0));
    if (isa<ConstantAggregateZero>(c) || isa<ConstantStruct>(c) || isa<ConstantArray>(c) || isa<ConstantDataSequential>(c)) {
        unsigned n = 0; if (auto* st = dyn_cast<StructType>(c->getType())) n = st->getNumElements(); else if (auto* at = dyn_cast<ArrayType>(c->getType())) n = at->getNumElements(); else return Val::unk();
        if (n > 4096) return Val::unk();
        Val v; v.k = Val::Agg; v.agg = std::make_shared<std::vector<Val> >();
        for (unsigned i = 0; i < n; ++i) v.agg->push_back(constVal(s, c->getAggregateElement(i))); return v;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
        if (ce->getOpcode() == Instruction::GetElementPtr) {
            APInt off(64, 0); const Value* b = ce->stripAndAccumulateConstantOffsets(*DL, off, true);
            Val v = constVal(s, cast<Constant>(b)); if (v.k == Val::Ptr) { v.l.c += off.getSExtValue(); return v; } }
    }
    return Val::unk();
}
static void storeVal(State& s, const Val& p, const Val& v, Type* ty);
static void setCells(Obj* o, long off, const Val& v, Type* ty) {
    if (v.k == Val::Agg && ty->isStructTy()) { const StructLayout* sl = DL->getStructLayout(cast<StructType>(ty)); for (unsigned i = 0; i < v.agg->size(); ++i) setCells(o, off + (long)sl->getElementOffset(i), (*v.agg)[i], cast<StructType>(ty)->getElementType(i)); return; }
    if (v.k == Val::Agg && ty->isArrayTy()) { Type* e = ty->getArrayElementType(); long sz = (long)DL->getTypeAllocSize(e); for (unsigned i = 0; i < v.agg->size(); ++i) setCells(o, off + (long)i * sz, (*v.agg)[i], e); return; }
    long n = (long)DL->getTypeStoreSize(ty);
    // kill overlapping cells
    auto it = o->cells.lower_bound(off - 16);
    while (it != o->cells.end() && it->first < off + n) {
        if (it->first + o->csz[it->first] > off && !(it->first == off && o->csz[it->first] == n)) { o->csz.erase(it->first); it = o->cells.erase(it); } else ++it; }
    o->cells[off] = v; o->csz[off] = (int)n;
}
static int globalObj(State& s, const GlobalVariable* g) {
    auto it = globalId.find(g); int id;
    if (it == globalId.end()) { id = GLOBAL_BASE + (int)globalId.size(); globalId[g] = id; idGlobal[id] = g; } else id = it->second;
    return id;
}
static const Obj* getObj(State& s, int id) {
    if (id >= GLOBAL_BASE && s.find(id) < 0) {
        const GlobalVariable* g = idGlobal[id]; ObjP o = std::make_shared<Obj>(); o->kind = Obj::Global; o->global = true; o->gv = g; o->name = g->getName().str(); o->isConst = g->isConstant();
        o->size = Lin((long long)DL->getTypeAllocSize(g->getValueType())); o->sizeKnown = true;
        auto pos = std::lower_bound(s.heap.begin(), s.heap.end(), id, [](const std::pair<int, ObjP>& a, int b) { return a.first < b; });
        s.heap.insert(pos, std::make_pair(id, o));
        if (g->hasInitializer() && DL->getTypeAllocSize(g->getValueType()) <= 4096) { Val v = constVal(s, g->getInitializer()); setCells(s.mut(id), 0, v, g->getValueType()); }
    }
    return s.get(id);
}
static Val eval(State& s, const Value* v) {
    if (auto* c = dyn_cast<Constant>(v)) return constVal(s, c);
    Frame& f = *s.frames.back(); Fn& fi = fnInfo(f.f);
    auto it = fi.num.find(v); if (it == fi.num.end()) return Val::unk();
    return f.vals[it->second];
}
static void setVal(State& s, const Value* v, const Val& x) { Frame& f = s.top(); f.vals[fnInfo(f.f).num[v]] = x; }

static i128 magOf(const Lin& l) { i128 m = iabs(l.c); for (auto& p : l.t) m += (p.second < 0 ? -(i128)p.second : (i128)p.second) * symMag[p.first]; return m; }
static const i128 TWO63 = ((i128)1) << 63, TWO64 = ((i128)1) << 64;
// canonical signed representation for width b
static Lin canon(State& s, Lin l, unsigned b) {
    if (b > 64) b = 64; if (b == 1) { if (l.isConst()) return Lin(l.c & 1 ? 1 : 0); return l; }
    i128 half = ((i128)1) << (b - 1), full = half * 2;
    if (l.isConst()) { i128 r = l.c % full; if (r < 0) r += full; if (r >= half) r -= full; return Lin::con(r); }
    l = s.poly->norm(l);
    if (l.isConst()) return canon(s, l, b);
    if (magOf(l) < half) return l;
    Lin hi = -l; hi.c += half - 1; // half-1-l >= 0
    for (int i = 0; i < 4 && !decideGe(s, hi); ++i) { l.c -= full; hi = -l; hi.c += half - 1; }
    Lin lo = l; lo.c += half;
    for (int i = 0; i < 4 && !decideGe(s, lo); ++i) { l.c += full; lo = l; lo.c += half; }
    return l;
}
static Lin asUnsigned(State& s, Lin l, unsigned b) {
    if (l.isConst()) { if (l.c < 0) l.c += ((i128)1) << b; return l; }
    if (!decideGe(s, l)) l.c += ((i128)1) << b;
    return l;
}
static Val unknownInt(State& s, const char* why) { return Val::unk(); }
static void degrade(State& s, const std::string& why) { if (s.degraded.empty()) { s.degraded = why + " @ " + where(s); if (optVerbose && !muted) errs() << "DEGRADE " << curEntry << ": " << s.degraded << "\n"; } }

// ------------------------------------------------------------------ slots
static SlotV mkUnk() { SlotV v; v.st = 2; return v; }
static Content substC(const Content& c, int sym, const Lin& e) { return Content(c.tag, c.idx.subst(sym, e)); }

static SlotV queryLog(State& s, const LogP& log, const Lin& off) {
    for (const LogNode* n = log.get(); n; n = n->next.get()) {
        switch (n->k) {
        case LogNode::Point: if (decideEq(s, off - n->off)) return n->v; break;
        case LogNode::All: return n->v;
        case LogNode::Copy: {
            if (!decideGe(s, off - n->from)) break;
            Lin e = n->from + n->count - off; e.c -= 1;
            if (!decideGe(s, e)) break;
            SlotV v = queryLog(s, n->src, off + n->tagbase); v.orig = false; return v; }
        case LogNode::Range: {
            Lin d = off - n->from;
            if (!decideGe(s, d)) break;
            Lin e = n->from + n->count * n->es - off; e.c -= 1;
            if (!decideGe(s, e)) break;
            Lin dn = s.poly->norm(d);
            if (!dn.divisible(n->es)) { return mkUnk(); }
            SlotV v(1, Content(n->tag, n->tagbase + dn.div(n->es))); v.orig = true; return v; }
        case LogNode::Group: {
            // latest J < bound with a matching write; guards may be weaker than the exact path condition, so the
            // chosen alternative must be the only one possible in its iteration
            struct Hit { Lin J; const Write* w; size_t order, alt; };
            std::vector<Hit> hits; size_t ord = 0;
            for (size_t ai = 0; ai < n->alts->size(); ++ai) { auto& a = (*n->alts)[ai]; for (auto& w : a.w) {
                ++ord;
                long long b = w.off.coef(n->J);
                Lin base = w.off.subst(n->J, Lin(0));
                Lin J;
                if (b == 0) {
                    // same slot in every iteration of this alternative: usable only if the last iteration took it
                    if (!decideEq(s, off - base)) continue;
                    J = n->bound - Lin(1);
                    if (a.geq.size() >= 1) for (auto& e : a.geq) if (e.coef(n->J) == 1 || e.coef(n->J) == -1) { Lin rest = e.subst(n->J, Lin(0)); J = e.coef(n->J) == 1 ? -rest : rest; break; }
                    if (s.poly->entails(J) && s.poly->entails(n->bound - J - Lin(1))) { bool all = true; for (auto& g : a.geq) if (!s.poly->entailsEq(g.subst(n->J, J))) all = false; for (auto& g : a.guards) if (!s.poly->entails(g.subst(n->J, J))) all = false; if (!all) return mkUnk(); }
                } else {
                    Lin d = s.poly->norm(off - base);
                    if (!d.divisible(b)) { d = off - base; if (!d.divisible(b)) return mkUnk(); }
                    J = d.div(b);
                }
                {   Poly q = *s.poly; q.addIneq(J); q.addIneq(n->bound - J - Lin(1)); for (auto& g : a.geq) q.addEq(g.subst(n->J, J)); for (auto& g : a.guards) q.addIneq(g.subst(n->J, J)); if (!q.feasible()) continue; }
                if (!decideGe(s, J)) continue;
                if (!decideGe(s, n->bound - J - Lin(1))) continue;
                bool ok = true;
                for (auto& g : a.geq) if (!decideEq(s, g.subst(n->J, J))) { ok = false; break; }
                if (!ok) continue;
                for (auto& g : a.guards) if (!decideGe(s, g.subst(n->J, J))) { ok = false; break; }
                if (!ok) continue;
                Hit h; h.J = J; h.w = &w; h.order = ord; h.alt = ai; hits.push_back(h);
            } }
            if (hits.empty()) break;
            size_t best = 0;
            for (size_t i = 1; i < hits.size(); ++i) {
                Lin d = hits[i].J - hits[best].J;
                if (decideEq(s, d)) { best = hits[i].order > hits[best].order ? i : best; }
                else if (decideGe(s, d)) best = i;
            }
            {   // any other alternative possible in the chosen iteration must have the same effect on this slot
                SlotV bv = hits[best].w->v; bv.c = substC(bv.c, n->J, hits[best].J);
                for (size_t ai = 0; ai < n->alts->size(); ++ai) { if (ai == hits[best].alt) continue; auto& a = (*n->alts)[ai];
                    Poly q = *s.poly; for (auto& g : a.geq) q.addEq(g.subst(n->J, hits[best].J)); for (auto& g : a.guards) q.addIneq(g.subst(n->J, hits[best].J));
                    if (!q.feasible()) continue;
                    const Hit* last = 0; for (auto& h : hits) if (h.alt == ai && s.poly->entailsEq(h.J - hits[best].J)) last = &h;
                    if (last) { SlotV lv = last->w->v; lv.c = substC(lv.c, n->J, last->J); if (lv.st == bv.st && lv.orig == bv.orig && lv.c.tag == bv.c.tag && s.poly->entailsEq(lv.c.idx - bv.c.idx)) continue; if (lv.st == bv.st) { SlotV u(bv.st, Content()); return u; } }
                    return mkUnk(); } }
            SlotV v = hits[best].w->v; v.c = substC(v.c, n->J, hits[best].J); return v; }
        }
    }
    return SlotV();
}
static long elemOff(const Lin& l) { return (long)l.c; }
// returns false if the access itself is a violation (already reported)
static bool checkAccess(State& s, const Val& p, long size, const char* what) {
    if (p.k == Val::Unknown || p.k == Val::Undef) {
        if (p.k == Val::Undef) { obligation(s, "bounds"); report(s, "bounds", std::string(what) + " through an uninitialised pointer"); }
        else undecidedHere(s, std::string("unknown pointer in ") + what);
        throw Kill(); }
    if (p.k != Val::Ptr) { undecidedHere(s, std::string("non-pointer in ") + what); throw Kill(); }
    if (p.obj == 0) { obligation(s, "bounds"); report(s, "bounds", std::string(what) + " through a null pointer"); throw Kill(); }
    const Obj* o = getObj(s, p.obj);
    if (!o) { obligation(s, "bounds"); report(s, "bounds", std::string(what) + " of a dead local object"); throw Kill(); }
    if (o->ended) { obligation(s, "bounds"); report(s, "bounds", std::string(what) + " of a dead local object"); throw Kill(); }
    if (o->freed) { obligation(s, "mem"); report(s, "mem", std::string(what) + " in a memory block already released"); throw Kill(); }
    if (o->sizeKnown) {
        if (o->slotty) obligation(s, "bounds");
        Lin hi = o->size - p.l; hi.c -= size;
        if (!decideGe(s, p.l)) { report(s, "bounds", std::string(what) + " before the beginning of " + o->name); throw Kill(); }
        if (!decideGe(s, hi)) { report(s, "bounds", std::string(what) + " past the end of " + o->name); throw Kill(); }
    }
    return true;
}
static SlotV slotRead(State& s, const Val& p) {
    const Obj* o = getObj(s, p.obj);
    Lin off = s.poly->norm(p.l);
    if (o->slotty) { if (o->logUnknown) return mkUnk(); return queryLog(s, o->log, off); }
    if (!off.isConst()) { return mkUnk(); }
    auto it = o->elems.find((long)off.c); return it == o->elems.end() ? SlotV() : it->second;
}
static void slotWrite(State& s, const Val& p, const SlotV& v) {
    Obj* o = s.mut(p.obj);
    if (!o) { getObj(s, p.obj); o = s.mut(p.obj); }
    Lin off = s.poly->norm(p.l);
    if (o->slotty) { std::shared_ptr<LogNode> n = std::make_shared<LogNode>(); n->k = LogNode::Point; n->off = off; n->v = v; n->next = o->log; o->log = n; return; }
    if (!off.isConst()) { degrade(s, "element at symbolic offset in a local object"); return; }
    o->elems[(long)off.c] = v;
}
static void noteOld(State& s, const Val& p, const SlotV& v) {}

// ------------------------------------------------------------------ loads and stores
static Val loadVal(State& s, const Val& p, Type* ty) {
    if (auto* st = dyn_cast<StructType>(ty)) {
        const StructLayout* sl = DL->getStructLayout(st); Val r; r.k = Val::Agg; r.agg = std::make_shared<std::vector<Val> >();
        for (unsigned i = 0; i < st->getNumElements(); ++i) { Val q = p; q.l.c += (long)sl->getElementOffset(i); r.agg->push_back(loadVal(s, q, st->getElementType(i))); } return r; }
    if (auto* at = dyn_cast<ArrayType>(ty)) {
        if (at->getNumElements() > 64) return Val::unk();
        Val r; r.k = Val::Agg; r.agg = std::make_shared<std::vector<Val> >(); long sz = (long)DL->getTypeAllocSize(at->getElementType());
        for (unsigned i = 0; i < at->getNumElements(); ++i) { Val q = p; q.l.c += (long)i * sz; r.agg->push_back(loadVal(s, q, at->getElementType())); } return r; }
    long n = (long)DL->getTypeStoreSize(ty);
    checkAccess(s, p, n, "read");
    const Obj* o = getObj(s, p.obj);
    Lin off = s.poly->norm(p.l);
    if (o->slotty) {
        if (!off.divisible(o->es) || n > o->es) { undecidedHere(s, "partial element read"); return Val::unk(); }
        SlotV v = slotRead(s, p);
        obligation(s, "lifetime");
        if (v.st == 0) { report(s, "lifetime", "read of an element slot that holds no live element in " + o->name); throw Kill(); }
        if (v.st == 2 || v.c.tag == T_UNK) return Val::unk();
        return Val::cont(v.c);
    }
    if (!off.isConst()) { undecidedHere(s, "load at symbolic offset"); return Val::unk(); }
    long k = (long)off.c;
    auto e = o->elems.find(k);
    if (e != o->elems.end() && o->cells.find(k) == o->cells.end()) { if (e->second.st == 1 && e->second.c.tag != T_UNK) return Val::cont(e->second.c); }
    auto it = o->cells.find(k);
    if (it == o->cells.end()) {
        auto lo = o->cells.upper_bound(k);
        if (lo != o->cells.begin()) { --lo; long w = o->csz.find(lo->first)->second; if (lo->first + w > k) return lo->second.k == Val::Int && lo->second.l.isConst() && lo->first + w >= k + n ? Val::mkInt(canon(s, Lin::con(lo->second.l.c >> (8 * (k - lo->first))), (unsigned)n * 8)) : Val::unk(); }
        // zero-filled or never written
        return o->global && !o->isConst ? Val::unk() : Val();
    }
    if (o->csz.find(k)->second != n) {
        if (it->second.k == Val::Int && it->second.l.isConst() && o->csz.find(k)->second > n) return Val::mkInt(canon(s, it->second.l, (unsigned)n * 8));
        return Val::unk(); }
    if (o->global && !o->isConst) return Val::unk();
    if (ty->isPointerTy() && it->second.k == Val::Int && it->second.l.isConst() && it->second.l.c == 0) return Val::null();
    return it->second;
}
static void frozenStore(State& s, const Obj* o, const Val& v) {
    if (o->frozen) { obligation(s, "frozen"); report(s, "frozen", "const operation modifies " + o->name); }
    if (o->global) { s.flags |= EV_GSTORE; obligation(s, "frozen"); report(s, "frozen", "store to global variable " + o->name); }
}
static void storeVal(State& s, const Val& p, const Val& v, Type* ty) {
    long n = (long)DL->getTypeStoreSize(ty);
    checkAccess(s, p, n, "write");
    const Obj* o = getObj(s, p.obj);
    Lin off = s.poly->norm(p.l);
    if (o->slotty) {
        if (!off.divisible(o->es) || n > o->es) { undecidedHere(s, "partial element write"); throw Kill(); }
        frozenStore(s, o, v);
        SlotV nv; nv.st = 1;
        if (v.k == Val::Int) nv.c = Content(T_CONST, v.l); else if (v.k == Val::Cont) nv.c = Content(v.tag, v.l); else if (v.k == Val::Undef) { nv.c = Content(T_UNK, Lin()); } 
        slotWrite(s, p, nv); return;
    }
    frozenStore(s, o, v);
    if (!off.isConst()) { undecidedHere(s, "store at symbolic offset"); throw Kill(); }
    Obj* m = s.mut(p.obj);
    setCells(m, (long)off.c, v, ty);
    m->elems.erase((long)off.c);
}
static void copyMem(State& s, const Val& d, const Val& q, long n) {
    if (n == 0) return;
    checkAccess(s, d, n, "write"); checkAccess(s, q, n, "read");
    const Obj* so = getObj(s, q.obj); const Obj* dо = getObj(s, d.obj);
    if (so->slotty || dо->slotty) {
        // a single trivially copied element
        Lin a = s.poly->norm(d.l), b = s.poly->norm(q.l);
        SlotV v = slotRead(s, q);
        long es = so->slotty ? so->es : dо->es;
        if (n != es) { undecidedHere(s, "block copy of elements"); throw Kill(); }
        if (!so->slotty) { Val x; auto it = so->cells.find((long)b.c); if (it != so->cells.end()) { x = it->second; v.st = 1; v.c = x.k == Val::Int ? Content(T_CONST, x.l) : x.k == Val::Cont ? Content(x.tag, x.l) : Content(); } }
        obligation(s, "lifetime");
        if (v.st == 0) report(s, "lifetime", "read of an element slot that holds no live element");
        if (dо->slotty) { frozenStore(s, dо, Val()); v.st = v.st == 0 ? 1 : v.st; v.orig = false; slotWrite(s, d, v); }
        else { Obj* m = s.mut(d.obj); if (!a.isConst()) throw Kill(); m->elems[(long)a.c] = v; m->cells.erase((long)a.c); m->csz.erase((long)a.c); }
        return;
    }
    Lin a = s.poly->norm(d.l), b = s.poly->norm(q.l);
    if (!a.isConst() || !b.isConst()) { undecidedHere(s, "memcpy at symbolic offset"); throw Kill(); }
    frozenStore(s, dо, Val());
    std::vector<std::pair<long, std::pair<Val, int> > > tmp; std::vector<std::pair<long, SlotV> > te;
    long A = (long)a.c, B = (long)b.c;
    for (auto& kv : so->cells) if (kv.first >= B && kv.first < B + n) tmp.push_back(std::make_pair(kv.first - B, std::make_pair(kv.second, so->csz.find(kv.first)->second)));
    for (auto& kv : so->elems) if (kv.first >= B && kv.first < B + n) te.push_back(std::make_pair(kv.first - B, kv.second));
    Obj* m = s.mut(d.obj);
    for (auto it = m->cells.lower_bound(A); it != m->cells.end() && it->first < A + n;) { m->csz.erase(it->first); it = m->cells.erase(it); }
    for (auto it = m->elems.lower_bound(A); it != m->elems.end() && it->first < A + n;) it = m->elems.erase(it);
    for (auto& t : tmp) { m->cells[A + t.first] = t.second.first; m->csz[A + t.first] = t.second.second; }
    for (auto& t : te) m->elems[A + t.first] = t.second;
}

// a block copy of element storage of any length
static bool copySlots(State& s, const Val& d, const Val& q, const Lin& len) {
    if (d.k != Val::Ptr || q.k != Val::Ptr) return false;
    if (decideEq(s, len)) return true;
    if (d.obj == 0 || q.obj == 0) { checkAccess(s, d, 1, "write"); checkAccess(s, q, 1, "read"); }
    const Obj* so = getObj(s, q.obj); const Obj* dd = getObj(s, d.obj);
    if (!so || !dd || !so->slotty || !dd->slotty || so->logUnknown || so->es != dd->es) return false;
    Lin a = s.poly->norm(d.l), b = s.poly->norm(q.l);
    if (!a.divisible(so->es) || !b.divisible(so->es)) return false;
    for (int i = 0; i < 2; ++i) { const Obj* o = i ? so : dd; Lin off = i ? b : a; const char* w = i ? "block copy from" : "block copy to";
        if (o->freed) { obligation(s, "mem"); report(s, "mem", std::string(w) + " a memory block already released"); throw Kill(); }
        obligation(s, "bounds"); if (!decideGe(s, off) || !decideGe(s, o->size - off - len)) { report(s, "bounds", std::string(w) + " outside " + o->name); throw Kill(); } }
    { Lin l = -len; l.c += 8 * so->es; if (!s.poly->entails(l)) { s.flags |= EV_LOOP; s.loopAt = curInst; } }
    frozenStore(s, dd, Val());
    auto n = std::make_shared<LogNode>(); n->k = LogNode::Copy; n->from = a; n->count = len; n->tagbase = b - a; n->src = so->log; 
    Obj* m = s.mut(d.obj); n->next = m->log; m->log = n; return true;
}
// ------------------------------------------------------------------ instruction semantics
static unsigned widthOf(Type* t) { return t->isIntegerTy() ? t->getIntegerBitWidth() : 64; }
static Val icmpVal(State& s, CmpInst::Predicate pr, const Val& a0, const Val& b0, Type* ty) {
    auto nul = [&](const Val& v) { return ty->isPointerTy() && v.k == Val::Int && v.l.isConst() && v.l.c == 0 ? Val::null() : v; }; Val a = nul(a0), b = nul(b0);
    auto B = [](bool x) { return Val::mkInt(Lin(x ? 1 : 0)); };
    if (a.k == Val::Unknown || b.k == Val::Unknown || a.k == Val::Undef || b.k == Val::Undef) return Val::unk();
    if (a.k == Val::Fn || b.k == Val::Fn) { bool eq = a.k == b.k && a.fn == b.fn; if (pr == CmpInst::ICMP_EQ) return B(eq); if (pr == CmpInst::ICMP_NE) return B(!eq); return Val::unk(); }
    if (a.k == Val::Cont || b.k == Val::Cont) {
        if (a.k == b.k && a.tag == b.tag && a.tag != T_UNK) { Lin d = s.poly->norm(a.l - b.l); if (d.isConst() && d.c == 0) { if (pr == CmpInst::ICMP_EQ) return B(true); if (pr == CmpInst::ICMP_NE) return B(false); } }
        return Val::unk(); }
    bool ptr = a.k == Val::Ptr || a.k == Val::PtrInt || b.k == Val::Ptr || b.k == Val::PtrInt;
    if (ptr) {
        if ((a.k == Val::Int) || (b.k == Val::Int)) return Val::unk();
        if (a.obj != b.obj) {
            if (pr == CmpInst::ICMP_EQ) return B(false); if (pr == CmpInst::ICMP_NE) return B(true);
            if (a.obj == 0) return B(pr == CmpInst::ICMP_ULT || pr == CmpInst::ICMP_ULE || pr == CmpInst::ICMP_SLT || pr == CmpInst::ICMP_SLE);
            if (b.obj == 0) return B(pr == CmpInst::ICMP_UGT || pr == CmpInst::ICMP_UGE || pr == CmpInst::ICMP_SGT || pr == CmpInst::ICMP_SGE);
            return Val::unk(); }
        Lin d = a.l - b.l;
        switch (pr) {
        case CmpInst::ICMP_EQ: return B(decideEq(s, d)); case CmpInst::ICMP_NE: return B(!decideEq(s, d));
        case CmpInst::ICMP_ULT: case CmpInst::ICMP_SLT: return B(!decideGe(s, d)); case CmpInst::ICMP_UGE: case CmpInst::ICMP_SGE: return B(decideGe(s, d));
        case CmpInst::ICMP_UGT: case CmpInst::ICMP_SGT: return B(!decideGe(s, -d)); case CmpInst::ICMP_ULE: case CmpInst::ICMP_SLE: return B(decideGe(s, -d));
        default: return Val::unk(); }
    }
    if (a.k != Val::Int || b.k != Val::Int) return Val::unk();
    unsigned w = widthOf(ty); Lin x = a.l, y = b.l;
    switch (pr) {
    case CmpInst::ICMP_EQ: return B(decideEq(s, x - y)); case CmpInst::ICMP_NE: return B(!decideEq(s, x - y));
    case CmpInst::ICMP_SLT: return B(!decideGe(s, x - y)); case CmpInst::ICMP_SGE: return B(decideGe(s, x - y));
    case CmpInst::ICMP_SGT: return B(!decideGe(s, y - x)); case CmpInst::ICMP_SLE: return B(decideGe(s, y - x));
    default: break; }
    x = asUnsigned(s, x, w); y = asUnsigned(s, y, w);
    switch (pr) {
    case CmpInst::ICMP_ULT: return B(!decideGe(s, x - y)); case CmpInst::ICMP_UGE: return B(decideGe(s, x - y));
    case CmpInst::ICMP_UGT: return B(!decideGe(s, y - x)); case CmpInst::ICMP_ULE: return B(decideGe(s, y - x));
    default: return Val::unk(); }
}
static Val divVal(State& s, Lin x, Lin y, bool sgn, bool exact, bool rem, unsigned w) {
    x = s.poly->norm(x); y = s.poly->norm(y);
    if (y.isConst()) {
        if (y.c == 0) return Val::unk();
        long long d = (long long)y.c;
        if (x.divisible(d) && (sgn || decideGe(s, x))) return Val::mkInt(rem ? Lin(0) : x.div(d));
        if (d < 0) return Val::unk();
        bool neg = false;
        if (!sgn) x = asUnsigned(s, x, w); else if (!decideGe(s, x)) { neg = true; x = -x; }
        if (x.isConst()) { i128 q = x.c / d, r = x.c % d; if (neg) { q = -q; r = -r; } return Val::mkInt(Lin::con(rem ? r : q)); }
        int q = mkSym("$q" + std::to_string(symName.size()), magOf(x) / d + 1);
        Lin r = x - Lin::sym(q, d);
        if (exact) s.P().addEq(r); else { s.P().addIneq(r); Lin u = -r; u.c += d - 1; s.P().addIneq(u); }
        Lin res = rem ? r : Lin::sym(q); return Val::mkInt(neg ? -res : res);
    }
    // symbolic divisor, both assumed non-negative
    if (!decideGe(s, x) || !decideGe(s, y - Lin(1))) return Val::unk();
    for (int q = 0; q < 3; ++q) { Lin l = x - y * q; if (!decideGe(s, l - y)) return Val::mkInt(rem ? l : Lin(q)); }
    if (rem) { int r = mkSym("$r" + std::to_string(symName.size()), magOf(y)); s.P().addIneq(Lin::sym(r)); s.P().addIneq(y - Lin::sym(r) - Lin(1)); return Val::mkInt(Lin::sym(r)); }
    return Val::unk();
}
static Val binop(State& s, const BinaryOperator* I, const Val& a, const Val& b) {
    unsigned w = widthOf(I->getType()); unsigned op = I->getOpcode();
    if (a.k == Val::PtrInt && b.k == Val::PtrInt && op == Instruction::Sub) { if (a.obj == b.obj) return Val::mkInt(s.poly->norm(a.l - b.l));
        return Val::unk(); }
    if (a.k == Val::PtrInt && b.k == Val::Int && (op == Instruction::Add || op == Instruction::Sub)) { Val r = a; r.l = op == Instruction::Add ? a.l + b.l : a.l - b.l; return r; }
    if (w == 1) {
        auto c = [](const Val& v) { return v.k == Val::Int && v.l.isConst(); };
        if (op == Instruction::And) { if ((c(a) && a.l.c == 0) || (c(b) && b.l.c == 0)) return Val::mkInt(Lin(0)); if (c(a)) return b; if (c(b)) return a; }
        if (op == Instruction::Or) { if ((c(a) && a.l.c) || (c(b) && b.l.c)) return Val::mkInt(Lin(1)); if (c(a)) return b; if (c(b)) return a; }
        if (op == Instruction::Xor && c(a) && c(b)) return Val::mkInt(Lin((a.l.c != 0) != (b.l.c != 0) ? 1 : 0));
        return Val::unk();
    }
    if (a.k != Val::Int || b.k != Val::Int) return Val::unk();
    const Lin &x = a.l, &y = b.l;
    switch (op) {
    case Instruction::Add: return Val::mkInt(canon(s, x + y, w));
    case Instruction::Sub: return Val::mkInt(canon(s, x - y, w));
    case Instruction::Mul: { Lin u = s.poly->norm(x), v = s.poly->norm(y);
        if (!u.isConst()) std::swap(u, v);
        if (u.isConst()) { if (iabs(u.c) < ((i128)1 << 40)) { if (magOf(v) * iabs(u.c) > ((i128)1 << 100)) return Val::unk(); return Val::mkInt(canon(s, v * (long long)u.c, w)); } if (v.isConst()) return Val::mkInt(canon(s, Lin::con(u.c * v.c), w)); }
        return Val::unk(); }
    case Instruction::Shl: if (y.isConst() && y.c < 40) return Val::mkInt(canon(s, x * (1ll << (long long)y.c), w)); return Val::unk();
    case Instruction::LShr: if (y.isConst() && y.c < 62) return divVal(s, x, Lin(1ll << (long long)y.c), false, I->isExact(), false, w); return Val::unk();
    case Instruction::AShr: if (y.isConst() && y.c < 62 && (I->isExact() || decideGe(s, x))) return divVal(s, x, Lin(1ll << (long long)y.c), true, I->isExact(), false, w); return Val::unk();
    case Instruction::UDiv: return divVal(s, x, y, false, I->isExact(), false, w);
    case Instruction::SDiv: return divVal(s, x, y, true, I->isExact(), false, w);
    case Instruction::URem: return divVal(s, x, y, false, false, true, w);
    case Instruction::SRem: return divVal(s, x, y, true, false, true, w);
    case Instruction::And: if (x.isConst() && y.isConst()) return Val::mkInt(Lin::con(x.c & y.c));
        { Lin u = x, v = y; if (u.isConst()) std::swap(u, v); if (v.isConst() && v.c >= 0 && ((v.c + 1) & v.c) == 0) { return divVal(s, u, Lin::con(v.c + 1), false, false, true, w); } }
        return Val::unk();
    case Instruction::Or: if (x.isConst() && y.isConst()) return Val::mkInt(Lin::con(x.c | y.c)); if (x.isConst() && x.c == 0) return b; if (y.isConst() && y.c == 0) return a; return Val::unk();
    case Instruction::Xor: if (x.isConst() && y.isConst()) return Val::mkInt(Lin::con(x.c ^ y.c)); if (y.isConst() && y.c == -1) return Val::mkInt(-x - Lin(1)); return Val::unk();
    }
    return Val::unk();
}
static Val gepVal(State& s, const GEPOperator* G) {
    Val b = eval(s, G->getPointerOperand());
    if (b.k != Val::Ptr) return b.k == Val::PtrInt ? b : Val::unk();
    Lin off = b.l;
    for (auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
        Val i = eval(s, it.getOperand());
        if (StructType* st = it.getStructTypeOrNull()) { off.c += (long)DL->getStructLayout(st)->getElementOffset((unsigned)i.l.c); continue; }
        long sz = (long)DL->getTypeAllocSize(it.getIndexedType());
        if (i.k != Val::Int) return Val::unk();
        off = off + i.l * sz;
    }
    return Val::mkPtr(b.obj, s.poly->norm(off));
}

// ------------------------------------------------------------------ regions
struct Out { enum K { Ret, Unw, Edge } k; State s; Val v; const BasicBlock *from = 0, *to = 0; };
struct CallOut { State s; bool unw; Val v; };
static void execRegion(const Loop* L, const BasicBlock* start, State s0, std::vector<Out>& outs);
static void summarize(const Loop* L, State s0, std::vector<Out>& outs, int depth = 0);
static void execCall(State s, const CallBase* CB, const Function* f, std::vector<Val>& args, std::vector<CallOut>& res);

static void checkBudget() {
    if (++nSteps > optMaxSteps) throw Budget{"step budget"};
    if ((nSteps & 0xff) == 0) { double t = std::chrono::duration<double>(std::chrono::steady_clock::now() - entryStart).count(); if (t > optTimeout) throw Budget{"time budget"}; }
}
static void takeEdge(State& s, const BasicBlock* from, const BasicBlock* to) {
    std::vector<std::pair<const PHINode*, Val> > nv;
    for (auto& p : to->phis()) nv.push_back(std::make_pair(&p, eval(s, p.getIncomingValueForBlock(from))));
    for (auto& x : nv) setVal(s, x.first, x.second);
}
struct Item { State s; const BasicBlock* bb; BasicBlock::const_iterator it; };

// the phis of 'to' have been evaluated in s already
static void dispatch(const Loop* L, Fn& fi, State s, const BasicBlock* from, const BasicBlock* to, std::vector<Item>& work, std::vector<Out>& outs) {
    if (L && (to == L->getHeader() || !L->contains(to))) { Out o; o.k = Out::Edge; o.s = std::move(s); o.from = from; o.to = to; outs.push_back(std::move(o)); return; }
    if (fi.LI->isLoopHeader(to) && !fi.LI->getLoopFor(to)->contains(from)) {
        std::vector<Out> lo; summarize(fi.LI->getLoopFor(to), std::move(s), lo);
        for (auto& o : lo) {
            if (o.k == Out::Edge) dispatch(L, fi, std::move(o.s), o.from, o.to, work, outs);
            else outs.push_back(std::move(o)); }
        return;
    }
    Item it{std::move(s), to, to->getFirstNonPHI()->getIterator()}; work.push_back(std::move(it));
}
static void route(const Loop* L, Fn& fi, State s, const BasicBlock* from, const BasicBlock* to, std::vector<Item>& work, std::vector<Out>& outs) {
    takeEdge(s, from, to); dispatch(L, fi, std::move(s), from, to, work, outs);
}

static bool isTrue(const Val& v) { return v.k == Val::Int && v.l.isConst() && v.l.c != 0; }
static bool isConstInt(const Val& v) { return v.k == Val::Int && v.l.isConst(); }

// executes simple (non call, non terminator) instructions
static void execSimple(State& s, const Instruction& I) {
    switch (I.getOpcode()) {
    case Instruction::Alloca: {
        auto* A = cast<AllocaInst>(&I); ObjP o = std::make_shared<Obj>(); o->kind = Obj::Stack; o->name = "local '" + A->getName().str() + "'";
        Val n = eval(s, A->getArraySize());
        if (isConstInt(n)) { o->size = Lin::con((i128)DL->getTypeAllocSize(A->getAllocatedType()) * n.l.c); o->sizeKnown = true; }
        int id = s.add(o); s.top().allocas.push_back(id); setVal(s, &I, Val::mkPtr(id, Lin(0))); return; }
    case Instruction::Load: { Val p = eval(s, I.getOperand(0)); Val v = loadVal(s, p, I.getType()); setVal(s, &I, v); return; }
    case Instruction::Store: { Val p = eval(s, I.getOperand(1)), v = eval(s, I.getOperand(0)); storeVal(s, p, v, I.getOperand(0)->getType()); return; }
    case Instruction::GetElementPtr: setVal(s, &I, gepVal(s, cast<GEPOperator>(&I))); return;
    case Instruction::ICmp: { auto* C = cast<ICmpInst>(&I); Val r = icmpVal(s, C->getPredicate(), eval(s, I.getOperand(0)), eval(s, I.getOperand(1)), I.getOperand(0)->getType()); setVal(s, &I, r); return; }
    case Instruction::PtrToInt: { Val p = eval(s, I.getOperand(0)); if (p.k == Val::Ptr) p.k = Val::PtrInt; else p = Val::unk(); setVal(s, &I, p); return; }
    case Instruction::IntToPtr: { Val p = eval(s, I.getOperand(0)); if (p.k == Val::PtrInt) p.k = Val::Ptr; else if (isConstInt(p) && p.l.c == 0) p = Val::null(); else p = Val::unk(); setVal(s, &I, p); return; }
    case Instruction::BitCast: case Instruction::Freeze: case Instruction::AddrSpaceCast: setVal(s, &I, eval(s, I.getOperand(0))); return;
    case Instruction::ZExt: { Val v = eval(s, I.getOperand(0)); if (v.k == Val::Int) { unsigned w = widthOf(I.getOperand(0)->getType()); if (w > 1) v.l = asUnsigned(s, v.l, w); } else if (v.k != Val::Cont) v = v.k == Val::Unknown && widthOf(I.getOperand(0)->getType()) == 1 ? v : Val::unk(); setVal(s, &I, v); return; }
    case Instruction::SExt: { Val v = eval(s, I.getOperand(0)); if (v.k == Val::Int) { if (widthOf(I.getOperand(0)->getType()) == 1 && v.l.isConst()) v.l = Lin(v.l.c ? -1 : 0); } else v = Val::unk(); setVal(s, &I, v); return; }
    case Instruction::Trunc: { Val v = eval(s, I.getOperand(0)); if (v.k == Val::Int) v.l = canon(s, v.l, widthOf(I.getType())); else if (v.k != Val::Cont && v.k != Val::Unknown) v = Val::unk(); setVal(s, &I, v); return; }
    case Instruction::Select: { Val c = eval(s, I.getOperand(0)); if (!isConstInt(c)) { setVal(s, &I, Val::unk()); return; } setVal(s, &I, eval(s, I.getOperand(isTrue(c) ? 1 : 2))); return; }
    case Instruction::ExtractValue: { auto* E = cast<ExtractValueInst>(&I); Val v = eval(s, I.getOperand(0)); for (unsigned i : E->indices()) { if (v.k != Val::Agg) { v = Val::unk(); break; } Val t = (*v.agg)[i]; v = t; } setVal(s, &I, v); return; }
    case Instruction::InsertValue: {
        auto* E = cast<InsertValueInst>(&I); Val v = eval(s, I.getOperand(0)), x = eval(s, I.getOperand(1));
        if (E->getNumIndices() != 1) { setVal(s, &I, Val::unk()); return; }
        Val r; r.k = Val::Agg; if (v.k == Val::Agg) r.agg = std::make_shared<std::vector<Val> >(*v.agg); else { auto* st = dyn_cast<StructType>(I.getType()); r.agg = std::make_shared<std::vector<Val> >(st ? st->getNumElements() : I.getType()->getArrayNumElements(), v.k == Val::Unknown ? Val::unk() : Val()); }
        (*r.agg)[E->getIndices()[0]] = x; setVal(s, &I, r); return; }
    case Instruction::LandingPad: {
        Val r; r.k = Val::Agg; r.agg = std::make_shared<std::vector<Val> >(2); (*r.agg)[0] = Val::mkPtr(0, Lin(1)); (*r.agg)[1] = Val::mkInt(Lin(1)); setVal(s, &I, r); return; }
    case Instruction::FNeg: case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FCmp:
    case Instruction::UIToFP: case Instruction::SIToFP: case Instruction::FPToUI: case Instruction::FPToSI: setVal(s, &I, Val::unk()); return;
    default:
        if (auto* B = dyn_cast<BinaryOperator>(&I)) { setVal(s, &I, binop(s, B, eval(s, I.getOperand(0)), eval(s, I.getOperand(1)))); return; }
        undecidedHere(s, std::string("unsupported instruction ") + I.getOpcodeName());
        if (!I.getType()->isVoidTy()) setVal(s, &I, Val::unk());
        return;
    }
}
static bool handleIntrinsic(State& s, const CallBase* CB, const Function* f, std::vector<Val>& args, std::vector<CallOut>& res);

static void execRegion(const Loop* L, const BasicBlock* start, State s0, std::vector<Out>& outs) {
    const Function* F = start->getParent(); Fn& fi = fnInfo(F);
    std::vector<Item> work;
    { Item it{std::move(s0), start, start->getFirstNonPHI()->getIterator()}; work.push_back(std::move(it)); }
    while (!work.empty()) {
        Item cur = std::move(work.back()); work.pop_back();
        State& s = cur.s; bool alive = true;
        while (alive) {
            const Instruction& I = *cur.it; curInst = &I;
            checkBudget();
            if ((long)outs.size() > optMaxOuts) throw Budget{"too many partitions"};
            State pre;
            bool isCall = isa<CallBase>(I) && !I.isDebugOrPseudoInst();
            bool needPre = !(isa<AllocaInst>(I) || isa<BranchInst>(I) || isa<PHINode>(I));
            try {
                if (I.isDebugOrPseudoInst()) { ++cur.it; continue; }
                if (I.isTerminator() && !isCall) {
                    if (auto* B = dyn_cast<BranchInst>(&I)) {
                        if (B->isUnconditional()) route(L, fi, std::move(s), cur.bb, B->getSuccessor(0), work, outs);
                        else {
                            Val c = eval(s, B->getCondition());
                            if (isConstInt(c)) route(L, fi, std::move(s), cur.bb, B->getSuccessor(isTrue(c) ? 0 : 1), work, outs);
                            else { if (c.k == Val::Undef) { report(s, "bounds", "branch on an uninitialised value"); }
                                if (optVerbose && !muted) errs() << "BRANCH-UNKNOWN " << curEntry << " @ " << where(s) << "\n";
                                s.inexact = true; State t = s; const BasicBlock* bb = cur.bb; route(L, fi, std::move(s), bb, B->getSuccessor(0), work, outs); route(L, fi, std::move(t), bb, B->getSuccessor(1), work, outs); }
                        }
                        alive = false; continue;
                    }
                    if (auto* R = dyn_cast<ReturnInst>(&I)) { Out o; o.k = Out::Ret; if (R->getReturnValue()) o.v = eval(s, R->getReturnValue()); o.s = std::move(s); outs.push_back(std::move(o)); alive = false; continue; }
                    if (isa<ResumeInst>(I)) { Out o; o.k = Out::Unw; o.s = std::move(s); outs.push_back(std::move(o)); alive = false; continue; }
                    if (isa<UnreachableInst>(I)) { alive = false; continue; }
                    if (auto* S = dyn_cast<SwitchInst>(&I)) {
                        Val c = eval(s, S->getCondition());
                        if (isConstInt(c)) { const BasicBlock* t = S->getDefaultDest(); for (auto& cs : S->cases()) if (cs.getCaseValue()->getSExtValue() == (long long)c.l.c) { t = cs.getCaseSuccessor(); break; } route(L, fi, std::move(s), cur.bb, t, work, outs); }
                        else if (c.k == Val::Int) { for (auto& cs : S->cases()) if (decideEq(s, c.l - Lin((long long)cs.getCaseValue()->getSExtValue()))) { route(L, fi, std::move(s), cur.bb, cs.getCaseSuccessor(), work, outs); alive = false; break; } if (alive) route(L, fi, std::move(s), cur.bb, S->getDefaultDest(), work, outs); }
                        else { s.inexact = true; for (unsigned i = 0; i < S->getNumSuccessors(); ++i) { State t = s; route(L, fi, std::move(t), cur.bb, S->getSuccessor(i), work, outs); } }
                        alive = false; continue;
                    }
                    undecidedHere(s, std::string("unsupported terminator ") + I.getOpcodeName()); alive = false; continue;
                }
                if (!isCall) { if (needPre) pre = s; execSimple(s, I); ++cur.it; continue; }
                // ---- calls
                const CallBase* CB = cast<CallBase>(&I);
                const Function* f = CB->getCalledFunction();
                if (!f) { Val v = eval(s, CB->getCalledOperand()); if (v.k == Val::Fn) f = v.fn; }
                std::vector<CallOut> res;
                if (!f) { undecidedHere(s, "indirect call"); alive = false; continue; }
                std::vector<Val> args; for (auto& a : CB->args()) args.push_back(eval(s, a));
                bool done;
                pre = s;
                done = handleIntrinsic(s, CB, f, args, res);
                if (!done) {
                    if (f->isDeclaration()) { undecidedHere(s, "call of unknown function " + f->getName().str()); CallOut c; c.s = std::move(s); c.unw = false; c.v = Val::unk(); res.push_back(std::move(c)); }
                    else { pre = State(); execCall(std::move(s), CB, f, args, res); curInst = &I; }
                }
                pre = State();
                for (auto& r : res) {
                    if (!r.unw && !I.getType()->isVoidTy()) setVal(r.s, &I, r.v);
                    if (auto* IV = dyn_cast<InvokeInst>(CB)) {
                        if (!r.unw) route(L, fi, std::move(r.s), cur.bb, IV->getNormalDest(), work, outs);
                        else route(L, fi, std::move(r.s), cur.bb, IV->getUnwindDest(), work, outs);
                    } else if (r.unw) {
                        Out o; o.k = Out::Unw; o.s = std::move(r.s); outs.push_back(std::move(o));
                    } else { auto nx = cur.it; ++nx; Item it{std::move(r.s), cur.bb, nx}; work.push_back(std::move(it)); }
                }
                alive = false;
            } catch (Kill&) { alive = false; }
            catch (Split& sp) {
                ++nSplits;
                for (auto& a : sp.alts) {
                    State t = pre; if (a.second) t.P().addEq(a.first); else t.P().addIneq(a.first);
                    if (!t.poly->feasible()) continue;
                    Item it{std::move(t), cur.bb, cur.it}; work.push_back(std::move(it));
                }
                alive = false;
            }
        }
    }
}
static void localEnds(State& s, const Obj* o) {
    for (auto& kv : o->elems) if (kv.second.st == 1) { obligation(s, "lifetime"); report(s, "leak" + std::string(s.flags & EV_THROWN ? "-exc" : ""), "a temporary element is never destroyed"); break; } }
static void popFrame(State& s) {
    FrameP f = s.frames.back(); for (int a : f->allocas) { if (s.find(a) >= 0) localEnds(s, s.get(a)); s.remove(a); }
    s.frames.pop_back();
}
static void execCall(State s, const CallBase* CB, const Function* f, std::vector<Val>& args, std::vector<CallOut>& res) {
    if (s.frames.size() > 60) { int same = 0; for (auto& h : s.frames) { int k = 0; for (auto& g : s.frames) k += g->f == h->f; same = std::max(same, k); } if ((s.flags >> 22 & 1) && same > 20) report(s, "C31", "a call that breaks a documented precondition recurses without end"); else undecidedHere(s, "recursion"); return; }
    Fn& fi = fnInfo(f);
    if (!muted) { fnsAnalysed.insert(f->getName().str()); }
    FrameP fr = std::make_shared<Frame>(); fr->f = f; fr->vals.resize(fi.num.size()); fr->call = CB;
    unsigned i = 0;
    for (auto& a : f->args()) {
        if (i >= args.size()) break;
        Val v = args[i++];
        if (a.hasByValAttr() && v.k == Val::Ptr) {
            ObjP o = std::make_shared<Obj>(); o->kind = Obj::Stack; o->name = "byval"; long n = (long)DL->getTypeAllocSize(a.getParamByValType()); o->size = Lin(n); o->sizeKnown = true;
            int id = s.add(o); fr->allocas.push_back(id); Val d = Val::mkPtr(id, Lin(0)); copyMem(s, d, v, n); v = d; }
        fr->vals[fi.num[&a]] = v;
    }
    s.frames.push_back(fr);
    std::vector<Out> outs;
    execRegion(0, &f->getEntryBlock(), std::move(s), outs);
    for (auto& o : outs) {
        if (o.k == Out::Unw && f->doesNotThrow()) { curInst = CB; obligation(o.s, "terminate"); report(o.s, "terminate", "exception leaves a noexcept function"); continue; }
        popFrame(o.s);
        CallOut c; c.unw = o.k == Out::Unw; c.v = o.v; c.s = std::move(o.s); res.push_back(std::move(c));
    }
}
#include "loops.inc"
#include "intrin.inc"
#include "main.inc"
