// ------------------------------------------------------------------ loop summaries
struct Mute { Mute() { ++muted; } ~Mute() { --muted; } };
struct CellId { int kind; const Value* phi; int obj; long off; // 0 phi, 1 memory cell, 2 element typestate of a local
    bool operator<(const CellId& o) const { return std::tie(kind, phi, obj, off) < std::tie(o.kind, o.phi, o.obj, o.off); } };
static Val encSlot(const SlotV& v) { Val r; r.k = Val::Cont; r.tag = v.c.tag + 100 * (v.st + 1) + (v.orig ? 50 : 0); r.l = v.c.idx; return r; }
static SlotV decSlot(const Val& v) { SlotV s; if (v.k != Val::Cont) { return SlotV(); } s.st = v.tag / 100 - 1; int r = v.tag % 100; s.orig = r >= 50; s.c = Content(r % 50, v.l); return s; }
static Val getCell(State& s, const CellId& c) {
    if (c.kind == 0) return eval(s, c.phi);
    const Obj* o = s.get(c.obj); if (!o) return Val();
    if (c.kind == 1) { auto it = o->cells.find(c.off); return it == o->cells.end() ? Val() : it->second; }
    auto it = o->elems.find(c.off); return it == o->elems.end() ? Val() : encSlot(it->second);
}
static void putCell(State& s, const CellId& c, const Val& v, int csz) {
    if (c.kind == 0) { setVal(s, c.phi, v); return; }
    Obj* o = s.mut(c.obj); if (!o) return;
    if (c.kind == 1) { if (v.k == Val::Undef) { o->cells.erase(c.off); o->csz.erase(c.off); } else { o->cells[c.off] = v; o->csz[c.off] = csz; } return; }
    if (v.k == Val::Undef) o->elems.erase(c.off); else o->elems[c.off] = decSlot(v);
}
struct Form { bool lin; Val v; long slope = 0; bool slopeKnown = false; bool havoc = false; };
struct CellInfo { CellId id; int csz = 8; std::vector<Form> forms; };
struct MAlt { std::vector<Lin> guards, geq; std::map<int, std::vector<Write> > w; bool operator==(const MAlt& o) const { if (guards != o.guards || geq != o.geq || w.size() != o.w.size()) return false;
    for (auto& kv : w) { auto it = o.w.find(kv.first); if (it == o.w.end() || it->second.size() != kv.second.size()) return false; for (size_t i = 0; i < kv.second.size(); ++i) if (!(kv.second[i].off == it->second[i].off && kv.second[i].v == it->second[i].v)) return false; } return true; }
    Poly poly() const { Poly P; for (auto& e : geq) P.addEq(e); for (auto& g : guards) P.addIneq(g); return P; } };
// the writes of a, under the guards of a, are those of b
static bool sameWrites(const MAlt& a, const Poly& pa, const MAlt& b) {
    if (a.w.size() != b.w.size()) return false;
    for (auto& kv : a.w) { auto it = b.w.find(kv.first); if (it == b.w.end() || it->second.size() != kv.second.size()) return false;
        for (size_t i = 0; i < kv.second.size(); ++i) { const Write &x = kv.second[i], &y = it->second[i];
            if (x.v.st != y.v.st || x.v.orig != y.v.orig || x.v.c.tag != y.v.c.tag) return false;
            if (!(x.off == y.off) && !pa.entailsEq(x.off - y.off)) return false;
            if (x.v.c.tag != T_UNK && !(x.v.c.idx == y.v.c.idx) && !pa.entailsEq(x.v.c.idx - y.v.c.idx)) return false; } }
    return true; }
static void addAlt(std::vector<MAlt>& v, MAlt a) {
    for (;;) {
        bool merged = false; Poly pa = a.poly(); if (!pa.feasible()) return;
        for (size_t i = 0; i < v.size(); ++i) {
            if (v[i] == a) return;
            Poly pb = v[i].poly(); const MAlt* base = 0;
            if (sameWrites(a, pa, v[i])) base = &v[i]; else if (sameWrites(v[i], pb, a)) base = &a; else continue;
            MAlt m; m.w = base->w;
            std::vector<Lin> cs; { std::vector<Lin> ge, eq; pa.exportCons(ge, eq); for (auto& e : eq) { cs.push_back(e); cs.push_back(-e); } for (auto& g : ge) cs.push_back(g); ge.clear(); eq.clear(); pb.exportCons(ge, eq); for (auto& e : eq) { cs.push_back(e); cs.push_back(-e); } for (auto& g : ge) cs.push_back(g); }
            Poly acc; for (auto& c : cs) if (pa.entails(c) && pb.entails(c) && !acc.entails(c)) acc.addIneq(c);
            acc.exportCons(m.guards, m.geq);
            v.erase(v.begin() + i); a = m; merged = true; break;
        }
        if (!merged) { v.push_back(a); return; }
    } }
struct Part { std::vector<int> key; Poly P; int visits = 0; bool dirty = true; std::map<int, int> havoc; std::vector<MAlt> alts; };

struct GiveUp { std::string why; };
struct LoopSum {
    const Loop* L; State& s0; int k, J; std::vector<CellInfo> cells; std::map<CellId, int> index;
    std::map<std::vector<int>, std::unique_ptr<Part> > parts; std::set<int> unkObjs; uint64_t flags = 0; int restarts = 0, runs = 0;
    std::set<int> objIds;
    LoopSum(const Loop* l, State& s) : L(l), s0(s) {
        std::string line = locOf(&*L->getHeader()->getFirstNonPHI());
        k = mkSym("k#" + line, ((i128)1) << 50); J = mkSym("$J", ((i128)1) << 50);
        for (auto& p : s0.heap) objIds.insert(p.first);
    }
    struct Restart {};
    bool expressible(const Part* p, const Lin& l) const {
        for (auto& t : l.t) { if (t.first <= k) continue; bool h = false; if (p) for (auto& kv : p->havoc) if (kv.second == t.first) h = true; if (!h) return false; } return true; }
    Val formVal(const Form& f, Part* p, int ci) {
        if (f.havoc) { Val v = f.v; v.l = Lin::sym(p->havoc[ci]); return v; }
        if (!f.lin) return f.v;
        Val v = f.v; v.l = f.v.l + Lin::sym(k, f.slope); return v; }
    static bool hasLin(const Val& v) { return v.k == Val::Int || v.k == Val::Ptr || v.k == Val::PtrInt || v.k == Val::Cont; }
    int addCell(const CellId& id, int csz) {
        CellInfo c; c.id = id; c.csz = csz; Form f; f.v = getCell(s0, id); f.lin = hasLin(f.v); c.forms.push_back(f);
        index[id] = (int)cells.size(); cells.push_back(c); return (int)cells.size() - 1; }
    State instantiate(Part* p) {
        State s = s0; s.poly = std::make_shared<Poly>(p->P);
        for (size_t i = 0; i < cells.size(); ++i) { Val v = formVal(cells[i].forms[p->key[i]], p, (int)i); if (hasLin(v)) v.l = s.poly->norm(v.l); if (!(v == getCell(s, cells[i].id))) putCell(s, cells[i].id, v, cells[i].csz); }
        std::map<int, std::shared_ptr<std::vector<Alt> > > g;
        for (auto& pp : parts) for (auto& a : pp.second->alts) for (auto& w : a.w) { auto& v = g[w.first]; if (!v) v = std::make_shared<std::vector<Alt> >(); }
        for (auto& gg : g) { std::vector<MAlt> all; for (auto& pp : parts) for (auto& a : pp.second->alts) { MAlt m; m.guards = a.guards; m.geq = a.geq; auto it = a.w.find(gg.first); if (it != a.w.end()) m.w[0] = it->second; addAlt(all, m); }
            for (auto& m : all) { Alt x; x.guards = m.guards; x.geq = m.geq; if (m.w.count(0)) x.w = m.w[0]; gg.second->push_back(x); } }
        for (auto& kv : g) { Obj* o = s.mut(kv.first); if (!o || kv.second->empty()) continue; auto n = std::make_shared<LogNode>(); n->k = LogNode::Group; n->J = J; n->bound = Lin::sym(k); n->alts = kv.second; n->next = o->log; o->log = n; }
        for (int u : unkObjs) { Obj* o = s.mut(u); if (o) o->logUnknown = true; }
        s.flags |= flags;
        return s;
    }
    void toHavoc(int ci) {
        CellInfo& c = cells[ci]; Form f; f.lin = false; f.havoc = true; f.v = c.forms[0].v; f.slopeKnown = true;
        bool same = hasLin(f.v); for (auto& g : c.forms) if (g.v.k != f.v.k || g.v.obj != f.v.obj) same = false;
        if (!same || f.v.k == Val::Cont || c.id.kind == 2) { f.havoc = false; f.v = c.id.kind == 2 ? encSlot(mkUnk()) : Val::unk(); }
        c.forms.clear(); c.forms.push_back(f);
        if (optTraceLoops) errs() << "    havoc cell " << ci << " off " << c.id.off << " obj " << c.id.obj << "\n";
        throw Restart();
    }
    // classify the new value of a cell (already in k' world)
    int classify(int ci, Part* from, Poly& P1, Val nv, bool create) {
        CellInfo& c = cells[ci]; int cur = from->key[ci]; Form f = c.forms[cur];
        if (c.forms.size() == 1 && (f.havoc || (f.slopeKnown && !f.lin))) { // havoc / top
            if (!f.havoc) return 0;
            if (nv.k != f.v.k || nv.obj != f.v.obj) { c.forms[0].havoc = false; c.forms[0].lin = false; c.forms[0].slopeKnown = true; c.forms[0].v = c.id.kind == 2 ? encSlot(mkUnk()) : Val::unk(); throw Restart(); }
            return 0; }
        auto matches = [&](const Form& g) {
            if (g.havoc) return false;
            if (!g.lin) return g.v == nv;
            if (g.v.k != nv.k || g.v.obj != nv.obj || g.v.tag != nv.tag) return false;
            Lin d = P1.norm(nv.l - g.v.l - Lin::sym(k, g.slope)); if (d.isConst()) return d.c == 0; return P1.entailsEq(d); };
        if (matches(f)) return cur;
        for (size_t i = 0; i < c.forms.size(); ++i) if ((int)i != cur && matches(c.forms[i])) return (int)i;
        if (f.lin && !f.slopeKnown && hasLin(nv) && f.v.k == nv.k && f.v.obj == nv.obj && f.v.tag == nv.tag) {
            Lin D = P1.norm(P1.norm(nv.l) - P1.norm(f.v.l));
            if (D.isConst() && D.c != 0 && iabs(D.c) <= 100000) { c.forms[cur].slopeKnown = true; c.forms[cur].slope = (long)D.c; throw Restart(); } }
        if (!create) return -1;
        if (c.forms.size() >= 6) toHavoc(ci);
        if (f.lin && hasLin(nv) && f.v.k == nv.k && f.v.obj == nv.obj && f.v.tag == nv.tag) {
            Lin D = P1.norm(P1.norm(nv.l) - P1.norm(f.v.l + (Lin::sym(k) - Lin(1)) * f.slope));
            if (!f.slopeKnown) {
                if (D.c == 0 || iabs(D.c) > 100000) { /* pure symbolic jump */ }
                else { c.forms[cur].slopeKnown = true; c.forms[cur].slope = (long)D.c; throw Restart(); }
            }
            Form g; g.lin = true; g.v = nv; g.slope = f.slope; g.slopeKnown = true;
            g.v.l = P1.norm(nv.l - Lin::sym(k, f.slope));
            if (expressible(0, g.v.l) && !g.v.l.coef(k)) { c.forms.push_back(g); return (int)c.forms.size() - 1; }
            g.slope = 0; g.v.l = P1.norm(nv.l);
            if (expressible(0, g.v.l) && !g.v.l.coef(k)) { c.forms.push_back(g); return (int)c.forms.size() - 1; }
            g.slope = (long)g.v.l.coef(k); g.v.l = g.v.l.subst(k, Lin(0));
            if (expressible(0, g.v.l)) { c.forms.push_back(g); return (int)c.forms.size() - 1; }
            toHavoc(ci);
        }
        Form g; g.v = nv; g.slopeKnown = true;
        if (hasLin(nv)) {
            g.lin = true; g.v.l = P1.norm(nv.l); g.slope = (long)g.v.l.coef(k); g.v.l = g.v.l.subst(k, Lin(0));
            if (!expressible(0, g.v.l)) {
                if (nv.k == Val::Cont) { g.lin = false; g.v.l = Lin(); if (c.id.kind == 2) { SlotV sv = decSlot(nv); sv.c = Content(); g.v = encSlot(sv); } else g.v = Val::unk();
                    for (size_t i = 0; i < c.forms.size(); ++i) if (!c.forms[i].lin && c.forms[i].v == g.v) return (int)i; }
                else toHavoc(ci);
            }
        } else { g.lin = false; if (nv.k == Val::Agg) g.v = nv; }
        c.forms.push_back(g); return (int)c.forms.size() - 1;
    }
    static void consOf(const Poly& P, std::vector<Lin>& out) { std::vector<Lin> ge, eq; P.exportCons(ge, eq); for (auto& e : eq) { out.push_back(e); out.push_back(-e); } for (auto& g : ge) out.push_back(g); }
    void candidates(const Poly& P, const Part* p, std::vector<Lin>& out) {
        std::vector<Lin> c; consOf(P, c);
        auto it = P.sub.find(k);
        for (auto& l : c) { if (expressible(p, l) && !(l.t.size() == 1 && l.t[0].first == k && l.t[0].second < 0)) out.push_back(l); }
        if (it != P.sub.end()) { Lin d = Lin::sym(k) - it->second; for (auto& l : c) { Lin a = l + d, b = l - d; if (expressible(p, a)) out.push_back(a); if (expressible(p, b)) out.push_back(b); } }
    }
    bool join(const std::vector<int>& key, Poly& P1, Part* src) {
        auto& slot = parts[key];
        if (!slot) {
            if ((int)parts.size() > optMaxParts) throw GiveUp{"too many loop partitions"};
            slot.reset(new Part); slot->key = key;
            for (size_t i = 0; i < cells.size(); ++i) if (cells[i].forms[key[i]].havoc) slot->havoc[(int)i] = src->havoc[(int)i];
            Poly np = s0.poly ? *s0.poly : Poly();
            std::vector<Lin> ge, eq; P1.exportCons(ge, eq);
            for (auto& e : eq) if (expressible(slot.get(), e)) np.addEq(e);
            for (auto& g : ge) if (expressible(slot.get(), g)) np.addIneq(g);
            np.addIneq(Lin::sym(k));
            slot->P = np; slot->visits = 1; slot->dirty = true; return true;
        }
        Part* p = slot.get();
        std::vector<Lin> oldc; consOf(p->P, oldc);
        std::vector<Lin> keep; bool drop = false;
        for (auto& c : oldc) {
            if (P1.entails(c)) { keep.push_back(c); continue; }
            drop = true;
            if (expressible(0, c) && !c.coef(k)) { // entry-only constraint: do the two sides contradict each other?
                Lin n = -c; n.c -= 1; if (P1.entails(n)) throw EntrySplit{c}; }
        }
        if (!drop) return false;
        if (p->visits < 4) {
            std::vector<Lin> cand; candidates(P1, p, cand); candidates(p->P, p, cand);
            if (!p->havoc.empty()) {
                std::vector<Lin> X; X.push_back(Lin(0)); X.push_back(Lin(1));
                std::set<int> syms; { std::vector<Lin> c; consOf(*s0.poly, c); for (auto& l : c) for (auto& t : l.t) syms.insert(t.first); }
                if (syms.size() < 14) for (int y : syms) X.push_back(Lin::sym(y));
                for (auto& ci : cells) for (auto& f : ci.forms) if (f.lin && !f.havoc && (f.v.k == Val::Int || f.v.k == Val::Ptr)) X.push_back(f.v.l + Lin::sym(k, f.slope));
                for (auto& h : p->havoc) { for (auto& x : X) { cand.push_back(Lin::sym(h.second) - x); cand.push_back(x - Lin::sym(h.second)); } for (auto& h2 : p->havoc) if (h2.second != h.second) { cand.push_back(Lin::sym(h.second) - Lin::sym(h2.second)); } }
            }
            for (auto& c : cand) if (p->P.entails(c) && P1.entails(c)) keep.push_back(c);
        }
        Poly np = *s0.poly; np.addIneq(Lin::sym(k));
        for (auto& c : keep) { if (!np.entails(c)) np.addIneq(c); }
        p->P = np; ++p->visits; p->dirty = true; return true;
    }
    struct Edge { State* n; Poly P1; std::vector<Val> nv; bool dead = false; std::vector<int> key; bool known = false; };
    // checks the heap changes of a back-edge state and records its writes
    void recordWrites(Part* p, const State& inst, State& n, std::vector<MAlt>& myAlts) {
        if (n.caught != s0.caught) throw GiveUp{"exception state carried around a loop"};
        if (!n.degraded.empty() && s0.degraded.empty()) s0.degraded = n.degraded;
        flags |= n.flags;
        bool added = false;
        for (auto& pr : inst.heap) {
            int id = pr.first; int ni = n.find(id); if (ni < 0) continue;
            const Obj* a = pr.second.get(); const Obj* b = n.heap[ni].second.get(); if (a == b) continue;
            if (a->freed != b->freed) throw GiveUp{"block released inside a loop"};
            if (b->logUnknown && !a->logUnknown) { if (unkObjs.insert(id).second) throw Restart(); }
            for (auto& kv : b->cells) { auto it = a->cells.find(kv.first); if (it == a->cells.end() || !(it->second == kv.second)) { CellId c{1, 0, id, kv.first}; if (!index.count(c)) { addCell(c, b->csz.find(kv.first)->second); added = true; } } }
            for (auto& kv : a->cells) if (!b->cells.count(kv.first)) { CellId c{1, 0, id, kv.first}; if (!index.count(c)) { addCell(c, a->csz.find(kv.first)->second); added = true; } }
            for (auto& kv : b->elems) { auto it = a->elems.find(kv.first); if (it == a->elems.end() || !(it->second == kv.second)) { CellId c{2, 0, id, kv.first}; if (!index.count(c)) { addCell(c, 8); added = true; } } }
            for (auto& kv : a->elems) if (!b->elems.count(kv.first)) { CellId c{2, 0, id, kv.first}; if (!index.count(c)) { addCell(c, 8); added = true; } }
        }
        for (auto& pr : n.heap) if (!objIds.count(pr.first) && pr.first < GLOBAL_BASE && inst.find(pr.first) < 0) throw GiveUp{"object created inside a loop outlives the iteration"};
        if (added) throw Restart();
        MAlt alt;
        for (auto& pr : inst.heap) {
            int id = pr.first; int ni = n.find(id); if (ni < 0) continue;
            const Obj* a = pr.second.get(); const Obj* b = n.heap[ni].second.get();
            if (a == b || !b->slotty || a->log == b->log || b->logUnknown) continue;
            std::vector<Write> ws; bool bad = false;
            for (const LogNode* x = b->log.get(); x && x != a->log.get(); x = x->next.get()) {
                if (x->k != LogNode::Point) { bad = true; break; }
                Write w; w.off = n.poly->norm(x->off); w.v = x->v; w.v.c.idx = n.poly->norm(w.v.c.idx);
                if (!expressible(0, w.off)) { bad = true; break; }
                if (!expressible(0, w.v.c.idx)) w.v.c = Content();
                ws.push_back(w); }
            if (bad) { if (optTraceLoops) errs() << "    log of obj " << id << " not expressible\n"; unkObjs.insert(id); throw Restart(); }
            std::reverse(ws.begin(), ws.end());
            for (auto& w : ws) { w.off = w.off.subst(k, Lin::sym(J)); w.v.c = substC(w.v.c, k, Lin::sym(J)); }
            alt.w[id] = ws;
        }
        std::vector<Lin> ge, eq; n.poly->exportCons(ge, eq);
        for (auto& e : eq) { if (s0.poly->entailsEq(e)) continue; if (expressible(0, e)) alt.geq.push_back(e.subst(k, Lin::sym(J))); }
        for (auto& g : ge) { if (s0.poly->entails(g)) continue; if (expressible(0, g)) alt.guards.push_back(g.subst(k, Lin::sym(J))); }
        addAlt(myAlts, alt);
    }
    // the edge's constraints and cell values in k' = k + 1
    Edge makeEdge(Part* p, State& n) {
        Edge e; e.n = &n;
        std::map<int, int> ren; for (auto& h : p->havoc) ren[h.second] = mkSym("$h", symMag[h.second]);
        auto tr = [&](Lin l) { l = l.subst(k, Lin::sym(k) - Lin(1)); for (auto& r : ren) l = l.subst(r.first, Lin::sym(r.second)); return l; };
        std::vector<Lin> ge, eq; n.poly->exportCons(ge, eq);
        for (auto& x : eq) e.P1.addEq(tr(x)); for (auto& g : ge) e.P1.addIneq(tr(g));
        e.P1.addIneq(Lin::sym(k) - Lin(1));
        if (!e.P1.feasible()) { e.dead = true; return e; }
        for (size_t i = 0; i < cells.size(); ++i) { Val nv = getCell(n, cells[i].id); if (hasLin(nv)) nv.l = e.P1.norm(tr(n.poly->norm(nv.l))); e.nv.push_back(nv); }
        return e;
    }
    bool keyOf(Part* p, Edge& e, bool create) {
        e.key.assign(cells.size(), 0);
        for (size_t i = 0; i < cells.size(); ++i) { int c = classify((int)i, p, e.P1, e.nv[i], create); if (c < 0) return false; e.key[i] = c; }
        return true; }
    bool joinEdge(Part* p, Edge& e) {
        if (optTraceLoops) { errs() << "    join"; for (int q : p->key) errs() << " " << q; errs() << " to"; for (int q : e.key) errs() << " " << q; errs() << " edge " << e.P1.str() << "\n"; }
        Poly P1 = e.P1;
        for (size_t i = 0; i < cells.size(); ++i) if (cells[i].forms[e.key[i]].havoc) { if (!p->havoc.count((int)i)) throw Restart(); P1.addEq(Lin::sym(p->havoc[(int)i]) - e.nv[i].l); }
        return join(e.key, P1, p); }
    bool backEdges(Part* p, const State& inst, std::vector<Out>& o, std::vector<MAlt>& my) {
        std::vector<Edge> es;
        for (auto& x : o) if (x.k == Out::Edge && x.to == L->getHeader()) { recordWrites(p, inst, x.s, my); es.push_back(makeEdge(p, x.s)); if (es.back().dead) es.pop_back(); }
        // first the edges that stay in this partition: it must be stable before edges leaving it are followed
        bool changed = false;
        for (auto& e : es) { e.known = keyOf(p, e, false); if (e.known && e.key == p->key) changed |= joinEdge(p, e); }
        if (changed) return false;
        if (!(my == p->alts)) return true;
        for (auto& e : es) if (e.known && e.key != p->key) joinEdge(p, e);
        for (auto& e : es) if (!e.known) { keyOf(p, e, true); if (optTraceLoops) { errs() << "    new key from"; for (int q : p->key) errs() << " " << q; errs() << " to"; for (int q : e.key) errs() << " " << q; errs() << " P " << p->P.str() << "\n      edge " << e.P1.str() << "\n"; } joinEdge(p, e); }
        return true;
    }
    void init() {
        parts.clear();
        std::vector<int> key(cells.size(), 0);
        auto& slot = parts[key]; slot.reset(new Part); slot->key = key; slot->P = *s0.poly; slot->P.addEq(Lin::sym(k));
        for (size_t i = 0; i < cells.size(); ++i) if (cells[i].forms[0].havoc) {
            int h = mkSym("h#" + std::to_string(i), ((i128)1 << 63) - 1); slot->havoc[(int)i] = h;
            Val v0 = getCell(s0, cells[i].id); slot->P.addEq(Lin::sym(h) - v0.l); }
        slot->visits = 1;
    }
    void run(std::vector<Out>& outs) {
        for (auto& ph : L->getHeader()->phis()) addCell(CellId{0, &ph, 0, 0}, 8);
        for (;;) {
            try {
                if (++restarts > 40) throw GiveUp{"loop analysis does not stabilise"};
                init();
                for (;;) {
                    Part* p = 0; for (auto& x : parts) if (x.second->dirty) { p = x.second.get(); break; }
                    if (!p) break;
                    if (++runs > 600) throw GiveUp{"loop fixpoint budget"};
                    p->dirty = false;
                    State inst = instantiate(p);
                    if (!inst.poly->feasible()) continue;
                    std::vector<Out> o; { Mute m; execRegion(L, L->getHeader(), inst, o); }
                    std::vector<MAlt> my;
                    if (backEdges(p, inst, o, my) && !(my == p->alts)) { p->alts = my; for (auto& y : parts) y.second->dirty = true; p->dirty = true; }
                }
                break;
            } catch (Restart&) { if (optTraceLoops) errs() << "   restart\n"; }
        }
        if (optTraceLoops) { errs() << "LOOP " << locOf(&*L->getHeader()->getFirstNonPHI()) << " parts " << parts.size() << " restarts " << restarts << " runs " << runs << " muted " << muted << "\n";
            for (size_t i = 0; i < cells.size(); ++i) { errs() << "   cell" << i << " kind " << cells[i].id.kind << " obj " << cells[i].id.obj << "+" << cells[i].id.off << (cells[i].id.phi ? " phi " + cells[i].id.phi->getName().str() : ""); for (auto& f : cells[i].forms) errs() << " | " << (f.havoc ? "havoc" : f.v.str()) << (f.lin ? " +" + std::to_string(f.slope) + "k" : ""); errs() << "\n"; }
            for (auto& x : parts) { errs() << "   part"; for (int q : x.first) errs() << " " << q; errs() << " : " << x.second->P.str() << "\n"; for (auto& a : x.second->alts) { errs() << "      alt guard"; for (auto& g : a.guards) errs() << " " << g.str() << ">=0;"; for (auto& g : a.geq) errs() << " " << g.str() << "=0;"; for (auto& oa : a.w) for (auto& w : oa.second) errs() << " o" << oa.first << " W[" << w.off.str() << "]=" << w.v.st << "/" << w.v.c.tag << "[" << w.v.c.idx.str() << "]"; errs() << "\n"; } } }
        if (!muted) ++nLoops;
        bool big = false;
        for (auto& x : parts) { Lin l = -Lin::sym(k); l.c = 8; if (!x.second->P.entails(l)) { Poly q = x.second->P; Lin g = Lin::sym(k); g.c = -9; q.addIneq(g); std::map<int, i128> m; if (q.feasible() && q.integerPoint(m) == 1) big = true; } }
        for (auto& x : parts) {
            State inst = instantiate(x.second.get());
            if (!inst.poly->feasible()) continue;
            inst.inexact = true; inst.workKnown = false;
            if (big) { inst.flags |= EV_LOOP; inst.loopAt = &*L->getHeader()->getFirstNonPHI(); }
            std::vector<Out> o; execRegion(L, L->getHeader(), inst, o);
            for (auto& y : o) { if (y.k == Out::Edge && y.to == L->getHeader()) continue; outs.push_back(std::move(y)); }
        }
    }
};
static bool tryUnroll(const Loop* L, const State& s0, std::vector<Out>& outs) {
    State s = s0; std::vector<Out> acc;
    for (int it = 0; it < 40; ++it) {
        std::vector<Out> o; execRegion(L, L->getHeader(), std::move(s), o);
        int cnt = 0, bi = -1;
        for (size_t i = 0; i < o.size(); ++i) { if (o[i].k == Out::Unw) continue; ++cnt; if (o[i].k == Out::Edge && o[i].to == L->getHeader()) bi = (int)i; }
        if (cnt > 1 || (cnt == 0 && o.empty() && it == 0)) { if (cnt > 1) return false; }
        for (size_t i = 0; i < o.size(); ++i) if ((int)i != bi) acc.push_back(std::move(o[i]));
        if (bi < 0) { for (auto& x : acc) outs.push_back(std::move(x)); return true; }
        s = std::move(o[bi].s); ++s.work[2];
        if (s.poly.use_count() > 0 && it > 0 && it % 8 == 0 && (long)acc.size() > 200) return false;
    }
    return false;
}
// refinement: inside the box every iteration is its own trace partition, no joins and no widening
static void partitionTraces(const Loop* L, State s0, std::vector<Out>& outs) {
    std::vector<State> cur; cur.push_back(std::move(s0)); int limit = 3 * (int)optBox + 12;
    for (int it = 0; it < limit && !cur.empty(); ++it) {
        std::vector<State> next;
        for (auto& s : cur) {
            if (it == 9) { s.flags |= EV_LOOP; s.loopAt = &*L->getHeader()->getFirstNonPHI(); }
            std::vector<Out> o; execRegion(L, L->getHeader(), std::move(s), o);
            for (auto& x : o) { if (x.k == Out::Edge && x.to == L->getHeader()) { ++x.s.work[2]; next.push_back(std::move(x.s)); } else outs.push_back(std::move(x)); }
        }
        cur.swap(next);
    }
    for (auto& s : cur) { curInst = &*L->getHeader()->getFirstNonPHI(); undecidedHere(s, "loop exceeds the refinement box"); }
}
static void summarize(const Loop* L, State s0, std::vector<Out>& outs, int depth) {
    { std::vector<Out> u; bool ok; { Mute m; ok = tryUnroll(L, s0, u); }
      if (ok) { if (muted) { for (auto& x : u) outs.push_back(std::move(x)); } else { u.clear(); tryUnroll(L, s0, outs); } return; } }
    if (optBox) { partitionTraces(L, std::move(s0), outs); return; }
    try { State s = s0; LoopSum ls(L, s); size_t n0 = outs.size(); (void)n0; ls.run(outs); }
    catch (EntrySplit& e) {
        if (depth > 10) { undecidedHere(s0, "loop entry partitioning too deep"); return; }
        State a = s0; a.P().addIneq(e.c); State b = s0; Lin n = -e.c; n.c -= 1; b.P().addIneq(n);
        if (a.poly->feasible()) summarize(L, std::move(a), outs, depth + 1);
        if (b.poly->feasible()) summarize(L, std::move(b), outs, depth + 1);
    } catch (GiveUp& g) { curInst = &*L->getHeader()->getFirstNonPHI(); if (optTraceLoops) errs() << "GIVEUP " << g.why << " " << locOf(curInst) << "\n"; undecidedHere(s0, "loop: " + g.why); }
}
