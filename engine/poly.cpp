#include "poly.h"
#include <boost/multiprecision/cpp_int.hpp>

std::vector<std::string> symName;
unsigned long long lpCalls = 0;
int newSym(const std::string& n) { symName.push_back(n); return (int)symName.size() - 1; }

std::string i128s(i128 v) {
    if (v == 0) return "0"; bool neg = v < 0; std::string s; unsigned __int128 u = neg ? -(unsigned __int128)v : v;
    while (u) { s += char('0' + (int)(u % 10)); u /= 10; } if (neg) s += '-'; std::reverse(s.begin(), s.end()); return s;
}
std::string Lin::str() const {
    std::string s;
    for (auto& p : t) {
        long long k = p.second; std::string n = symName[p.first];
        if (s.empty()) { if (k == -1) s += "-"; else if (k != 1) s += std::to_string(k) + "*"; }
        else { s += k < 0 ? " - " : " + "; long long a = k < 0 ? -k : k; if (a != 1) s += std::to_string(a) + "*"; }
        s += n;
    }
    if (s.empty()) return i128s(c);
    if (c > 0) s += " + " + i128s(c); else if (c < 0) s += " - " + i128s(-c);
    return s;
}

// ---------------------------------------------------------------- exact simplex
struct LPOverflow {};
struct Q64 { // rational on int64 with overflow detection
    long long n, d;
    Q64(i128 v = 0) : n((long long)v), d(1) { if ((i128)n != v) throw LPOverflow(); }
    static Q64 mk(i128 a, i128 b) {
        if (b < 0) { a = -a; b = -b; }
        if (a == 0) return Q64(0);
        if (b != 1) { i128 g = gcd128(a, b); a /= g; b /= g; }
        Q64 r; r.n = (long long)a; r.d = (long long)b; if ((i128)r.n != a || (i128)r.d != b) throw LPOverflow(); return r;
    }
    Q64 operator*(const Q64& o) const { if (n == 0 || o.n == 0) return Q64(0); return mk((i128)n * o.n, (i128)d * o.d); }
    Q64 operator/(const Q64& o) const { if (n == 0) return Q64(0); return mk((i128)n * o.d, (i128)d * o.n); }
    Q64 operator+(const Q64& o) const {
        if (o.n == 0) return *this; if (n == 0) return o;
        if (d == 1 && o.d == 1) { return Q64((i128)n + o.n); }
        i128 x, y; x = (i128)n * o.d; y = (i128)o.n * d; return mk(x + y, (i128)d * o.d); }
    Q64 operator-() const { Q64 r(*this); r.n = -r.n; return r; }
    int sgn() const { return n < 0 ? -1 : n > 0; }
    void toFrac(i128& a, i128& b) const { a = n; b = d; }
};
struct QBig {
    boost::multiprecision::cpp_rational v;
    static boost::multiprecision::cpp_int toBig(i128 x) {
        bool neg = x < 0; unsigned __int128 u = neg ? -(unsigned __int128)x : x;
        boost::multiprecision::cpp_int r = (unsigned long long)(u >> 64); r <<= 64; r += (unsigned long long)u; if (neg) r = -r; return r; }
    QBig(i128 x = 0) : v(toBig(x)) {}
    QBig operator*(const QBig& o) const { QBig r; r.v = v * o.v; return r; }
    QBig operator/(const QBig& o) const { QBig r; r.v = v / o.v; return r; }
    QBig operator+(const QBig& o) const { QBig r; r.v = v + o.v; return r; }
    QBig operator-() const { QBig r; r.v = -v; return r; }
    int sgn() const { return v.sign(); }
    void toFrac(i128& a, i128& b) const { a = (i128)(boost::multiprecision::numerator(v)).convert_to<long long>(); b = (i128)(boost::multiprecision::denominator(v)).convert_to<long long>(); }
};

// rows: sum a_ij x_j + b_i >= 0, x free.  Returns feasibility; fills x.
template <class Q>
static bool lpSolve(const std::vector<Lin>& cons, const std::vector<int>& vars, std::vector<std::pair<i128,i128> >* sol) {
    int n = (int)vars.size(), m = (int)cons.size();
    std::unordered_map<int, int> ix; for (int j = 0; j < n; ++j) ix[vars[j]] = j;
    // tableau rows 0..m-1: slack_i ; column j: nonbasic var id ; last column: constant
    std::vector<std::vector<Q> > T(m, std::vector<Q>(n + 1));
    for (int i = 0; i < m; ++i) { for (auto& p : cons[i].t) T[i][ix[p.first]] = Q((i128)p.second); T[i][n] = Q(cons[i].c); }
    // ids: 0..n-1 free x ; n..n+m-1 slacks
    std::vector<int> basic(m), nonb(n);
    for (int i = 0; i < m; ++i) basic[i] = n + i;
    for (int j = 0; j < n; ++j) nonb[j] = j;
    auto pivot = [&](int r, int c) {
        Q p = T[r][c];
        // nonb[c] = (basic[r] - sum others)/p
        Q inv = Q((i128)1) / p;
        std::vector<Q>& R = T[r];
        for (int j = 0; j <= n; ++j) if (j != c) R[j] = -(R[j] * inv);
        R[c] = inv;
        for (int i = 0; i < m; ++i) if (i != r) {
            Q f = T[i][c]; if (f.sgn() == 0) continue;
            std::vector<Q>& Ti = T[i];
            for (int j = 0; j <= n; ++j) { if (j == c) continue; if (R[j].sgn()) Ti[j] = Ti[j] + f * R[j]; }
            Ti[c] = f * R[c];
        }
        std::swap(basic[r], nonb[c]);
    };
    // bring free variables into the basis
    for (int c = 0; c < n; ++c) {
        if (nonb[c] >= n) continue;
        int best = -1;
        for (int i = 0; i < m; ++i) if (basic[i] >= n && T[i][c].sgn()) { best = i; break; }
        if (best >= 0) pivot(best, c);
    }
    // free vars still nonbasic have zero coefficient in all slack rows: irrelevant
    for (int iter = 0;; ++iter) {
        int r = -1;
        for (int i = 0; i < m; ++i) if (basic[i] >= n && T[i][n].sgn() < 0 && (r < 0 || basic[i] < basic[r])) r = i;
        if (r < 0) break;
        int c = -1;
        for (int j = 0; j < n; ++j) if (nonb[j] >= n && T[r][j].sgn() > 0 && (c < 0 || nonb[j] < nonb[c])) c = j;
        if (c < 0) return false;
        pivot(r, c);
        if (iter > 5000) throw LPOverflow();
    }
    if (sol) {
        sol->assign(n, std::make_pair((i128)0, (i128)1));
        for (int i = 0; i < m; ++i) if (basic[i] < n) { i128 a, b; T[i][n].toFrac(a, b); (*sol)[basic[i]] = std::make_pair(a, b); }
    }
    return true;
}
static bool lpFeasible(const std::vector<Lin>& cons, std::vector<int>* varsOut = 0, std::vector<std::pair<i128,i128> >* sol = 0) {
    ++lpCalls;
    std::vector<int> vars;
    for (auto& l : cons) for (auto& p : l.t) vars.push_back(p.first);
    std::sort(vars.begin(), vars.end()); vars.erase(std::unique(vars.begin(), vars.end()), vars.end());
    if (varsOut) *varsOut = vars;
    try { return lpSolve<Q64>(cons, vars, sol); }
    catch (LPOverflow&) {}
    try { return lpSolve<QBig>(cons, vars, sol); } catch (LPOverflow&) { return true; }
}

// ---------------------------------------------------------------- Poly
Lin Poly::norm(const Lin& l) const {
    if (sub.empty()) return l;
    bool any = false; for (auto& p : l.t) if (sub.count(p.first)) { any = true; break; }
    if (!any) return l;
    Lin r; r.c = l.c;
    for (auto& p : l.t) {
        auto it = sub.find(p.first);
        if (it == sub.end()) r = r + Lin::sym(p.first, p.second); else r = r.comb(it->second, p.second);
    }
    return r;
}
static Lin tighten(const Lin& l) {
    i128 g = 0; for (auto& p : l.t) g = gcd128(g, p.second);
    if (g <= 1) return l;
    Lin r; for (auto& p : l.t) r.t.push_back(std::make_pair(p.first, (long long)(p.second / g)));
    r.c = floordiv(l.c, g); return r;
}
void Poly::addIneq(const Lin& l0) {
    if (bottom) return;
    Lin l = tighten(norm(l0));
    if (l.isConst()) { if (l.c < 0) { bottom = true; invalidate(); } return; }
    // same linear part?
    for (auto& q : ineq) if (q.t == l.t) { if (l.c < q.c) { q.c = l.c; invalidate(); goto opp; } return; }
    ineq.push_back(l); invalidate();
opp:
    Lin neg = -l;
    for (auto& q : ineq) if (q.t == neg.t) {
        i128 s = q.c + l.c; // l + q >= 0  =>  s must be >= 0
        if (s < 0) { bottom = true; return; }
        if (s == 0) { Lin e = l; addEq(e); return; }
        break;
    }
}
void Poly::addEq(const Lin& l0) {
    if (bottom) return;
    Lin l = norm(l0);
    if (l.isConst()) { if (l.c != 0) { bottom = true; invalidate(); } return; }
    i128 g = 0; for (auto& p : l.t) g = gcd128(g, p.second);
    if (g > 1) { if (l.c % g != 0) { bottom = true; invalidate(); return; } Lin r; for (auto& p : l.t) r.t.push_back(std::make_pair(p.first, (long long)(p.second / g))); r.c = l.c / g; l = r; }
    int s = -1; long long k = 0;
    for (auto it = l.t.rbegin(); it != l.t.rend(); ++it) if (it->second == 1 || it->second == -1) { s = it->first; k = it->second; break; }
    invalidate();
    if (s < 0) {
        for (auto& e : eqs) if (e == l || e == -l) return;
        eqs.push_back(l);
        Lin n = -l; bool f1 = false, f2 = false;
        for (auto& q : ineq) { if (q.t == l.t) { if (l.c < q.c) q.c = l.c; f1 = true; } if (q.t == n.t) { if (n.c < q.c) q.c = n.c; f2 = true; } }
        if (!f1) ineq.push_back(l); if (!f2) ineq.push_back(n);
        return;
    }
    Lin e; // s = e
    { Lin rest = l.subst(s, Lin(0)); e = (k == 1) ? -rest : rest; }
    for (auto& kv : sub) kv.second = kv.second.subst(s, e);
    sub[s] = e;
    std::vector<Lin> old; old.swap(ineq); std::vector<Lin> oe; oe.swap(eqs);
    for (auto& q : oe) addEq(q);
    for (auto& q : old) addIneq(q);
}
bool Poly::feasible() const {
    if (bottom) return false;
    if (feasKnown < 0) feasKnown = ineq.empty() ? 1 : lpFeasible(ineq);
    return feasKnown == 1;
}
bool Poly::entails(const Lin& l0) const {
    if (bottom) return true;
    Lin l = tighten(norm(l0));
    if (l.isConst()) return l.c >= 0 || !feasible();
    for (auto& q : ineq) if (q.t == l.t && q.c <= l.c) return true;
    auto it = cache.find(l); if (it != cache.end()) return it->second;
    // relevant constraints only: connected component of l's symbols
    std::vector<Lin> cons; cons.reserve(ineq.size() + 1);
    std::vector<char> used(ineq.size(), 0);
    std::vector<int> syms; for (auto& p : l.t) syms.push_back(p.first);
    std::sort(syms.begin(), syms.end());
    bool grow = true;
    while (grow) {
        grow = false;
        for (size_t i = 0; i < ineq.size(); ++i) if (!used[i]) {
            bool hit = false; for (auto& p : ineq[i].t) if (std::binary_search(syms.begin(), syms.end(), p.first)) { hit = true; break; }
            if (!hit) continue;
            used[i] = 1; grow = true; cons.push_back(ineq[i]);
            for (auto& p : ineq[i].t) if (!std::binary_search(syms.begin(), syms.end(), p.first)) syms.insert(std::upper_bound(syms.begin(), syms.end(), p.first), p.first);
        }
    }
    Lin neg = -l; neg.c -= 1; cons.push_back(neg);
    bool r = !lpFeasible(cons);
    cache[l] = r;
    return r;
}
bool Poly::entailsEq(const Lin& l) const {
    Lin n = norm(l); if (n.isConst()) return n.c == 0 || bottom;
    return entails(n) && entails(-n);
}
Tri Poly::testGe(const Lin& l) const {
    if (entails(l)) return YES;
    Lin neg = -l; neg.c -= 1;
    if (entails(neg)) return NO;
    return MAYBE;
}
void Poly::exportCons(std::vector<Lin>& ge, std::vector<Lin>& eq) const {
    for (auto& kv : sub) eq.push_back(Lin::sym(kv.first) - kv.second);
    for (auto& e : eqs) eq.push_back(e);
    for (auto& q : ineq) ge.push_back(q);
}
static int bb(std::vector<Lin>& cons, std::map<int, i128>& model, int& budget) {
    if (budget-- <= 0) return 2;
    std::vector<int> vars; std::vector<std::pair<i128,i128> > sol;
    if (!lpFeasible(cons, &vars, &sol)) return 0;
    for (size_t j = 0; j < vars.size(); ++j) if (sol[j].second != 1) {
        i128 f = floordiv(sol[j].first, sol[j].second);
        int res = 0;
        Lin a = -Lin::sym(vars[j]); a.c = f;       // x <= f
        cons.push_back(a); int r1 = bb(cons, model, budget); cons.pop_back();
        if (r1 == 1) return 1; if (r1 == 2) res = 2;
        Lin b = Lin::sym(vars[j]); b.c = -(f + 1);  // x >= f+1
        cons.push_back(b); int r2 = bb(cons, model, budget); cons.pop_back();
        if (r2 == 1) return 1; if (r2 == 2) res = 2;
        return res;
    }
    for (size_t j = 0; j < vars.size(); ++j) model[vars[j]] = sol[j].first;
    return 1;
}
int Poly::integerPoint(std::map<int, i128>& model, int budget) const {
    if (bottom) return 0;
    std::vector<Lin> cons = ineq;
    int r = bb(cons, model, budget);
    if (r == 1) for (auto& kv : sub) { i128 v = kv.second.c; for (auto& p : kv.second.t) v += (model.count(p.first) ? model[p.first] : 0) * p.second; model[kv.first] = v; }
    return r;
}
std::string Poly::str() const {
    std::string s; if (bottom) return "false";
    for (auto& kv : sub) s += symName[kv.first] + " = " + kv.second.str() + "; ";
    for (auto& q : ineq) s += q.str() + " >= 0; ";
    return s;
}
