// Linear expressions over integer symbols and closed convex polyhedra given by constraints.
// Entailment and emptiness are decided by an exact rational simplex; constraints are tightened
// to integer hyperplanes (gcd), equalities are kept solved.
#pragma once
#include <vector>
#include <map>
#include <unordered_map>
#include <string>
#include <algorithm>
#include <memory>
#include <cstdint>
#include <cstdlib>
#include <cstdio>
#include <functional>

typedef __int128 i128;
std::string i128s(i128 v);
inline i128 iabs(i128 v) { return v < 0 ? -v : v; }
inline i128 gcd128(i128 a, i128 b) { a = iabs(a); b = iabs(b); while (b) { i128 t = a % b; a = b; b = t; } return a; }
inline i128 floordiv(i128 a, i128 b) { i128 q = a / b, r = a % b; return (r != 0 && ((r < 0) != (b < 0))) ? q - 1 : q; }

extern std::vector<std::string> symName;   // global symbol table
int newSym(const std::string& n);

struct Lin {
    std::vector<std::pair<int, long long> > t; // sorted by symbol
    i128 c;
    Lin() : c(0) {}
    Lin(long long k) : c(k) {}
    static Lin con(i128 k) { Lin l; l.c = k; return l; }
    static Lin sym(int s, long long k = 1) { Lin l; if (k) l.t.push_back(std::make_pair(s, k)); return l; }
    bool isConst() const { return t.empty(); }
    bool operator==(const Lin& o) const { return c == o.c && t == o.t; }
    bool operator!=(const Lin& o) const { return !(*this == o); }
    bool operator<(const Lin& o) const { if (t != o.t) return t < o.t; return c < o.c; }
    long long coef(int s) const { for (auto& p : t) if (p.first == s) return p.second; return 0; }
    Lin operator+(const Lin& o) const { return comb(o, 1); }
    Lin operator-(const Lin& o) const { return comb(o, -1); }
    Lin operator-() const { Lin r(*this); for (auto& p : r.t) p.second = -p.second; r.c = -r.c; return r; }
    Lin operator*(long long k) const {
        Lin r; if (!k) return r; r = *this; for (auto& p : r.t) p.second *= k; r.c *= k; return r;
    }
    Lin comb(const Lin& o, long long k) const {
        Lin r; r.c = c + o.c * k; r.t.reserve(t.size() + o.t.size());
        size_t i = 0, j = 0;
        while (i < t.size() || j < o.t.size()) {
            if (j == o.t.size() || (i < t.size() && t[i].first < o.t[j].first)) r.t.push_back(t[i++]);
            else if (i == t.size() || o.t[j].first < t[i].first) { r.t.push_back(std::make_pair(o.t[j].first, o.t[j].second * k)); ++j; }
            else { long long v = t[i].second + o.t[j].second * k; if (v) r.t.push_back(std::make_pair(t[i].first, v)); ++i; ++j; }
        }
        return r;
    }
    // substitute symbol s by e
    Lin subst(int s, const Lin& e) const {
        long long k = coef(s); if (!k) return *this;
        Lin r(*this);
        for (size_t i = 0; i < r.t.size(); ++i) if (r.t[i].first == s) { r.t.erase(r.t.begin() + i); break; }
        return r.comb(e, k);
    }
    bool divisible(long long d) const { for (auto& p : t) if (p.second % d) return false; return c % d == 0; }
    Lin div(long long d) const { Lin r(*this); for (auto& p : r.t) p.second /= d; r.c /= d; return r; }
    std::string str() const;
};
struct LinHash { size_t operator()(const Lin& l) const {
    size_t h = (size_t)l.c * 0x9e3779b97f4a7c15ull; for (auto& p : l.t) h = (h ^ (size_t)(p.first * 1000003ll + p.second)) * 0x100000001b3ull; return h; } };

enum Tri { NO = 0, YES = 1, MAYBE = 2 };

struct Poly {
    std::vector<Lin> ineq;          // each >= 0, normalised w.r.t. sub
    std::map<int, Lin> sub;         // solved equalities  sym = expr (expr free of solved symbols)
    std::vector<Lin> eqs;           // equalities without a unit coefficient (also present as two ineqs)
    bool bottom = false;
    mutable std::unordered_map<Lin, char, LinHash> cache;
    mutable int feasKnown = -1;

    Poly() {}
    Poly(const Poly& o) : ineq(o.ineq), sub(o.sub), eqs(o.eqs), bottom(o.bottom) {}
    Lin norm(const Lin& l) const;
    void addIneq(const Lin& l);     // l >= 0
    void addEq(const Lin& l);       // l == 0
    bool feasible() const;          // rational emptiness test
    bool entails(const Lin& l) const;   // l >= 0 on all (integer) points
    bool entailsEq(const Lin& l) const;
    Tri testGe(const Lin& l) const; // l >= 0 ?
    // all constraints (equalities as pairs), for export
    void exportCons(std::vector<Lin>& ge, std::vector<Lin>& eq) const;
    // integer point search; returns 1 found, 0 proven empty, 2 unknown
    int integerPoint(std::map<int, i128>& model, int budget = 400) const;
    std::string str() const;
private:
    void invalidate() { cache.clear(); feasKnown = -1; }
};
typedef std::shared_ptr<const Poly> PolyP;
extern unsigned long long lpCalls;
