// Monitors of the Janet tree, monomial completion and the forest of Janet trees against
// brute force over the definition of Janet division.
#include "vh.hpp"
#include "util/allocator.h"
#include "util/list.h"
#include "ginv/wrap.h"
#include "ginv/janet.h"
#include "ginv/gb.h"
#include "ginv/mcompletion.h"
#include "conv.hpp"
#include "gb.hpp"
#include <memory>
using namespace GInv;
using vh::Rng;
typedef std::vector<int> V;
typedef std::vector<V> VV;

static bool divides(const V& a, const V& b) { for (size_t i=0; i < a.size(); i++) if (a[i] > b[i]) return false; return true; }
static int deg(const V& a) { int d=0; for (int x: a) d += x; return d; }
// Janet: v is non-multiplicative for u when the set has an element that agrees with u
// before v and is larger at v
static bool nonmult(const VV& U, const V& u, int v) {
  for (auto& w: U) { bool s=true; for (int i=0; i < v && s; i++) s = w[i] == u[i]; if (s && w[v] > u[v]) return true; }
  return false;
}
static int janetDivisor(const VV& U, const V& m) { // -1: none; -2: more than one (impossible)
  int r=-1;
  for (size_t k=0; k < U.size(); k++) {
    if (!divides(U[k], m)) continue;
    bool ok=true; for (size_t v=0; v < m.size() && ok; v++) if (m[v] > U[k][v] && nonmult(U, U[k], v)) ok = false;
    if (ok) { if (r != -1) return -2; r = k; }
  }
  return r;
}
static std::string show(const VV& U) { std::string s; for (auto& u: U) s += ref::str(ref::Mon(-1, u)); return s; }
static V rv(Rng& r, int n, int d) {
  V v(n, 0); int k=r.range(0, d);
  int style=r.range(0, 2);
  for (int i=0; i < k; i++) v[style == 0 ? r.range(0, n-1): style == 1 ? r.range(0, std::min(1, n-1)): r.range(std::max(0, n-2), n-1)]++;
  return v;
}
static V probe(Rng& r, const VV& U, int n, int d) {
  if (U.empty() || r.chance(1, 3)) return rv(r, n, d + 2);
  V v(U[r.range(0, U.size() - 1)]);
  int k=r.range(0, 3); for (int i=0; i < k; i++) v[r.range(0, n-1)]++;
  if (r.chance(1, 4)) { int i=r.range(0, n-1); if (v[i]) v[i]--; }
  return v;
}
// mostly few variables, now and then many
static int vars(Rng& r, int few) { return r.chance(1, 8) ? r.range(few + 1, 16): r.range(1, few); }
static int vars2(Rng& r, int few) { return r.chance(1, 25) ? r.chance(1, 10) && !vh::slow ? r.range(126, 140): r.range(17, 80): vars(r, few); }
struct Mono { // a Monom on its own allocator
  conv::MonomBox b; explicit Mono(const V& v, int pos=-1): b(ref::Mon(pos, v)) {} operator const Monom&() const { return *b.m; }
};

// ---- tree structure: what the iterators show, checked after every insertion
static void walk(Janet::ConstIterator j, V& path, int used, int n, std::map<V, Wrap*>& found, int depth, long& nodes) {
  int last=-1;
  while (j) {
    ++nodes; vh::ok(depth < n, "tree-depth");
    vh::ok(j.degree() > last, "tree-degrees-not-increasing"); last = j.degree();
    path.push_back(j.degree());
    vh::ok(j.wrap() || j.nextVar(), "tree-dead-end");
    if (j.wrap()) {
      V m=conv::mon(j.wrap()->lm()).e, p(path); p.resize(n, 0);
      vh::ok(m == p, "tree-misplaced", vh::str(*j.wrap()));
      vh::ok(found.insert(std::make_pair(p, j.wrap())).second, "tree-duplicate");
    }
    if (j.nextVar()) walk(j.nextVar(), path, used + j.degree(), n, found, depth + 1, nodes);
    path.pop_back();
    j.deg();
  }
}
static void structure(const Janet& t, int n, std::map<V, Wrap*>& found) {
  V path; long nodes=0; walk(t.begin(), path, 0, n, found, 0, nodes);
  vh::ok((int)found.size() == t.size(), "tree-size");
  vh::count("tree_nodes", nodes);
}
static mpq_class hpAt(const HilbertPoly& h, long s) { mpq_class v=0; for (int k=h.dim(); k >= 0; k--) v = v * s + mpq_class(std::string(h[k])); return v; }

static void tree(Rng& r, int size) {
  int n=vars2(r, 5), d=r.range(1, 2 + size / 2), N=r.range(1, 2 + size * 2);
  if (n > 100) N = std::min(N, 5);
  bool many=size > 12 && !vh::slow && r.chance(1, 250); if (many) { n = r.range(3, 5); d = 12; N = r.range(600, 900); } // hundreds of elements, not compared at each step
  Allocator al[1]; Janet t(al); std::vector<std::unique_ptr<Wrap>> w; VV U;
  { Mono m(rv(r, n, d)); vh::ok(t.find(m) == nullptr, "found-in-empty-tree"); }
  int far=r.chance(1, 8) ? r.chance(1, 2) ? 300: 70000: 1; // exponents far apart
  for (int k=0; k < N; k++) {
    V v=probe(r, U, n, d); if (far > 1 && r.chance(1, 2)) { int i=r.range(0, n-1); v[i] += far * r.range(0, 3); }
    Mono m(v);
    vh::desc(ref::str(ref::Mon(-1, v)));
    int e=janetDivisor(U, v); vh::ok(e != -2, "oracle");
    const Wrap* f=t.find(m);
    vh::okf(f == (e < 0 ? nullptr: w[e].get()), "find-before-insert", [&] { return show(U) + " find " + ref::str(ref::Mon(-1, v)) + " gave " + (f ? vh::str(*f): "none"); });
    if (f || deg(v) == 0) continue;  // inserting needs an element without a divisor; 1 is not kept in trees
    std::unique_ptr<Wrap> x(new Wrap((const Monom&)m));
    t.insert(x.get()); w.push_back(std::move(x)); U.push_back(v);
    if (many) { vh::ok(t.size() == (int)U.size(), "tree-size"); if (U.size() % 120 && U.size() < 300) continue; if (U.size() > 300) break; vh::count("trees_of_hundreds"); }
    for (size_t i=0; i < U.size(); i++) {
      for (int q=0; q < n; q++)
        vh::okf(w[i]->NM(q) == nonmult(U, U[i], q), "non-multiplicative", [&] { return show(U) + " element " + ref::str(ref::Mon(-1, U[i])) + " variable " + vh::str(q) + " marked " + vh::str(w[i]->NM(q)); });
      int mul=0; for (int q=0; q < n; q++) mul += !nonmult(U, U[i], q);
      vh::ok(w[i]->multi() == mul, "multi");
    }
    std::map<V, Wrap*> found; structure(t, n, found);
    for (size_t i=0; i < U.size(); i++) { auto z=found.find(U[i]); vh::ok(z != found.end() && z->second == w[i].get(), "tree-lost-element"); Mono m2(U[i]); vh::ok(t.find(m2) == w[i].get(), "own-divisor"); }
    for (int q=0; q < 6; q++) {
      V y=probe(r, U, n, d); Mono my(y); int ex=janetDivisor(U, y); const Wrap* g=t.find(my);
      vh::okf(g == (ex < 0 ? nullptr: w[ex].get()), "find", [&] { return show(U) + " find " + ref::str(ref::Mon(-1, y)) + " gave " + (g ? vh::str(*g): "none") + (ex < 0 ? " expected none": " expected " + vh::str(*w[ex])); });
      if (ex >= 0) vh::count("involutive_divisors");
      vh::count("lookups");
    }
    vh::seen(show(U));
  }
  if (U.size() > 1) {
    Janet u(al); t.swap(u); vh::ok(t.size() == 0 && u.size() == (int)U.size(), "swap-size");
    Mono m(U[0]); vh::ok(t.find(m) == nullptr && u.find(m) == w[0].get(), "swap");
    t.swap(u);
  }
  if (!U.empty()) { // a copy shows and finds the same elements, and outlives the original's nodes
    Allocator al2[1]; Janet u(al2, t);
    std::map<V, Wrap*> f1, f2; structure(t, n, f1); structure(u, n, f2); vh::ok(f1 == f2, "copy-differs", show(U));
    for (int q=0; q < 4; q++) { V y=probe(r, U, n, d); Mono my(y); vh::ok(t.find(my) == u.find(my), "copy-find", show(U)); }
    vh::count("copies");
  }
  if (!U.empty()) { // the tree's Hilbert polynomial counts the monomials outside the cones
    HilbertPoly h; t.buildHP(h); vh::ok(h.dim() == n, "hp-dimension");
    int m=0; for (auto& u: U) m = std::max(m, deg(u));
    for (int s=m; s < m + 2 && n <= 4 && s <= 12; s++) {
      long c=0; V e(n, 0);
      std::function<void(int, int)> go=[&](int v, int left) { if (v == n) { c += janetDivisor(U, e) < 0; return; } for (int k=0; k <= left; k++) { e[v] = k; go(v+1, left-k); } e[v] = 0; };
      if (n >= 4 && s > 7) break;
      go(0, s);
      vh::okf(hpAt(h, s) == c, "hp-value", [&] { return show(U) + " at " + vh::str(s) + ": " + hpAt(h, s).get_str() + " counted " + vh::str(c); });
    }
    vh::count("hilbert_polynomials");
  }
}

// ---- completion of a monomial set
static bool inIdeal(const VV& g, const V& m) { for (auto& u: g) if (divides(u, m)) return true; return false; }
static VV gens(Rng& r, int n, int d, int k) {
  VV g; for (int i=0; i < k; i++) { V v=rv(r, n, d); if (deg(v) && std::find(g.begin(), g.end(), v) == g.end()) g.push_back(v); }
  if (g.empty()) { V v(n, 0); v[r.range(0, n-1)] = 1; g.push_back(v); }
  return g;
}
static void mjanet(Rng& r, int size) {
  int n=vars(r, 4); VV g=gens(r, n, n > 4 ? r.range(1, 3): r.range(1, 3 + size / 3), n > 4 ? r.range(1, 3): r.range(1, 2 + size / 2));
  vh::desc(show(g));
  Allocator al[1]; MJanet b(al);
  VV U; // pushing needs an element without a Janet divisor among the earlier ones
  for (auto& v: g) if (janetDivisor(U, v) < 0) { Mono m(v); b.push(m); U.push_back(v); }
  for (int round=0; round < 2; round++) {
    b.build();
    std::map<V, Wrap*> found; structure(b.tree(), n, found); VV T; for (auto& x: found) T.push_back(x.first);
    auto w=[&] { return show(g) + " completed to " + show(T); };
    for (auto& u: U) vh::okf(found.count(u), "generator-lost", w);
    for (auto& t: T) vh::okf(inIdeal(U, t), "outside-ideal", w);
    for (auto& t: T) for (int v=0; v < n; v++) {
      bool nm=nonmult(T, t, v);
      vh::okf(found[t]->NM(v) == nm, "non-multiplicative", w);
      if (nm) { V p(t); p[v]++; vh::okf(janetDivisor(T, p) >= 0, "not-complete", w); Mono m(p); vh::okf(b.tree().find(m) != nullptr, "prolongation-without-divisor", w); vh::count("prolongations"); }
    }
    for (int q=0; q < 20; q++) { V y=probe(r, T, n, 6); Mono m(y); const Wrap* f=b.tree().find(m); vh::okf((f != nullptr) == inIdeal(U, y), "membership", [&] { return w() + " find " + ref::str(ref::Mon(-1, y)); }); vh::count("memberships"); }
    HilbertPoly h; b.tree().buildHP(h);
    std::vector<ref::Mon> lm; int mx=0; for (auto& t: T) { lm.push_back(ref::Mon(-1, t)); mx = std::max(mx, deg(t)); }
    std::vector<ref::Mon> gm; for (auto& u: U) gm.push_back(ref::Mon(-1, u));
    if (mx <= 10 && (n <= 4 || mx + n <= 13)) for (int s=mx; s < mx + 2; s++) { long c=ref::standard(gm, n, -1, s); vh::okf(hpAt(h, s) == c, "hp-value", w); }
    vh::seen(show(T)); vh::count("completions");
    // extend and complete again
    VV e=gens(r, n, 5, 2); for (auto& v: e) if (janetDivisor(T, v) < 0) { Mono m(v); b.push(m); U.push_back(v); T.push_back(v); }
  }
}
static void mcompletion(Rng& r, int size) {
  static int (*const cmps[])(const Wrap&, const Wrap&)={MCompletion::lex, MCompletion::deglex, MCompletion::alex, MCompletion::lexGB, MCompletion::deglexGB, MCompletion::alexGB, MCompletion::GB};
  int c=r.range(0, 6), n=size > 8 && r.chance(1, 120) ? r.range(120, 160): vars(r, 4); VV g=gens(r, n, n > 100 ? 2: n > 4 ? r.range(1, 3): r.range(1, 3 + size / 3), n > 100 ? 2: n > 4 ? r.range(1, 3): r.range(1, 2 + size / 2));
  vh::desc("cmp " + vh::str(c) + " " + show(g));
  Allocator al[1]; MCompletion b(al, cmps[c]);
  for (auto& v: g) { Mono m(v); b.push(m); }
  if (r.chance(1, 3)) { Mono m(g[r.range(0, g.size() - 1)]); b.push(m); vh::count("duplicates"); }
  vh::ok(b.length() == (int)g.size(), "length-before-build");
  if (c == 0) for (ListWrap::ConstIterator j(b.T().begin()); j; ++j) { V t=conv::mon(j.data()->lm()).e; for (int v=0; v < n; v++) vh::ok(j.data()->NM(v) == nonmult(g, t, v), "non-multiplicative-before-build", show(g)); }
  b.build();
  std::vector<const Wrap*> W; VV T; for (ListWrap::ConstIterator j(b.T().begin()); j; ++j) { W.push_back(j.data()); T.push_back(conv::mon(j.data()->lm()).e); }
  auto w=[&] { return "cmp " + vh::str(c) + " " + show(g) + " completed to " + show(T); };
  vh::okf(b.length() == (int)T.size(), "length", w);
  std::set<V> set(T.begin(), T.end()); vh::okf(set.size() == T.size(), "duplicate-element", w);
  for (auto& u: g) vh::okf(set.count(u), "generator-lost", w);
  for (auto& t: T) vh::okf(inIdeal(g, t), "outside-ideal", w);
  auto cone=[&](size_t i, const V& m) { for (int v=0; v < n; v++) if (T[i][v] > m[v] || (T[i][v] < m[v] && W[i]->NM(v))) return false; return true; };
  for (size_t i=0; i + 1 < W.size(); i++) vh::okf(cmps[c](*W[i], *W[i+1]) < 0, "not-sorted", w);
  for (size_t i=0; i < T.size(); i++) for (size_t j=0; j < i; j++) { // cones of elements that do not divide one another do not meet
    if (divides(T[i], T[j]) || divides(T[j], T[i])) continue;
    V l(n); for (int v=0; v < n; v++) l[v] = std::max(T[i][v], T[j][v]);
    vh::okf(!(cone(i, l) && cone(j, l)), "cones-overlap", w);
  }
  if (c == 0) for (size_t i=0; i < T.size(); i++) for (int v=0; v < n; v++) vh::okf(W[i]->NM(v) == nonmult(T, T[i], v), "non-multiplicative", w);
  for (size_t i=0; i < T.size(); i++) for (int v=0; v < n; v++) if (W[i]->NM(v)) { V p(T[i]); p[v]++; Mono m(p); const Wrap* f=b.find(m); vh::okf(f != nullptr, "not-complete", w); vh::count("prolongations"); }
  for (int q=0; q < 20; q++) {
    V y=probe(r, T, n, 6); Mono m(y); const Wrap* f=b.find(m);
    vh::okf((f != nullptr) == inIdeal(g, y), "membership", [&] { return w() + " find " + ref::str(ref::Mon(-1, y)); });
    if (f) { size_t k=std::find(W.begin(), W.end(), f) - W.begin(); vh::okf(k < W.size() && cone(k, y), "wrong-divisor", w); }
    vh::count("memberships");
  }
  vh::seen(w()); vh::count("completions");
}

// ---- forest of Janet trees, one per degree of the ancestor
static void forest(Rng& r, int size) {
  int n=vars2(r, 4), N=r.range(1, 2 + size), maxd=r.chance(1, 3) ? r.chance(1, 3) ? 150: 40: 8;
  if (n > 100) N = std::min(N, 5);
  bool many=size > 8 && !vh::slow && r.chance(1, 300); if (many) { n = r.range(3, 4); N = 0; maxd = 30; } // hundreds of elements, not compared at each step
  Allocator al[1]; GB f(al);
  struct E { V m; int level; };
  std::vector<std::unique_ptr<Wrap>> w; std::vector<E> U; std::vector<std::set<int>> nmd;
  VV cand; for (int i=0; i < N; i++) { V v=rv(r, n, maxd); if (maxd > 8 && n > 1 && r.chance(1, 2)) { int k=r.range(0, n - 1); for (int q=0; q < n; q++) v[q] = q == k ? r.range(1, maxd): r.chance(1, 3) ? r.range(0, maxd / 2): 0; } if (deg(v)) cand.push_back(v); }
  if (many) { V e(n, 0); int D=n == 3 ? 30: 13; std::function<void(int, int)> all=[&](int v, int left) { if (v == n - 1) { e[v] = left; if (r.chance(9, 10)) cand.push_back(e); return; } for (int k=0; k <= left; k++) { e[v] = k; all(v + 1, left - k); } }; all(0, D); std::shuffle(cand.begin(), cand.end(), std::mt19937((unsigned)r.next())); }
  std::sort(cand.begin(), cand.end(), [](const V& a, const V& b) { return deg(a) < deg(b); });
  auto level=[&](int d) { VV L; for (auto& e: U) if (e.level == d) L.push_back(e.m); return L; };
  auto find=[&](const V& m) -> int { // the definition: lowest degree first, Janet division inside a tree, extra marks across trees
    int top=0; for (auto& e: U) top = std::max(top, e.level);
    for (int d=0; d <= top; d++) {
      VV L=level(d); if (L.empty()) continue;
      int k=janetDivisor(L, m); if (k < 0) continue;
      for (size_t i=0; i < U.size(); i++) if (U[i].level == d && U[i].m == L[k]) { bool ok=true; for (int v=0; v < n && ok; v++) ok = !(m[v] > U[i].m[v] && nmd[i].count(v)); if (ok) return i; }
    }
    return -1;
  };
  for (auto& v: cand) {
    Mono m(v); int e=find(v); const Wrap* g=f.find(m);
    vh::okf(g == (e < 0 ? nullptr: w[e].get()), "forest-find", [&] { std::string s; for (auto& u: U) s += ref::str(ref::Mon(-1, u.m)); return s + " find " + ref::str(ref::Mon(-1, v)) + " gave " + (g ? vh::str(*g): "none"); });
    // only elements outside the ideal of the lower ones are basis elements
    bool in=false; for (auto& u: U) in = in || divides(u.m, v);
    if (in) continue;
    std::unique_ptr<Wrap> x(new Wrap((const Monom&)m)); f.insert(x.get());
    std::set<int> s;
    for (auto& u: U) if (u.level < deg(v)) for (int q=0; q < n; q++) { bool pre=true; for (int i=0; i < q && pre; i++) pre = u.m[i] <= v[i]; if (pre && u.m[q] > v[q]) s.insert(q); }
    w.push_back(std::move(x)); U.push_back({v, deg(v)}); nmd.push_back(s);
    vh::ok(f.size() == (int)U.size(), "forest-size");
    if (many) { if (U.size() > 300) break; if (U.size() % 135) continue; vh::count("forests_of_hundreds"); }
    for (size_t i=0; i < U.size(); i++) {
      VV L=level(U[i].level);
      for (int q=0; q < n; q++) {
        vh::okf(w[i]->NM(q) == nonmult(L, U[i].m, q), "forest-non-multiplicative", [&] { return vh::str(*w[i]); });
        vh::okf(w[i]->NMd(q) == (nmd[i].count(q) > 0), "forest-degree-mark", [&] { std::string t; for (auto& u: U) t += ref::str(ref::Mon(-1, u.m)); return t + " element " + vh::str(*w[i]) + " variable " + vh::str(q); });
      }
      Mono m2(U[i].m); vh::ok(f.find(m2) == w[i].get(), "forest-own-divisor");
    }
    VV all; for (auto& u: U) all.push_back(u.m);
    for (int q=0; q < 6; q++) {
      V y=probe(r, all, n, maxd); Mono my(y); int ex=find(y); const Wrap* h=f.find(my);
      vh::ok(h == (ex < 0 ? nullptr: w[ex].get()), "forest-find", show(all) + " find " + ref::str(ref::Mon(-1, y)));
      if (h) vh::ok(divides(conv::mon(h->lm()).e, y), "forest-not-a-divisor");
      // the elements claim disjoint parts of the monomials
      int claims=0;
      for (size_t i=0; i < U.size(); i++) { bool ok=divides(U[i].m, y); VV L=level(U[i].level); for (int v=0; v < n && ok; v++) if (y[v] > U[i].m[v] && (nmd[i].count(v) || nonmult(L, U[i].m, v))) ok = false; claims += ok; }
      vh::ok(claims <= 1, "forest-claims-overlap", show(all)); vh::count("forest_lookups");
    }
    vh::seen(show(all));
  }
}

int main(int c, char** v) {
  return vh::main_(c, v, {{"tree", tree, 5, 16, true}, {"mjanet", mjanet, 2, 12, true}, {"mcompletion", mcompletion, 3, 12, true}, {"forest", forest, 3, 24, true}});
}
