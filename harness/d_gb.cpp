// Monitors of Janet/Groebner basis construction for ideals and submodules, normal forms
// and Hilbert polynomials, against an independent Buchberger implementation.
#include "vh.hpp"
#include "util/allocator.h"
#include "ginv/poly_int.h"
#include "conv.hpp"
#include "gb.hpp"
#include <memory>
#include <time.h>
using namespace GInv;
using vh::Rng;
typedef std::vector<ref::Pol> PV;

static const char* algName[]={"default", "TQ", "TQ1", "TQ2"};
static void run(JanetPolyInt& J, int alg) {
  switch (alg) { case 0: J.build(); break; case 1: J.algorithmTQ(); break; case 2: J.algorithmTQ1(); break; default: J.algorithmTQ2(); }
}
static void push(JanetPolyInt& J, int ord, int n, const ref::Pol& p) { Allocator al; PolyInt q(&al, ord, n); conv::build(q, p); J.push(q); }
static bool unit(const PV& g) { return g.size() == 1 && g[0].lm().deg() == 0 && g[0].lm().pos == -1; }
static std::string show(const PV& f) { std::string s; for (auto& p: f) s += ref::str(p) + "\n"; return s; }

// number of elements of the Janet completion of the leading monomials; a guard on the work
static long janetSize(const PV& g, long limit) {
  std::map<int, std::set<std::vector<int>>> by; for (auto& p: g) by[p.lm().pos].insert(p.lm().e);
  long total=0;
  for (auto& c: by) {
    auto& U=c.second; bool again=true;
    while (again) {
      again = false;
      std::vector<std::vector<int>> V(U.begin(), U.end()); int n=V[0].size();
      auto nm=[&](const std::vector<int>& u, int v) { for (auto& w: V) { bool s=true; for (int i=0; i < v && s; i++) s = w[i] == u[i]; if (s && w[v] > u[v]) return true; } return false; };
      std::vector<std::vector<bool>> M; for (auto& u: V) { std::vector<bool> b; for (int v=0; v < n; v++) b.push_back(nm(u, v)); M.push_back(b); }
      for (size_t k=0; k < V.size(); k++) for (int v=0; v < n; v++) if (M[k][v]) {
        std::vector<int> p(V[k]); p[v]++; bool f=false;
        for (size_t i=0; i < V.size() && !f; i++) { bool d=true; for (int q=0; q < n && d; q++) d = V[i][q] <= p[q] && (V[i][q] == p[q] || !M[i][q]); f = d; }
        if (!f) { U.insert(p); again = true; }
      }
      if ((long)U.size() > limit) return limit + 1;
    }
    total += U.size();
  }
  return total;
}
// the reference reduced basis, or Skip when the system is too large to be a routine case
static PV oracle(const PV& f, long steps=6000, long janet=60, int maxdeg=30) {
  PV g;
  try { ref::Budget b(steps); g = ref::buchberger(f, b); } catch (ref::TooBig&) { throw vh::Skip{"oracle-budget"}; }
  for (auto& p: g) {
    if (ref::bits(p) > 200) throw vh::Skip{"large-coefficients"};
    for (auto& x: p.t) if (x.first.deg() > (janet <= 60 && (p.ord() & ref::LEX) ? 12: maxdeg)) throw vh::Skip{"large-degree"};
  }
  if (!g.empty() && janetSize(g, janet) > janet) throw vh::Skip{"large-janet-basis"};
  return g;
}

static PV elements(const JanetPolyInt& J) {
  PV o; for (GCListWrapPolyInt::ConstIterator i=J.begin(); i; ++i) { conv::canonical(i.data()->poly(), "basis element"); o.push_back(conv::pol(i.data()->poly())); }
  return o;
}
static bool elementIsOne(const PolyInt& p, int n) { return p.size() == n && p.length() == 1 && p.degree() == 0 && p.lm().pos() == -1 && p.lm().size() == n && p.lc().isAbsOne(); }
static void checkBasis(const JanetPolyInt& J, const PV& g, const char* what) {
  if (unit(g)) {
    vh::okf(J.isOne(), "missed-unit-ideal", [&] { return std::string(what) + " basis " + show(elements(J)); });
    vh::ok(J.size() == 1, "unit-size"); vh::count("unit_ideals");
    // every monomial has the constant for its divisor
    int n=g[0].lm().e.size(), pos=-1; std::vector<int> e(n, 0);
    for (int k=0; k < 3; k++) { conv::MonomBox b(ref::Mon(pos, e)); const WrapPolyInt* w=J.find(*b.m); vh::ok(w != nullptr, "unit-find", what); conv::canonical(w->poly(), "unit"); vh::okf(elementIsOne(w->poly(), n), "unit-element", [&] { return vh::str(w->poly()); }); e[k % n] += 3 * k + 1; }
    return;
  }
  vh::ok(!J.isOne(), "wrongly-the-whole-ring", what);
  PV o=elements(J); vh::ok(J.size() == (int)o.size(), "size", what);
  PV og=ref::reduced(o);
  bool same=og.size() == g.size(); for (size_t i=0; same && i < g.size(); i++) same = og[i] == g[i];
  vh::okf(same, "not-the-groebner-basis", [&] { return std::string(what) + "\nleading monomials " + [&] { std::string s; for (auto& p: og) s += ref::str(p.lm()); s += " expected "; for (auto& p: g) s += ref::str(p.lm()); return s; }() + "\n" + show(og).substr(0, 700) + "expected\n" + show(g).substr(0, 700); });
  vh::count("basis_elements", o.size()); { int hi=0; for (auto& p: o) hi = std::max(hi, p.lm().deg()); if (hi > 12) vh::count("bases_with_degree_above_12"); if (hi > 20) vh::count("bases_with_degree_above_20"); } if (o.size() >= 10) vh::count("bases_of_10_or_more"); if (o.size() >= 20) vh::count("bases_of_20_or_more");
}
static mpq_class hpAt(const HilbertPoly& h, long s) { mpq_class v=0; for (int k=h.dim(); k >= 0; k--) v = v * s + mpq_class(std::string(h[k])); return v; }

// ---- generators of systems
struct Sys { int ord, n; PV f; int pos0, pos1; };
// many variables or many generators, but simple ones: linear systems, monomials, binomials,
// generators in two or three of the variables each, a variable raised to a high power
static Sys sparse(Rng& r, Sys s) {
  int style=r.range(0, 4); s.n = style < 2 && r.chance(1, 4) ? r.range(10, 18): r.range(4, 9); int k=style == 0 ? r.range(2, 10): r.range(2, 5);
  for (int i=0; i < k; i++) {
    ref::Pol p(s.ord);
    auto mon=[&](int d) { std::vector<int> e(s.n, 0); for (int q=0; q < d; q++) e[r.range(0, s.n - 1)]++; return ref::Mon(-1, e); };
    auto c=[&] { return mpq_class(r.chance(1, 2) ? (long)r.range(1, 9): -(long)r.range(1, 9)); };
    if (style == 0) { int t=r.range(1, 5); for (int q=0; q < t; q++) p.addTerm(mon(1), c()); if (r.chance(1, 6)) p.addTerm(mon(0), c()); }
    else if (style == 1) p.addTerm(mon(r.range(1, 3)), c());
    else if (style == 2) { p.addTerm(mon(r.range(1, 2)), c()); p.addTerm(mon(r.range(0, 2)), c()); }
    else if (style == 3) { int a=r.range(0, s.n - 1), b=r.range(0, s.n - 1); for (int q=0; q < 3; q++) { std::vector<int> e(s.n, 0); int d=r.range(0, 2); for (int z=0; z < d; z++) e[r.chance(1, 2) ? a: b]++; p.addTerm(ref::Mon(-1, e), c()); } }
    else { std::vector<int> e(s.n, 0); e[r.range(0, s.n - 1)] = r.range(1, i == 0 ? 9: 2); p.addTerm(ref::Mon(-1, e), c()); p.addTerm(mon(r.range(0, 1)), c()); }
    if (!p.zero()) s.f.push_back(p);
  }
  return s;
}
static Sys ideal(Rng& r, int size) {
  Sys s; s.pos0 = s.pos1 = -1; bool lex=r.chance(1, 2);
  s.ord = (r.chance(1, 2) ? ref::TOP: ref::POT) | (lex ? ref::LEX: ref::DEGLEX);
  int kind=r.range(0, 22);
  if (kind == 0) { s.n = 3; s.f = gen::cyclic(s.ord, 3); return s; }
  if (kind == 1) { s.n = 3; s.f = gen::katsura(s.ord, 2); return s; }
  if (kind == 2 && !lex) { s.n = 4; s.f = gen::cyclic(s.ord, 4); return s; }
  if (kind == 3 && !lex) { s.n = 4; s.f = gen::katsura(s.ord, 3); return s; }
  if (kind == 12) return sparse(r, s);
  if (kind >= 20) { // two or three variables in high powers
    s.n = lex || r.chance(2, 3) ? 2: 3; int k=r.range(2, 3), d=lex ? r.range(3, 5): r.range(4, s.n == 2 ? 12: 7);
    for (int i=0; i < k; i++) { ref::Pol p(s.ord); int t=r.range(1, 3);
      for (int q=0; q < t; q++) { std::vector<int> e(s.n, 0); for (int v=0; v < s.n; v++) e[v] = r.chance(1, 3) ? 0: r.range(0, d / (q + 1)); if (e == std::vector<int>(s.n, 0)) e[r.range(0, s.n - 1)] = r.range(1, d); p.addTerm(ref::Mon(-1, e), r.chance(1, 2) ? 1: -1); }
      if (!p.zero()) s.f.push_back(p); }
    return s;
  }
  if (kind >= 18 || (kind >= 14 && size < 3)) { // differences of monomials: large bases with small coefficients
    s.n = r.range(2, 4); int k=r.range(2, 4), deg=r.range(2, 5);
    for (int i=0; i < k; i++) { ref::Pol p(s.ord); for (int q=0; q < 2; q++) { ref::Mon m=gen::rmon(r, s.n, deg, -1); if (m.deg() == 0) m.e[r.range(0, s.n - 1)]++; p.addTerm(m, q ? -1: 1); } if (!p.zero()) s.f.push_back(p); }
    return s;
  }
  s.n = lex ? r.range(1, 3): r.range(1, 4);
  int k=r.range(1, lex ? 3: 4), deg=r.range(1, size < 4 ? 2: 3), terms=r.range(1, 4);
  if (kind >= 14 && size >= 3) { s.n = r.range(2, lex ? 3: 4); k = r.range(2, 3); deg = r.range(2, s.n > 2 ? 3: 4); terms = r.range(2, 5); } // larger bases
  if (lex && s.n == 3) { deg = std::min(deg, 2); terms = std::min(terms, 4); } // coefficients explode otherwise
  for (int i=0; i < k; i++) {
    ref::Pol p=gen::rpol(r, s.ord, s.n, deg, r.chance(1, 5) ? 1: r.chance(1, 4) ? 2: terms, r.chance(1, 8) ? 1000000: 5);
    if (kind == 4) { // homogeneous
      ref::Pol q(s.ord); for (auto& x: p.t) if (x.first.deg() == p.t.rbegin()->first.deg()) q.addTerm(x.first, x.second); p = q; }
    if (!p.zero()) s.f.push_back(p);
  }
  if (kind >= 13) // no constant terms: never the whole ring
    for (auto& p: s.f) { ref::Mon one(-1, std::vector<int>(s.n, 0)); p.t.erase(one); }
  if (kind >= 13) { PV f; for (auto& p: s.f) if (!p.zero()) f.push_back(p); s.f = f; }
  if (kind == 5 && s.f.size()) s.f.push_back(s.f[0]);
  if (kind == 6 && s.f.size()) s.f.push_back(ref::scale(s.f[0], -3));
  if (kind == 7 && s.f.size() > 1) s.f.push_back(ref::add(s.f[0], s.f[1], 2));
  if (kind == 8) s.f.push_back(ref::Pol(s.ord));
  if (kind == 9 && s.f.size()) { ref::Pol l=gen::rpol(r, s.ord, s.n, 1, 2, 3); for (auto& p: s.f) if (p.t.size() < 4) p = ref::mul(p, l); } // a common factor
  if (kind == 10) { ref::Pol c(s.ord); c.addTerm(ref::Mon(-1, std::vector<int>(s.n, 0)), mpq_class(r.range(2, 9))); s.f.insert(s.f.begin() + r.range(0, s.f.size()), c); }
  if (kind == 11) { // vanishing on random points: radical, zero-dimensional
    s.n = 2; s.f.clear(); std::vector<std::pair<int, int>> pt; int m=r.range(1, 4); for (int i=0; i < m; i++) pt.push_back({(int)r.range(-3, 3), (int)r.range(-3, 3)});
    ref::Pol X(s.ord), Y(s.ord); X.addTerm(ref::Mon(-1, {0, 0}), 1); Y = X;
    for (auto& q: pt) { ref::Pol a(s.ord), b(s.ord); a.addTerm(ref::Mon(-1, {1, 0}), 1); a.addTerm(ref::Mon(-1, {0, 0}), -q.first); b.addTerm(ref::Mon(-1, {0, 1}), 1); b.addTerm(ref::Mon(-1, {0, 0}), -q.second); X = ref::mul(X, a); Y = ref::mul(Y, b); }
    s.f.push_back(X); s.f.push_back(Y);
    ref::Pol z=gen::rpol(r, s.ord, 2, 2, 3, 4); if (!z.zero()) s.f.push_back(ref::mul(z, z)); }
  return s;
}
static Sys module0(Rng& r, int size) {
  Sys s; s.pos0 = 0; s.pos1 = r.range(0, 3);
  s.ord = (r.chance(1, 2) ? ref::TOP: ref::POT) | (r.chance(1, 2) ? ref::LEX: ref::DEGLEX); s.n = r.range(1, 3);
  if (s.pos1 > 0 && r.chance(1, 5)) { // the syzygies of polynomials: e_c*p_i - e_i
    int c=r.range(0, s.pos1), d=r.range(1, 2);
    for (int i=0; i <= s.pos1; i++) if (i != c) { ref::Pol p=gen::rpol(r, s.ord, s.n, d, 3, 3), q(s.ord); for (auto& x: p.t) q.addTerm(ref::Mon(c, x.first.e), x.second); q.addTerm(ref::Mon(i, std::vector<int>(s.n, 0)), r.chance(1, 2) ? 1: -1); s.f.push_back(q); }
    return s;
  }
  bool tame=s.n == 3 && (s.ord & ref::LEX); // coefficients explode otherwise
  int k=r.range(1, tame ? 3: 4), deg=r.range(0, 2), terms=r.range(1, tame ? 3: 4);
  if (r.chance(1, 4)) { k = r.range(3, 5); deg = r.range(2, 4); terms = 2; s.n = r.range(2, 3); if (s.n == 3 && (s.ord & ref::LEX)) deg = 2; } // larger bases
  for (int i=0; i < k; i++) { ref::Pol p=gen::rpol(r, s.ord, s.n, deg, terms, 5, 0, s.pos1); if (!p.zero()) s.f.push_back(p); }
  if (r.chance(1, 10) && s.f.size()) s.f.push_back(s.f[0]);
  if (r.chance(1, 6) && s.pos1 > 0) { // an ideal copied into every component
    s.f.clear(); int m=r.range(1, 2); for (int i=0; i < m; i++) { ref::Pol p=gen::rpol(r, s.ord, s.n, 2, 3, 4); for (int c=0; c <= s.pos1; c++) { ref::Pol q(s.ord); for (auto& x: p.t) q.addTerm(ref::Mon(c, x.first.e), x.second); if (!q.zero()) s.f.push_back(q); } } }
  return s;
}
static Sys module(Rng& r, int size) {
  Sys s=module0(r, size);
  if (r.chance(1, 8)) { // components that are far apart
    std::vector<int> to; int at=r.range(0, 3); for (int i=0; i <= s.pos1; i++) { to.push_back(at); at += r.range(1, r.chance(1, 3) ? r.chance(1, 5) ? 150: 20: 3); }
    for (auto& p: s.f) { ref::Pol q(s.ord); for (auto& x: p.t) q.addTerm(ref::Mon(to[x.first.pos], x.first.e), x.second); p = q; }
    s.pos1 = to.back();
  }
  if (r.chance(1, 8)) { // variables that do not occur
    int n=s.n + r.range(1, 4); std::vector<int> to; for (int i=0; i < n; i++) to.push_back(i); std::shuffle(to.begin(), to.end(), std::mt19937((unsigned)r.next())); std::sort(to.begin(), to.begin() + s.n);
    for (auto& p: s.f) { ref::Pol q(s.ord); for (auto& x: p.t) { std::vector<int> e(n, 0); for (int i=0; i < s.n; i++) e[to[i]] = x.first.e[i]; q.addTerm(ref::Mon(x.first.pos, e), x.second); } p = q; }
    s.n = n;
  }
  return s;
}
static void nonempty(const Sys& s) { bool any=false; for (auto& p: s.f) any = any || !p.zero(); if (!any) throw vh::Skip{"empty-system"}; }
static void describe(const Sys& s, int alg=-1) { vh::desc("order " + vh::str(s.ord) + (alg >= 0 ? std::string(" algorithm ") + algName[alg]: "") + "\n" + show(s.f)); }

// ---- B: the basis of the right ideal / module, by every algorithm
static void basis(Rng& r, const Sys& s, int alg) {
  describe(s, alg); nonempty(s);
  PV g=oracle(s.f);
  JanetPolyInt J; for (auto& p: s.f) push(J, s.ord, s.n, p);
  run(J, alg);
  checkBasis(J, g, algName[alg]);
  if (!J.isOne()) {
    // each input reduces to zero, so does every combination of inputs
    for (auto& p: s.f) { Allocator al; PolyInt q(&al, s.ord, s.n); conv::build(q, p); J.nf(q); vh::ok(q.isZero(), "input-not-reduced-to-zero", algName[alg]); }
    vh::seen(vh::str(s.ord) + algName[alg] + show(g).substr(0, 260));
  }
  vh::count((std::string("systems_") + algName[alg]).c_str());
}
static void ideals(Rng& r, int size) { Sys s=ideal(r, size); basis(r, s, r.range(0, 3)); }
static void modules(Rng& r, int size) { Sys s=module(r, size); basis(r, s, r.range(0, 3)); }
// the classical benchmarks
static void classics(Rng& r, int size) {
  Sys s; s.pos0 = s.pos1 = -1; int k=r.range(0, 5);
  s.ord = ref::TOP | (k < 4 ? ref::DEGLEX: ref::LEX);
  switch (k) {
    case 0: s.n = 4; s.f = gen::cyclic(s.ord, 4); break;
    case 1: s.n = 4; s.f = gen::katsura(s.ord, 3); break;
    case 2: s.n = 5; s.f = gen::katsura(s.ord, 4); break;
    case 3: s.n = 3; s.f = gen::parse(s.ord, 3, {{{1, {2, 1}}, {-1, {0, 0, 2}}}, {{1, {0, 2, 1}}, {-1, {2}}}, {{1, {1, 0, 2}}, {-1, {0, 2}}}}); break;
    case 4: s.n = 3; s.f = gen::katsura(s.ord, 2); break;
    default: s.n = 3; s.f = gen::cyclic(s.ord, 3); break;
  }
  std::shuffle(s.f.begin(), s.f.end(), std::mt19937((unsigned)r.next()));
  int alg=r.range(0, 3); describe(s, alg);
  PV g=oracle(s.f, 4000000, 400, 40);
  JanetPolyInt J; for (auto& p: s.f) push(J, s.ord, s.n, p);
  run(J, alg); checkBasis(J, g, algName[alg]); vh::seen(vh::str(k) + algName[alg]); vh::count("classical_systems");
}

// ---- normal forms
static void nform(Rng& r, int size) {
  Sys s=r.chance(1, 3) ? module(r, size): ideal(r, size); int alg=r.range(0, 3); describe(s, alg); nonempty(s);
  PV g=oracle(s.f);
  JanetPolyInt J; for (auto& p: s.f) push(J, s.ord, s.n, p);
  run(J, alg);
  if (J.isOne()) { // everything is zero modulo the whole ring
    Allocator al; ref::Pol p=gen::rpol(r, s.ord, s.n, 3, 4, 9); PolyInt q(&al, s.ord, s.n); conv::build(q, p); J.nf(q); vh::ok(q.isZero(), "nf-modulo-unit"); vh::count("unit_ideals"); return; }
  for (int k=0; k < 6; k++) {
    ref::Pol p=gen::rpol(r, s.ord, s.n, s.ord & ref::LEX ? 3: 4, r.range(0, 6), 50, s.pos0, s.pos1);
    int kind=r.range(0, 3);
    ref::Pol in(s.ord); // a member of the ideal
    for (int i=0; i < 2; i++) { const ref::Pol& x=s.f[r.range(0, s.f.size() - 1)]; ref::Pol m=gen::rpol(r, s.ord, s.n, 2, 2, 5); in = ref::add(in, ref::mul(m, x)); }
    if (kind == 0) p = in; else if (kind == 1) p = ref::add(p, in);
    ref::Pol e(s.ord);
    try { ref::Budget b(1500); e = ref::nf(p, g, &b); } catch (ref::TooBig&) { vh::count("skip:nf-budget"); continue; }
    Allocator al; PolyInt q(&al, s.ord, s.n); conv::build(q, p); vh::desc("nf of " + ref::str(p) + "\n");
    J.nf(q); conv::canonical(q, "nf");
    ref::Pol got=conv::pol(q);
    vh::okf(got.zero() == e.zero(), "membership", [&] { return ref::str(p) + " -> " + ref::str(got) + " expected " + ref::str(e); });
    if (!e.zero()) {
      vh::okf(ref::monic(got) == ref::monic(e), "normal-form", [&] { return ref::str(p) + " -> " + ref::str(got) + " expected multiple of " + ref::str(e); });
      vh::ok(q.isPp(), "nf-not-primitive", ref::str(got));
      for (auto& x: got.t) for (auto& y: g) vh::ok(!ref::divides(y.lm(), x.first), "nf-reducible");
      PolyInt t(&al, q); J.nf(t); vh::ok(conv::pol(t) == got || ref::monic(conv::pol(t)) == ref::monic(got), "nf-not-idempotent");
      vh::seen(ref::str(got).substr(0, 250));
    }
    else vh::count("members");
    // congruent polynomials have the same normal form up to a factor
    PolyInt u(&al, s.ord, s.n); conv::build(u, ref::add(ref::scale(p, 3), in, 5)); J.nf(u);
    vh::ok(u.isZero() == e.zero() && (e.zero() || ref::monic(conv::pol(u)) == ref::monic(e)), "nf-not-a-function-of-the-class");
    vh::count("normal_forms", 2);
  }
  // the basis is not touched by reductions with it
  checkBasis(J, g, "after normal forms");
}

// ---- the shape of the result: a Janet basis
static void janet(Rng& r, int size) {
  Sys s=r.chance(1, 3) ? module(r, size): ideal(r, size); int alg=r.range(0, 3); describe(s, alg); nonempty(s);
  PV g=oracle(s.f);
  JanetPolyInt J; for (auto& p: s.f) push(J, s.ord, s.n, p);
  run(J, alg);
  if (J.isOne()) return;
  PV o=elements(J); std::vector<WrapPolyInt*> W; for (GCListWrapPolyInt::ConstIterator i=J.begin(); i; ++i) W.push_back(i.data());
  int mp=-1; for (auto& p: s.f) for (auto& x: p.t) mp = std::max(mp, x.first.pos);
  vh::ok(J.maxPos() == mp, "max-position");
  auto what=[&](const char* t, size_t i) { return std::string(algName[alg]) + " " + t + " " + ref::str(o[i]); };
  auto nm=[&](size_t i, int v) { for (size_t k=0; k < o.size(); k++) { if (o[k].lm().pos != o[i].lm().pos) continue; bool q=true; for (int z=0; z < v && q; z++) q = o[k].lm().e[z] == o[i].lm().e[z]; if (q && o[k].lm().e[v] > o[i].lm().e[v]) return true; } return false; };
  std::vector<std::vector<bool>> NM;
  for (size_t i=0; i < o.size(); i++) { NM.push_back({}); for (int v=0; v < s.n; v++) NM[i].push_back(nm(i, v)); }
  auto divisor=[&](const ref::Mon& m) -> int { for (size_t i=0; i < o.size(); i++) { if (!ref::divides(o[i].lm(), m)) continue; bool ok=true; for (int v=0; v < s.n && ok; v++) ok = m.e[v] == o[i].lm().e[v] || !NM[i][v]; if (ok) return i; } return -1; };
  std::map<int, int> perPos;
  for (size_t i=0; i < o.size(); i++) {
    perPos[o[i].lm().pos]++;
    vh::ok(conv::mon(W[i]->lm()) == o[i].lm(), "wrap-leading-monomial", what("element", i));
    if (i) vh::ok(ref::cmp(s.ord, o[i-1].lm(), o[i].lm()) < 0, "not-ascending", what("element", i));
    vh::ok(W[i]->poly().isPp(), "not-primitive", what("element", i));
    bool first=true; for (auto& x: o[i].t) { if (!first) vh::ok(divisor(x.first) < 0, "tail-not-reduced", what("element", i)); first = false; }
    for (int v=0; v < s.n; v++) {
      vh::ok(W[i]->NM(v) == NM[i][v], "non-multiplicative-mark", what("element", i));
      ref::Mon p(o[i].lm()); p.e[v]++; int d=divisor(p);
      vh::okf(d >= 0, "not-involutive", [&] { return what("element", i) + " variable " + vh::str(v); });
      conv::MonomBox b(p); vh::ok(J.find(*b.m) == W[d], "find-prolongation", what("element", i)); vh::count("prolongations");
    }
  }
  for (int p=s.pos0; p <= mp; p++) vh::ok(J.janet(p).size() == perPos[p], "tree-size");
  for (int k=0; k < 20; k++) {
    ref::Mon m=gen::rmon(r, s.n, 5, r.range(s.pos0, s.pos1)); int d=divisor(m); conv::MonomBox b(m);
    bool in=false; for (auto& p: g) in = in || ref::divides(p.lm(), m);
    vh::ok(in == (d >= 0), "involutive-cones-do-not-cover", ref::str(m));
    WrapPolyInt* w=J.find(*b.m); vh::ok(w == (d < 0 ? nullptr: W[d]), "find", ref::str(m)); vh::count("lookups");
  }
  // a component that no input uses
  { ref::Mon m(mp + 1 + r.range(0, 2), std::vector<int>(s.n, 3)); if (m.pos >= 0) { conv::MonomBox b(m); vh::ok(J.find(*b.m) == nullptr, "find-beyond-components"); } }
  std::string k; for (auto& p: o) k += ref::str(p.lm()); vh::seen(vh::str(s.ord) + k);
}

// ---- Hilbert polynomial
static void hilbert(Rng& r, int size) {
  Sys s=r.chance(1, 3) ? module(r, size): ideal(r, size); int alg=r.range(0, 3); describe(s, alg); nonempty(s);
  PV g=oracle(s.f);
  JanetPolyInt J; for (auto& p: s.f) push(J, s.ord, s.n, p);
  run(J, alg);
  if (J.isOne()) return;
  HilbertPoly h; J.buildHP(h); vh::ok(h.dim() == s.n, "hp-dimension");
  std::vector<ref::Mon> lm; int mx=0; for (auto& p: g) lm.push_back(p.lm());
  for (auto& p: elements(J)) mx = std::max(mx, p.lm().deg());
  if (mx > 14) throw vh::Skip{"degree"};
  for (int t=mx; t <= mx + 2; t++) {
    mpq_class c=0; for (int p=s.pos0; p <= J.maxPos(); p++) c += ref::standard(lm, s.n, p, t);
    vh::okf(hpAt(h, t) == c, "hp-value", [&] { return vh::str(h) + " at " + vh::str(t) + " is " + hpAt(h, t).get_str() + " counted " + c.get_str(); });
    vh::count("hp_values");
  }
  // per component as the trees report it
  for (int p=s.pos0; p <= J.maxPos(); p++) if (J.janet(p).size()) {
    HilbertPoly q; J.janet(p).buildHP(q);
    for (int t=mx; t <= mx + 1; t++) { long c=ref::standard(lm, s.n, p, t); vh::okf(hpAt(q, t) == c, "hp-component", [&] { return "component " + vh::str(p) + ": " + vh::str(q) + " at " + vh::str(t) + " counted " + vh::str(c); }); }
  }
  vh::seen(vh::str(h)); vh::count("hilbert_polynomials");
}

// ---- independence of the way the input is presented
static std::string exact(const JanetPolyInt& J) { std::ostringstream o; if (J.isOne()) o << "one"; for (GCListWrapPolyInt::ConstIterator i=J.begin(); i; ++i) o << i.data()->poly() << *i.data() << "\n"; return o.str(); }
static std::string counted(const JanetPolyInt& J) { std::ostringstream o; o << J.reduction() << " " << J.maxEqualLm() << " " << J.critI() << " " << J.critII() << " " << J.isZeroNf(); return o.str(); }
static void orderind(Rng& r, int size) {
  Sys s=r.chance(1, 3) ? module(r, size): ideal(r, size); describe(s); nonempty(s);
  PV g=oracle(s.f, 4000, 30);
  for (int k=0; k < 3; k++) {
    PV f(s.f); int alg=r.range(0, 3), kind=r.range(0, 3);
    std::shuffle(f.begin(), f.end(), std::mt19937((unsigned)r.next()));
    if (kind == 1) for (auto& p: f) { long c=r.range(1, 12); p = ref::scale(p, mpq_class(r.chance(1, 2) ? c: -c)); }
    if (kind == 2 && f.size() > 1) { size_t i=r.range(0, f.size() - 1), j=(i + 1) % f.size(); f[i] = ref::add(f[i], f[j], r.range(1, 3)); }
    if (kind == 3) f.push_back(f[r.range(0, f.size() - 1)]);
    vh::desc("variant " + vh::str(kind) + " " + algName[alg] + "\n" + show(f));
    JanetPolyInt J;
    bool inc=r.chance(1, 2); // build between the inputs: an extended basis is the basis of everything pushed
    for (size_t i=0; i < f.size(); i++) {
      push(J, s.ord, s.n, f[i]);
      if (inc && r.chance(1, 2)) {
        PV pre; for (size_t q=0; q <= i; q++) if (!f[q].zero()) pre.push_back(f[q]);
        PV gp=oracle(pre, 4000, 30);
        run(J, r.chance(1, 3) ? r.range(0, 3): alg); vh::count("incremental_builds");
        if (gp.empty()) vh::ok(J.size() == 0, "empty-prefix"); else checkBasis(J, gp, "prefix of the input");
      }
    }
    run(J, alg);
    checkBasis(J, g, algName[alg]);
    if (!inc) { JanetPolyInt K; for (auto& p: f) push(K, s.ord, s.n, p); run(K, alg); vh::ok(exact(J) == exact(K) && counted(J) == counted(K), "not-deterministic", counted(J) + " and " + counted(K)); vh::count("repeated_runs"); }
    run(J, alg); checkBasis(J, g, "built twice");
    vh::count("presentations");
  }
  vh::seen(vh::str(s.ord) + show(g).substr(0, 260));
}
static void empty(Rng& r, int size) {
  int alg=r.range(0, 3); vh::desc(algName[alg]);
  JanetPolyInt J;
  Allocator al; int ord=ref::TOP|ref::DEGLEX;
  if (r.chance(1, 2)) { PolyInt z(&al, ord, 2); J.push(z); }
  run(J, alg);
  vh::ok(!J.isOne() && J.size() == 0 && !J.begin(), "empty-input");
  PolyInt p(&al, ord, 2); ref::Pol m=gen::rpol(r, ord, 2, 3, 4, 1); conv::build(p, m); ref::Pol k=conv::pol(p);
  J.nf(p); vh::ok(k.zero() ? p.isZero(): ref::monic(conv::pol(p)) == ref::monic(k), "nf-modulo-zero"); vh::count("empty_inputs");
  // and a first real input afterwards
  ref::Pol f=gen::rpol(r, ord, 2, 2, 3, 5); if (f.zero() || f.lm().deg() == 0) return;
  push(J, ord, 2, f); run(J, alg); checkBasis(J, oracle(PV{f}), "after an empty build");
  vh::seen(ref::str(f));
}

// ---- B07: the counters and the timer of a construction
struct Counts { long red, eq, c1, c2, zero; };
static Counts counts(const JanetPolyInt& J) { return {J.reduction(), J.maxEqualLm(), J.critI(), J.critII(), J.isZeroNf()}; }
static std::string str(const Counts& c) { return "reductions " + vh::str(c.red) + " maxEqualLm " + vh::str(c.eq) + " critI " + vh::str(c.c1) + " critII " + vh::str(c.c2) + " zeros " + vh::str(c.zero); }
static double cpu() { struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double wall() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static void timedRun(JanetPolyInt& J, int alg) {
  if (J.isOne()) { // nothing is constructed any more
    double u=J.timer().userTime(), y=J.timer().sysTime(), x=J.timer().realTime(); run(J, alg);
    vh::ok(J.timer().userTime() == u && J.timer().sysTime() == y && J.timer().realTime() == x, "timer-without-construction"); return; }
  double w0=wall(), c0=cpu(); run(J, alg); double c1=cpu(), w1=wall();
  const Timer& t=J.timer(); double c=t.userTime() + t.sysTime();
  // the clock of times() advances in hundredths of a second
  vh::okf(t.userTime() >= 0 && t.sysTime() >= 0 && t.realTime() >= 0 && t.realTime() <= w1 - w0 + .021 && c <= c1 - c0 + .041 && t.realTime() >= c - .041 && c >= c1 - c0 - .06, "timer",
    [&] { return "real " + vh::str(t.realTime()) + " of " + vh::str(w1 - w0) + ", user " + vh::str(t.userTime()) + " sys " + vh::str(t.sysTime()) + " of " + vh::str(c1 - c0); });
  if (c1 - c0 > .1) vh::count("long_builds");
}
static void tally(const JanetPolyInt& J, const PV& f, const Sys& s, int alg) {
  Counts c=counts(J); long in=0; for (auto& p: f) in += !p.zero();
  vh::ok(c.red >= 0 && c.eq >= 0 && c.c1 >= 0 && c.c2 >= 0 && c.zero >= 0, "negative-counter", str(c));
  if (J.isOne()) return;
  // every generator and every prolongation ends as an element, as a zero or at a criterion
  long b=0, nm=0; for (GCListWrapPolyInt::ConstIterator i=J.begin(); i; ++i) for (int v=0; v < s.n; v++) { b += i.data()->build(v); nm += i.data()->NM(v); vh::ok(!i.data()->NM(v) || i.data()->build(v), "prolongation-left-out"); }
  vh::okf(in + b == c.c1 + c.c2 + c.zero + J.size(), "counters-do-not-add-up",
    [&] { return std::string(alg < 0 ? "mixed": algName[alg]) + ": generators " + vh::str(in) + " prolongations " + vh::str(b) + " elements " + vh::str(J.size()) + " " + str(c); });
  if (nm == 0 && b == 0) vh::ok(c.c1 == 0 && c.c2 == 0, "criterion-without-prolongation", str(c));
  bool comp=false; for (auto& p: f) comp = comp || (!p.zero() && p.lm().pos >= 0);
  if (comp) vh::ok(c.c1 == 0, "product-criterion-in-a-module", str(c)); // it holds for ideals only
  // product criterion: two leading monomials of the ideal with disjoint variables divide a prolongation; chain criterion: their lcm divides it properly
  int lo=1 << 30, hi=0; for (GCListWrapPolyInt::ConstIterator i=J.begin(); i; ++i) { int d=i.data()->lm().degree(); lo = std::min(lo, d); hi = std::max(hi, d); }
  if (b && 2 * lo > hi + 1) { vh::okf(c.c1 == 0, "product-criterion-by-degree", [&] { return "leading monomials of degree " + vh::str(lo) + " to " + vh::str(hi) + ", " + str(c); }); vh::count("without_product_criterion"); }
  if (b && lo == hi) { vh::okf(c.c2 == 0, "chain-criterion-by-degree", [&] { return "leading monomials of degree " + vh::str(lo) + ", " + str(c); }); vh::count("without_chain_criterion"); }
  vh::count("criteria", c.c1 + c.c2); vh::count("zeros", c.zero); vh::count("prolongations", b);
}
static void counters(Rng& r, int size) {
  Sys s=r.chance(1, 3) ? module(r, size): ideal(r, size); int alg=r.range(0, 3); describe(s, alg); nonempty(s);
  PV g=oracle(s.f);
  JanetPolyInt J; Counts z=counts(J); vh::ok(!z.red && !z.eq && !z.c1 && !z.c2 && !z.zero, "fresh-counters", str(z));
  vh::ok(J.timer().userTime() == 0 && J.timer().realTime() == 0, "fresh-timer");
  bool inc=r.chance(1, 3);
  PV sofar;
  for (size_t i=0; i < s.f.size(); i++) {
    push(J, s.ord, s.n, s.f[i]); if (!s.f[i].zero()) sofar.push_back(s.f[i]);
    if (inc && i + 1 < s.f.size() && r.chance(1, 2)) { oracle(sofar); timedRun(J, alg); tally(J, sofar, s, alg); vh::count("incremental_builds"); }
    Counts q=counts(J); vh::ok(q.red >= z.red && q.eq >= z.eq && q.c1 >= z.c1 && q.c2 >= z.c2 && q.zero >= z.zero, "counter-decreases", str(z) + " then " + str(q)); z = q;
  }
  timedRun(J, alg); checkBasis(J, g, algName[alg]); tally(J, s.f, s, alg);
  Counts q=counts(J); vh::ok(q.red >= z.red && q.eq >= z.eq && q.c1 >= z.c1 && q.c2 >= z.c2 && q.zero >= z.zero, "counter-decreases", str(z) + " then " + str(q));
  if (!J.isOne()) {
    PV o=elements(J);
    if (sofar.size() == 1 && J.size() == 1) vh::ok(!q.red && !q.c1 && !q.c2 && !q.zero, "work-for-one-generator", str(q));
    // without a reduction every element is a generator times a monomial
    if ((alg == 1 || alg == 3) && q.red == 0) for (auto& p: o) {
      bool any=false;
      for (auto& x: sofar) if (p.t.size() == x.t.size() && ref::divides(x.lm(), p.lm())) { ref::Mon m(p.lm()); m.pos = -1; for (int v=0; v < s.n; v++) m.e[v] -= x.lm().e[v]; ref::Pol y(s.ord); y.t[m] = 1; any = any || ref::monic(ref::mul(y, x)) == ref::monic(p); }
      vh::okf(any, "reduction-not-counted", [&] { return ref::str(p) + " " + str(q); });
    }
    // each flagged element that is not a generator was reduced, at least once
    if (alg == 1 || alg == 3) {
      long k=0; GCListWrapPolyInt::ConstIterator w(J.begin());
      for (auto& p: o) { bool any=!w.data()->isGB(); for (auto& x: sofar) any = any || ref::monic(x) == ref::monic(p); k += !any; ++w; }
      vh::okf(q.red >= k, "fewer-reductions-than-reduced-elements", [&] { return vh::str(k) + " reduced elements, " + str(q); }); vh::count("reduced_elements", k);
    }
    if (!inc && (alg == 1 || alg == 2)) { // elements of equal leading monomials met at once: at least those of the smallest generators
      ref::Mon least(sofar[0].lm()); for (auto& x: sofar) if (ref::cmp(s.ord, x.lm(), least) < 0) least = x.lm();
      long k=0; for (auto& x: sofar) k += x.lm() == least; vh::okf(q.eq >= k, "equal-leading-monomials", [&] { return vh::str(k) + " generators with " + ref::str(least) + ", " + str(q); });
      if (k > 1) vh::count("equal_leading_monomials");
    }
    if (alg == 1 || alg == 2) { long b=0; for (GCListWrapPolyInt::ConstIterator i=J.begin(); i; ++i) for (int v=0; v < s.n; v++) b += i.data()->build(v); vh::ok(q.eq <= (long)sofar.size() + b, "more-equal-leading-monomials-than-polynomials", str(q)); }
  }
  // polynomials of the same ring are accepted
  if (!J.isOne()) { Allocator al; PolyInt y(&al, s.ord, s.n), z(&al, s.ord, s.n + 1); int po=s.ord & 0x30, mo=s.ord & 0x3; PolyInt u(&al, po | (3 - mo), s.n), v(&al, (0x30 - po) | mo, s.n);
    vh::ok(J.comparable(y) && !J.comparable(z) && !J.comparable(u) && !J.comparable(v), "comparable-with-a-basis"); JanetPolyInt K; vh::ok(K.comparable(y) && K.comparable(z), "comparable-with-nothing"); }
  // nothing new: nothing to do; reading and reducing with the basis counts nothing
  if (r.chance(1, 2)) { Allocator al; PolyInt p(&al, s.ord, s.n); conv::build(p, gen::rpol(r, s.ord, s.n, 3, 4, 20, s.pos0, s.pos1)); J.nf(p); }
  timedRun(J, r.range(0, 3)); Counts a=counts(J); vh::ok(a.red == q.red && a.eq == q.eq && a.c1 == q.c1 && a.c2 == q.c2 && a.zero == q.zero, "counters-of-an-idle-build", str(q) + " then " + str(a));
  vh::seen(str(q) + vh::str(alg)); vh::count((std::string("constructions_") + algName[alg]).c_str());
}
// many generators with the same leading monomial; many monomials
static void crowd(Rng& r, int size) {
  Sys s; s.pos0 = s.pos1 = -1; s.ord = (r.chance(1, 2) ? ref::TOP: ref::POT) | (r.chance(1, 2) ? ref::LEX: ref::DEGLEX); int alg=r.range(0, 3); PV few;
  bool equal=r.chance(1, 2); long k=size < 3 || vh::slow ? r.range(5, 20): r.chance(1, 2) ? r.range(20, 100): r.range(256, 330);
  if (equal) { // quadratic forms in two variables: x^2 + a*x*y + b*y^2
    s.n = 2; int two=r.range(0, 3);
    for (long i=0; i < k; i++) { ref::Pol p(s.ord); p.addTerm(ref::Mon(-1, {2, 0}), r.range(1, 3)); if (two != 1) p.addTerm(ref::Mon(-1, {1, 1}), r.range(-50, 50)); if (two != 2) p.addTerm(ref::Mon(-1, {0, 2}), r.range(-50, 50)); s.f.push_back(p); }
    few.assign(s.f.begin(), s.f.begin() + 5);
    PV g=oracle(few); for (auto& p: s.f) if (!ref::nf(p, g).zero()) throw vh::Skip{"more-than-a-few"};
  } else {
    s.n = r.range(3, 4); k = r.range(5, size < 3 ? 8: vh::slow ? 15: 40); int d=r.range(2, size < 3 ? 3: s.n == 3 ? 12: 6); bool near=r.chance(1, 2); 
    for (long i=0; i < k; i++) { ref::Pol p(s.ord); std::vector<int> e(s.n, 0); int t=near ? r.range(d, d + 2): r.range(2, 2 + d); for (int q=0; q < t; q++) e[r.range(0, s.n - 1)]++; p.addTerm(ref::Mon(-1, e), r.chance(1, 2) ? 1: -3); s.f.push_back(p); }
    for (size_t i=0; i < s.f.size(); i++) { bool drop=false; for (size_t j=0; j < s.f.size() && !drop; j++) drop = j != i && ref::divides(s.f[j].lm(), s.f[i].lm()) && (!(s.f[j].lm() == s.f[i].lm()) || j < i); if (!drop) few.push_back(s.f[i]); }
  }
  describe(s, alg); PV g=oracle(few, 60000, 500);
  JanetPolyInt J; for (auto& p: s.f) push(J, s.ord, s.n, p);
  timedRun(J, alg); checkBasis(J, g, algName[alg]); tally(J, s.f, s, alg); Counts c=counts(J);
  if (equal && (alg == 1 || alg == 2)) vh::okf(c.eq >= k, "equal-leading-monomials", [&] { return vh::str(k) + " generators, " + str(c); });
  if (equal) vh::okf(c.zero >= k - 3, "zeros-not-counted", [&] { return vh::str(k) + " generators, " + str(c); });
  vh::count("crowds"); if (k > 255 || c.c1 > 255 || c.c2 > 255 || c.zero > 255) vh::count("counters_above_255"); vh::seen(str(c) + vh::str(alg));
}
// constructions long enough for the clock
static void longer(Rng& r, int size) {
  Sys s; s.pos0 = s.pos1 = -1; s.ord = ref::TOP|ref::DEGLEX; bool big=r.chance(1, 2); int less=size < 3 || r.chance(3, 4); s.n = 6 - less; s.f = big ? gen::katsura(s.ord, 5 - less): gen::cyclic(s.ord, 6 - less); // short ones for valgrind and warm-up
  int alg=r.range(0, 3); describe(s, alg); JanetPolyInt J; for (auto& p: s.f) push(J, s.ord, s.n, p);
  timedRun(J, alg); tally(J, s.f, s, alg); vh::seen(vh::str(big) + algName[alg]);
  // the next construction is timed by itself, whatever it has to do
  if (r.chance(1, 3)) { ref::Pol p=gen::rpol(r, s.ord, s.n, 2, 2, 3); push(J, s.ord, s.n, p); s.f.push_back(p); }
  timedRun(J, r.chance(2, 3) ? alg: r.range(0, 3)); tally(J, s.f, s, -1); vh::count("second_constructions");
}

int main(int c, char** v) {
  return vh::main_(c, v, {{"ideals", ideals, 6, 8, true}, {"modules", modules, 5, 8, true}, {"classics", classics, 1, 4, false},
    {"nform", nform, 4, 8, true}, {"janet", janet, 4, 8, true}, {"hilbert", hilbert, 3, 8, true}, {"orderind", orderind, 4, 8, true}, {"empty", empty, 1, 4, true}, {"counters", counters, 4, 8, true}, {"crowd", crowd, 1, 6, true}, {"longer", longer, 1, 4, false}});
}
