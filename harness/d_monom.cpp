// Monitors of monomials, monomial orders, Wrap bookkeeping and boolean monomials against
// plain exponent vectors.
#include "vh.hpp"
#include "util/allocator.h"
#include "ginv/monom.h"
#include "ginv/wrap.h"
#include "ginv/bmonom.h"
#include "conv.hpp"
#include <memory>
using namespace GInv;
using vh::Rng;
typedef std::vector<int> V;

static ref::Mon rm(Rng& r, int n, int pos) {
  ref::Mon m(pos, V(n, 0));
  int k=r.range(0, 5), hi=k == 0 ? 0: k == 1 ? 1: k == 2 ? 2: k == 3 ? 6: k == 4 ? 40: 100000;
  for (int& e: m.e) e = r.chance(1, 3) ? 0: r.range(0, hi);
  return m;
}
// a monomial that shares much of another one, so that comparisons go deep
static int vars(Rng& r, int size) { return r.chance(1, 15) ? r.chance(1, 6) ? r.range(150, 400): r.range(30, 150): r.range(1, 1 + size); } // now and then very many
static ref::Mon near(Rng& r, const ref::Mon& a, int pos) {
  ref::Mon m(a); m.pos = pos;
  int k=r.range(0, 3);
  for (int i=0; i < k; i++) { int v=r.range(0, m.e.size() - 1); m.e[v] = std::max(0l, m.e[v] + r.range(-1, 1)); }
  if (r.chance(1, 3)) { int v=r.range(0, m.e.size() - 1), w=r.range(0, m.e.size() - 1); if (m.e[v] > 0) { m.e[v]--; m.e[w]++; } }
  return m;
}
static void same(const Monom& m, const ref::Mon& e, const char* where) {
  vh::okf(conv::mon(m) == e, where, [&] { return ref::str(conv::mon(m)) + " expected " + ref::str(e); });
  vh::okf(m.degree() == e.deg(), where, [&] { return "degree " + vh::str(m.degree()) + " of " + ref::str(e); });
  vh::ok(m.size() == (int)e.e.size(), where);
  vh::ok((bool)m == (e.deg() > 0) && m.isZero() == (e.deg() == 0), where);
  vh::okf(vh::str(m) == ref::str(e), where, [&] { return "text " + vh::str(m) + " of " + ref::str(e); });
}
static ref::Mon plus(const ref::Mon& a, const ref::Mon& b, int k=1) {
  ref::Mon r(a); for (size_t i=0; i < r.e.size(); i++) r.e[i] += k * b.e[i]; return r;
}

// a random history over a pool of monomials and their models
static void history(Rng& r, int size) {
  int n=vars(r, size);
  Allocator al[1];
  struct S { std::unique_ptr<Monom> m; ref::Mon e; };
  std::vector<S> p;
  for (int i=0; i < 5; i++) {
    ref::Mon e(r.range(-1, 3), V(n, 0));
    std::unique_ptr<Monom> m;
    if (r.chance(1, 2)) m.reset(new Monom(al, n, e.pos));
    else { int v=r.range(0, n-1); m.reset(new Monom(al, (Monom::Variable)v, n, e.pos)); e.e[v] = 1; }
    same(*m, e, "construct"); p.push_back({std::move(m), e});
  }
  for (int step=0; step < 25; step++) {
    int i=r.range(0, 4), j=(i + r.range(1, 4)) % 5, k=r.range(0, 4);
    S &a=p[i], &b=p[j], &c=p[k];
    int op=r.range(0, 13); std::string before=ref::str(a.e) + ref::str(b.e);
    vh::desc(vh::str(op) + ":" + before + " ");
    if (a.e.deg() > 1000000) { a.m.reset(new Monom(al, n, -1)); a.e = ref::Mon(-1, V(n, 0)); }
    switch (op) {
      case 0: if (a.e.pos == -1 || b.e.pos == -1) {
        a.m->mult(*b.m); int pos=a.e.pos == -1 ? b.e.pos: a.e.pos; a.e = plus(a.e, b.e); a.e.pos = pos; same(*a.m, a.e, "mult"); }
        break;
      case 1: { int v=r.range(0, n-1); a.m->mult((Monom::Variable)v, *b.m); a.e = b.e; a.e.e[v]++; same(*a.m, a.e, "mult-var"); } break;
      case 2: if (b.e.pos == -1 || a.e.pos == b.e.pos) {
        bool d=true; for (int v=0; v < n; v++) d = d && a.e.e[v] >= b.e.e[v];
        if (d) { a.m->div(*b.m); int pos=b.e.pos >= 0 ? -1: a.e.pos; a.e = plus(a.e, b.e, -1); a.e.pos = pos; same(*a.m, a.e, "div"); vh::count("exact_divisions"); } }
        break;
      case 3: *a.m = *b.m; a.e = b.e; same(*a.m, a.e, "assign"); break;
      case 4: { Monom t(al, *b.m); *a.m = std::move(t); a.e = b.e; same(*a.m, a.e, "move-assign"); } break;
      case 5: { Monom t(al, *b.m); Monom u(std::move(t)); same(u, b.e, "move-construct"); } break;
      case 6: a.m->swap(*b.m); std::swap(a.e, b.e); same(*a.m, a.e, "swap"); same(*b.m, b.e, "swap"); break;
      case 7: { int q=r.chance(1, 12) && b.e.deg() < 1000000 ? r.range(5, 40): r.range(0, 4); ref::Mon e(b.e); for (int& x: e.e) x *= q; a.m.reset(new Monom(al, *b.m, q)); a.e = e; same(*a.m, a.e, "power"); } break;
      case 8: if (b.e.pos == -1 || c.e.pos == -1) {
        ref::Mon e=plus(b.e, c.e); e.pos = b.e.pos == -1 ? c.e.pos: b.e.pos;
        Monom t(al, *b.m, *c.m); same(t, e, "product"); }
        break;
      case 9: { int v=r.range(0, n-1); a.m.reset(new Monom(al, (Monom::Variable)v, *b.m)); a.e = b.e; a.e.e[v]++; same(*a.m, a.e, "var-product"); } break;
      case 10: { int q=r.chance(1, 8) ? r.chance(1, 2) ? r.range(100, 300): r.range(30000, 3000000): r.range(-1, 4); a.m->setPos(q); a.e.pos = q; same(*a.m, a.e, "setPos"); } break;
      case 11: { // division built from a known multiple
        ref::Mon q=rm(r, n, -1); conv::MonomBox qb(q);
        if (q.deg() < 100000 && b.e.deg() < 1000000) {
          Monom t(al, *b.m, *qb.m); vh::ok(t.divisiable(*b.m) && t.divisiable(*qb.m), "multiple-not-divisible");
          Monom u(al, t); u.div(*qb.m); same(u, b.e, "div-back");
          t.div(*b.m); same(t, q, "div-back"); vh::count("exact_divisions"); } }
        break;
      case 12: { ref::Mon e=rm(r, n, r.range(-1, 3)); conv::MonomBox x(e); if (e.deg() < 10000000) { *a.m = *x.m; a.e = e; same(*a.m, a.e, "assign-large"); } } break; // exponents of any size
      default: { ref::Mon e=near(r, b.e, r.range(-1, 2)); conv::MonomBox x(e); *a.m = *x.m; a.e = e; same(*a.m, a.e, "rebuild"); }
    }
    if (i != j && op != 6) same(*b.m, b.e, "operand-changed");
    // predicates on the pair
    bool div=b.e.pos == -1 || a.e.pos == b.e.pos; for (int v=0; v < n; v++) div = div && a.e.e[v] >= b.e.e[v];
    vh::okf(a.m->divisiable(*b.m) == div, "divides", [&] { return ref::str(b.e) + " | " + ref::str(a.e); });
    bool eq=a.e == b.e;
    vh::okf((*a.m == *b.m) == eq && (*a.m != *b.m) == !eq, "equality", [&] { return ref::str(a.e) + " == " + ref::str(b.e); });
    if (a.e.pos == -1 || b.e.pos == -1 || a.e.pos == b.e.pos) {
      int g=0, l=0; for (int v=0; v < n; v++) { g += std::min(a.e.e[v], b.e.e[v]); l += std::max(a.e.e[v], b.e.e[v]); }
      vh::ok(a.m->gcd(*b.m) == g && b.m->gcd(*a.m) == g, "gcd-degree", ref::str(a.e) + ref::str(b.e));
      vh::ok(a.m->lcm(*b.m) == l && b.m->lcm(*a.m) == l, "lcm-degree", ref::str(a.e) + ref::str(b.e));
    }
    if (op < 13) vh::seen(vh::str(op) + before);
  }
}

// orders: the definition, total order laws, compatibility with multiplication, and the
// comparison of a monomial with an unformed product
static int call(int o, const Monom& a, const Monom& b) { return o == ref::LEX ? a.lex(b): o == ref::DEGLEX ? a.deglex(b): a.alex(b); }
static int call(int o, const Monom& a, const Monom& b, const Monom& c) { return o == ref::LEX ? a.lex(b, c): o == ref::DEGLEX ? a.deglex(b, c): a.alex(b, c); }
static void orders(Rng& r, int size) {
  int n=vars(r, size);
  ref::Mon a=rm(r, n, -1), b=near(r, a, -1), c=r.chance(1, 2) ? near(r, b, -1): rm(r, n, -1), s=rm(r, n, -1);
  if (r.chance(1, 3)) { b = a; std::shuffle(b.e.begin(), b.e.end(), std::mt19937((unsigned)r.next())); }
  conv::MonomBox A(a), B(b), C(c), S(s);
  Allocator al[1]; Monom as(al, *A.m, *S.m), bs(al, *B.m, *S.m);
  static const int ord[]={ref::LEX, ref::DEGLEX, ref::ALEX};
  for (int o: ord) {
    auto w=[&] { return "order " + vh::str(o) + " " + ref::str(a) + ref::str(b) + ref::str(c) + ref::str(s); };
    int x=call(o, *A.m, *B.m);
    vh::okf(x == ref::cmpExp(o, a.e, b.e), "order-value", w);
    vh::okf(call(o, *B.m, *A.m) == -x, "antisymmetric", w);
    vh::okf(call(o, *A.m, *A.m) == 0, "reflexive", w);
    vh::okf((x == 0) == (a == b), "total", w);
    int y=call(o, *B.m, *C.m), z=call(o, *A.m, *C.m);
    if (x >= 0 && y >= 0) vh::okf(z >= 0 && (z > 0 || (x == 0 && y == 0)), "transitive", w);
    vh::okf(call(o, as, bs) == x, "multiplicative", w);
    if (s.deg()) vh::okf(call(o, as, *A.m) == (o == ref::ALEX ? -1: 1), "well-order", w);
    // against a product that is not formed
    vh::okf(call(o, *C.m, *A.m, *S.m) == call(o, *C.m, as), "product-comparison", w);
    vh::okf(call(o, as, *A.m, *S.m) == 0, "product-comparison", w);
    vh::okf(call(o, bs, *A.m, *S.m) == -x, "product-comparison", w);
    vh::okf(call(o, as, *B.m, *S.m) == x, "product-comparison", w);
    vh::seen(w()); vh::count("comparisons", 10);
  }
}
// orders on terms of a module as polynomials apply them
static void modorders(Rng& r, int size) {
  int n=vars(r, size), k=r.range(0, 3);
  static const int kinds[]={ref::LEX, ref::DEGLEX, ref::ALEX};
  int o=(r.chance(1, 2) ? ref::TOP: ref::POT) | kinds[r.range(0, 2)];
  ref::Mon a=rm(r, n, k ? r.range(0, k): -1), b=near(r, a, k ? r.range(0, k): -1);
  if (r.chance(1, 4)) b.e = a.e;
  conv::MonomBox A(a), B(b);
  Allocator al[1];
  PolyInt p(al, o, *A.m), q(al, o, *B.m);
  int c=ref::cmp(o, a, b);
  auto w=[&] { return "order " + vh::str(o) + " " + ref::str(a) + ref::str(b); };
  vh::okf(p.cmp(q) == c && q.cmp(p) == -c, "module-order", w);
  vh::okf((c == 0) == (a == b), "module-order-total", w);
  ref::Mon s=rm(r, n, -1); conv::MonomBox S(s);
  PolyInt t(al, o, *S.m), ps(al, p), qs(al, q); ps.mult(t); qs.mult(t);
  vh::okf(ps.cmp(qs) == c, "module-order-multiplicative", w);
  { // a comparison with a product that is not formed decides the place of each term in a reduction:
    // (s*a + x) - s*(a + b) = x - s*b with b < a and x < s*a
    ref::Mon sa(a), lo=c > 0 ? b: a, x=near(r, lo, lo.pos); sa = c > 0 ? a: b;
    if (r.chance(1, 2)) x = lo;
    if (k && r.chance(2, 3)) x.pos = r.range(0, k);
    for (int i=0; i < n; i++) x.e[i] += s.e[i];
    ref::Mon ssa(sa), slo(lo); for (int i=0; i < n; i++) { ssa.e[i] += s.e[i]; slo.e[i] += s.e[i]; }
    if (c && ref::cmp(o, ssa, x) > 0) {
      conv::MonomBox SA(sa), LO(lo), SSA(ssa), X(x);
      PolyInt f(al, o, *SSA.m), g(al, o, *SA.m); { PolyInt u(al, o, *X.m); u.mult("0x3"); f.add(u); } g.add(PolyInt(al, o, *LO.m));
      f.reduction(g);
      std::vector<ref::Mon> got, want; for (PolyInt::ConstIterator i(f.begin()); i; ++i) got.push_back(conv::mon(i.monom()));
      int d=ref::cmp(o, x, slo);
      if (d >= 0) want.push_back(x); if (d < 0) want.push_back(slo); if (d > 0) want.push_back(slo); if (d < 0) want.push_back(x);
      vh::okf(got == want, "module-order-product", [&] { return w() + " times " + ref::str(s) + " against " + ref::str(x); });
      vh::count("module_products");
    }
  }
  if (c) { // the sum of two terms is led by the greater one
    PolyInt u(al, p); u.add(q);
    vh::okf(conv::mon(u.lm()) == (c > 0 ? a: b) && u.length() == 2, "leading-term", w);
  }
  vh::seen(w());
}

// random monomials
static void randmon(Rng& r, int size) {
  int n=r.range(1, 1 + size), d1=r.range(1, 6), d2=d1 + r.range(0, 5);
  Monom::rand_init(n, d1, d2);
  Allocator al[1]; Monom m(al, n, -1); std::set<std::string> s; std::set<int> degs, vars;
  int N=120 * (d2 - d1 + 1);
  for (int i=0; i < N; i++) {
    if (i % 2) Monom::rand_next(m);
    else { Monom* x=Monom::rand_next(al); m = *x; delete x; }
    ref::Mon e=conv::mon(m); int d=0;
    for (int v=0; v < n; v++) { vh::ok(e.e[v] >= 0, "negative"); d += e.e[v]; if (e.e[v]) vars.insert(v); }
    vh::ok(d == m.degree() && d1 <= d && d <= d2, "degree-range", ref::str(e)); vh::ok(m.size() == n && m.pos() == -1, "shape");
    degs.insert(d); vh::seen("r" + ref::str(e));
  }
  // chance of missing a degree: (1-1/k)^(120k) < 1e-50; a variable: (2/3)^120
  vh::ok((int)degs.size() == d2 - d1 + 1, "degree-never-drawn");
  vh::ok((int)vars.size() == n || n > 3, "variable-never-drawn");
}

// Wrap: leading monomial, ancestor and the per-variable marks
static void wrap(Rng& r, int size) {
  int n=vars(r, size);
  struct Model { ref::Mon lm, anc; std::vector<bool> nm, nmd, built; };
  std::vector<std::unique_ptr<Wrap>> w; std::vector<Model> m;
  auto check=[&](int i, const char* where) {
    vh::ok(conv::mon(w[i]->lm()) == m[i].lm, where, vh::str(*w[i])); vh::ok(conv::mon(w[i]->ansector()) == m[i].anc, where, vh::str(*w[i]));
    int mul=0;
    for (int v=0; v < n; v++) { vh::ok(w[i]->NM(v) == m[i].nm[v] && w[i]->NMd(v) == m[i].nmd[v] && w[i]->build(v) == m[i].built[v], where); mul += !m[i].nm[v]; }
    vh::ok(w[i]->multi() == mul, where); vh::ok(w[i]->isGB() == (m[i].lm.deg() == m[i].anc.deg()), where);
    std::string s=ref::str(m[i].lm) + ref::str(m[i].anc) + "["; for (int v=0; v < n; v++) s += m[i].nm[v] ? '*': ' ';
    vh::ok(vh::str(*w[i]) == s + "]", where, vh::str(*w[i]));
  };
  for (int step=0; step < 20; step++) {
    int op=r.range(0, 6), i=w.empty() ? 0: r.range(0, w.size() - 1), v=r.range(0, n-1);
    if (w.empty() || (op == 0 && w.size() < 6)) {
      ref::Mon e=rm(r, n, r.range(-1, 2)); conv::MonomBox b(e);
      w.emplace_back(new Wrap(*b.m)); m.push_back({e, e, std::vector<bool>(n), std::vector<bool>(n), std::vector<bool>(n)}); i = w.size() - 1;
    }
    else if (op == 1 && w.size() < 8) { w.emplace_back(new Wrap(*w[i])); m.push_back(Model(m[i])); check(w.size() - 1, "copy"); }
    else if (op == 2) { w[i]->setNM(v); m[i].nm[v] = true; }
    else if (op == 3) { w[i]->setNMd(v); m[i].nmd[v] = true; }
    else if (op == 4 && (m[i].nm[v] || m[i].nmd[v]) && !m[i].built[v] && w.size() < 8) {
      w.emplace_back(new Wrap((Monom::Variable)v, w[i].get())); m[i].built[v] = true;
      Model k{m[i].lm, m[i].anc, std::vector<bool>(n), std::vector<bool>(n), std::vector<bool>(n)}; k.lm.e[v]++; m.push_back(k);
      check(w.size() - 1, "prolongation"); vh::count("prolongations");
    }
    else if (op == 5) { // a changed leading monomial restarts the bookkeeping, an equal one keeps it
      ref::Mon e=r.chance(1, 3) ? m[i].lm: near(r, m[i].lm, r.range(-1, 2)); conv::MonomBox b(e);
      w[i]->update(*b.m);
      if (e != m[i].lm) m[i] = Model{e, e, std::vector<bool>(n), std::vector<bool>(n), std::vector<bool>(n)};
    }
    else if (op == 6) { if (r.chance(1, 2)) { w[i]->clearNM(); m[i].nm.assign(n, false); } else { w[i]->setBuild(v); m[i].built[v] = true; } }
    for (size_t k=0; k < w.size(); k++) check(k, "bookkeeping");
    vh::seen(vh::str(*w[i]));
  }
}

// boolean monomials: sets of variables, product is union
static void boolmon(Rng& r, int size) {
  int n=r.chance(1, 6) ? 100000: r.chance(1, 3) ? 1 + 12 * size: 1 + 2 * size; Allocator al2[2]; bool many=r.chance(1, 4);
  struct S { std::unique_ptr<BMonom> m; std::set<int> e; };
  std::vector<S> p;
  auto AL=[&] { return al2 + r.range(0, 1); };
  auto same=[&](const S& s, const char* w) {
    vh::okf(s.m->degree() == (int)s.e.size(), w, [&] { return vh::str(*s.m) + " has degree " + vh::str(s.m->degree()); });
    std::string t="["; int i=0;
    for (auto k=s.e.rbegin(); k != s.e.rend(); ++k, ++i) { vh::ok((*s.m)[i] == *k, w, vh::str(*s.m)); t += (i ? " ": "") + vh::str(*k); }
    t = s.e.empty() ? "1": t + "]";
    vh::ok(vh::str(*s.m) == t, w, vh::str(*s.m) + " expected " + t); vh::ok(s.m->isZero() == s.e.empty() && (bool)*s.m == !s.e.empty(), w);
  };
  for (int i=0; i < 4; i++) {
    if (many) { // long ones
      p.push_back({std::unique_ptr<BMonom>(new BMonom(AL())), {}}); int k=r.range(0, 8 * size);
      while (k--) { int v=r.range(0, n-1); p[i].m.reset(new BMonom(*p[i].m, v, AL())); p[i].e.insert(v); }
    }
    else if (r.chance(1, 4)) p.push_back({std::unique_ptr<BMonom>(new BMonom(AL())), {}});
    else { int v=r.range(0, n-1); p.push_back({std::unique_ptr<BMonom>(new BMonom(v, AL())), {v}}); }
  }
  for (int step=0; step < 25; step++) {
    int i=r.range(0, 3), j=(i + r.range(1, 3)) % 4, k=r.range(0, 3), op=r.range(0, 6);
    S &a=p[i], &b=p[j], &c=p[k];
    vh::desc(vh::str(op) + vh::str(*a.m) + vh::str(*b.m) + " ");
    switch (op) {
      case 0: { int v=r.range(0, n-1); a.m.reset(new BMonom(*b.m, v, AL())); a.e = b.e; a.e.insert(v); } break;
      case 1: { BMonom* t=new BMonom(*b.m, *c.m, AL()); std::set<int> e(b.e); e.insert(c.e.begin(), c.e.end()); a.m.reset(t); a.e = e; } break;
      case 2: a.m.reset(new BMonom(*b.m, AL())); a.e = b.e; break;
      case 3: *a.m = *b.m; a.e = b.e; break;
      case 4: a.m->swap(*b.m); std::swap(a.e, b.e); break;
      case 5: { // the same but for one variable
        if (b.e.empty()) break;
        std::set<int> e(b.e); auto x=e.begin(); std::advance(x, r.chance(1, 2) ? r.range(0, e.size() - 1): r.chance(1, 2) ? 0: e.size() - 1); e.erase(x); e.insert(r.range(0, n-1));
        std::unique_ptr<BMonom> t(new BMonom(AL())); for (int v: e) t.reset(new BMonom(*t, v, AL())); a.m = std::move(t); a.e = e; } break;
      default: if (std::includes(c.e.begin(), c.e.end(), b.e.begin(), b.e.end()) && i != k) {
        a.m->div(*c.m, *b.m); std::set<int> e; std::set_difference(c.e.begin(), c.e.end(), b.e.begin(), b.e.end(), std::inserter(e, e.begin())); a.e = e; vh::count("boolean_divisions"); }
    }
    for (auto& s: p) same(s, "boolean");
    bool d=std::includes(a.e.begin(), a.e.end(), b.e.begin(), b.e.end());
    vh::okf(a.m->divisible(*b.m) == d, "boolean-divides", [&] { return vh::str(*a.m) + vh::str(*b.m); });
    int x=a.m->compare(*b.m);
    vh::ok(b.m->compare(*a.m) == -x && (x == 0) == (a.e == b.e), "boolean-order", vh::str(*a.m) + vh::str(*b.m));
    if (a.e.size() != b.e.size()) vh::ok(x == (a.e.size() > b.e.size() ? 1: -1), "boolean-order-degree");
    else vh::ok(x == (a.e == b.e ? 0: std::lexicographical_compare(a.e.begin(), a.e.end(), b.e.begin(), b.e.end()) ? -1: 1), "boolean-order-lex", vh::str(*a.m) + vh::str(*b.m));
    int y=b.m->compare(*c.m), z=a.m->compare(*c.m);
    if (x >= 0 && y >= 0) vh::ok(z >= 0, "boolean-order-transitive");
    vh::seen(vh::str(op) + vh::str(*a.m) + vh::str(*b.m));
  }
  p.clear(); vh::ok(al2[0].size() == 0 && al2[1].size() == 0, "boolean-memory", vh::str(al2[0].size()) + " and " + vh::str(al2[1].size()));
}

int main(int c, char** v) {
  return vh::main_(c, v, {{"history", history, 6, 20, true}, {"orders", orders, 6, 12, true}, {"modorders", modorders, 4, 8, true},
    {"randmon", randmon, 1, 6, true}, {"wrap", wrap, 3, 8, true}, {"boolean", boolmon, 4, 10, true}});
}
