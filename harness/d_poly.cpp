// Monitors of polynomial arithmetic over the integers against the reference algebra:
// canonical storage, ring operations, primitive part, single reductions and normal forms.
#include "vh.hpp"
#include "util/allocator.h"
#include "ginv/poly_int.h"
#include "conv.hpp"
#include "gb.hpp"
#include <memory>
using namespace GInv;
using vh::Rng;

struct S { std::unique_ptr<PolyInt> p; ref::Pol m; };
static void same(const PolyInt& p, const ref::Pol& m, const char* where) {
  conv::canonical(p, where);
  ref::Pol g=conv::pol(p);
  vh::okf(g == m, where, [&] { return ref::str(g) + "  expected  " + ref::str(m); });
  vh::ok(p.length() == (int)m.t.size() && p.isZero() == m.zero() && (bool)p == !m.zero(), where, "length/zero");
  int pos=-1; for (auto& x: m.t) pos = std::max(pos, x.first.pos);
  vh::ok(p.maxPos() == pos, where, "maxPos");
  if (!m.zero()) {
    vh::ok(conv::mon(p.lm()) == m.lm() && p.degree() == m.lm().deg(), where, "leading monomial");
    vh::ok(conv::num(p.lc()) == m.lc().get_num(), where, "leading coefficient");
  }
}
static std::string text(const ref::Pol& m) {
  std::string r; for (auto& x: m.t) r += (r.empty() ? "": " + ") + ref::str(x.first) + "*" + x.second.get_str();
  return r.empty() ? "0": r;
}
static mpz_class coef(Rng& r) {
  int k=r.range(0, 9); mpz_class c;
  if (k < 6) c = r.range(1, 9);
  else if (k < 8) { c = (unsigned long)(r.next() >> r.range(0, 60)); if (c == 0) c = 1; }
  else { c = 1; int n=r.chance(1, 8) ? r.range(7, 60): r.range(1, 6); for (int i=0; i < n; i++) c = c * mpz_class((unsigned long)r.next()) + (unsigned long)r.next(); if (c == 0) c = 1; if (r.chance(1, 3)) { mpz_class d=1; c = (d << (64 * n)) - r.range(0, 1); } }
  return r.chance(1, 2) ? c: mpz_class(-c);
}
static ref::Pol rp(Rng& r, int ord, int n, int deg, int terms, int pos0, int pos1) {
  ref::Pol p(ord);
  for (int i=0; i < terms; i++) p.addTerm(gen::rmon(r, n, deg, r.range(pos0, pos1)), mpq_class(coef(r)));
  return p;
}
static int order(Rng& r, bool well=false) {
  static const int k[]={ref::LEX, ref::DEGLEX, ref::ALEX};
  return (r.chance(1, 2) ? ref::TOP: ref::POT) | k[r.range(0, well ? 1: 2)];
}

// mostly few variables and components, now and then many
static int vars(Rng& r, int few) { return r.chance(1, 9) ? r.chance(1, 40) && !vh::slow ? r.range(100, 300): r.range(few + 1, 14): r.range(1, few); }
static int comps(Rng& r, int few) { return r.chance(1, 3) ? r.chance(1, 6) ? r.chance(1, 3) ? r.range(100, 40000): r.range(few + 1, 40): r.range(0, few): -1; }
// one exponent of some terms far away from the others
static ref::Pol faraway(Rng& r, const ref::Pol& m, int far) {
  ref::Pol o(m); o.t.clear();
  for (auto& x: m.t) { ref::Mon y(x.first); if (r.chance(1, 2)) y.e[r.range(0, y.e.size() - 1)] += far * r.range(1, 3); o.addTerm(y, x.second); }
  return o;
}
static void history(Rng& r, int size) {
  int ord=order(r), n=vars(r, 4), K=comps(r, 3); // K >= 0: vectors with components 0..K
  int far=r.chance(1, 9) ? r.chance(1, 2) ? 200: 70000: 0;
  Allocator al[2];
  std::vector<S> p; const int N=5;
  auto isVec=[&](int i) { return K >= 0 && i < 3; };   // the first three live in the module, the others in the ring
  for (int i=0; i < N; i++) {
    ref::Pol m=rp(r, ord, n, 1 + size / 2, r.range(0, 1 + size), isVec(i) ? 0: -1, isVec(i) ? K: -1); if (far) m = faraway(r, m, far);
    S s{std::unique_ptr<PolyInt>(new PolyInt(al, ord, n)), m};
    conv::build(*s.p, m); same(*s.p, m, "build"); p.push_back(std::move(s));
  }
  for (int step=0; step < 14; step++) {
    int i=r.range(0, N-1), j=(i + r.range(1, N-1)) % N, op=r.range(0, 19);
    S &a=p[i], &b=p[j]; bool ring=!isVec(i) && !isVec(j), like=isVec(i) == isVec(j);
    long w=0; for (auto& x: a.m.t) w += mpz_sizeinbase(x.second.get_num_mpz_t(), 2);
    if (a.m.t.size() > 150 || w > 200000 || (!a.m.zero() && a.m.lm().deg() > 60 + 60 * far)) { a.p.reset(new PolyInt(al, ord, n)); a.m = ref::Pol(ord); }
    vh::desc(vh::str(op) + "(" + text(a.m) + " , " + text(b.m) + ") ");
    ref::Pol bm(b.m);
    switch (op) {
      case 0: case 1: if (like) { a.p->add(*b.p); a.m = ref::add(a.m, b.m); same(*a.p, a.m, "add"); vh::count("sums"); } break;
      case 2: case 3: if (like) { a.p->sub(*b.p); a.m = ref::add(a.m, b.m, -1); same(*a.p, a.m, "sub"); vh::count("sums"); } break;
      case 4: case 5: case 6: if ((ring || !isVec(j)) && a.m.t.size() * b.m.t.size() < 400) { a.p->mult(*b.p); a.m = ref::mul(a.m, b.m); same(*a.p, a.m, "mult"); vh::count("products"); } break;
      case 7: if (isVec(j) && !isVec(i) && a.m.t.size() * b.m.t.size() < 400) { PolyInt t(al, *a.p); t.mult(*b.p); same(t, ref::mul(a.m, b.m), "mult-by-vector"); vh::count("products"); } break;
      case 8: { mpz_class c=r.chance(1, 5) ? mpz_class(0): coef(r); a.p->mult(conv::lit(r, c).c_str()); a.m = ref::scale(a.m, mpq_class(c)); same(*a.p, a.m, "mult-integer"); } break;
      case 9: if (!isVec(i)) { mpz_class c=r.chance(1, 6) ? mpz_class(0): coef(r); ref::Mon one(-1, std::vector<int>(n, 0));
          if (r.chance(1, 2) && a.m.t.count(one)) c = -a.m.t[one].get_num(); // cancels the constant term
          a.p->add(conv::lit(r, c).c_str()); a.m.addTerm(one, mpq_class(c)); same(*a.p, a.m, "add-integer"); } break;
      case 10: if (!isVec(i)) { mpz_class c=r.chance(1, 6) ? mpz_class(0): coef(r); ref::Mon one(-1, std::vector<int>(n, 0));
          if (r.chance(1, 2) && a.m.t.count(one)) c = a.m.t[one].get_num();
          a.p->sub(conv::lit(r, c).c_str()); a.m.addTerm(one, mpq_class(-c)); same(*a.p, a.m, "sub-integer"); } break;
      case 11: a.p->minus(); a.m = ref::scale(a.m, -1); same(*a.p, a.m, "minus"); break;
      case 12: if (!isVec(i)) { int e=r.chance(1, 4) ? r.range(4, 17): r.range(0, 3); double sz=1; for (int k=0; k < e; k++) sz *= std::max<size_t>(1, a.m.t.size());
          if (sz < 400 && w * e < 20000 && (a.m.zero() || a.m.lm().deg() * (e - 1.) < 60 + 60. * far)) { ref::Pol x(ord); x.addTerm(ref::Mon(-1, std::vector<int>(n, 0)), 1); for (int k=0; k < e; k++) x = ref::mul(x, a.m);
            a.p->pow(e); a.m = x; same(*a.p, a.m, "pow"); vh::count("powers"); } } break;
      case 13: if (like) { *a.p = *b.p; a.m = b.m; same(*a.p, a.m, "assign"); } break;
      case 14: if (like) { PolyInt t(al + 1, *b.p); *a.p = std::move(t); a.m = b.m; same(*a.p, a.m, "move-assign"); a.p.reset(new PolyInt(al, *a.p)); same(*a.p, a.m, "copy"); } break;
      case 15: if (like) { a.p->swap(*b.p); std::swap(a.m, b.m); same(*a.p, a.m, "swap"); same(*b.p, b.m, "swap"); } break;
      case 16: { int v=r.range(0, n-1); PolyInt t(al, (Monom::Variable)v, *b.p); ref::Pol x(ord); for (auto& y: b.m.t) { ref::Mon m(y.first); m.e[v]++; x.addTerm(m, y.second); } same(t, x, "variable-times"); } break;
      case 17: if (like) { // expression operators on a fresh left operand
          PolyInt t1(PolyInt(al, *a.p) + *b.p), t2(PolyInt(al, *a.p) - *b.p), t3(-PolyInt(al, *a.p));
          same(t1, ref::add(a.m, b.m), "operator+"); same(t2, ref::add(a.m, b.m, -1), "operator-"); same(t3, ref::scale(a.m, -1), "unary-");
          if (ring && a.m.t.size() * b.m.t.size() < 200) { PolyInt t4(PolyInt(al, *a.p) * *b.p); same(t4, ref::mul(a.m, b.m), "operator*"); } }
        break;
      case 18: if (!isVec(i)) { mpz_class c=r.chance(1, 4) ? mpz_class(0): coef(r); a.p.reset(new PolyInt(al, ord, n, conv::lit(r, c).c_str())); // a constant from its text
          a.m = ref::Pol(ord); a.m.addTerm(ref::Mon(-1, std::vector<int>(n, 0)), mpq_class(c)); same(*a.p, a.m, "constant"); vh::count("constants"); } break;
      default: if (ring && !isVec(i)) { // ring laws inside the library
          if (a.m.t.size() * b.m.t.size() < 100) {
            const PolyInt& c=*p[4].p;
            PolyInt x(al, *a.p), y(al, *a.p), z(al, *b.p);
            x.mult(*b.p); z.mult(*a.p); conv::canonical(z, "commute"); x.sub(z); vh::ok(x.isZero(), "not-commutative");
            PolyInt s(al, *b.p); s.add(c); y.mult(s); PolyInt u(al, *a.p), v(al, *a.p); u.mult(*b.p); v.mult(c); u.add(v); y.sub(u); vh::ok(y.isZero(), "not-distributive");
            vh::count("ring_laws", 2);
          } }
    }
    if (op != 15) same(*b.p, bm, "other-operand-changed");
    vh::ok(vh::str(*a.p) == text(a.m), "text", vh::str(*a.p));
    if (!a.m.zero() && !b.m.zero()) vh::ok(a.p->cmp(*b.p) == ref::cmp(ord, a.m.lm(), b.m.lm()), "cmp");
    vh::seen(vh::str(op) + text(a.m).substr(0, 200));
  }
}

// polynomials of very many terms: the operations that are linear in them, against merges of maps
static void longpoly(Rng& r, int size) {
  int ord=order(r), n=r.range(2, 5), K=r.chance(1, 4) ? r.range(1, 3): -1, N=r.chance(1, 8) ? r.range(300, 300 + 250 * size): r.range(10, 100), d=r.range(8, 25), p0=K < 0 ? -1: 0;
  Allocator al[1];
  auto mk=[&](int terms) { ref::Pol p(ord); for (int i=0; i < terms; i++) p.addTerm(gen::rmon(r, n, d, r.range(p0, K)), mpq_class(r.chance(1, 20) ? coef(r): mpz_class(r.chance(1, 2) ? 1: -1) * (long)r.range(1, 9))); return p; };
  ref::Pol a=mk(N), b=mk(r.chance(1, 2) ? N: r.range(1, 30));
  vh::desc("order " + vh::str(ord) + " terms " + vh::str(a.t.size()) + " " + vh::str(b.t.size()));
  PolyInt p(al, ord, n), q(al, ord, n); conv::build(p, a); conv::build(q, b);
  for (int i=0; i < 6; i++) {
    switch (r.range(0, 6)) {
      case 0: p.add(q); a = ref::add(a, b); same(p, a, "add"); break;
      case 1: p.sub(q); a = ref::add(a, b, -1); same(p, a, "sub"); break;
      case 2: { ref::Pol c(ord); c.addTerm(gen::rmon(r, n, 4, -1), mpq_class(coef(r))); PolyInt t(al, ord, n); conv::build(t, c); p.mult(t); a = ref::mul(a, c); same(p, a, "mult"); break; }
      case 3: { ref::Pol h(ord); for (auto& x: a.t) if (r.chance(1, 2)) h.t.insert(x); PolyInt t(al, ord, n); conv::build(t, h); p.sub(t); a = ref::add(a, h, -1); same(p, a, "cancel"); break; }
      case 4: { mpz_class c=coef(r); p.mult(conv::lit(r, c).c_str()); a = ref::scale(a, mpq_class(c)); p.pp(); mpz_class g=0; for (auto& x: a.t) mpz_gcd(g.get_mpz_t(), g.get_mpz_t(), x.second.get_num_mpz_t());
          if (!a.zero()) { if (conv::num(p.lc()) < 0 != a.lc() < 0) g = -g; a = ref::scale(a, mpq_class(1) / g); } same(p, a, "pp"); break; }
      case 5: { PolyInt t(al, p); t.minus(); p.swap(t); same(t, a, "copy"); a = ref::scale(a, -1); same(p, a, "minus"); break; }
      default: { PolyInt t(al, q); t = p; same(t, a, "assign"); p.swap(q); std::swap(a, b); same(p, a, "swap"); }
    }
    vh::count("long_operations"); vh::seen(vh::str(a.t.size()) + ":" + vh::str(ord));
  }
}
static void pp(Rng& r, int size) {
  int ord=order(r), n=vars(r, 3), K=comps(r, 2);
  Allocator al[1];
  ref::Pol m=rp(r, ord, n, 4, r.range(0, 1 + size), K < 0 ? -1: 0, K);
  if (r.chance(1, 5)) m = rp(r, ord, n, n == 1 ? 80: 12, r.range(10, 70), K < 0 ? -1: 0, K); // long ones
  mpz_class c=r.chance(1, 3) ? mpz_class(1): coef(r); m = ref::scale(m, mpq_class(c));
  if (r.chance(1, 4) && m.t.size() > 1) { // a run of terms, from either end, shares more than the content
    mpz_class k=r.chance(1, 2) ? mpz_class(r.range(2, 12)): coef(r); size_t run=r.range(1, m.t.size() - 1), at=0; bool front=r.chance(1, 2);
    for (auto& x: m.t) { if ((at < run) == front) x.second *= k; ++at; }
  }
  if (r.chance(1, 4) && !m.zero()) { auto i=m.t.begin(); std::advance(i, r.range(0, m.t.size() - 1)); i->second += 1; if (i->second == 0) m.t.erase(i); }
  PolyInt p(al, ord, n); conv::build(p, m); vh::desc(text(m));
  mpz_class g=0; for (auto& x: m.t) g = gcd(g, x.second.get_num());
  vh::okf(p.isPp() == (m.zero() || g == 1), "isPp", [&] { return text(m); });
  p.pp(); conv::canonical(p, "pp"); vh::ok(p.isPp(), "pp-not-primitive", text(m));
  if (!m.zero()) {
    ref::Pol e=ref::scale(m, mpq_class(1) / mpq_class(g)), got=conv::pol(p);
    vh::okf(got == e || got == ref::scale(e, -1), "pp", [&] { return text(m) + " -> " + ref::str(got); });
    PolyInt q(al, p); q.pp(); vh::ok(conv::pol(q) == got, "pp-not-idempotent");
    if (g != 1) vh::count("contents_removed");
  }
  else vh::ok(p.isZero(), "pp-of-zero");
  vh::seen(text(m).substr(0, 250));
}

// p after a reduction equals c*p - d*x^m*a with coprime c, d that cancel the term t of p
static void checkRed(const ref::Pol& before, const ref::Pol& a, const ref::Mon& t, const ref::Pol& after, const char* where) {
  mpz_class x=before.t.at(t).get_num(), y=a.lc().get_num(), g=gcd(x, y), k1=y / g, k2=x / g;
  std::vector<int> s(t.e); for (size_t i=0; i < s.size(); i++) s[i] -= a.lm().e[i];
  ref::Pol e=ref::scale(before, mpq_class(k1)); ref::subMul(e, mpq_class(k2), s, a);
  vh::okf(after == e || after == ref::scale(e, -1), where, [&] { return text(before) + "  by  " + text(a) + "  gave  " + text(after) + "  expected  " + text(e); });
  vh::ok(!after.t.count(t), where, "the term is still there");
}
// polynomials change place between rings of different orders and numbers of variables, then work goes on in both
static void exercise(Rng& r, PolyInt& p, ref::Pol m, int ord, int n, const char* where) {
  Allocator al[1];
  vh::ok(p.order() == ord && p.size() == n, where, "ring"); same(p, m, where);
  ref::Pol a=rp(r, ord, n, 3, r.range(1, 5), -1, -1), b=rp(r, ord, n, 3, r.range(0, 5), -1, -1); if (a.zero()) a.addTerm(gen::rmon(r, n, 3, -1), 1);
  PolyInt A(al, ord, n), B(al, ord, n); conv::build(A, a); conv::build(B, b);
  vh::ok(p.comparable(A) && A.comparable(p), where, "comparable");
  p.add(B); m = ref::add(m, b); same(p, m, where);
  if (m.t.size() * a.t.size() < 400) {
    PolyInt R(al, p); R.mult(A); ref::Pol q=ref::mul(m, a); same(R, q, where);
    if (!q.zero()) { R.reduction(A); conv::canonical(R, where); checkRed(q, a, q.lm(), conv::pol(R), where); vh::count("reductions"); }
    PolyInt M(al, p); if (!m.zero()) M.redMaybe(A); conv::canonical(M, where);
    if (m.t.count(a.lm())) checkRed(m, a, a.lm(), conv::pol(M), where); else same(M, m, where);
    p.mult(A); same(p, q, where);
  }
}
static void transfer(Rng& r, int size) {
  int o[2]={order(r, true), order(r, true)}, n[2]={vars(r, 4), vars(r, 4)};
  if (r.chance(1, 3)) n[1] = n[0];
  Allocator al[2]; ref::Pol m[2]; std::unique_ptr<PolyInt> p[2];
  for (int i=0; i < 2; i++) { m[i] = rp(r, o[i], n[i], 1 + size / 2, r.chance(1, 5) ? 0: r.range(1, 2 + size), -1, -1); p[i].reset(new PolyInt(al + i, o[i], n[i])); conv::build(*p[i], m[i]); }
  int op=r.range(0, 4); vh::desc(vh::str(op) + " order " + vh::str(o[0]) + "/" + vh::str(n[0]) + " " + text(m[0]) + " , order " + vh::str(o[1]) + "/" + vh::str(n[1]) + " " + text(m[1]));
  switch (op) {
    case 0: p[0]->swap(*p[1]); std::swap(m[0], m[1]); std::swap(o[0], o[1]); std::swap(n[0], n[1]); std::swap(p[0], p[1]); std::swap(m[0], m[1]); std::swap(o[0], o[1]); std::swap(n[0], n[1]); break;
    case 1: *p[0] = *p[1]; m[0] = m[1]; o[0] = o[1]; n[0] = n[1]; break;
    case 2: { PolyInt t(al + 1, *p[1]); *p[0] = std::move(t); m[0] = m[1]; o[0] = o[1]; n[0] = n[1]; } break;
    case 3: { PolyInt t(al, *p[1]); p[0].reset(); p[0].reset(new PolyInt(std::move(t))); m[0] = m[1]; o[0] = o[1]; n[0] = n[1]; } break;
    default: p[0].reset(new PolyInt(al, *p[1])); m[0] = m[1]; o[0] = o[1]; n[0] = n[1];
  }
  static const char* name[]={"swap", "assign", "move-assign", "move", "copy"};
  for (int i=0; i < 2; i++) exercise(r, *p[i], m[i], o[i], n[i], name[op]);
  vh::count("transfers"); vh::seen(vh::str(op) + text(m[0]).substr(0, 100) + "|" + text(m[1]).substr(0, 100));
  p[0].reset(); p[1].reset();
}

static void reduction(Rng& r, int size) {
  int ord=order(r), n=vars(r, 3), K=comps(r, 2);
  Allocator al[1];
  ref::Pol a=rp(r, ord, n, 3, r.range(1, 1 + size), K < 0 ? -1: 0, K); if (a.zero()) throw vh::Skip{"zero"};
  std::vector<int> m=gen::rmon(r, n, 3).e;
  ref::Pol p=rp(r, ord, n, 4, r.range(0, 1 + size), K < 0 ? -1: 0, K);
  // give p a leading term divisible by the one of a, often sharing more terms with a multiple of a
  ref::Pol am(ord); ref::subMul(am, mpq_class(-1), m, a);
  if (r.chance(1, 2)) p = ref::add(p, am, mpq_class(coef(r)));
  ref::Mon top=am.lm();
  ref::Pol q(ord);
  bool lead=r.chance(1, 2);
  for (auto& x: p.t) if (!lead || ref::cmp(ord, top, x.first) >= 0) q.addTerm(x.first, x.second);
  if (!q.t.count(top)) q.addTerm(top, mpq_class(coef(r)));
  PolyInt P(al, ord, n), A(al, ord, n); conv::build(P, q); conv::build(A, a);
  vh::desc(text(q) + " | " + text(a));
  if (lead) {
    P.reduction(A); conv::canonical(P, "reduction"); checkRed(q, a, top, conv::pol(P), "reduction"); vh::count("reductions");
    if (P) vh::ok(ref::cmp(ord, conv::mon(P.lm()), q.lm()) < 0, "reduction-did-not-lower");
  }
  else { // reduces exactly the monomial equal to the leading one of a, if p has it
    PolyInt Q(al, P); Q.redMaybe(A); conv::canonical(Q, "redMaybe");
    if (q.t.count(a.lm())) { checkRed(q, a, a.lm(), conv::pol(Q), "redMaybe"); vh::count("tail_reductions"); }
    else vh::ok(conv::pol(Q) == q, "redMaybe-changed", text(q));
    // the same for an exact multiple
    PolyInt AM(al, ord, n), R(al, P); conv::build(AM, am); R.redMaybe(AM); conv::canonical(R, "redMaybe");
    checkRed(q, am, top, conv::pol(R), "redMaybe"); vh::count("tail_reductions");
  }
  vh::ok(conv::pol(A) == a, "divisor-changed");
  vh::seen(text(q).substr(0, 120) + " | " + text(a).substr(0, 120));
}

// normal forms with respect to a fixed list of divisors
struct Finder {
  std::vector<std::unique_ptr<WrapPolyInt>> g; long calls=0;
  WrapPolyInt* find(const Monom& m) { ++calls; for (auto& x: g) if (m.divisiable(x->poly().lm()) && m.pos() == x->poly().lm().pos()) return x.get(); return nullptr; }
};
static void nf(Rng& r, int size) {
  int ord=order(r, true), n=vars(r, 3), K=comps(r, 2), p0=K < 0 ? -1: 0;
  Allocator al[1]; Finder d; std::vector<ref::Pol> g;
  int N=r.range(1, 4);
  for (int i=0; i < N; i++) {
    ref::Pol m=gen::rpol(r, ord, n, 3, r.range(1, 4), 7, p0, K); if (m.zero() || m.lm().deg() == 0) continue;
    PolyInt P(al, ord, n); conv::build(P, m); d.g.emplace_back(new WrapPolyInt(P)); g.push_back(m);
  }
  if (r.chance(1, 6) && !g.empty()) { // now and then with long coefficients
    d.g.clear(); for (auto& m: g) { for (auto& x: m.t) if (r.chance(1, 2)) x.second = mpq_class(coef(r)); PolyInt P(al, ord, n); conv::build(P, m); d.g.emplace_back(new WrapPolyInt(P)); }
    vh::count("divisors_with_long_coefficients", g.size());
  }
  ref::Pol p=gen::rpol(r, ord, n, ord & ref::LEX ? 4: 6, r.range(0, 1 + size), 20, p0, K);
  ref::Budget bud(20000); ref::Pol e(ord);
  try { e = ref::nf(p, g, &bud); } catch (ref::TooBig&) { throw vh::Skip{"big"}; }
  PolyInt P(al, ord, n); conv::build(P, p); vh::desc(text(p)); for (auto& x: g) vh::desc(" ; " + text(x));
  auto prop=[&](const ref::Pol& a, const ref::Pol& b) { return a.zero() || b.zero() ? a.zero() && b.zero(): ref::monic(a) == ref::monic(b); };
  // head first
  PolyInt H(al, P); int k=H.nf(d); conv::canonical(H, "nf");
  if (H) vh::ok(d.find(H.lm()) == nullptr, "nf-head-reducible");
  vh::ok(prop(ref::nf(conv::pol(H), g), e), "nf-left-the-class");
  vh::ok(k > 0 || conv::pol(H) == p, "nf-count"); vh::ok((k == 0) == (conv::pol(H) == p) || k > 0, "nf-count");
  PolyInt T(al, H); int k2=T.nfTail(d); conv::canonical(T, "nfTail");
  vh::okf(prop(conv::pol(T), e), "normal-form", [&] { return text(conv::pol(T)) + "  expected multiple of  " + text(e); });
  vh::ok(T.isNf(d), "isNf");
  bool tail=false; { ref::Pol h=conv::pol(H); bool first=true; for (auto& x: h.t) { if (!first) for (auto& y: g) tail = tail || ref::divides(y.lm(), x.first); first = false; } }
  vh::ok(H.isNf(d) == !tail, "isNf"); vh::ok((k2 > 0) == tail, "nfTail-count");
  if (k + k2) vh::count("reduced"); vh::count("reduction_steps", k + k2);
  for (size_t i=0; i < g.size(); i++) vh::ok(conv::pol(d.g[i]->poly()) == g[i], "divisor-changed");
  vh::seen(text(p).substr(0, 120) + "|" + text(e).substr(0, 120));
}

int main(int c, char** v) {
  return vh::main_(c, v, {{"history", history, 6, 10, true}, {"transfer", transfer, 2, 10, true}, {"longpoly", longpoly, 1, 4, false}, {"pp", pp, 3, 10, true}, {"reduction", reduction, 5, 10, true}, {"nf", nf, 4, 10, true}});
}
