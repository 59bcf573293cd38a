// Independent reference algebra over Q (gmpxx): monomials with a component, polynomial
// arithmetic, Buchberger's algorithm for submodules of a free module, counting of
// standard monomials. Shares no code with GInv.
#ifndef VH_ALGEBRA_HPP
#define VH_ALGEBRA_HPP
#include <gmpxx.h>
#include <vector>
#include <map>
#include <string>
#include <sstream>
#include <algorithm>
#include <set>

namespace ref {

struct Mon {
  int pos; std::vector<int> e;
  Mon(): pos(-1) {}
  Mon(int p, const std::vector<int>& v): pos(p), e(v) {}
  int deg() const { int d=0; for (int x: e) d += x; return d; }
  bool operator==(const Mon& b) const { return pos == b.pos && e == b.e; }
  bool operator!=(const Mon& b) const { return !(*this == b); }
  bool operator<(const Mon& b) const { return pos != b.pos ? pos < b.pos: e < b.e; } // only for containers
};
inline std::string str(const Mon& m) {
  std::ostringstream o; o << '[';
  if (m.pos >= 0) o << m.pos << ':';
  for (size_t i=0; i < m.e.size(); i++) o << (i ? " ": "") << m.e[i];
  o << ']'; return o.str();
}
enum { TOP=0x10, POT=0x20, LEX=1, DEGLEX=2, ALEX=4 };

inline int sgn(long x) { return x > 0 ? 1: x < 0 ? -1: 0; }
inline int cmpExp(int ord, const std::vector<int>& a, const std::vector<int>& b) {
  int n=a.size();
  if (ord & LEX) {
    for (int i=0; i < n; i++) if (a[i] != b[i]) return sgn(a[i] - b[i]);
    return 0;
  }
  long da=0, db=0;
  for (int i=0; i < n; i++) { da += a[i]; db += b[i]; }
  if (ord & DEGLEX) {
    if (da != db) return sgn(da - db);
    for (int i=n-1; i >= 0; i--) if (a[i] != b[i]) return -sgn(a[i] - b[i]);
    return 0;
  }
  if (da != db) return -sgn(da - db);
  for (int i=0; i < n; i++) if (a[i] != b[i]) return sgn(a[i] - b[i]);
  return 0;
}
inline int cmp(int ord, const Mon& a, const Mon& b) {
  int p=sgn(a.pos - b.pos);
  if (ord & POT) return p ? p: cmpExp(ord, a.e, b.e);
  int c=cmpExp(ord, a.e, b.e);
  return c ? c: p;
}
inline bool divides(const Mon& a, const Mon& b) { // a | b inside one component
  if (a.pos != b.pos) return false;
  for (size_t i=0; i < a.e.size(); i++) if (a.e[i] > b.e[i]) return false;
  return true;
}

struct Cmp { int ord; explicit Cmp(int o=TOP|DEGLEX): ord(o) {}
  bool operator()(const Mon& a, const Mon& b) const { return cmp(ord, a, b) > 0; } };
typedef std::map<Mon, mpq_class, Cmp> Map;

struct Pol {
  Map t;
  explicit Pol(int ord=TOP|DEGLEX): t(Cmp(ord)) {}
  int ord() const { return t.key_comp().ord; }
  bool zero() const { return t.empty(); }
  const Mon& lm() const { return t.begin()->first; }
  const mpq_class& lc() const { return t.begin()->second; }
  void addTerm(const Mon& m, const mpq_class& c) {
    if (sgn(c) == 0) return;
    auto r=t.insert(std::make_pair(m, c));
    if (!r.second) { r.first->second += c; if (sgn(r.first->second) == 0) t.erase(r.first); }
  }
  bool operator==(const Pol& b) const {
    if (t.size() != b.t.size()) return false;
    auto j=b.t.begin();
    for (auto i=t.begin(); i != t.end(); ++i, ++j)
      if (i->first != j->first || i->second != j->second) return false;
    return true;
  }
  static int sgn(const mpq_class& c) { return mpq_sgn(c.get_mpq_t()); }
};
inline std::string str(const Pol& p) {
  std::string r;
  for (auto& x: p.t) r += (r.empty() ? "": " + ") + str(x.first) + "*" + x.second.get_str();
  return r.empty() ? "0": r;
}
inline Pol add(const Pol& a, const Pol& b, const mpq_class& k=1) {
  Pol r(a); for (auto& x: b.t) r.addTerm(x.first, x.second * k); return r;
}
inline Mon mul(const Mon& a, const Mon& b) {
  Mon r(a.pos == -1 ? b.pos: a.pos, a.e);
  for (size_t i=0; i < r.e.size(); i++) r.e[i] += b.e[i];
  return r;
}
inline Pol mul(const Pol& a, const Pol& b) {
  Pol r(a.ord());
  for (auto& x: a.t) for (auto& y: b.t) r.addTerm(mul(x.first, y.first), x.second * y.second);
  return r;
}
inline Pol scale(const Pol& a, const mpq_class& c) {
  Pol r(a.ord()); for (auto& x: a.t) r.addTerm(x.first, x.second * c); return r;
}
// a - k*x^m*b, in place
inline void subMul(Pol& a, const mpq_class& k, const std::vector<int>& m, const Pol& b) {
  for (auto& x: b.t) {
    Mon y(x.first);
    for (size_t i=0; i < m.size(); i++) y.e[i] += m[i];
    a.addTerm(y, -k * x.second);
  }
}
struct TooBig {};
struct Budget { long steps; explicit Budget(long s): steps(s) {} void use(long n) { steps -= n; if (steps < 0) throw TooBig(); } };

inline long bits(const Pol& p) {
  long b=0; for (auto& x: p.t) b += 1 + (mpz_sizeinbase(x.second.get_num_mpz_t(), 2) + mpz_sizeinbase(x.second.get_den_mpz_t(), 2)) / 64;
  return b;
}
// full normal form
inline Pol nf(Pol p, const std::vector<Pol>& g, Budget* bud=nullptr) {
  Pol r(p.ord());
  while (!p.zero()) {
    const Pol* d=nullptr;
    for (auto& q: g) if (!q.zero() && divides(q.lm(), p.lm())) { d = &q; break; }
    if (!d) { r.t.insert(*p.t.begin()); p.t.erase(p.t.begin()); }
    else {
      if (bud) bud->use(bits(*d) + bits(p) / 8 + 1);
      std::vector<int> m(p.lm().e);
      for (size_t i=0; i < m.size(); i++) m[i] -= d->lm().e[i];
      mpq_class k=p.lc() / d->lc();
      subMul(p, k, m, *d);
    }
  }
  return r;
}
inline Pol monic(const Pol& p) { return p.zero() ? p: scale(p, mpq_class(1) / p.lc()); }
inline Mon lcm(const Mon& a, const Mon& b) {
  Mon r(a); for (size_t i=0; i < r.e.size(); i++) r.e[i] = std::max(a.e[i], b.e[i]); return r;
}
inline Pol spol(const Pol& a, const Pol& b) {
  Mon l=lcm(a.lm(), b.lm());
  std::vector<int> m1(l.e), m2(l.e);
  for (size_t i=0; i < m1.size(); i++) { m1[i] -= a.lm().e[i]; m2[i] -= b.lm().e[i]; }
  Pol r(a.ord());
  subMul(r, mpq_class(-1) / a.lc(), m1, a);
  subMul(r, mpq_class(1) / b.lc(), m2, b);
  return r;
}
inline bool coprime(const Mon& a, const Mon& b) {
  for (size_t i=0; i < a.e.size(); i++) if (a.e[i] && b.e[i]) return false;
  return true;
}
// turn a Groebner basis into the reduced monic one, sorted by leading monomial
inline std::vector<Pol> reduced(std::vector<Pol> g, Budget* bud=nullptr) {
  std::vector<Pol> m;
  std::sort(g.begin(), g.end(), [](const Pol& a, const Pol& b) {
    if (a.zero() || b.zero()) return !a.zero() && b.zero();
    return a.lm().deg() != b.lm().deg() ? a.lm().deg() < b.lm().deg(): a.lm() < b.lm(); });
  for (auto& p: g) {
    if (p.zero()) continue;
    bool d=false;
    for (auto& q: m) if (divides(q.lm(), p.lm())) { d=true; break; }
    if (!d) m.push_back(p);
  }
  std::vector<Pol> r;
  for (size_t i=0; i < m.size(); i++) {
    std::vector<Pol> o;
    for (size_t j=0; j < m.size(); j++) if (j != i) o.push_back(m[j]);
    r.push_back(monic(nf(m[i], o, bud)));
  }
  std::sort(r.begin(), r.end(), [](const Pol& a, const Pol& b) { return a.lm() < b.lm(); });
  return r;
}
inline bool isGB(const std::vector<Pol>& g, std::string* why, Budget* bud=nullptr) {
  for (size_t i=0; i < g.size(); i++)
    for (size_t j=i+1; j < g.size(); j++) {
      if (g[i].lm().pos != g[j].lm().pos) continue;
      bool one=true; // product criterion is valid only for elements of one component throughout
      for (auto& x: g[i].t) if (x.first.pos != -1) { one=false; break; }
      for (auto& x: g[j].t) if (x.first.pos != -1) { one=false; break; }
      if (one && coprime(g[i].lm(), g[j].lm())) continue;
      Pol s=nf(spol(g[i], g[j]), g, bud);
      if (!s.zero()) {
        if (why) *why = "S(" + str(g[i].lm()) + "," + str(g[j].lm()) + ") -> " + str(s.lm()) + " with " + std::to_string(s.t.size()) + " terms";
        return false;
      }
    }
  return true;
}
inline std::vector<Pol> buchberger(const std::vector<Pol>& f, Budget& bud) {
  std::vector<Pol> g;
  struct P { int d; size_t i, j; bool operator<(const P& b) const { return d != b.d ? d < b.d: i != b.i ? i < b.i: j < b.j; } };
  std::set<P> q;
  auto push=[&](const Pol& p) {
    size_t n=g.size(); g.push_back(p);
    for (size_t i=0; i < n; i++)
      if (g[i].lm().pos == p.lm().pos) {
        bool one=true;
        for (auto& x: g[i].t) if (x.first.pos != -1) { one=false; break; }
        for (auto& x: p.t) if (x.first.pos != -1) { one=false; break; }
        if (one && coprime(g[i].lm(), p.lm())) continue;
        q.insert(P{lcm(g[i].lm(), p.lm()).deg(), i, n});
      }
  };
  for (auto& p: f) {
    Pol r=nf(p, g, &bud);
    if (!r.zero()) push(monic(r));
  }
  while (!q.empty()) {
    P x=*q.begin(); q.erase(q.begin());
    bool chain=false; // Buchberger's chain criterion
    Mon l=lcm(g[x.i].lm(), g[x.j].lm());
    for (size_t k=0; k < g.size() && !chain; k++)
      if (k != x.i && k != x.j && divides(g[k].lm(), l)) {
        P a{lcm(g[k].lm(), g[x.i].lm()).deg(), std::min(k, x.i), std::max(k, x.i)};
        P b{lcm(g[k].lm(), g[x.j].lm()).deg(), std::min(k, x.j), std::max(k, x.j)};
        if (!q.count(a) && !q.count(b)) chain = true;
      }
    if (chain) continue;
    Pol r=nf(spol(g[x.i], g[x.j]), g, &bud);
    if (!r.zero()) {
      if (g.size() > 400) throw TooBig();
      push(monic(r));
    }
  }
  return reduced(g, &bud);
}

// standard monomials of degree <= s in component pos w.r.t. the given leading monomials
inline long standard(const std::vector<Mon>& lms, int n, int pos, int s) {
  std::vector<std::vector<int>> l;
  for (auto& m: lms) if (m.pos == pos) l.push_back(m.e);
  std::vector<int> e(n, 0); long c=0;
  struct R { static void go(std::vector<int>& e, int v, int left, const std::vector<std::vector<int>>& l, long& c) {
    if (v == (int)e.size()) {
      for (auto& m: l) {
        bool d=true;
        for (size_t i=0; i < m.size(); i++) if (m[i] > e[i]) { d=false; break; }
        if (d) return;
      }
      ++c; return;
    }
    for (int k=0; k <= left; k++) { e[v]=k; go(e, v+1, left-k, l, c); }
    e[v]=0;
  } };
  R::go(e, 0, s, l, c);
  return c;
}

} // namespace ref
#endif
