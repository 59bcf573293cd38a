// Random and classical polynomial systems.
#ifndef VH_GBGEN_HPP
#define VH_GBGEN_HPP
#include "vh.hpp"
#include "algebra.hpp"
namespace gen {
using vh::Rng;
inline ref::Mon rmon(Rng& r, int n, int deg, int pos=-1) {
  ref::Mon m(pos, std::vector<int>(n, 0));
  int d=r.range(0, deg);
  for (int i=0; i < d; i++) m.e[r.range(0, n-1)]++;
  return m;
}
inline ref::Pol rpol(Rng& r, int ord, int n, int deg, int terms, int coef, int pos0=-1, int pos1=-1) {
  ref::Pol p(ord);
  for (int i=0; i < terms; i++) {
    long c=r.range(1, coef); if (r.chance(1, 2)) c = -c;
    p.addTerm(rmon(r, n, deg, r.range(pos0, pos1)), mpq_class(c));
  }
  return p;
}
inline std::vector<ref::Pol> parse(int ord, int n, const std::vector<std::vector<std::pair<long, std::vector<int>>>>& d) {
  std::vector<ref::Pol> r;
  for (auto& p: d) {
    ref::Pol q(ord);
    for (auto& t: p) { std::vector<int> e(t.second); e.resize(n, 0); q.addTerm(ref::Mon(-1, e), mpq_class(t.first)); }
    r.push_back(q);
  }
  return r;
}
inline std::vector<ref::Pol> cyclic(int ord, int n) {
  std::vector<ref::Pol> r;
  for (int k=1; k <= n; k++) {
    ref::Pol p(ord);
    if (k < n)
      for (int i=0; i < n; i++) {
        std::vector<int> e(n, 0);
        for (int j=0; j < k; j++) e[(i+j) % n]++;
        p.addTerm(ref::Mon(-1, e), 1);
      }
    else {
      p.addTerm(ref::Mon(-1, std::vector<int>(n, 1)), 1);
      p.addTerm(ref::Mon(-1, std::vector<int>(n, 0)), -1);
    }
    r.push_back(p);
  }
  return r;
}
inline std::vector<ref::Pol> katsura(int ord, int n) { // n+1 variables
  std::vector<ref::Pol> r; int N=n+1;
  auto var=[&](int i) { std::vector<int> e(N, 0); e[i < 0 ? -i: i] = 1; return e; };
  for (int m=0; m < n; m++) {
    ref::Pol p(ord);
    for (int i=-n; i <= n; i++) {
      int j=m - i;
      if (j < -n || j > n) continue;
      std::vector<int> a=var(i), b=var(j);
      for (int k=0; k < N; k++) a[k] += b[k];
      p.addTerm(ref::Mon(-1, a), 1);
    }
    p.addTerm(ref::Mon(-1, var(m)), -1);
    r.push_back(p);
  }
  ref::Pol p(ord);
  for (int i=-n; i <= n; i++) p.addTerm(ref::Mon(-1, var(i)), 1);
  p.addTerm(ref::Mon(-1, std::vector<int>(N, 0)), -1);
  r.push_back(p);
  return r;
}
}
#endif
