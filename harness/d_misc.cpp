// Monitors of permutations, Hilbert polynomials as data, timers.
#include "vh.hpp"
#include "util/randpermutation.h"
#include "util/hilbertpoly.h"
#include "util/timer.h"
#include "util/allocator.h"
#include "ginv/monom.h"
#include "conv.hpp"
#include <gmpxx.h>
#include <cmath>
#include <sys/times.h>
#include <sys/syscall.h>
using namespace GInv;
using vh::Rng;

// ---- permutations
static void perm(Rng& r, int size) {
  int n=r.range(1, 1 + 3 * size);
  RandPermutation p(n);
  std::mt19937 g((unsigned)r.next());
  vh::ok(p.size() == n, "size");
  for (int k=0; k < 5; k++) {
    std::vector<int> c(n, 0), v;
    for (int i=0; i < n; i++) { int x=p[i]; vh::ok(0 <= x && x < n, "range"); c[x]++; v.push_back(x); }
    for (int i=0; i < n; i++) vh::ok(c[i] == 1, "not-a-permutation");
    if (k == 0) for (int i=0; i < n; i++) vh::ok(v[i] == i, "initially-identity");
    std::ostringstream o; o << p; std::string s="(";
    for (int i=0; i < n; i++) s += (i ? " ": "") + vh::str(v[i]);
    vh::ok(o.str() == s + ")", "text", o.str());
    vh::seen(s); vh::count("permutations");
    p.next(g);
  }
  // same generator state, same shuffles
  unsigned sd=(unsigned)r.next(); std::mt19937 g1(sd), g2(sd);
  RandPermutation a(n), b(n);
  for (int k=0; k < 3; k++) { a.next(g1); b.next(g2); for (int i=0; i < n; i++) vh::ok(a[i] == b[i], "not-reproducible"); }
  RandPermutation_mt19937 m(n); m.next();
  std::vector<int> c(n, 0); for (int i=0; i < n; i++) c[m[i]]++;
  for (int i=0; i < n; i++) vh::ok(c[i] == 1, "not-a-permutation (own generator)");
}
// every arrangement equally often (chi-square far beyond any plausible fluctuation), and
// from any starting arrangement
static void uniform(Rng& r, int size) {
  int n=r.range(2, 5), f=1; for (int i=2; i <= n; i++) f *= i;
  RandPermutation p(n); std::mt19937 g((unsigned)r.next());
  long N=400l * f; std::map<std::vector<int>, long> h;
  // either what one shuffle does to the arrangement before it, or the arrangements themselves
  bool step=r.chance(2, 3); std::vector<int> old(n), v(n), inv(n);
  for (int i=0; i < n; i++) old[i]=p[i];
  for (long k=0; k < N; k++) {
    p.next(g); for (int i=0; i < n; i++) v[i]=p[i];
    if (step) { std::vector<int> q(n); for (int i=0; i < n; i++) inv[old[i]]=i; for (int i=0; i < n; i++) q[i]=inv[v[i]]; h[q]++; old=v; }
    else h[v]++;
  }
  double e=(double)N / f, x=0; for (auto& q: h) x += (q.second - e) * (q.second - e) / e;
  x += (f - (double)h.size()) * e;
  double df=f-1, lim=df + 12 * std::sqrt(2 * df) + 40;
  vh::okf(x < lim, "not-uniform", [&] { return "n " + vh::str(n) + " chi2 " + vh::str(x) + " limit " + vh::str(lim); });
  vh::ok((long)h.size() == f, "arrangement-never-drawn");
  vh::seen("u" + vh::str(n) + ":" + vh::str((long)x)); vh::count("shuffles", N);
}
// shuffles of many elements: where they come to lie, and how often neighbours or places are kept
static void bigperm(Rng& r, int size) {
  int n=r.chance(1, 3) ? r.range(6, 40): r.chance(1, 2) ? r.range(41, 300): r.chance(1, 9) && size > 3 && !vh::slow ? r.range(33000, 70000): r.range(301, 3000), B=r.range(2, n < 16 ? 3: 8);
  RandPermutation p(n); std::mt19937 g((unsigned)r.next());
  long N=n > 30000 ? 40: 200 + 40000 / n, fixed=0, next=0; bool step=r.chance(1, 2);
  std::vector<int> old(n), v(n), inv(n); std::vector<long> T(B * B, 0);
  auto bin=[&](int i) { return (int)((long)i * B / n); };
  std::vector<long> width(B, 0); for (int i=0; i < n; i++) { old[i] = p[i]; width[bin(i)]++; }
  for (long k=0; k < N; k++) {
    p.next(g); std::vector<char> c(n, 0);
    for (int i=0; i < n; i++) { v[i] = p[i]; vh::ok(0 <= v[i] && v[i] < n && !c[v[i]], "not-a-permutation", vh::str(n)); c[v[i]] = 1; }
    int last=-2; if (step) for (int i=0; i < n; i++) inv[old[i]] = i;
    for (int i=0; i < n; i++) { int q=step ? inv[v[i]]: v[i]; T[bin(i) * B + bin(q)]++; fixed += q == i; next += q == last + 1; last = q; }
    old = v;
  }
  double x=0; for (int i=0; i < B; i++) for (int j=0; j < B; j++) { double e=(double)N * width[i] * width[j] / n, d=T[i * B + j] - e; x += d * d / e; }
  double df=(B - 1) * (B - 1), lim=df * 1.3 + 12 * std::sqrt(2 * df * 1.7) + 40;
  vh::okf(x < lim, "not-uniform", [&] { return "n " + vh::str(n) + " in " + vh::str(B) + " parts: chi2 " + vh::str(x) + " limit " + vh::str(lim); });
  double tol=12 * std::sqrt((double)N) + 20;
  vh::okf(std::fabs(fixed - (double)N) < tol, "kept-places", [&] { return "n " + vh::str(n) + ": " + vh::str(fixed) + " of " + vh::str(N); });
  vh::okf(std::fabs(next - (double)N * (n - 1) / n) < tol, "kept-neighbours", [&] { return "n " + vh::str(n) + ": " + vh::str(next) + " of " + vh::str(N); });
  vh::seen("b" + vh::str(n) + ":" + vh::str((long)(100 * x))); vh::count("shuffles", N); if (n > 300) vh::count("shuffles_of_more_than_300", N);
}
// renaming the variables of a monomial by a permutation
static void monperm(Rng& r, int size) {
  int n=r.chance(1, 6) ? r.range(20, 300): r.range(1, 2 + size); ref::Mon m(r.range(-1, 3), std::vector<int>(n, 0));
  for (int& e: m.e) e = r.chance(1, 3) ? 0: r.range(0, 9);
  conv::MonomBox b(m), t(ref::Mon(-1, std::vector<int>(n, 0)));
  RandPermutation p(n); std::mt19937 g((unsigned)r.next()); p.next(g);
  t.m->permutation(*b.m, p);
  vh::ok(t.m->size() == n && t.m->degree() == b.m->degree(), "degree-changed");
  std::vector<int> s1, s2; std::map<int, int> z;
  for (int i=0; i < n; i++) { s1.push_back((*b.m)[i]); s2.push_back((*t.m)[i]); }
  bool fwd=true, bwd=true;
  for (int i=0; i < n; i++) { fwd = fwd && (*t.m)[p[i]] == (*b.m)[i]; bwd = bwd && (*t.m)[i] == (*b.m)[p[i]]; }
  vh::okf(fwd || bwd, "not-permuted", [&] { return ref::str(m) + " -> " + ref::str(conv::mon(*t.m)) + " by " + vh::str(p); });
  // the same renaming is used for every monomial: products are preserved
  ref::Mon m2(-1, std::vector<int>(n, 0)); for (int& e: m2.e) e = r.range(0, 4);
  conv::MonomBox b2(m2), t2(m2), tp(m2), bp(ref::Mon(-1, m.e));
  bp.m->mult(*b2.m);
  t2.m->permutation(*b2.m, p); tp.m->permutation(*bp.m, p);
  for (int i=0; i < n; i++) vh::ok((*tp.m)[i] == (*t.m)[i] + (*t2.m)[i], "not-a-homomorphism");
  vh::seen(ref::str(m) + vh::str(p));
}

// ---- Hilbert polynomials
typedef std::vector<mpq_class> Q;
static Q binom(long a, unsigned long b, int dim) { // C(s+a, b) as a polynomial in s
  Q q(dim + 1); q[0] = 1; int d=0;
  for (unsigned long i=0; i < b; i++) { // times (s + a - i) / (i + 1)
    Q n(dim + 1);
    for (int k=0; k <= d; k++) { n[k+1] += q[k]; n[k] += q[k] * mpq_class(a - (long)i); }
    ++d;
    for (auto& x: n) x /= mpq_class((long)i + 1);
    q = n;
  }
  return q;
}
static void checkHP(const HilbertPoly& h, const Q& q, const char* where) {
  vh::ok(h.dim() == (int)q.size() - 1, "dimension", where);
  for (size_t k=0; k < q.size(); k++) {
    std::string s=h[k];
    vh::okf(s == q[k].get_str(), "coefficient", [&] { return std::string(where) + " s^" + vh::str(k) + ": " + s + " expected " + q[k].get_str(); });
    vh::ok(h.isZero(k) == (q[k] == 0), "isZero", where);
  }
}
static mpq_class eval(const Q& q, long s) { mpq_class v=0; for (size_t k=q.size(); k-- > 0; ) v = v * s + q[k]; return v; }
static void hilbert(Rng& r, int size) {
  int dim=r.range(0, 1 + size);
  if (r.chance(1, 10)) dim = 1; else if (r.chance(1, 60)) dim = size > 9 && !vh::slow && r.chance(1, 5) ? r.range(100, 270): r.range(14, 45);
  std::vector<HilbertPoly*> h; std::vector<Q> q;
  for (int i=0; i < 3; i++) {
    HilbertPoly* x=r.chance(1, 2) ? new HilbertPoly(dim): new HilbertPoly;
    if (x->dim() < 0) x->setDim(dim);
    h.push_back(x); q.push_back(Q(dim + 1)); checkHP(*x, q.back(), "initial");
  }
  struct Z { std::vector<HilbertPoly*>& v; ~Z() { for (auto p: v) delete p; } } z{h};
  for (int op=0; op < 12; op++) {
    int i=r.range(0, 2), j=r.range(0, 2);
    switch (r.range(0, 4)) {
      case 0: case 1: { long a=r.chance(1, 5) ? r.chance(1, 3) ? r.range(-(1l << 40), 1l << 40): r.range(-100000, 100000): r.range(-12, 12); unsigned long b=r.range(0, dim);
        vh::desc("binomial " + vh::str(a) + "," + vh::str(b) + " ");
        h[i]->binomial(a, b); q[i] = binom(a, b, dim); vh::count("binomials");
        // the defining values: product over b consecutive integers, divided by b!
        for (long s=-3; s < 6; s++) { mpz_class v=1, f=1; for (unsigned long k=0; k < b; k++) { v *= s + a - (long)k; f *= (long)k + 1; } vh::ok(eval(q[i], s) == mpq_class(v) / f, "oracle"); }
        break; }
      case 2: h[i]->add(*h[j]); { Q t=q[j]; for (int k=0; k <= dim; k++) q[i][k] += t[k]; } break;
      case 3: h[i]->sub(*h[j]); { Q t=q[j]; for (int k=0; k <= dim; k++) q[i][k] -= t[k]; } break;
      default: { int a=r.chance(1, 8) ? (r.chance(1, 2) ? 2147483647: -2147483647): r.range(-7, 7); h[i]->mult(a); for (auto& x: q[i]) x *= a; }
    }
    for (int k=0; k < 3; k++) checkHP(*h[k], q[k], "step");
    // printed form: descending powers, signs as separators
    std::ostringstream o; o << *h[i]; std::string s; bool sep=false;
    for (int k=dim; k >= 0; k--) if (q[i][k] != 0) {
      std::string c=q[i][k].get_str();
      if (!sep) s += c; else if (c[0] == '-') s += " - " + c.substr(1); else s += " + " + c;
      if (k) s += "s^" + vh::str(k);
      sep = true;
    }
    vh::okf(o.str() == s || (s.empty() && o.str() == "0"), "text", [&] { return o.str() + " expected " + s; });
    if (!s.empty()) vh::seen(s);
  }
}
// coefficients longer than the conversion buffer
static void hilbertbig(Rng& r, int size) {
  HilbertPoly h(1); Q q(2);
  h.binomial(r.range(1, 1000), 1); q = binom(strtol(h[0], 0, 10), 1, 1);
  int a=2147483647; mpq_class f=a;
  int n=r.chance(1, 16) ? 7100 + r.range(0, 40): r.range(1, 90);
  for (int i=0; i < n; i++) h.mult(a);
  mpz_class p; mpz_pow_ui(p.get_mpz_t(), f.get_num().get_mpz_t(), n);
  q[0] *= p; q[1] *= p;
  checkHP(h, q, "long"); checkHP(h, q, "long again"); vh::count("long_coefficients"); vh::seen(vh::str(n));
}

// ---- timers, against an independent clock
static void spin(double s) { double t=vh::cpu(); volatile unsigned x=0; while (vh::cpu() - t < s) for (int i=0; i < 1000; i++) x += i; }
// keeps the kernel busy for a while
static void sysspin(double s) { double t=vh::cpu(); while (vh::cpu() - t < s) for (int i=0; i < 300; i++) { long q=syscall(SYS_getppid); (void)q; (void)!access("/nowhere/at/all", F_OK); } }
static void busy(Rng& r, double s) { switch (r.range(0, 3)) { case 0: spin(s); break; case 1: sysspin(s); break; case 2: spin(s / 2); sysspin(s / 2); break; default: usleep((useconds_t)(s * 1e6)); } }
struct Ticks { long long v[3]; Ticks() { tms b; v[0]=times(&b); v[1]=b.tms_utime; v[2]=b.tms_stime; } };
// the same clock read right before and right after every call: the figures have to lie
// between what these readings leave possible, exactly
static void ticks(Rng& r, int size) {
  double hz=sysconf(_SC_CLK_TCK); Timer t; long long lo[3]={0,0,0}, hi[3]={0,0,0}; static const char* nm[3]={"real", "user", "system"};
  int n=r.range(1, 2 + size); Ticks a0, a1; bool running=false;
  for (int i=0; i < n; i++) {
    // sometimes stop() comes again without cont() in between: it then measures from the last stop
    if (!running || r.chance(2, 3)) {
      bool restart=i == 0 || r.chance(1, 5); a0=Ticks();
      if (restart) { t.start(); for (int k=0; k < 3; k++) lo[k]=hi[k]=0; } else t.cont();
      a1=Ticks(); running=true; vh::seen(restart ? "start": "cont");
    }
    busy(r, r.range(0, 5) * 0.01);
    Ticks b0; t.stop(); Ticks b1;
    double f[3]={t.realTime(), t.userTime(), t.sysTime()};
    for (int k=0; k < 3; k++) {
      long long l=b0.v[k] - a1.v[k], h=b1.v[k] - a0.v[k]; lo[k] += l < 0 ? 0: l; hi[k] += h;
      vh::okf(f[k] * hz > lo[k] - 1e-3 && f[k] * hz < hi[k] + 1e-3, "bracket", [&] { return std::string(nm[k]) + " " + vh::str(f[k] * hz) + " ticks outside [" + vh::str(lo[k]) + "," + vh::str(hi[k]) + "]"; });
    }
    a0=b0; a1=b1; // what a second stop would start from
    if (r.chance(2, 3)) busy(r, r.range(1, 5) * 0.01);
    double g[3]={t.realTime(), t.userTime(), t.sysTime()};
    for (int k=0; k < 3; k++) vh::ok(f[k] == g[k], "runs-while-stopped");
    vh::count("timed_segments"); vh::seen(vh::str(hi[0]) + ":" + vh::str(hi[1]) + ":" + vh::str(hi[2]));
  }
}
static void timer(Rng& r, int size) {
  Timer t;
  vh::ok(t.userTime() == 0 && t.sysTime() == 0 && t.realTime() == 0, "fresh-timer");
  double wall=0, cpu=0; int seg=0;
  int n=r.range(1, 4);
  const double tick=0.0101;
  for (int i=0; i < n; i++) {
    bool restart=i == 0 || r.chance(1, 4);
    double a0=vh::now(), b0=vh::cpu();
    if (restart) t.start(); else t.cont();
    double a1=vh::now(), b1=vh::cpu();
    double len=r.range(0, 6) * 0.008;
    if (r.chance(1, 2)) spin(len); else usleep((useconds_t)(len * 1e6));
    double c0=vh::now(), d0=vh::cpu();
    t.stop();
    double c1=vh::now(), d1=vh::cpu();
    if (restart) { wall = cpu = 0; seg = 0; }
    // bounds of what the segment may measure
    static double wlo, whi, clo, chi; if (restart) wlo = whi = clo = chi = 0;
    ++seg;
    wlo += c0 - a1; whi += c1 - a0; clo += d0 - b1; chi += d1 - b0;
    double R=t.realTime(), C=t.userTime() + t.sysTime();
    vh::okf(R >= wlo - seg * 2 * tick && R <= whi + seg * 2 * tick, "real-time", [&] { return vh::str(R) + " outside [" + vh::str(wlo) + "," + vh::str(whi) + "]"; });
    vh::okf(C >= clo - seg * 4 * tick && C <= chi + seg * 4 * tick, "cpu-time", [&] { return vh::str(C) + " outside [" + vh::str(clo) + "," + vh::str(chi) + "]"; });
    vh::ok(t.userTime() >= 0 && t.sysTime() >= 0, "negative-time");
    if (r.chance(1, 2)) { double g=r.range(1, 3) * 0.012; usleep((useconds_t)(g * 1e6)); vh::ok(t.realTime() == R, "runs-while-stopped"); }
    // a second stop without cont keeps counting from the last stop: exercised as one more segment
    vh::count("timed_segments");
  }
  std::ostringstream o; o << t; char b[200];
  snprintf(b, sizeof b, "  real time: %.2f sec\n  user time: %.2f sec\nsystem time: %.2f sec\n", t.realTime(), t.userTime(), t.sysTime());
  vh::ok(o.str() == b, "text", o.str() + b);
  std::ostringstream p; p << t << 0.5; vh::ok(p.str() == std::string(b) + "0.5", "stream-flags", p.str());
  vh::seen(vh::str(n) + ":" + vh::str((int)(t.realTime() * 100)) + ":" + vh::str((int)(t.userTime() * 100)));
}
int main(int c, char** v) {
  return vh::main_(c, v, {{"perm", perm, 3, 20, true}, {"uniform", uniform, 1, 4, false}, {"bigperm", bigperm, 1, 4, false}, {"monperm", monperm, 3, 20, true},
    {"hilbert", hilbert, 6, 12, true}, {"hilbertbig", hilbertbig, 1, 4, false}, {"timer", timer, 4, 4, false}, {"ticks", ticks, 4, 8, false}});
}
