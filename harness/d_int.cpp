// Monitors of arbitrary-precision integers: values against GMP's own C++ class through
// the textual interface only, plus ring laws, storage accounting and operand integrity.
#include "vh.hpp"
#include "conv.hpp"
#include <gmpxx.h>
#include <memory>
using namespace GInv;
using vh::Rng;

static mpz_class rint(Rng& r, int limbs) {
  mpz_class a=0;
  int n=r.range(0, limbs), mode=r.range(0, 6);
  for (int i=0; i < n; i++) {
    uint64_t w=mode == 0 ? ~0ull: mode == 1 ? 0: mode == 2 ? (1ull << 63): r.next();
    a = (a << 64) + mpz_class((unsigned long)w);
  }
  if (mode == 1 && n) a = (mpz_class(1) << (64 * n - r.range(0, 2)));
  if (mode == 3) a = r.range(0, 20);
  if (mode == 4) a >>= r.range(0, 63);
  if (mode == 5 && n) a += r.range(-2, 2);
  if (r.chance(1, 2)) a = -a;
  return a;
}
struct Cell { std::unique_ptr<Integer> i; mpz_class v; };
static void check(const Integer& i, const mpz_class& v, const char* where) {
  std::string s=i.get_str(10);
  vh::okf(s == v.get_str(10), "value", [&] { return std::string(where) + ": " + s.substr(0, 200) + " expected " + v.get_str(10).substr(0, 200); });
  vh::ok(i.sgn() == sgn(v), "sign", where);
  vh::ok(i.isZero() == (v == 0), "isZero", where);
  vh::ok(i.isOne() == (v == 1), "isOne", where);
  vh::ok(i.isAbsOne() == (abs(v) == 1), "isAbsOne", where);
  vh::ok(i.norm() == (int)mpz_size(v.get_mpz_t()), "norm", where);
}
static void arith(Rng& r, int size) {
  Allocator al[2];
  {
    std::vector<Cell> c(4);
    int L=1 + r.range(0, size);
    for (auto& x: c) { x.v = rint(r, L); x.i.reset(new Integer(&al[r.range(0, 1)], conv::lit(r, x.v).c_str())); check(*x.i, x.v, "parse"); }
    std::string trace;
    for (int op=0; op < 8 + size * 2; op++) {
      int i=r.range(0, 3), j=r.range(0, 3), k=r.range(0, 3);
      Integer &I=*c[i].i, &J=*c[j].i, &K=*c[k].i; mpz_class &a=c[i].v, &b=c[j].v, &d=c[k].v;
      int o=r.range(0, 20);
      if (mpz_sizeinbase(a.get_mpz_t(), 2) + mpz_sizeinbase(b.get_mpz_t(), 2) > 40000 && (o == 4 || o == 5)) o = 2;
      trace += (char)('a' + o);
      switch (o) {
        case 0: I.add(J); a += b; break;
        case 1: if (i == j || i == k) continue; I.add(J, K); a = b + d; break;
        case 2: I.sub(J); a -= b; break;
        case 3: if (i == j || i == k) continue; I.sub(J, K); a = b - d; break;
        case 4: I.mult(J); a *= b; break;
        case 5: if (i == j || i == k) continue; I.mult(J, K); a = b * d; break;
        case 6: { if (b == 0) continue; vh::ok(I.divisible(J) == (mpz_divisible_p(a.get_mpz_t(), b.get_mpz_t()) != 0), "divisible"); if (a % b != 0 || i == j) continue; I.div(J); a /= b; break; }
        case 7: if (i == j || i == k || d == 0 || b % d != 0) continue; I.div(J, K); a = b / d; break;
        case 8: if (a == 0 || b == 0) continue; I.gcd(J); a = gcd(a, b); break;
        case 9: if (i == j || i == k || b == 0 || d == 0) continue; I.gcd(J, K); a = gcd(b, d); break;
        case 10: I.set_neg(); a = -a; break;
        case 11: { long v=r.chance(1, 3) ? (r.chance(1, 2) ? LONG_MIN: LONG_MAX): r.range(-5, 5); I.set_si(v); a = v; break; }
        case 12: { unsigned long v=r.chance(1, 3) ? ULONG_MAX: (unsigned long)r.range(0, 5); I.set_ui(v); a = v; break; }
        case 13: if (i == j) continue; I = *(const Integer*)&J; a = b; break;
        case 14: if (i == j) continue; I.swap(J); std::swap(a, b); break;
        case 15: c[i].i.reset(new Integer(&al[r.range(0, 1)], J)); if (i == j) continue; a = b; break;
        case 16: { Integer t(std::move(I)); check(t, a, "moved to"); c[i].i.reset(new Integer(&al[0], t)); break; }
        case 17: { Integer t(&al[r.range(0, 1)], conv::lit(r, b).c_str()); if (i == j) continue; I = std::move(t); a = b; break; }
        case 18: a = rint(r, L); c[i].i.reset(new Integer(&al[r.range(0, 1)], conv::lit(r, a).c_str())); break;
        case 19: // make exact division possible: I = J * K
          if (i == j || i == k) continue; I.mult(J, K); a = b * d; if (d != 0) { I.div(K); a = b; } break;
        default: { Integer z(&al[0]); check(z, 0, "default"); z.add(J); check(z, b, "zero plus"); z.sub(J); check(z, 0, "difference of equals"); z.mult(J); check(z, 0, "zero times"); }
      }
      check(*c[i].i, c[i].v, "result");
      for (int q=0; q < 4; q++) if (q != i) check(*c[q].i, c[q].v, "other operand");
      vh::count("operations");
    }
    vh::seen(trace + c[0].v.get_str(16).substr(0, 40));
  }
  vh::ok(al[0].size() == 0 && al[1].size() == 0, "integer-memory-not-returned", vh::str(al[0].size()) + " " + vh::str(al[1].size()));
}
// ring laws, independent of any other integer implementation
static void laws(Rng& r, int size) {
  Allocator al[1];
  mpz_class x=rint(r, size), y=rint(r, size), z=rint(r, size);
  Integer a(al, conv::lit(r, x).c_str()), b(al, conv::lit(r, y).c_str()), c(al, conv::lit(r, z).c_str());
  Integer s(al), t(al), u(al), v(al), w(al);
  s.add(a, b); t.mult(s, c); u.mult(a, c); v.mult(b, c); w.add(u, v);
  std::string p=t.get_str(16), q=w.get_str(16);
  vh::ok(p == q, "distributive", p + " / " + q);
  s.sub(a, b); t.sub(b, a); t.set_neg(); p = s.get_str(16); q = t.get_str(16);
  vh::ok(p == q, "antisymmetric difference");
  if (!a.isZero() && !b.isZero() && !c.isZero()) {
    u.mult(a, c); v.mult(b, c); w.gcd(u, v); t.gcd(a, b); s.mult(t, c); if (s.sgn() < 0) s.set_neg();
    p = w.get_str(16); q = s.get_str(16);
    vh::ok(p == q, "gcd scales", p + " / " + q);
    vh::ok(u.divisible(w) && v.divisible(w), "gcd divides");
    Integer d(al); d.div(u, c); p = d.get_str(10); vh::ok(p == x.get_str(10), "division undoes multiplication");
  }
  vh::seen(x.get_str(16).substr(0, 60) + "," + y.get_str(16).substr(0, 20));
}
// text in every base, including numbers longer than the conversion buffer
static void text(Rng& r, int size) {
  Allocator al[1];
  for (int k=0; k < 4; k++) {
    mpz_class x=rint(r, size);
    Integer a(al, conv::lit(r, x).c_str());
    int base=r.range(2, 62);
    std::string s=a.get_str(base);
    vh::okf(s == x.get_str(base), "text", [&] { return vh::str(base) + ": " + s.substr(0, 100); });
    vh::okf(mpz_class(std::string(a.get_str(16)), 16) == x, "text-round-trip", [&] { return x.get_str(16).substr(0, 100); });
    Integer b(al, conv::lit(r, x).c_str());
    std::string p=a.get_str(36), q=b.get_str(36);
    vh::ok(p == q, "literal-forms");
    vh::seen(vh::str(base) + ":" + s.substr(0, 40)); vh::count("conversions");
  }
}
static void bigtext(Rng& r, int size) {
  Allocator al[1];
  long bits=r.pick(std::vector<long>{65000, 65530, 65534, 65535, 65536, 65537, 70000, 131072, 200000, 300000}) + r.range(0, 40) * size;
  mpz_class x=(mpz_class(1) << bits) - r.range(0, 1);
  if (r.chance(1, 2)) x = x * 3 - r.range(0, 100);
  if (r.chance(1, 2)) x = -x;
  Integer a(al, conv::lit(r, x).c_str());
  int base=r.chance(2, 3) ? 2: r.range(2, 16);
  std::string s=a.get_str(base);
  vh::ok(s == x.get_str(base), "long-text", vh::str(base) + " bits " + vh::str(bits));
  Integer one(al, "1"); vh::ok(std::string(one.get_str(2)) == "1", "short-after-long");
  s = a.get_str(base);
  vh::ok(s == x.get_str(base), "long-text-again");
  vh::seen(vh::str(bits) + "/" + vh::str(base)); vh::count("long_conversions");
}
int main(int c, char** v) {
  return vh::main_(c, v, {{"arith", arith, 4, 30, true}, {"laws", laws, 1, 40, true}, {"text", text, 2, 60, true}, {"bigtext", bigtext, 1, 20, false}});
}
