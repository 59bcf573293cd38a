// Bridges between GInv's objects (public interface only) and the reference algebra.
#ifndef VH_CONV_HPP
#define VH_CONV_HPP
#include "vh.hpp"
#include "algebra.hpp"
#include "util/integer.h"
#include "ginv/monom.h"
#include "ginv/poly_int.h"
namespace conv {
using namespace GInv;
inline ref::Mon mon(const Monom& m) {
  ref::Mon r; r.pos = m.pos();
  for (int i=0; i < m.size(); i++) r.e.push_back(m[i]);
  return r;
}
inline mpz_class num(const Integer& a) { return mpz_class(a.get_str(10), 10); }
inline std::string hex(const mpz_class& a) {
  std::string s=a.get_str(16);
  return s[0] == '-' ? "-0x" + s.substr(1): "0x" + s;
}
// a text of the integer that GMP reads: decimal, octal, hexadecimal or binary, now and then with leading zeros
inline std::string lit(vh::Rng& r, const mpz_class& a) {
  std::string s, sign=sgn(a) < 0 || (a == 0 && r.chance(1, 4)) ? "-": "", z=r.chance(1, 4) ? std::string(r.range(1, r.chance(1, 4) ? 40: 3), '0'): "";
  mpz_class b=abs(a);
  switch (r.range(0, 5)) {
    case 0: case 1: return sign + "0x" + z + b.get_str(16);
    case 2: return sign + b.get_str(10);
    case 3: s = b.get_str(16); for (char& c: s) c = toupper(c); return sign + "0X" + z + s;
    case 4: return sign + "0b" + z + b.get_str(2);
    default: return sign + "0" + z + b.get_str(8);
  }
}
// a Monom with the given exponents, built through the public constructors only
struct MonomBox {
  Allocator a; Monom* m;
  explicit MonomBox(const ref::Mon& r): m(nullptr) {
    m = new Monom(&a, (int)r.e.size(), r.pos);
    for (size_t i=0; i < r.e.size(); i++)
      if (r.e[i]) {
        Monom v(&a, (Monom::Variable)i, (int)r.e.size(), -1), p(&a, v, r.e[i]);
        m->mult(p);
      }
  }
  MonomBox(const MonomBox&)=delete;
  ~MonomBox() { delete m; }
};
// append c*m to p
inline void pushTerm(PolyInt& p, const ref::Mon& m, const mpz_class& c) {
  MonomBox b(m); Allocator al[1];
  PolyInt t(al, p.order(), *b.m);
  t.mult(hex(c).c_str());
  p.add(t);
}
inline void build(PolyInt& p, const ref::Pol& f) {
  for (auto& x: f.t) pushTerm(p, x.first, x.second.get_num());
}
inline ref::Pol pol(const PolyInt& p) {
  ref::Pol r(p.order());
  for (PolyInt::ConstIterator i(p.begin()); i; ++i) r.addTerm(mon(i.monom()), mpq_class(num(i.coeff())));
  return r;
}
// the polynomial is stored canonically: strictly decreasing, no zero coefficient
inline void canonical(const PolyInt& p, const char* where) {
  ref::Mon prev; bool first=true; long n=0;
  for (PolyInt::ConstIterator i(p.begin()); i; ++i, ++n) {
    ref::Mon m=mon(i.monom());
    int d=0; for (int x: m.e) { vh::ok(x >= 0, "negative-exponent", where); d += x; }
    vh::ok(d == i.monom().degree(), "degree-field", where);
    vh::ok((int)m.e.size() == p.size(), "size-field", where);
    vh::okf(!i.coeff().isZero(), "zero-coefficient", [&] { return std::string(where) + " at " + ref::str(m); });
    if (!first)
      vh::okf(ref::cmp(p.order(), prev, m) > 0, "not-decreasing", [&] { return std::string(where) + ": " + ref::str(prev) + " before " + ref::str(m); });
    prev = m; first = false;
  }
  vh::ok(n == p.length(), "length", where);
}
}
#endif
