// C01: field arithmetic
#include "common.hpp"
template <int P> void ints() { // construction from any int and comparison with any int follow residues
  typedef ModP<int, P> F; int a = bsx::sym("a", -200, 200), b = bsx::sym("b", -200, 200); F x(a);
  REQUIRE(x.to_int() == md(a, P)); REQUIRE(x.iszero() == (md(a, P) == 0));
  REQUIRE((x == b) == (md(a - b, P) == 0)); REQUIRE((x != b) == (md(a - b, P) != 0)); REQUIRE((x == F(b)) == (md(a - b, P) == 0)); REQUIRE((x != F(b)) == (md(a - b, P) != 0));
  F y(1); y = b; REQUIRE(y.to_int() == md(b, P)); REQUIRE((x < F(b)) == (md(a, P) < md(b, P)));
  F z; REQUIRE(z.iszero()); bsx::obs(x.to_int()); bsx::obs(x == b); END();
}
template <int P> void ops() {
  typedef ModP<int, P> F; int a = bsx::sym("a", -P, 2 * P), b = bsx::sym("b", -P, 2 * P); const F x(a), y(b);
  REQUIRE((x + y).to_int() == md(a + b, P)); REQUIRE((x - y).to_int() == md(a - b, P)); REQUIRE((x * y).to_int() == md(md(a, P) * md(b, P), P));
  { F m(a); REQUIRE((-m).to_int() == md(-a, P)); REQUIRE((-m + x).iszero()); }
  { F c(x); c += y; REQUIRE(c == x + y); c -= y; REQUIRE(c == x); c *= y; REQUIRE(c == x * y); }
  { F c(x); F& r = (c += y); REQUIRE(&r == &c); F& r2 = (c -= y); REQUIRE(&r2 == &c); F& r3 = (c *= y); REQUIRE(&r3 == &c); }
  REQUIRE((x - x).iszero()); REQUIRE((x - y).to_int() < P && (x - y).to_int() >= 0);
  bsx::obs((x * y).to_int()); END();
}
template <int P> void inv() {
  typedef ModP<int, P> F; int a = bsx::sym("a", 0, P - 1), b = bsx::sym("b", -P, 2 * P); const F x(a), y(b);
  bool threw = false; F q; try { q = y / x; } catch (...) { threw = true; } REQUIRE(threw == (a == 0));
  bool t2 = false; F i; try { i = x.inv(); } catch (...) { t2 = true; } REQUIRE(t2 == (a == 0));
  bool t3 = false; F d(y); try { d /= x; } catch (...) { t3 = true; } REQUIRE(t3 == (a == 0));
  if (a != 0) { REQUIRE(q * x == y); REQUIRE(i * x == F(1)); REQUIRE(d == q); REQUIRE((x / x) == 1); REQUIRE(i.inv() == x); }
  bsx::obs(q.to_int()); bsx::obs(i.to_int()); END();
}
template <int P> void axioms() {
  typedef ModP<int, P> F; const F x(bsx::sym("x", 0, P - 1)), y(bsx::sym("y", 0, P - 1)), z(bsx::sym("z", 0, P - 1));
  REQUIRE((x + y) + z == x + (y + z)); REQUIRE((x * y) * z == x * (y * z)); REQUIRE(x * (y + z) == x * y + x * z); REQUIRE(x + y == y + x); REQUIRE(x * y == y * x);
  REQUIRE(x + F(0) == x); REQUIRE(x * F(1) == x); REQUIRE(!((x * y).iszero()) || x.iszero() || y.iszero());
  bsx::obs((x * (y + z)).to_int()); END();
}
#define ALL(P) BSX_ENTRY(ints##P) { ints<P>(); } BSX_ENTRY(ops##P) { ops<P>(); } BSX_ENTRY(inv##P) { inv<P>(); } BSX_ENTRY(axioms##P) { axioms<P>(); }
ALL(2) ALL(3) ALL(5) ALL(7)
#if BSX_TIER
ALL(11) ALL(13) ALL(31) ALL(101)
#endif
// rationals: reference in 64-bit cross-multiplied integers
typedef Rational<int> Q; 
struct R { long n, d; };
static bool req(R a, R b) { return a.n * b.d == b.n * a.d; }
BSX_ENTRY(rational) {
  const int N = TIER(4, 7), D = TIER(3, 5); int an = bsx::pick("an", -N, N), ad = bsx::pick("ad", -D, D), bn = bsx::pick("bn", -N, N), bd = bsx::pick("bd", -D, D); ASSUME(ad != 0 && bd != 0);
  const Q x(an, ad), y(bn, bd); auto chk = [](const Q& q, long n, long d) { Q r((int)n, (int)d); return q == r; };
  REQUIRE(chk(x + y, (long)an * bd + (long)bn * ad, (long)ad * bd)); REQUIRE(chk(x - y, (long)an * bd - (long)bn * ad, (long)ad * bd)); REQUIRE(chk(x * y, (long)an * bn, (long)ad * bd));
  // order and equality agree with exact integers
  long s = (long)an * bd - (long)bn * ad; if ((ad < 0) != (bd < 0)) s = -s;
  REQUIRE((x < y) == (s < 0)); REQUIRE((x == y) == (s == 0)); REQUIRE((x != y) == (s != 0)); REQUIRE(x.iszero() == (an == 0));
  REQUIRE((x == an) == (ad == 1 || an % ad == 0 && an / ad == an)); REQUIRE((-x + x).iszero()); REQUIRE(Q(-an, -ad) == x);
  { Q c(x); c += y; REQUIRE(c == x + y); c -= y; REQUIRE(c == x); c *= y; REQUIRE(c == x * y); }
  bool th = false; try { Q q = x / y; REQUIRE(q * y == x); Q c(x); c /= y; REQUIRE(c == q); REQUIRE(y.inv() * y == 1); } catch (...) { th = true; } REQUIRE(th == (bn == 0));
  bsx::obs(x < y); bsx::obs((x + y).to_int()); END();
}
BSX_ENTRY(rational_assoc) {
  const int N = TIER(2, 3), D = TIER(2, 3); auto g = [&](const char* a, const char* b) { int n = bsx::pick(a, -N, N), d = bsx::pick(b, 1, D); return Q(n, d); };
  const Q x = g("xn", "xd"), y = g("yn", "yd"), z = g("zn", "zd"); REQUIRE((x + y) + z == x + (y + z)); REQUIRE(x * (y + z) == x * y + x * z); REQUIRE((x * y) * z == x * (y * z)); END();
}
