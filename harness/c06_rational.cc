// C06: rational arithmetic is exact and canonical. Symbolic: both operands (numerators and denominators in a range, any
// sign), the operation, aliasing of the operands.
#include "helpers/rational.h"
#include "sx.h"
#include <numeric>
#ifndef MAXN
#define MAXN 7
#endif
#ifndef SX_SHIM
static long long val(const rational_t &x) { return x.convert_to<long long>(); }
extern "C" long long sx_gcd(long long a, long long b) { return std::gcd(a, b); }
#else
static long long val(const rational_t &x) { return x.v; }
#endif
#ifndef OPLO
#define OPLO 0
#define OPHI 10
#endif
#ifndef BLO
#define BLO 0
#define BHI 0
#endif
#ifndef MAXD
#define MAXD 4
#endif
// numerators: base + symbolic offset, so that values beyond the range of int and of double are covered too
static const long long BASE[] = {0, 1LL << 31, 1LL << 53, 1000000000000LL};
static long long pick(const char *n, const char *s, int lo, long long base) { long long v = base + sx_int(n, lo, MAXN); return sx_bool(s) ? -v : v; }
static long long pickd(const char *n, bool sign) { return sx_pick(n, sign ? -MAXD : 1, MAXD); } // one path per denominator
static void canonical(const rational &r) {
  long long n = val(r.numerator()), d = val(r.denominator());
  sx_assert(d > 0, "denominator is not positive");
  sx_assert(sx_gcd(n, d) == 1, "numerator and denominator have a common factor");
}
// r equals n/d (d of any sign, nonzero)
static void denotes(const rational &r, long long n, long long d, const char *what) { sx_assert(val(r.numerator()) * d == n * val(r.denominator()), what); }
int sx_main() {
  int t = sx_pick("op", OPLO, OPHI);
  long long base = BASE[sx_pick("base", BLO, BHI)]; // products of two numerators stay within 64 bits
  long long a = t == 9 ? pickd("a", true) : pick("a", "a_neg", 0, t == 8 && base > (1LL << 31) ? BASE[1] : base), b = pickd("b", true); sx_assume(b != 0);
  rational x = rational(rational_t(a), rational_t(b));
  denotes(x, a, b, "a rational does not denote numerator / denominator"); canonical(x);
  long long c = 0, d = 1; rational y;
  if (t <= 5) { c = t == 3 ? pickd("c", true) : pick("c", "c_neg", 0, t == 2 ? 0 : base); d = pickd("d", false); y = rational(rational_t(c), rational_t(d)); }
  long long yn = val(y.numerator()), yd = val(y.denominator());
  rational r; const rational x0 = x;
  switch (t) {
  case 0: r = x + y; denotes(r, a * d + c * b, b * d, "sum is not exact"); canonical(r); x += y; sx_assert(x == r, "+= differs from +"); break;
  case 1: r = x - y; denotes(r, a * d - c * b, b * d, "difference is not exact"); canonical(r); x -= y; sx_assert(x == r, "-= differs from -"); break;
  case 2: r = x * y; denotes(r, a * c, b * d, "product is not exact"); canonical(r); x *= y; sx_assert(x == r, "*= differs from *"); break;
  case 3: sx_assume(c != 0); r = x / y; denotes(r, a * d, b * c, "quotient is not exact"); canonical(r); x /= y; sx_assert(x == r, "/= differs from /"); break;
  case 4: { bool e = x == y, n = x != y; sx_assert(e == (a * d == c * b), "equality is not equality of values"); sx_assert(n == !e, "!= is not the negation of =="); break; }
  case 5: { rational z = +x; denotes(z, a, b, "unary plus"); z = -x; denotes(z, -a, b, "negation is not exact"); canonical(z); break; }
  case 6: x += x; denotes(x, 2 * a, b, "r += r"); canonical(x); break;
  case 7: x -= x; denotes(x, 0, 1, "r -= r"); canonical(x); break;
  case 8: x *= x; denotes(x, a * a, b * b, "r *= r"); canonical(x); break;
  case 9: sx_assume(a != 0); x /= x; denotes(x, 1, 1, "r /= r"); canonical(x); break;
  case 10: { int k = sx_int("k", -MAXN, MAXN); rational i(k), j = rational(rational_t(k)); denotes(i, k, 1, "integer to rational"); canonical(i); sx_assert(i == j, "integer constructors differ"); rational z; denotes(z, 0, 1, "default value is not zero"); canonical(z); break; }
  }
  if (t <= 5) { sx_assert(val(y.numerator()) == yn && val(y.denominator()) == yd, "the right operand was changed"); }
  static const char *nm[] = {"add", "sub", "mul", "div", "eq", "neg", "add alias", "sub alias", "mul alias", "div alias", "int"};
  sx_reach(nm[t]);
  return 0;
}
