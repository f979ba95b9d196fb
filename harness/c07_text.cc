// C07: text forms of rationals. READ: a string of arbitrary bytes is accepted exactly when it is an optional sign, an
// optional integer and an optional '/integer' between blanks, and then denotes that value. PRINT: every printed form denotes
// the value and reads back.
#include "helpers/rational.h"
#include "sx.h"
#include <numeric>
#include <stdexcept>
#ifndef LEN
#define LEN 4
#endif
#ifndef MAXN
#define MAXN 40
#endif
#ifndef MAXD
#define MAXD 12
#endif
#ifndef DIG
#define DIG 4
#endif
#ifndef ND
#define ND 3
#endif
#ifndef SX_SHIM
static long long val(const rational_t &x) { return x.convert_to<long long>(); }
#else
static long long val(const rational_t &x) { return x.v; }
#endif
static bool blank(char c) { return c == ' ' || (c >= 9 && c <= 13); }
static bool dig(char c) { return c >= '0' && c <= '9'; }
// value of s as n/d, false if s is not of the form
static bool oracle(std::string &s, long long &n, long long &d) {
  size_t i = 0, e = s.size();
  while (i < e && blank(s[i])) i++;
  long long sg = 1; if (i < e && (s[i] == '+' || s[i] == '-')) { if (s[i] == '-') sg = -1; i++; }
  bool have = false, div = false, have2 = false; n = 0; d = 0;
  while (i < e && dig(s[i])) { n = n * 10 + (s[i] - '0'); have = true; i++; }
  if (i < e && s[i] == '/') { div = true; i++; while (i < e && dig(s[i])) { s[i] = (char)sx_conc_int(s[i]); d = d * 10 + (s[i] - '0'); have2 = true; i++; } } // one path per denominator
  while (i < e && blank(s[i])) i++;
  if (i != e) return false;
  if (div && !(have && have2)) return false;
  if (!have) n = 1;
  if (!div) d = 1;
  n *= sg;
  return d != 0;
}
static void reading() {
  int len = sx_pick("len", 0, LEN); std::string s;
  for (int i = 0; i < len; i++) s.push_back((char)sx_byte(("c" + std::to_string(i)).c_str()));
#ifdef ALPHA
  for (char c : s) { bool in = false; for (const char *p = ALPHA; *p; p++) in = sx_logical_or(in, c == *p); sx_assume(in); }
#endif
  long long n, d; bool want = oracle(s, n, d);
  bool ok = true; rational r;
  try { r = make_rational_from_str(s); } catch (std::exception &) { ok = false; }
  if (want) sx_assert(ok, "a number was rejected"); else sx_assert(!ok, "text that is not a number was accepted");
  if (!ok || !want) { sx_reach("rejected"); return; }
  sx_reach("accepted");
  sx_assert(val(r.numerator()) * d == n * val(r.denominator()), "the value read differs from the value denoted");
  sx_assert(val(r.denominator()) > 0, "denominator is not positive");
}
static void printing() {
  long long n = sx_pick("n", -MAXN, MAXN), d = sx_pick("d", 1, MAXD); int big = sx_pick("big", 0, 2);
  if (big == 1) n *= 1000000007LL; if (big == 2) d *= 1000000007LL; // beyond the range of int
  sx_assume(std::gcd(n, d) == 1);
  rational r = rational(rational_t(n), rational_t(d)); bool sign = sx_bool("sign");
  std::string s = r.str(sign); long long a, b;
  sx_assert(oracle(s, a, b) && a * d == n * b, "str does not denote the value");
  sx_assert(!sign || n <= 0 || s[0] == '+', "the sign is not shown");
  rational q = make_rational_from_str(s);
  sx_assert(q == r, "reading back the printed form gives another value");
  sx_assert(r.repr() == "rational(" + std::to_string(n) + "," + std::to_string(d) + ")", "repr does not denote the value");
  std::string c = r.compile(sx_bool("fmt") ? "einsum" : "ambit"); char *end; double v = std::strtod(c.c_str(), &end);
  sx_assert(!*end && v == (double)n / (double)d, "the compiled form is another number");
  sx_assert(r.to_double() == (double)n / (double)d, "to_double is another number");
  std::string l = r.latex(sx_bool("first")), e = d == 1 ? std::to_string(n) : std::string(n < 0 ? "-" : "+") + "\\frac{" + std::to_string(std::abs(n)) + "}{" + std::to_string(d) + "}";
  if (d == 1 && (n == 1 || n == -1)) e = n == 1 ? "+" : "-";
  if (l[0] == '+' && e[0] != '+') l = l.substr(1);
  sx_assert(l == e, "latex does not denote the value");
  sx_reach("printed");
}
// an integer of up to DIG digits, each symbolic, and a denominator
static void printing_symbolic() {
  static const long long D[] = {1, 2, 7}; long long d = D[sx_pick("d", 0, ND - 1)], n = 0; int k = sx_pick("digits", 1, DIG); bool neg = sx_bool("negative"); std::string t;
  for (int i = 0; i < k; i++) { int c = sx_int("c" + std::to_string(i), i == 0 && k > 1, 9); n = n * 10 + c; t.push_back((char)('0' + c)); }
  if (neg) { n = -n; sx_assume(n != 0); t = "-" + t; }
#ifdef SX_SHIM
  boost::multiprecision::sx_decimals().push_back({n, t}); // the decimal form of n is known
#endif
  if (d != 1) sx_assume(n % d != 0);
  rational r = rational(rational_t(n), rational_t(d)); std::string s = r.str(sx_bool("sign"));
  long long a, b;
  sx_assert(oracle(s, a, b), "the printed form is not a number");
  sx_assert(a * d == n * b, "str does not denote the value");
  rational q = make_rational_from_str(s);
  sx_assert(q == r, "reading back the printed form gives another value");
  if (d == 1) { // other forms of an integer
    sx_assert(r.repr() == "rational(" + t + ",1)", "repr does not denote the value");
    bool first = sx_bool("first"); std::string l = r.latex(first), e = t; if (n == 1) e = "+"; else if (n == -1) e = "-"; else if (n > 0 && !first) e = "+" + t;
    sx_assert(l == e, "latex does not denote the value");
  }
  sx_reach("printed");
}
int sx_main() {
#if defined PRINTSYM
  printing_symbolic();
#elif defined PRINT
  printing();
#else
  reading();
#endif
  return 0;
}
