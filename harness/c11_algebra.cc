// C11: expressions form a vector space and a product algebra over the rationals.
// Symbolic: every coefficient (arbitrary reals, so also the zero and cancelling ones), the operation, and whether the
// operand is the target itself. Oracle: coefficient vectors over a fixed basis.
#include "common.h"
#include "net.h"
#include "diagrams/contraction.h"
#include "diagrams/operator_expression.h"
#ifndef LO
#define LO 0
#define HI 17
#endif
#ifdef OPEX
typedef OperatorExpression EX; typedef OperatorProduct TM;
static std::vector<TM> basis() {
  Operator a("A", {1, 0}, {0, 1}), b("B", {0, 1}, {1, 0}), c("A", {0, 1}, {1, 0});
  return {TM{}, TM{a}, TM{c}, TM{a, b}};
}
static EX mul(const EX &a, const EX &b) { return a * b; }
#else
typedef Expression EX; typedef SymbolicTerm TM;
static std::vector<TM> basis() {
  TM one, t, u, v; Index i(0, 0), j(0, 1);
  t.add(Tensor("T", {i}, {}, SymmetryType::Antisymmetric)); t.add(SQOperator(SQOperatorType::Creation, i));
  u.add(Tensor("T", {j}, {}, SymmetryType::Antisymmetric)); u.add(SQOperator(SQOperatorType::Creation, i));
  v.add(SQOperator(SQOperatorType::Annihilation, j)); for (const char *l : {"X", "Y", "Z"}) v.add(Tensor(l, {j}, {i}, SymmetryType::Antisymmetric));
  return {one, t, v, u};
}
static EX mul(const EX &a, const EX &b) { EX r(a); r *= b; return r; }
#endif
#ifndef NB
#define NB 3
#endif
typedef std::vector<scalar_t> V;
static std::vector<TM> B;
static EX build(const V &c) { EX e; for (int i = 0; i < NB; i++) e.add(B[i], c[i]); return e; }
static V vec(const char *n) { V v; for (int i = 0; i < NB; i++) v.push_back(sx_real(n + std::to_string(i))); return v; }
// e equals the given combination of terms: every term of e is expected, its coefficient is right and not zero, none is missing
static void expect(const EX &e, const std::vector<std::pair<TM, scalar_t>> &want, const std::string &what) {
  std::vector<std::pair<TM, scalar_t>> w; // combine the expected terms without using the ordering of the code
  for (auto &p : want) { bool f = false; for (auto &q : w) if (q.first == p.first) { q.second += p.second; f = true; } if (!f) w.push_back(p); }
  size_t found = 0;
  for (const auto &[t, c] : e.terms()) {
    bool f = false;
    for (auto &q : w) if (q.first == t) { f = true; sx_assert(c == q.second, what + ": wrong coefficient"); }
    sx_assert(f, what + ": unexpected term"); sx_assert(!(c == scalar_t(0)), what + ": a term with coefficient zero is kept"); found++;
  }
  size_t nz = 0; for (auto &q : w) if (!(q.second == scalar_t(0))) nz++;
  sx_assert(nz == found, what + ": a term is missing");
  sx_assert(e.size() == found, what + ": size");
}
static std::vector<std::pair<TM, scalar_t>> comb(const V &v) { std::vector<std::pair<TM, scalar_t>> r; for (int i = 0; i < NB; i++) r.push_back({B[i], v[i]}); return r; }
static V lin(const V &a, const V &b, int s) { V r; for (int i = 0; i < NB; i++) r.push_back(s > 0 ? a[i] + b[i] : a[i] - b[i]); return r; }
static V scale(const V &a, scalar_t s) { V r; for (auto &x : a) r.push_back(x * s); return r; }
static std::vector<std::pair<TM, scalar_t>> prod(const V &a, const V &b) { std::vector<std::pair<TM, scalar_t>> r; for (int i = 0; i < NB; i++) for (int j = 0; j < NB; j++) r.push_back({B[i] * B[j], a[i] * b[j]}); return r; }
int sx_main() {
  setup_spaces("ov"); B = basis();
  int op = sx_pick("op", LO, HI);
  V a = vec("a"); EX e = build(a); 
  if (op == 0) { expect(e, comb(a), "add"); sx_reach("add"); return 0; }
  auto untouched = [&](const EX &f, const V &v) { expect(f, comb(v), "the other operand changed"); };
  switch (op) {
  case 1: { V b = vec("b"); EX f = build(b); e += f; expect(e, comb(lin(a, b, 1)), "+="); untouched(f, b); sx_reach("+="); break; }
  case 2: { V b = vec("b"); EX f = build(b); e -= f; expect(e, comb(lin(a, b, -1)), "-="); untouched(f, b); sx_reach("-="); break; }
  case 3: { EX f = -e; expect(f, comb(scale(a, scalar_t(-1))), "negation"); untouched(e, a); sx_reach("neg"); break; }
  case 4: { scalar_t s = sx_real("s"); e *= s; expect(e, comb(scale(a, s)), "scalar multiplication"); sx_reach("scale"); break; }
  case 5: { scalar_t s = sx_real("s"); bool zero = s == scalar_t(0), thrown = false; try { e /= s; } catch (std::exception &) { thrown = true; }
    sx_assert(thrown == zero, "division throws exactly for zero"); if (zero) { expect(e, comb(a), "after a refused division"); sx_reach("division by zero"); }
    else { V w; for (auto &x : a) w.push_back(x / s); expect(e, comb(w), "scalar division"); sx_reach("divide"); } break; }
  case 6: { V b = vec("b"); EX f = build(b); EX g = mul(e, f); expect(g, prod(a, b), "product"); untouched(e, a); untouched(f, b); sx_reach("product"); break; }
  case 7: { V b = vec("b"); EX f = build(b); scalar_t d = e.dot(f), w(0); for (int i = 0; i < NB; i++) w += a[i] * b[i]; sx_assert(d == w, "dot product"); untouched(e, a); untouched(f, b); sx_reach("dot"); break; }
  case 8: { e += e; expect(e, comb(scale(a, scalar_t(2))), "+= itself"); sx_reach("+= self"); break; }
  case 9: { e -= e; expect(e, {}, "-= itself"); sx_reach("-= self"); break; }
  case 10: { e *= e; expect(e, prod(a, a), "*= itself"); sx_reach("*= self"); break; }
  case 11: { V b = vec("b"); EX f = build(b); bool eq = true; for (int i = 0; i < NB; i++) if (!(a[i] == b[i])) eq = false;
    sx_assert(e.is_equal(f) == eq, "equality (is_equal)");
#ifndef OPEX
    sx_assert((e == f) == eq, "equality (==)");
#endif
    sx_reach(eq ? "equal" : "different"); break; }
  case 12: { scalar_t s = sx_real("s"); int k = sx_pick("k", 0, NB - 1); e += std::pair<TM, scalar_t>(B[k], s); V w = a; w[k] = w[k] + s; expect(e, comb(w), "+= term"); sx_reach("+= term"); break; }
  case 13: { V b = vec("b"); EX f = build(b);
#ifdef OPEX
    EX g = e + f, h = e - f; expect(g, comb(lin(a, b, 1)), "a + b"); expect(h, comb(lin(a, b, -1)), "a - b"); untouched(e, a); untouched(f, b);
#else
    EX g = e + f; expect(g, comb(lin(a, b, 1)), "a + b"); untouched(e, a); untouched(f, b);
#endif
    sx_reach("a + b"); break; }
  case 14: { int k = sx_pick("k", 0, NB - 1); sx_assert(e.contains(B[k]) == !(a[k] == scalar_t(0)), "contains"); sx_reach("contains"); break; }
  case 15: { int k = sx_pick("k", 1, NB - 1); // product of basis terms, also with itself
    TM t = B[k], p = t * t; t *= t; sx_assert(t == p, "term *= itself"); sx_reach("term *= self"); break; }
  case 16: { V b = vec("b"); EX f = build(b), g(e); g += f; g -= f; expect(g, comb(a), "a + b - b"); EX h(e); h += f; EX k(f); k += e; sx_assert(h.is_equal(k), "commutativity"); sx_reach("a+b-b"); break; }
  case 17: { // scaling by a coefficient of the expression itself
    if (e.size() == 0) { sx_reach("scale by own coefficient"); break; } scalar_t &c = e.terms().begin()->second; scalar_t s = c; e *= c; expect(e, comb(scale(a, s)), "scaling by an own coefficient"); sx_reach("scale by own coefficient"); break; }
  }
  return 0;
}
