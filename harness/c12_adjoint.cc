// C12: adjoint is an involutive antihomomorphism.
// Symbolic: number, kind, space and position of every operator, tensor shapes and symmetries, the ordering mark, counts of
// diagrammatic operators, coefficients.
#include "common.h"
#include "net.h"
#include "diagrams/contraction.h"
#include "diagrams/operator_expression.h"
#ifndef LO
#define LO 0
#define HI 3
#endif
#ifndef NOPS
#define NOPS 3
#endif
struct O { bool cre; int s, p; };
static bool same(const Index &a, const Index &b) { return a.space() == b.space() && a.pos() == b.pos(); }
static bool sameT(const Tensor &a, const Tensor &b) {
  if (a.label() != b.label() || a.symmetry() != b.symmetry() || a.upper().size() != b.upper().size() || a.lower().size() != b.lower().size()) return false;
  for (size_t i = 0; i < a.upper().size(); i++) if (!same(a.upper()[i], b.upper()[i])) return false;
  for (size_t i = 0; i < a.lower().size(); i++) if (!same(a.lower()[i], b.lower()[i])) return false;
  return true;
}
static SymbolicTerm term(const std::string &n, std::vector<O> *os, std::vector<Tensor> *ts, int maxops, bool flag) {
  SymbolicTerm t; t.set_normal_ordered(flag && sx_bool((n + "no").c_str()));
  int k = sx_pick(n + "n", 0, maxops);
  for (int i = 0; i < k; i++) { std::string m = n + std::to_string(i); O o{sx_bool((m + "c").c_str()), sx_int(m + "s", 0, 2), sx_int(m + "p", 0, 1 << 30)}; os->push_back(o); t.add(SQOperator(o.cre ? SQOperatorType::Creation : SQOperatorType::Annihilation, Index(o.s, o.p))); }
  int q = sx_pick(n + "t", 0, 2);
  for (int i = 0; i < q; i++) {
    std::string m = n + "T" + std::to_string(i); std::vector<Index> u, l; int sy = sx_pick(m + "y", 0, 2);
    u.push_back(Index(0, sx_int(m + "u", 0, 1 << 30))); if (i == 0) l.push_back(Index(1, sx_int(m + "l", 0, 1 << 30)));
    Tensor x(i ? "Z" : "A", l, u, sy == 0 ? SymmetryType::Antisymmetric : sy == 1 ? SymmetryType::Symmetric : SymmetryType::Nonsymmetric); ts->push_back(x); t.add(x);
  }
  return t;
}
static void check(const SymbolicTerm &d, const std::vector<O> &os, const std::vector<Tensor> &ts, bool rev, const char *what) {
  sx_assert(d.nops() == (int)os.size() && d.tensors().size() == ts.size(), std::string(what) + ": size");
  for (size_t i = 0; i < os.size(); i++) {
    const O &o = os[rev ? os.size() - 1 - i : i]; const SQOperator &x = d.ops()[i];
    sx_assert(x.is_creation() == (rev ? !o.cre : o.cre), std::string(what) + ": kind of an operator");
    sx_assert(x.index().space() == o.s && x.index().pos() == o.p, std::string(what) + ": index of an operator");
  }
  for (size_t i = 0; i < ts.size(); i++) sx_assert(sameT(d.tensors()[i], ts[i]), std::string(what) + ": tensor");
}
static void t_term() {
  std::vector<O> os; std::vector<Tensor> ts; SymbolicTerm t = term("x", &os, &ts, NOPS, true);
  SymbolicTerm d = t.adjoint(); check(d, os, ts, true, "adjoint"); check(t, os, ts, false, "operand");
  sx_assert(d.normal_ordered() == t.normal_ordered(), "ordering mark");
  SymbolicTerm dd = d.adjoint(); check(dd, os, ts, false, "adjoint of the adjoint"); sx_assert(dd.normal_ordered() == t.normal_ordered(), "ordering mark after two adjoints");
  sx_assert(dd == t, "the adjoint of the adjoint is not the term");
  sx_reach("term");
}
static void t_product() {
  std::vector<O> a, b; std::vector<Tensor> ta, tb; SymbolicTerm x = term("x", &a, &ta, 2, false), y = term("y", &b, &tb, 2, false);
  SymbolicTerm p = x * y, l = p.adjoint(), r = y.adjoint() * x.adjoint();
  sx_assert(l.nops() == r.nops() && l.tensors().size() == r.tensors().size(), "product: size");
  for (int i = 0; i < l.nops(); i++) sx_assert(l.ops()[i].is_creation() == r.ops()[i].is_creation() && same(l.ops()[i].index(), r.ops()[i].index()), "product: operators of the adjoint");
  size_t n = l.tensors().size(); // tensors commute
  for (size_t i = 0; i < n; i++) { int c = 0, d = 0; for (size_t j = 0; j < n; j++) { c += sameT(l.tensors()[i], l.tensors()[j]); d += sameT(l.tensors()[i], r.tensors()[j]); } sx_assert(c == d, "product: tensors of the adjoint"); }
  std::vector<O> o = a; o.insert(o.end(), b.begin(), b.end()); std::vector<Tensor> t = ta; t.insert(t.end(), tb.begin(), tb.end()); check(p, o, t, false, "product");
  sx_reach("product");
}
static void t_operator() { // diagrammatic operators and their products
  int n = sx_pick("n", 0, 2); std::vector<std::vector<int>> c(n), a(n); OperatorProduct P;
  for (int i = 0; i < n; i++) { for (int s = 0; s < 3; s++) { std::string m = std::to_string(i) + std::to_string(s); c[i].push_back(sx_int("c" + m, 0, 1 << 20)); a[i].push_back(sx_int("a" + m, 0, 1 << 20)); } P.push_back(Operator("A" + std::to_string(i), c[i], a[i])); }
  OperatorProduct D(P.adjoint());
  sx_assert(D.size() == (size_t)n, "operator product: size");
  for (int i = 0; i < n; i++) {
    sx_assert(D[i].label() == "A" + std::to_string(n - 1 - i), "operator product: order"); 
    for (int s = 0; s < 3; s++) sx_assert(D[i].cre(s) == a[n - 1 - i][s] && D[i].ann(s) == c[n - 1 - i][s], "operator: counts exchanged");
    Operator d = P[i].adjoint(); for (int s = 0; s < 3; s++) sx_assert(d.cre(s) == a[i][s] && d.ann(s) == c[i][s], "operator: counts exchanged"); sx_assert(d.label() == P[i].label() && d.adjoint() == P[i], "operator: involution");
    GraphMatrix g = P[i].graph_matrix(), h = g.adjoint(); for (int s = 0; s < 3; s++) sx_assert(h.cre(s) == a[i][s] && h.ann(s) == c[i][s], "graph matrix: counts exchanged");
  }
  OperatorProduct E(D.adjoint()); sx_assert(E == P, "operator product: involution");
  sx_reach("operator");
}
static void t_sum() {
  scalar_t x = sx_real("x"), y = sx_real("y"), z = sx_real("z"); Index i(0, 0), j(0, 1);
  SymbolicTerm s, t; s.add(Tensor("T", {i}, {j}, SymmetryType::Antisymmetric)); s.add(SQOperator(SQOperatorType::Creation, i)); s.add(SQOperator(SQOperatorType::Annihilation, j));
  t.add(Tensor("T", {j}, {i}, SymmetryType::Antisymmetric)); t.add(SQOperator(SQOperatorType::Creation, sx_bool("k") ? i : j)); 
  Expression e, f; e.add(s, x); e.add(t, y); f.add(t, z); Expression ef(e); ef += f;
  Expression d = e.adjoint(), g = f.adjoint(), h(d); h += g;
  sx_assert(ef.adjoint().is_equal(h), "adjoint is additive"); sx_assert(d.adjoint().is_equal(e), "involution on expressions");
  scalar_t cs(0), ct(0); for (auto &[k, c] : d.terms()) { if (k == s.adjoint()) cs += c; else if (k == t.adjoint()) ct += c; else sx_fail("a term of the adjoint is no adjoint of a term"); }
  sx_assert(cs == x && ct == y, "coefficients are kept");
  Operator a("A", {1, 0, 0}, {0, 2, 0}), b("B", {0, 1, 0}, {1, 0, 1}); OperatorExpression u, v; u.add({a, b}, x); u.add({b}, y); v.add({b, a}, z);
  OperatorExpression ua = u.adjoint(), va = v.adjoint(), uv = u * v;
  sx_assert(uv.adjoint().is_equal(va * ua), "antihomomorphism on operator expressions"); sx_assert(ua.adjoint().is_equal(u), "involution on operator expressions"); sx_assert((u + v).adjoint().is_equal(ua + va), "additivity on operator expressions");
  sx_reach("sum");
}
int sx_main() {
  setup_spaces("ogb");
  switch (sx_pick("what", LO, HI)) { case 0: t_term(); break; case 1: t_product(); break; case 2: t_operator(); break; default: t_sum(); }
  return 0;
}
