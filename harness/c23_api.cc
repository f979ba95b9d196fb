// C23: the operations offered to Python (wicked/api) do what their names say. The binding files are executed unchanged
// against a stand-in for pybind11 that records the callables; each is called with symbolic operands and compared with the
// C++ operation of that meaning, and operands must keep their value.
#include "common.h"
#include "net.h"
#include <pybind11/pybind11.h>
#include "diagrams/contraction.h"
#include "diagrams/operator_expression.h"
#include "diagrams/operator_product.h"
#include "diagrams/wick_theorem.h"
#include "algebra/expression.h"
#include "algebra/equation.h"
#include "helpers/combinatorics.h"
#include "api/api_wicked.cc"
#include "api/rational_api.cc"
#include "api/combinatorics_api.cc"
#include "api/orbital_space_api.cc"
#include "api/index_api.cc"
#include "api/sqoperator_api.cc"
#include "api/tensor_api.cc"
#include "api/term_api.cc"
#include "api/expression_api.cc"
#include "api/equation_api.cc"
#include "api/operator_api.cc"
#include "api/wick_theorem.cc"
#ifndef OPHI
#define OPHI 5
#endif
#ifndef NUM
#define NUM 12
#endif
#ifndef LO
#define LO 1
#define HI 6
#endif
#ifdef SX_SHIM
#define SX_SHIM_ONLY_RATIONAL
#endif
typedef Expression E; typedef OperatorExpression OE; typedef std::string S;
template <class Sg> static py::Caller<Sg> api(const char *n) { bool h = py::has<Sg>(n); sx_assert(h, S("binding ") + n + " is missing"); return py::call<Sg>(n); }
static void same(const E &a, const E &b, const S &w) { sx_assert(a.size() == b.size(), w + ": another number of terms"); auto i = a.terms().begin(), j = b.terms().begin(); for (; i != a.terms().end(); ++i, ++j) { sx_assert(i->first == j->first, w + ": another term"); sx_assert(i->second == j->second, w + ": another coefficient"); } }
static void same(const OE &a, const OE &b, const S &w) { sx_assert(a.size() == b.size(), w + ": another number of products"); auto i = a.terms().begin(), j = b.terms().begin(); for (; i != a.terms().end(); ++i, ++j) { sx_assert(i->first == j->first, w + ": another product"); sx_assert(i->second == j->second, w + ": another coefficient"); } }
// ---------------------------------------------------------------- rational numbers (built with the bounded integer type)
static rational num(const S &n) { static const int D[] = {1, 2, 3}; return rational(rational_t((long long)sx_int(n, -NUM, NUM)), rational_t((long long)D[sx_pick(n + "d", 0, 2)])); }
static void t_rational() {
  int op = sx_pick("op", 0, OPHI); rational a = num("a"), b = op < 5 ? num("b") : rational(0), a0 = a, b0 = b;
  switch (op) {
  case 0: sx_assert(api<rational(rational, rational)>("rational.__add__")(a, b) == a0 + b0, "__add__"); sx_reach("add"); break;
  case 1: sx_assert(api<rational(rational, rational)>("rational.__sub__")(a, b) == a0 - b0, "__sub__"); sx_reach("sub"); break;
  case 2: sx_assert(api<rational(rational, rational)>("rational.__mul__")(a, b) == a0 * b0, "__mul__"); sx_reach("mul"); break;
  case 3: sx_assume(b != rational(0)); sx_assert(api<rational(rational, rational)>("rational.__truediv__")(a, b) == a0 / b0, "__truediv__"); sx_reach("div"); break;
  case 4: { bool e = api<bool(rational, rational)>("rational.__eq__")(a, b); sx_assert(e == (a0 - b0 == rational(0)), "__eq__"); sx_reach("eq"); break; }
  case 5: {
    sx_assert(api<long long(rational)>("rational.numerator")(a) == a0.numerator().convert_to<long long>(), "numerator"); sx_assert(api<long long(rational)>("rational.denominator")(a) == a0.denominator().convert_to<long long>(), "denominator");
    bool sg = sx_bool("flag"); sx_assert(api<S(rational)>("rational.__repr__")(a) == a0.repr(), "__repr__"); sx_assert(api<S(rational, bool)>("rational.str")(a, sg) == a0.str(sg), "str"); sx_assert(api<S(rational, bool)>("rational.latex")(a, sg) == a0.latex(sg), "latex");
    sx_assert(api<double(rational)>("rational.__float__")(a) == a0.to_double(), "__float__");
    int n = sx_int("n", -NUM, NUM), d = sx_pick("m", 1, 3); sx_assert(api<rational(int, int)>("rational")(n, d) == rational(rational_t((long long)n), rational_t((long long)d)), "constructor"); sx_assert(api<rational(int)>("rational")(n) == rational(rational_t((long long)n)), "constructor from an integer"); sx_assert(api<rational()>("rational")() == rational(0), "default constructor");
    S t = a0.str(false); sx_assert(api<rational(S)>("make_rational")(t) == a0, "make_rational"); sx_reach("forms"); break; }
  }
  sx_assert(a == a0 && b == b0, "an operand was changed");
}
#ifndef SX_SHIM_ONLY_RATIONAL
// ---------------------------------------------------------------- expressions
static std::vector<SymbolicTerm> basis() {
  SymbolicTerm one, t, u, v; Index i(0, 0), j(0, 1);
  t.add(Tensor("T", {i}, {}, SymmetryType::Antisymmetric)); t.add(SQOperator(SQOperatorType::Creation, i));
  u.add(Tensor("T", {j}, {i}, SymmetryType::Antisymmetric)); u.add(SQOperator(SQOperatorType::Creation, i));
  v.add(SQOperator(SQOperatorType::Annihilation, j));
  return {one, t, u, v};
}
static E expr(const S &n, int lo, int k) { E e; auto b = basis(); for (int i = lo; i < lo + k; i++) { scalar_t c = sx_real(n + std::to_string(i)); e.add(b[i], c); } return e; }
static void t_expression() {
  E a = expr("a", 0, 2), b = expr("b", 1, 2); const E a0(a), b0(b); scalar_t r = sx_real("r"); const scalar_t r0 = r; bool inplace = false;
  switch (sx_pick("op", 0, 11)) {
  case 0: { E w(a0); w += b0; same(api<E(E, E)>("Expression.__add__")(a, b), w, "__add__"); sx_reach("add"); break; }
  case 1: { E w(a0); w -= b0; same(api<E(E, E)>("Expression.__sub__")(a, b), w, "__sub__"); sx_reach("sub"); break; }
  case 2: { E w(a0); w *= b0; same(api<E(E, E)>("Expression.__matmul__")(a, b), w, "__matmul__"); sx_reach("matmul"); break; }
  case 3: { E w(a0); w *= r0; same(api<E(E, scalar_t)>("Expression.__mul__")(a, r), w, "__mul__"); sx_reach("scale"); break; }
  case 4: same(api<E(E)>("Expression.__neg__")(a), -a0, "__neg__"); sx_reach("neg"); break;
  case 5: { E x(a0), y(b0); bool e = api<bool(E, E)>("Expression.__eq__")(a, b), w = x.terms() == y.terms(); sx_assert(e == w, "__eq__"); E c(a0); sx_assert(api<bool(E, E)>("Expression.__eq__")(a, c), "__eq__ of equal expressions"); sx_reach(e ? "equal" : "different"); break; }
  case 6: { sx_assert(api<size_t(E)>("Expression.__len__")(a) == a0.size(), "__len__"); sx_assert(api<scalar_t(E, E)>("Expression.dot")(a, b) == a0.dot(b0), "dot"); sx_reach("measure"); break; }
  case 7: { // in place: the target is changed and returned
    SymbolicTerm s = basis()[sx_pick("term", 0, 3)]; E w(a0); int k = sx_pick("kind", 0, 2); inplace = true;
    if (k == 0) { Term t(r, s); w += {s, r0}; same(api<E(E, Term)>("Expression.__iadd__")(a, t), w, "+= term"); sx_assert(t.coefficient() == r0 && t.symterm() == s, "+= changed the term"); }
    if (k == 1) { std::pair<SymbolicTerm, scalar_t> t(s, r); w += {s, r0}; same(api<E(E, std::pair<SymbolicTerm, scalar_t>)>("Expression.__iadd__")(a, t), w, "+= pair"); }
    if (k == 2) { SymbolicTerm t(s); w += {s, scalar_t(1)}; same(api<E(E, SymbolicTerm)>("Expression.__iadd__")(a, t), w, "+= symbolic term"); }
    for (auto &b : py::table().f["Expression.__iadd__"]) sx_assert(b.returns_ref, "+= gives another object");
    same(a, w, "+= left the target as it was"); sx_reach("iadd"); break; }
  case 8: { auto it = api<py::iterator(E)>("Expression.__iter__")(a); size_t i = 0; sx_assert(it.seen.size() == a.size(), "iteration visits another number of terms"); for (auto &x : a.terms()) sx_assert(it.seen[i++] == (const void *)&x, "iteration visits something else"); sx_reach("iter"); break; }
  case 9: { same(api<E(E)>("Expression.adjoint")(a), a0.adjoint(), "adjoint"); bool f = sx_bool("flag"); same(api<E(E, bool)>("Expression.vacuum_normal_ordered")(a, f), a0.vacuum_normal_ordered(f), "vacuum_normal_ordered"); same(api<E(E, bool)>("Expression.vacuum_normal_ordered")(a), a0.vacuum_normal_ordered(false), "default of vacuum_normal_ordered"); sx_assert(api<bool(E)>("Expression.is_vacuum_normal_ordered")(a) == a0.is_vacuum_normal_ordered(), "is_vacuum_normal_ordered"); sx_reach("adjoint"); break; }
  case 10: { E w(b0); w.canonicalize(); same(api<E(E)>("Expression.canonicalize")(b), w, "canonicalize"); same(b, w, "canonicalize changes the expression in place"); b = b0; sx_reach("canonicalize"); break; }
  case 11: sx_assert(api<E()>("Expression")().size() == 0, "a new expression is zero"); sx_reach("new"); break;
  }
  if (!inplace) same(a, a0, "left operand"); same(b, b0, "right operand"); sx_assert(r == r0, "scalar changed");
}
// ---------------------------------------------------------------- operator sums
static OE oe(const S &n, int which) {
  static const std::vector<Operator> L{Operator("A", {1, 0}, {0, 1}), Operator("B", {0, 1}, {1, 0}), Operator("C", {1, 0}, {1, 0})};
  OE e; scalar_t c = sx_real(n), d = sx_real(n + "'"); e.add(OperatorProduct{L[which]}, c); e.add(OperatorProduct{L[(which + 1) % 3]}, d); return e;
}
static void t_opexpr() {
  OE a = oe("a", 0), b = oe("b", 1), c = oe("c", 2); const OE a0(a), b0(b), c0(c); scalar_t r = sx_real("r"); const scalar_t r0 = r; bool inplace = false;
  switch (sx_pick("op", 0, 9)) {
  case 0: { OE w(a0); w += b0; same(api<OE(OE, OE)>("OperatorExpression.__add__")(a, b), w, "__add__"); sx_reach("add"); break; }
  case 1: { OE w(a0); w -= b0; same(api<OE(OE, OE)>("OperatorExpression.__sub__")(a, b), w, "__sub__"); sx_reach("sub"); break; }
  case 2: { OE w(a0); w *= b0; same(api<OE(OE, OE)>("OperatorExpression.__matmul__")(a, b), w, "__matmul__"); sx_reach("matmul"); break; }
  case 3: { OE w(a0); w *= r0; same(api<OE(rational, OE)>("rational.__mul__")(r, a), w, "number times operator"); sx_reach("scale"); break; }
  case 4: { OE x(a0), y(b0); bool e = api<bool(OE, OE)>("OperatorExpression.__eq__")(a, b); sx_assert(e == (x.terms() == y.terms()), "__eq__"); sx_reach("eq"); break; }
  case 5: { // nested commutator of any number of operators, from the left
    int n = sx_pick("n", 0, 4); bool rep = sx_bool("same twice"); py::args v; std::vector<OE *> p{&a, &b, &c, &a}; if (rep) p = {&a, &a, &b, &b}; OE w;
    for (int i = 0; i < n; i++) { v.push_back(py::ref(*p[i])); OE x(p[i] == &a ? a0 : p[i] == &b ? b0 : c0); if (i == 0) w = x; else { OE l(w); l *= x; OE m(x); m *= w; l -= m; w = l; } }
    same(api<OE(py::args)>("commutator")(v), w, "commutator"); sx_reach("commutator"); break; }
  case 6: { int n = sx_pick("n", 0, 3); same(api<OE(OE, OE, int)>("bch_series")(a, b, n), bch_series(a0, b0, n), "bch_series"); sx_reach("bch"); break; }
  case 7: { OE w(a0); w.add2(b0, r0); inplace = true; api<void(OE, OE, scalar_t)>("OperatorExpression.add2")(a, b, r); same(a, w, "add2"); sx_assert(api<size_t(OE)>("OperatorExpression.size")(a) == w.size(), "size"); sx_reach("add2"); break; }
  case 8: { same(api<OE(OE)>("OperatorExpression.adjoint")(a), a0.adjoint(), "adjoint"); same(api<OE(OE)>("OperatorExpression")(a), a0, "copy"); sx_assert(api<OE()>("OperatorExpression")().size() == 0, "a new sum is zero");
    std::vector<OperatorProduct> v; for (auto &[t, k] : a0.terms()) { (void)k; v.push_back(t); } OE w; for (auto &t : v) w.add(t, r0); same(api<OE(std::vector<OperatorProduct>, scalar_t)>("OperatorExpression")(v, r), w, "constructor"); OE w1; for (auto &t : v) w1.add(t, scalar_t(1)); same(api<OE(std::vector<OperatorProduct>, scalar_t)>("OperatorExpression")(v), w1, "default factor"); sx_reach("construct"); break; }
  case 9: { S l = "T"; std::vector<S> comp; int n = sx_pick("n", 0, 3); static const char *C[] = {"o+ v", "v+ o", "v o+", "o+ o"}; for (int i = 0; i < n; i++) comp.push_back(C[sx_pick("c" + std::to_string(i), 0, 3)]); bool u = sx_bool("unique"), dup = false; for (size_t i = 0; i < comp.size(); i++) for (size_t j = 0; j < i; j++) if (make_diag_operator_expression(l, {comp[i]}).terms().begin()->first == make_diag_operator_expression(l, {comp[j]}).terms().begin()->first) dup = true;
    if (u && dup) { bool th = false; try { api<OE(S, std::vector<S>, bool)>("op")(l, comp, u); } catch (std::exception &) { th = true; } bool tw = false; try { make_diag_operator_expression(l, comp, u); } catch (std::exception &) { tw = true; } sx_assert(th == tw, "op refuses other components"); }
    else { same(api<OE(S, std::vector<S>, bool)>("op")(l, comp, u), make_diag_operator_expression(l, comp, u), "op"); same(api<OE(S, std::vector<S>, bool)>("op")(l, comp), make_diag_operator_expression(l, comp, false), "default of op"); } sx_reach("op"); break; }
  }
  if (!inplace) same(a, a0, "left operand"); same(b, b0, "right operand"); same(c, c0, "third operand"); sx_assert(r == r0, "scalar changed");
}
// ---------------------------------------------------------------- contraction engine
static void t_wick() {
  WickTheorem w = api<WickTheorem()>("WickTheorem")(), x; x.set_single_threaded(true); bool one = true; api<void(WickTheorem, bool)>("WickTheorem.set_single_threaded")(w, one);
  std::vector<int> u{1, 0}, v{0, 1}; if (sx_bool("pair")) { u[1] = 1; v[0] = 1; }
  OperatorProduct p{Operator("A", {0, 1}, {1, 0}), Operator("B", u, v)}; OE e; scalar_t f = sx_real("f"), c = sx_real("c"); const scalar_t f0 = f; e.add(p, c); e.add(OperatorProduct{Operator("B", u, v)}, f0); const OE e0(e);
  int lo = sx_pick("min", 0, 4), hi = sx_pick("max", 0, 4), k = sx_pick("kind", 0, 3);
  int cum = sx_pick("cumulant", 1, 3); if (sx_bool("set cumulant")) { api<void(WickTheorem, int)>("WickTheorem.set_max_cumulant")(w, cum); x.set_max_cumulant(cum); }
  bool cg = sx_bool("canonicalize"); api<void(WickTheorem, bool)>("WickTheorem.do_canonicalize_graph")(w, cg); x.do_canonicalize_graph(cg);
  if (k == 0) same(api<E(WickTheorem, scalar_t, OperatorProduct, int, int)>("WickTheorem.contract")(w, f, p, lo, hi), x.contract(f0, p, lo, hi), "contract(factor, product, min, max)");
  if (k == 1) same(api<E(WickTheorem, scalar_t, OE, int, int)>("WickTheorem.contract")(w, f, e, lo, hi), x.contract(f0, e0, lo, hi), "contract(factor, sum, min, max)");
  if (k == 2) same(api<E(WickTheorem, OE, int, int)>("WickTheorem.contract")(w, e, lo, hi), x.contract(scalar_t(1), e0, lo, hi), "contract(sum, min, max)");
  if (k == 3) { E r = api<E(WickTheorem, OE, int, int)>("WickTheorem.contract")(w, e, lo, hi); for (auto &[t, q] : r.terms()) { (void)q; sx_assert(t.nops() >= lo && t.nops() <= hi, "contract: a term outside the rank window"); } }
  same(e, e0, "the operator sum"); sx_assert(f == f0, "the factor"); sx_reach(k == 0 ? "product" : k == 1 ? "sum with factor" : "sum");
}
// ---------------------------------------------------------------- indices, operators, tensors
static Index ix(const S &n) { return Index(sx_int(n + "s", 0, 1), sx_int(n + "p", 0, 100)); }
static bool sm(const Index &a, const Index &b) { return a.space() == b.space() && a.pos() == b.pos(); }
static void t_objects() {
  switch (sx_pick("op", 0, 5)) {
  case 0: { Index a = ix("a"), b = ix("b"), a0 = a, b0 = b; bool l = api<bool(Index, Index)>("Index.__lt__")(a, b); sx_assert(l == (a0.space() < b0.space() || (a0.space() == b0.space() && a0.pos() < b0.pos())), "Index.__lt__"); bool e = api<bool(Index, Index)>("Index.__eq__")(a, b); sx_assert(e == sm(a0, b0), "Index.__eq__");
    sx_assert(api<int(Index)>("Index.space")(a) == a0.space() && api<int(Index)>("Index.pos")(a) == a0.pos(), "space and pos"); int s = sx_pick("s", 0, 1), q = sx_int("q", 0, 9999); sx_assert(sm(api<Index(int, int)>("Index")(s, q), Index(s, q)), "Index constructor"); sx_reach("index"); break; }
  case 1: { Index i = ix("i"), j = ix("j"); SQOperatorType t = sx_bool("cre") ? SQOperatorType::Creation : SQOperatorType::Annihilation, t2 = sx_bool("cre2") ? SQOperatorType::Creation : SQOperatorType::Annihilation; SQOperator a = api<SQOperator(SQOperatorType, Index)>("SQOperator")(t, i), b(t2, j), a0(t, i), b0 = b;
    sx_assert(a.type() == t && sm(a.index(), i), "SQOperator constructor"); sx_assert(api<SQOperatorType(SQOperator)>("SQOperator.type")(a) == t && sm(api<Index(SQOperator)>("SQOperator.index")(a), i), "type and index");
    bool l = api<bool(SQOperator, SQOperator)>("SQOperator.__lt__")(a, b), e = api<bool(SQOperator, SQOperator)>("SQOperator.__eq__")(a, b); sx_assert(l == (a0 < b0), "SQOperator.__lt__"); sx_assert(e == (t == t2 && sm(i, j)), "SQOperator.__eq__"); sx_reach("operator"); break; }
  case 2: { int k = sx_pick("index", 0, 3); static const char *N[] = {"o0", "o3", "v1", "v12"}; static const int P[][2] = {{0, 0}, {0, 3}, {1, 1}, {1, 12}}; S s = N[k]; Index w(P[k][0], P[k][1]);
    SQOperator c = api<SQOperator(S)>("cre")(s), a = api<SQOperator(S)>("ann")(s); sx_assert(c.type() == SQOperatorType::Creation && sm(c.index(), w), "cre"); sx_assert(a.type() == SQOperatorType::Annihilation && sm(a.index(), w), "ann"); sx_assert(sm(api<Index(S)>("index")(s), w), "index");
    SQOperatorType t = SQOperatorType::Annihilation; SQOperator q = api<SQOperator(S, SQOperatorType)>("sqoperator")(s, t); sx_assert(q.type() == t && sm(q.index(), w), "sqoperator"); sx_reach("by name"); break; }
  case 3: { std::vector<Index> v; int n = sx_pick("n", 0, 3); for (int i = 0; i < n; i++) v.push_back(Index(0, sx_int("p" + std::to_string(i), 0, 100))); for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) sx_assume(v[i].pos() != v[j].pos()); std::vector<Index> w = v, v0 = v; bool rev = sx_bool("reverse"); scalar_t s = canonicalize_indices(w, rev); auto r = api<std::pair<scalar_t, std::vector<Index>>(std::vector<Index>, bool)>("canonicalize_indices")(v, rev);
    sx_assert(r.first == s && r.second.size() == w.size(), "canonicalize_indices"); for (int i = 0; i < n; i++) sx_assert(sm(r.second[i], w[i]), "canonicalize_indices returns another order"); sx_reach("sorted"); break; }
  case 4: { S l = "T", lo = "o1", up = "v0,v2"; std::vector<S> L{"o1"}, U{"v0", "v2"}; SymmetryType y = sx_bool("sym") ? SymmetryType::Symmetric : SymmetryType::Antisymmetric; Index a = ix("a"), b = ix("b"), c = ix("c"); std::vector<Index> x{a}, z{b, c};
    Tensor t = api<Tensor(S, std::vector<Index>, std::vector<Index>, SymmetryType)>("Tensor")(l, x, z, y); auto rl = api<std::vector<Index>(Tensor)>("Tensor.lower")(t), ru = api<std::vector<Index>(Tensor)>("Tensor.upper")(t);
    sx_assert(rl.size() == 1 && sm(rl[0], a), "lower"); sx_assert(ru.size() == 2 && sm(ru[0], b) && sm(ru[1], c), "upper"); sx_assert(api<S(Tensor)>("Tensor.label")(t) == "T" && api<SymmetryType(Tensor)>("Tensor.symmetry")(t) == y, "label and symmetry");
    Tensor q = api<Tensor(S, std::vector<S>, std::vector<S>, SymmetryType)>("tensor")(l, L, U, y); sx_assert(q.label() == "T" && q.symmetry() == y && q.lower().size() == 1 && sm(q.lower()[0], Index(0, 1)) && q.upper().size() == 2 && sm(q.upper()[0], Index(1, 0)) && sm(q.upper()[1], Index(1, 2)), "tensor"); sx_reach("tensor"); break; }
  case 5: { Index a = ix("a"), b = ix("b"); SQOperator p(SQOperatorType::Creation, a), q(SQOperatorType::Annihilation, b); Tensor t("T", {a}, {b}, SymmetryType::Antisymmetric); bool no = sx_bool("mark"), asTerm = sx_bool("term"); std::vector<SQOperator> v{p, q}; SymbolicTerm w; w.add(t); w.add(p); w.add(q); w.set_normal_ordered(no); SymbolicTerm g; scalar_t r = sx_real("r");
    if (asTerm) { Term s = api<Term()>("Term")(); if (sx_bool("list")) api<void(Term, std::vector<SQOperator>)>("Term.add")(s, v); else { api<void(Term, SQOperator)>("Term.add")(s, p); api<void(Term, SQOperator)>("Term.add")(s, q); } api<void(Term, Tensor)>("Term.add")(s, t); api<void(Term, bool)>("Term.set_normal_ordered")(s, no); sx_assert(s.coefficient() == scalar_t(1), "a new term has coefficient one"); api<void(Term, scalar_t)>("Term.set")(s, r); sx_assert(s.coefficient() == r, "Term.set"); g = s.symterm(); }
    else { g = api<SymbolicTerm()>("SymbolicTerm")(); int k = sx_pick("how", 0, 2); if (k == 0) api<void(SymbolicTerm, std::vector<SQOperator>)>("SymbolicTerm.add")(g, v); if (k == 1) { api<void(SymbolicTerm, SQOperator)>("SymbolicTerm.add")(g, p); api<void(SymbolicTerm, SQOperator)>("SymbolicTerm.add")(g, q); } if (k == 2) { api<void(SymbolicTerm, SQOperator)>("SymbolicTerm.add")(g, q); api<void(SymbolicTerm, std::vector<SQOperator>)>("SymbolicTerm.set")(g, v); } api<void(SymbolicTerm, Tensor)>("SymbolicTerm.add")(g, t); api<void(SymbolicTerm, bool)>("SymbolicTerm.set_normal_ordered")(g, no); sx_assert(api<std::vector<SQOperator>(SymbolicTerm)>("SymbolicTerm.ops")(g).size() == 2 && api<std::vector<Tensor>(SymbolicTerm)>("SymbolicTerm.tensors")(g).size() == 1, "ops and tensors"); }
    sx_assert(g == w && g.normal_ordered() == no, "a term built from its parts"); sx_assert(sm(g.ops()[0].index(), a) && g.ops()[0].is_creation() && sm(g.ops()[1].index(), b), "order of the operators"); sx_reach("term"); break; }
  }
}
// ---------------------------------------------------------------- orbital spaces
static void t_spaces() {
  void (*reset)() = [] { api<void()>("reset_space")(); }; reset(); sx_assert(api<int()>("num_spaces")() == 0, "reset_space");
  static const char *FT[] = {"fermion", "boson", "Fermion", "x"}, *ST[] = {"occupied", "unoccupied", "general", "y"}; int f = sx_pick("field", 0, 3), t = sx_pick("type", 0, 3); char l = (char)('a' + sx_pick("label", 0, 2)); S F = FT[f], T = ST[t]; std::vector<S> ix{"i", "j"}; std::vector<char> el; bool th = false, dflt = sx_bool("default"), wf = false, wt = false;
  try { string_to_field_type(F); } catch (std::exception &) { wf = true; } try { string_to_space_type(T); } catch (std::exception &) { wt = true; }
  try { if (dflt) api<void(char, S, S, std::vector<S>, std::vector<char>)>("add_space")(l, F, T, ix); else api<void(char, S, S, std::vector<S>, std::vector<char>)>("add_space")(l, F, T, ix, el); } catch (std::exception &) { th = true; }
  bool ferm = F == "fermion", bos = F == "boson"; if (!(ferm || bos) ) { sx_assert(th == wf, "an unknown field type"); }
  if (th) { sx_assert(api<int()>("num_spaces")() == 0, "a refused space was added"); sx_reach("refused"); return; }
  sx_assert(api<int()>("num_spaces")() == 1 && orbital_subspaces->num_spaces() == 1, "num_spaces"); auto o = api<std::shared_ptr<OrbitalSpaceInfo>()>("osi")(); sx_assert(o == orbital_subspaces, "osi is another registry");
  OrbitalSpaceInfo &q = *o; int zero = 0; sx_assert(api<char(OrbitalSpaceInfo, int)>("OrbitalSpaceInfo.label")(q, zero) == l && o->label(0) == l, "label");
  if (ferm || bos) sx_assert(o->field_type(0) == (ferm ? FieldType::Fermion : FieldType::Boson), "field type");
  if (t < 3) sx_assert(o->space_type(0) == (t == 0 ? SpaceType::Occupied : t == 1 ? SpaceType::Unoccupied : SpaceType::General), "space type");
  sx_assert(o->indices(0) == ix, "index names"); reset(); sx_assert(api<int()>("num_spaces")() == 0 && orbital_subspaces->num_spaces() == 0, "reset_space"); sx_reach("added");
}
// ---------------------------------------------------------------- enumerations, equations, partitions
static void t_misc() {
  auto en = [](const char *e, const char *n) { long v = -1; int k = 0; for (auto &x : py::table().enums[e]) if (x.first == n) { v = x.second; k++; } sx_assert(k == 1, S("enumeration value ") + n); return v; };
  sx_assert(en("sym", "symm") == (long)SymmetryType::Symmetric && en("sym", "anti") == (long)SymmetryType::Antisymmetric && en("sym", "none") == (long)SymmetryType::Nonsymmetric, "sym"); sx_assert(en("stat", "fermion") == (long)FieldType::Fermion && en("stat", "boson") == (long)FieldType::Boson, "stat");
  sx_assert(en("type", "cre") == (long)SQOperatorType::Creation && en("type", "ann") == (long)SQOperatorType::Annihilation, "type");
  sx_assert(en("PrintLevel", "none") == (long)PrintLevel::None && en("PrintLevel", "basic") == (long)PrintLevel::Basic && en("PrintLevel", "summary") == (long)PrintLevel::Summary && en("PrintLevel", "detailed") == (long)PrintLevel::Detailed && en("PrintLevel", "all") == (long)PrintLevel::All, "PrintLevel");
  switch (sx_pick("op", 0, 2)) {
  case 0: { SymbolicTerm l, r; Index a(0, sx_int("a", 0, 9)), b(1, sx_int("b", 0, 9)); l.add(Tensor("R", {a}, {b}, SymmetryType::Antisymmetric)); r.add(Tensor("T", {a}, {b}, SymmetryType::Antisymmetric)); scalar_t f = sx_real("f"); Equation e = api<Equation(SymbolicTerm, SymbolicTerm, scalar_t)>("Equation")(l, r, f); sx_assert(api<SymbolicTerm(Equation)>("Equation.lhs")(e) == l && api<SymbolicTerm(Equation)>("Equation.rhs")(e) == r && api<scalar_t(Equation)>("Equation.rhs_factor")(e) == f, "parts of an equation"); sx_reach("equation"); break; }
  case 1: { S s = "1/2 T^{o0}_{v0}"; SymmetryType y = sx_bool("sym") ? SymmetryType::Symmetric : SymmetryType::Antisymmetric; E e = api<E(S, SymmetryType)>("expression")(s, y), d = api<E(S, SymmetryType)>("expression")(s), w = make_expression(s, y), w2 = make_expression(s, SymmetryType::Antisymmetric); same(e, w, "expression"); same(d, w2, "default of expression"); sx_assert(e.terms().begin()->first.tensors()[0].symmetry() == y && d.terms().begin()->first.tensors()[0].symmetry() == SymmetryType::Antisymmetric, "symmetry of the tensors read");
    S l = "H"; std::vector<S> c{"o+ v", "v+ o"}; bool no = sx_bool("no"); scalar_t k = sx_real("k"); same(api<E(S, std::vector<S>, bool, SymmetryType, scalar_t)>("operator_expr")(l, c, no, y, k), make_operator_expr(l, c, no, y, k), "operator_expr"); same(api<E(S, std::vector<S>, bool, SymmetryType, scalar_t)>("operator_expr")(l, c, no), make_operator_expr(l, c, no, SymmetryType::Antisymmetric, scalar_t(1)), "defaults of operator_expr"); sx_reach("reader"); break; }
  case 2: { E a = expr("a", 1, 1); const E a0(a); S l = "R"; auto r = api<std::map<S, std::vector<Equation>>(E, S)>("Expression.to_manybody_equations")(a, l), q = api<std::map<S, std::vector<Equation>>(E, S)>("Expression.to_manybody_equation")(a, l), w = a0.to_manybody_equation(l); sx_assert(r.size() == w.size() && q.size() == w.size(), "to_manybody_equations"); for (auto &[k, v] : w) { sx_assert(r.count(k) && r[k].size() == v.size() && q.count(k) && q[k].size() == v.size(), "equations of a key"); for (size_t i = 0; i < v.size(); i++) sx_assert(r[k][i].rhs() == v[i].rhs() && r[k][i].rhs_factor() == v[i].rhs_factor() && q[k][i].lhs() == v[i].lhs(), "an equation"); } sx_reach("equations"); break; }
  }
}
#endif
int sx_main() {
  setup_spaces("ov"); py::module_ m; pybind11_init__wicked(m);
  switch (sx_pick("what", LO, HI)) {
  case 0: t_rational(); break;
#ifndef SX_SHIM_ONLY_RATIONAL
  case 1: t_expression(); break; case 2: t_opexpr(); break; case 3: t_wick(); break; case 4: t_objects(); break; case 5: t_spaces(); break; default: t_misc();
#endif
  }
  return 0;
}
