// C15: every comparison is a strict total order consistent with equality, and equality identifies exactly the objects
// that have the same label, indices, kinds and (when there are operators) ordering mark.
#include "common.h"
#include <map>
#include "algebra/term.h"
#include "algebra/expression.h"
#include "diagrams/contraction.h"
#include "diagrams/operator.h"
#include "diagrams/operator_product.h"
#include "diagrams/operator_expression.h"
#ifndef LO
#define LO 0
#define HI 6
#endif
#ifndef SPACES
#define SPACES "ovb"
#endif
#ifndef MAXI
#define MAXI 1
#endif
#ifndef MAXO
#define MAXO 2
#endif
#ifndef BIG
#define BIG 1000000000
#endif
static int NS() { return orbital_subspaces->num_spaces(); }
static std::string lab(const std::string &n) { static const char *L[] = {"A", "B", "AB", ""}; return L[sx_pick(n, 0, 3)]; }
static Index idx(const std::string &n) { return Index(sx_int(n + "s", 0, NS() - 1), sx_int(n + "p", 0, BIG)); }
static bool eqi(const Index &a, const Index &b) { return sx_logical_and(a.space() == b.space(), a.pos() == b.pos()); }
static SQOperator sq(const std::string &n) { return SQOperator(sx_bool((n + "t").c_str()) ? SQOperatorType::Creation : SQOperatorType::Annihilation, idx(n)); }
static bool eqo(const SQOperator &a, const SQOperator &b) { return sx_logical_and(a.is_creation() == b.is_creation(), eqi(a.index(), b.index())); }
static bool eqt(const Tensor &a, const Tensor &b) {
  if (a.label() != b.label() || a.upper().size() != b.upper().size() || a.lower().size() != b.lower().size()) return false;
  auto au = a.upper(), bu = b.upper(), al = a.lower(), bl = b.lower();
  for (size_t i = 0; i < au.size(); i++) if (!eqi(au[i], bu[i])) return false;
  for (size_t i = 0; i < al.size(); i++) if (!eqi(al[i], bl[i])) return false;
  return true;
}
static Tensor ten(const std::string &n, int maxi) {
  std::vector<Index> lo, up; int l = sx_pick(n + "nl", 0, maxi), u = sx_pick(n + "nu", 0, maxi);
  for (int i = 0; i < l; i++) lo.push_back(idx(n + "l" + std::to_string(i)));
  for (int i = 0; i < u; i++) up.push_back(idx(n + "u" + std::to_string(i)));
  return Tensor(lab(n + "L"), lo, up, SymmetryType::Antisymmetric);
}
static SymbolicTerm term(const std::string &n, int maxt, int maxo) {
  std::vector<Tensor> t; std::vector<SQOperator> o; int nt = sx_pick(n + "nt", 0, maxt), no = sx_pick(n + "no", 0, maxo);
  for (int i = 0; i < nt; i++) t.push_back(Tensor(sx_bool((n + "tl" + std::to_string(i)).c_str()) ? "A" : "B", {idx(n + "ti" + std::to_string(i))}, {}, SymmetryType::Antisymmetric));
  for (int i = 0; i < no; i++) o.push_back(sq(n + "o" + std::to_string(i)));
  return SymbolicTerm(sx_bool((n + "no?").c_str()), o, t);
}
static bool eqst(const SymbolicTerm &a, const SymbolicTerm &b) {
  auto at = a.tensors(), bt = b.tensors(); auto ao = a.ops(), bo = b.ops();
  if (at.size() != bt.size() || ao.size() != bo.size()) return false;
  for (size_t i = 0; i < at.size(); i++) if (!eqt(at[i], bt[i])) return false;
  for (size_t i = 0; i < ao.size(); i++) if (!eqo(ao[i], bo[i])) return false;
  return ao.size() == 0 || a.normal_ordered() == b.normal_ordered();
}
static std::vector<int> cnt(const std::string &n) { std::vector<int> v; for (int s = 0; s < NS(); s++) v.push_back(sx_int(n + std::to_string(s), 0, BIG)); return v; }
static bool eqg(const GraphMatrix &a, const GraphMatrix &b) { bool e = true; for (int s = 0; s < NS(); s++) e = sx_logical_and(e, sx_logical_and(a.cre(s) == b.cre(s), a.ann(s) == b.ann(s))); return e; }
// the laws, for any three objects; same(a, b) is the oracle's equality
template <class T, class L, class E, class S> static void laws(const T &a, const T &b, const T &c, L less, E eq, S same, const std::string &w) {
  bool ab = less(a, b), ba = less(b, a), bc = less(b, c), ac = less(a, c);
  sx_assert(!less(a, a), w + ": an object precedes itself");
  sx_assert(eq(a, a), w + ": an object differs from itself");
  sx_assert(!(ab && ba), w + ": both precede each other");
  bool e = eq(a, b), s = same(a, b);
  sx_assert(e == s, e ? w + ": different objects are equal" : w + ": equal objects compare different");
  sx_assert(e == eq(b, a), w + ": equality is not symmetric");
  sx_assert(e == (!ab && !ba), w + ": order and equality disagree");
  if (ab && bc) { sx_assert(ac, w + ": order is not transitive"); sx_reach(("chain " + w).c_str()); }
  if (!ab && !bc) sx_assert(!ac, w + ": incomparability is not transitive");
  if (e) sx_reach(("equal " + w).c_str());
  std::map<int, int> dummy;
}
template <class T, class S> static void mapped(const T &a, const T &b, const T &c, S same, const std::string &w) {
  std::map<T, int> m; m[a] += 1; m[b] += 2; m[c] += 4;
  bool ab = same(a, b), ac = same(a, c), bc = same(b, c);
  size_t n = 1 + !ab + (!ac && !bc);
  sx_assert(m.size() == n, w + ": map holds a wrong number of entries");
  sx_assert(m.at(a) == 1 + 2 * ab + 4 * ac, w + ": map lookup returned another object's entry");
  sx_assert(m.at(c) == 4 + ac + 2 * bc, w + ": map lookup returned another object's entry");
}
#define LT [](const auto &x, const auto &y) { return x < y; }
#define EQ [](const auto &x, const auto &y) { return x == y; }
int sx_main() {
  setup_spaces(SPACES);
  switch (sx_pick("what", LO, HI)) {
  case 0: { Index a = idx("a"), b = idx("b"), c = idx("c"); laws(a, b, c, LT, EQ, eqi, "index"); mapped(a, b, c, eqi, "index"); break; }
  case 1: { SQOperator a = sq("a"), b = sq("b"), c = sq("c"); laws(a, b, c, LT, EQ, eqo, "operator");
    laws(a, b, c, [](const SQOperator &x, const SQOperator &y) { return x.normal_ordered_less(y); }, EQ, eqo, "operator, quasiparticle order"); break; }
  case 2: { Tensor a = ten("a", MAXI), b = ten("b", MAXI), c = ten("c", MAXI); laws(a, b, c, LT, EQ, eqt, "tensor"); break; }
  case 3: { SymbolicTerm a = term("a", 1, MAXO), b = term("b", 1, MAXO), c = term("c", 1, MAXO); laws(a, b, c, LT, EQ, eqst, "term"); break; }
  case 4: { GraphMatrix a(cnt("ac"), cnt("aa")), b(cnt("bc"), cnt("ba")), c(cnt("cc"), cnt("ca")); laws(a, b, c, LT, EQ, eqg, "counts"); sx_assert((a != b) == !eqg(a, b), "counts: != disagrees with =="); break; }
  case 5: { auto mk = [](const char *n) { std::string s(n); return Operator(lab(s + "L"), cnt(s + "c"), cnt(s + "a")); };
    auto same = [](const Operator &x, const Operator &y) { return x.label() == y.label() && eqg(x.graph_matrix(), y.graph_matrix()); };
    Operator a = mk("a"), b = mk("b"), c = mk("c"); laws(a, b, c, LT, EQ, same, "diagram operator"); sx_assert((a != b) == !same(a, b), "diagram operator: != disagrees with =="); break; }
  case 6: { // sums: terms that differ only in the ordering mark, an index or a kind are kept apart
    SymbolicTerm a = term("a", 1, 1), b = term("b", 1, 1); rational x = sx_real("x"), y = sx_real("y");
    sx_assume(x != rational(0)); sx_assume(y != rational(0)); sx_assume(x + y != rational(0));
    Expression e; e.add(a, x); e.add(b, y);
    if (eqst(a, b)) { sx_assert(e.size() == 1 && e.terms().begin()->second == x + y, "sum: like terms not combined"); sx_reach("merged"); }
    else { sx_assert(e.size() == 2, "sum: different terms combined"); sx_assert(e.terms().at(a) == x && e.terms().at(b) == y, "sum: coefficients mixed up"); sx_reach("apart"); }
    break; }
  case 7: { SymbolicTerm a = term("a", 1, 1), b = term("b", 1, 1), c = term("c", 1, 1); mapped(a, b, c, eqst, "term"); break; }
  case 8: { auto mk = [](const char *n) { std::string s(n); std::vector<Operator> v; int k = sx_pick(s + "n", 0, 2); for (int i = 0; i < k; i++) { std::string t = s + std::to_string(i); v.push_back(Operator(sx_bool((t + "L").c_str()) ? "A" : "B", cnt(t + "c"), cnt(t + "a"))); } return OperatorProduct(v); };
    auto same = [](const OperatorProduct &x, const OperatorProduct &y) { if (x.size() != y.size()) return false; for (size_t i = 0; i < x.size(); i++) if (x[i].label() != y[i].label() || !eqg(x[i].graph_matrix(), y[i].graph_matrix())) return false; return true; };
    OperatorProduct a = mk("a"), b = mk("b"), c = mk("c"); laws(a, b, c, LT, EQ, same, "operator product"); break; }
  case 9: { SymbolicTerm a = term("a", 2, 2), b = term("b", 2, 2); laws(a, b, a, LT, EQ, eqst, "pair of terms"); break; }
  }
  return 0;
}
