// C21: operator prefactors, index counts and symmetry factors, operators in algebraic form.
#include "common.h"
#include "diagrams/operator.h"
#include "diagrams/operator_product.h"
#include "diagrams/operator_expression.h"
#include "algebra/term.h"
#include "algebra/expression.h"
#ifndef LO
#define LO 0
#endif
#ifndef HI
#define HI 0
#endif
#ifndef SPACES
#define SPACES "ov"
#endif
#ifndef MAXN
#define MAXN 4
#endif
#ifndef LEN
#define LEN 5
#endif
#ifndef MAXOPS
#define MAXOPS 3
#endif
#ifndef NCOMP
#define NCOMP 1
#endif
static rational fact(int n) { rational r(1); for (int i = 2; i <= n; i++) r *= rational(i); return r; }
struct C { int s; bool cre; };
int sx_main() {
  setup_spaces(SPACES); int ns = orbital_subspaces->num_spaces(); std::string L = SPACES;
  auto comp = [&](const std::string &n, std::vector<C> &v, std::string &s, bool parens) {
    int k = sx_pick(n + "ops", 1, MAXOPS);
    for (int i = 0; i < k; i++) { C c; c.s = sx_pick(n + "s" + std::to_string(i), 0, ns - 1); c.cre = sx_pick(n + "c" + std::to_string(i), 0, 1); v.push_back(c); if (i) s += " "; s += L[c.s]; if (c.cre) s += "+"; }
  };
  switch (sx_pick("test", LO, HI)) {
  case 0: {
    std::vector<int> c(ns), a(ns); rational want(1);
    for (int i = 0; i < ns; i++) { c[i] = sx_pick("c" + std::to_string(i), 0, MAXN); a[i] = sx_pick("a" + std::to_string(i), 0, MAXN); want *= fact(c[i]); want *= fact(a[i]); }
    Operator o("T", c, a); sx_assert(o.factor() * want == rational(1), "wrong prefactor");
    int n = 0; for (int i = 0; i < ns; i++) { n += c[i] + a[i]; sx_assert(o.cre(i) == c[i] && o.ann(i) == a[i], "operator count changed"); }
    sx_assert(o.num_ops() == n, "wrong number of operators");
    Operator d = o.adjoint(); for (int i = 0; i < ns; i++) sx_assert(d.cre(i) == a[i] && d.ann(i) == c[i], "adjoint does not exchange the operators"); sx_assert(d.factor() == o.factor() && d.label() == o.label(), "adjoint changed the prefactor");
    sx_reach("prefactor"); break;
  }
  case 1: {
    std::vector<Index> ix[2]; std::vector<int> n[2];
    for (int k = 0; k < 2; k++) { n[k].assign(ns, 0); for (int i = sx_pick(k ? "lower" : "upper", 0, LEN); i > 0; i--) { std::string m = (k ? "l" : "u") + std::to_string(i); int s = sx_int(m + "s", 0, ns - 1); ix[k].push_back(Index(s, sx_int(m + "p", 0, 1000000000))); for (int q = 0; q < ns; q++) n[k][q] += s == q; } }
    Tensor t("T", ix[1], ix[0], SymmetryType::Antisymmetric);
    auto cnt = num_indices_per_space(ix[0]); sx_assert((int)cnt.size() == ns, "wrong number of spaces");
    for (int q = 0; q < ns; q++) sx_assert(cnt[q] == n[0][q], "wrong number of indices in a space");
    auto sig = t.signature(); sx_assert((int)sig.size() == ns, "wrong number of spaces");
    for (int q = 0; q < ns; q++) sx_assert(sig[q].first == n[0][q] && sig[q].second == n[1][q], "wrong signature");
    static const long F[] = {1, 1, 2, 6, 24, 120, 720, 5040, 40320}; long w[2] = {1, 1};
    for (int k = 0; k < 2; k++) for (int q = 0; q < ns; q++) w[k] *= F[sx_conc_int(n[k][q])];
    sx_assert(symmetry_factor(ix[0]) == w[0] && symmetry_factor(ix[1]) == w[1], "wrong symmetry factor of indices");
    sx_assert(t.symmetry_factor() == w[0] * w[1], "wrong symmetry factor of a tensor");
    sx_reach("symmetry factor"); break;
  }
  case 4: { // many indices
    int k = sx_pick("first", 0, 20), m = sx_pick("second", 0, 20); __int128 w = 1; for (int i = 2; i <= k; i++) w *= i; for (int i = 2; i <= m; i++) w *= i; sx_assume(w < ((__int128)1 << 63));
    std::vector<Index> ix; for (int i = 0; i < k; i++) ix.push_back(Index(0, i)); for (int i = 0; i < m; i++) ix.push_back(Index(1, i));
    sx_assert(symmetry_factor(ix) == (long long)w, "wrong symmetry factor of many indices"); Tensor t("T", ix, {}, SymmetryType::Antisymmetric), u("T", {}, ix, SymmetryType::Antisymmetric); sx_assert(t.symmetry_factor() == (long long)w && u.symmetry_factor() == (long long)w, "wrong symmetry factor of a tensor");
    sx_reach("many indices"); break;
  }
  case 2: { // operators of diagrams from text
    std::vector<std::string> s(NCOMP); std::vector<std::vector<C>> v(NCOMP); bool unique = sx_pick("unique", 0, 1), bad = sx_pick("unknown label", 0, 1);
    for (int k = 0; k < NCOMP; k++) comp("k" + std::to_string(k), v[k], s[k], true);
    if (bad) { char c = (char)sx_byte("label"); sx_assume((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')); bool known = false; for (char x : L) known = known || x == c; if (known) sx_stop_path(); s[0] += std::string(" ") + c; }
    bool thrown = false; OperatorExpression e; try { e = make_diag_operator_expression("T", s, unique); } catch (const std::exception &) { thrown = true; }
    sx_assert(thrown == bad, bad ? "unknown label accepted" : "valid component rejected"); if (bad) { sx_reach("unknown label"); break; }
    std::vector<std::pair<Operator, int>> want;
    for (auto &x : v) { std::vector<int> c(ns), a(ns); for (auto &y : x) (y.cre ? c : a)[y.s]++; Operator o("T", c, a); bool f = false; for (auto &[p, m] : want) if (p == o) { f = true; if (!unique) m++; } if (!f) want.push_back({o, 1}); }
    sx_assert(e.size() == want.size(), "wrong number of operators");
    for (auto &[o, m] : want) { OperatorProduct p({o}); sx_assert(e.contains(p), "an operator is missing"); sx_assert(e.terms().at(p) == rational(m), "wrong coefficient of an operator"); }
    sx_reach(want.size() < v.size() ? "repeated component" : "components"); break;
  }
  case 3: { // operators in algebraic form
    std::vector<std::string> s(NCOMP); std::vector<std::vector<C>> v(NCOMP); bool no = sx_pick("normal", 0, 1); auto sym = sx_pick("symmetric", 0, 1) ? SymmetryType::Symmetric : SymmetryType::Antisymmetric;
    for (int k = 0; k < NCOMP; k++) comp("k" + std::to_string(k), v[k], s[k], false);
    rational c = sx_real("coefficient"); sx_assume(c != rational(0));
    Expression e = make_operator_expr("T", s, no, sym, c); std::vector<int> used(NCOMP, 0); size_t terms = 0;
    for (const auto &[t, k] : e.terms()) {
      terms++; std::vector<C> got; std::vector<Index> cre, ann; auto ts = t.tensors();
      bool order = true, seen = false; for (const SQOperator &o : t.ops()) { if (o.is_creation()) { order = order && !seen; cre.push_back(o.index()); } else { seen = true; ann.push_back(o.index()); } }
      sx_assert(order, "creation operators are not on the left"); sx_assert(ts.size() == 1, "not one tensor"); sx_assert(t.normal_ordered() == no, "ordering mark lost");
      sx_assert(ts[0].label() == "T" && ts[0].symmetry() == sym, "wrong tensor"); sx_assert(ts[0].lower() == cre, "lower indices do not match the creation operators"); std::reverse(ann.begin(), ann.end()); sx_assert(ts[0].upper() == ann, "upper indices do not match the annihilation operators"); std::reverse(ann.begin(), ann.end());
      for (size_t i = 0; i < cre.size() + ann.size(); i++) for (size_t j = 0; j < i; j++) { const Index &a = i < cre.size() ? cre[i] : ann[i - cre.size()], &b = j < cre.size() ? cre[j] : ann[j - cre.size()]; sx_assert(!(a == b), "an index is used twice"); }
      int mult = 0; for (int q = 0; q < NCOMP; q++) { std::vector<int> a, b; for (auto &y : v[q]) (y.cre ? a : b).push_back(y.s); bool m = a.size() == cre.size() && b.size() == ann.size(); for (size_t i = 0; m && i < a.size(); i++) m = a[i] == cre[i].space(); for (size_t i = 0; m && i < b.size(); i++) m = b[i] == ann[i].space(); if (m) { mult++; used[q]++; } }
      sx_assert(mult > 0, "a term that matches no component"); sx_assert(k == c * rational(mult), "wrong coefficient");
    }
    for (int q = 0; q < NCOMP; q++) sx_assert(used[q] == 1, "a component is missing or occurs twice");
    sx_reach(terms < NCOMP ? "repeated component" : "algebraic form"); break;
  }
  }
  return 0;
}
