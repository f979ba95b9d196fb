// C17: to_manybody_equation distributes every term to exactly one equation, without loss.
#include "common.h"
#include <map>
#include "algebra/term.h"
#include "algebra/expression.h"
#include "algebra/equation.h"
#ifndef SPACES
#define SPACES "ov"
#endif
#ifndef NTERMS
#define NTERMS 2
#endif
#ifndef MAXC
#define MAXC 1
#endif
#ifndef MAXA
#define MAXA 1
#endif
#ifndef MAXT
#define MAXT 1
#endif
#ifndef MAXI
#define MAXI 1
#endif
#ifndef BIG
#define BIG 1000000000
#endif
static Index idx(const std::string &n, int ns) { return Index(ns == 1 ? 0 : sx_int(n + "s", 0, ns - 1), sx_int(n + "p", 0, BIG)); }
static bool sameT(const Tensor &a, const Tensor &b) { return a.label() == b.label() && a.lower() == b.lower() && a.upper() == b.upper() && a.symmetry() == b.symmetry(); }
int sx_main() {
  setup_spaces(SPACES); int ns = orbital_subspaces->num_spaces(); std::string labels = SPACES;
  struct In { std::vector<Index> cre, ann; std::vector<Tensor> t; rational c; bool used = false; };
  std::vector<In> in; Expression e; std::string name = sx_pick("name", 0, 1) ? "r" : "";
  static const char *tl[] = {"T", "f"};
  for (int k = 0; k < NTERMS; k++) {
    std::string n = "t" + std::to_string(k); In x;
    SymbolicTerm s;
    int nc = sx_pick(n + "cre", 0, MAXC), na = sx_pick(n + "ann", 0, MAXA), nt = sx_pick(n + "tensors", 0, MAXT);
    for (int i = 0; i < nc; i++) { x.cre.push_back(idx(n + "c" + std::to_string(i), ns)); s.add(SQOperator(SQOperatorType::Creation, x.cre.back())); }
    for (int i = 0; i < na; i++) { x.ann.push_back(idx(n + "a" + std::to_string(i), ns)); s.add(SQOperator(SQOperatorType::Annihilation, x.ann.back())); }
    for (int i = 0; i < nt; i++) {
      std::string m = n + "T" + std::to_string(i); std::vector<Index> lo, up;
      for (int j = sx_pick(m + "lo", 0, MAXI); j > 0; j--) lo.push_back(idx(m + "l" + std::to_string(j), ns));
      for (int j = sx_pick(m + "up", 0, MAXI); j > 0; j--) up.push_back(idx(m + "u" + std::to_string(j), ns));
      x.t.push_back(Tensor(tl[sx_pick(m + "name", 0, 1)], lo, up, i ? SymmetryType::Symmetric : SymmetryType::Antisymmetric)); s.add(x.t.back());
    }
    s.set_normal_ordered(sx_pick(n + "normal", 0, 1));
    x.c = sx_real(n + "coef"); sx_assume(x.c != rational(0));
    bool dup = false; for (const auto &[t, c] : e.terms()) dup = dup || t == s;
    if (dup) sx_stop_path();
    e.add(s, x.c); in.push_back(x);
  }
  Expression before = e;
  auto eqs = e.to_manybody_equation(name);
  sx_assert(e == before, "the expression was changed");
  size_t total = 0;
  for (const auto &[key, list] : eqs) {
    sx_assert(list.size() > 0, "a key without equations");
    for (const Equation &q : list) {
      total++;
      sx_assert(q.lhs().tensors().size() == 1 && q.lhs().nops() == 0, "left-hand side is not one tensor");
      sx_assert(q.rhs().nops() == 0, "operators left on the right-hand side");
      auto lts = q.lhs().tensors(); auto rts = q.rhs().tensors(); const Tensor &l = lts[0];
      sx_assert(l.label() == name && l.symmetry() == SymmetryType::Antisymmetric, "wrong left-hand tensor");
      // the key of the equation's own operators
      std::vector<int> u(ns, 0), w(ns, 0); for (const Index &i : l.upper()) u[i.space()]++; for (const Index &i : l.lower()) w[i.space()]++;
      std::string want; for (int s = 0; s < ns; s++) want += std::string(u[s], labels[s]); want += '|'; for (int s = ns - 1; s >= 0; s--) want += std::string(w[s], labels[s]);
      sx_assert(key == want, "equation filed under the wrong key");
      bool found = false;
      for (In &x : in) if (!x.used && x.t.size() == rts.size() && x.cre.size() == l.lower().size() && x.ann.size() == l.upper().size()) {
        bool same = true;
        for (size_t i = 0; i < rts.size(); i++) same = same && sameT(x.t[i], rts[i]);
        for (size_t i = 0; i < x.cre.size(); i++) same = same && x.cre[i] == l.lower()[i];
        for (size_t i = 0; i < x.ann.size(); i++) same = same && x.ann[x.ann.size() - 1 - i] == l.upper()[i];
        if (same && q.rhs_factor() == x.c) { found = x.used = true; break; }
      }
      sx_assert(found, "an equation that matches no term of the expression");
      Expression rx = q.rhs_expression();
      sx_assert(rx.size() == 1 && rx.terms().begin()->first == q.rhs() && rx.terms().begin()->second == q.rhs_factor(), "right-hand side expression differs from the equation");
    }
  }
  sx_assert(total == in.size(), "number of equations differs from the number of terms");
  sx_reach(eqs.size() == in.size() ? "different keys" : "shared key");
  return 0;
}
