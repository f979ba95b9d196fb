// C13: commutators and BCH series equal their definitions; operators built from component strings.
// Symbolic: every coefficient; for component strings the bytes and layout.
#include "common.h"
#include "net.h"
#include "diagrams/contraction.h"
#include "diagrams/operator_expression.h"
#ifndef LO
#define LO 0
#define HI 2
#endif
#ifndef ORDER
#define ORDER 3
#endif
#ifndef TOK
#define TOK 3
#endif
// oracle: formal sums of words
typedef std::vector<int> W; typedef std::map<W, scalar_t> F;
static std::vector<Operator> L;
static void fadd(F &f, const W &w, const scalar_t &c) { auto it = f.find(w); if (it == f.end()) f.emplace(w, c); else it->second += c; }
static F mul(const F &a, const F &b) { F r; for (auto &[x, c] : a) for (auto &[y, d] : b) { W w = x; w.insert(w.end(), y.begin(), y.end()); fadd(r, w, c * d); } return r; }
static F lin(const F &a, const F &b, scalar_t s) { F r = a; for (auto &[y, d] : b) fadd(r, y, d * s); return r; }
static F com(const F &a, const F &b) { return lin(mul(a, b), mul(b, a), scalar_t(-1)); }
static OperatorExpression ex(const F &f) { OperatorExpression e; for (auto &[w, c] : f) { OperatorProduct p; for (int k : w) p.push_back(L[k]); e.add(p, c); } return e; }
static void expect(const OperatorExpression &e, const F &f, const std::string &what) {
  std::map<W, bool> seen;
  for (const auto &[p, c] : e.terms()) {
    W w; for (const auto &o : p) { int k = -1; for (size_t i = 0; i < L.size(); i++) if (L[i].label() == o.label() && L[i].cre(0) == o.cre(0) && L[i].ann(0) == o.ann(0) && L[i].cre(1) == o.cre(1) && L[i].ann(1) == o.ann(1)) k = i; w.push_back(k); }
    auto it = f.find(w); sx_assert(it != f.end(), what + ": unexpected product"); if (it == f.end()) continue;
    sx_assert(c == it->second, what + ": coefficient"); seen[w] = true;
  }
  for (auto &[w, c] : f) if (!seen[w]) sx_assert(c == scalar_t(0), what + ": missing product");
}
static F arb(const char *n, std::vector<W> ws) { F f; for (size_t i = 0; i < ws.size(); i++) f.emplace(ws[i], sx_real(n + std::to_string(i))); return f; }
static void t_commutator() {
  F a = arb("a", {{0}, {1}, {}}), b = arb("b", {{1}, {2, 0}}); OperatorExpression A = ex(a), B = ex(b);
  expect(commutator(A, B), com(a, b), "commutator"); expect(A, a, "operand A"); expect(B, b, "operand B");
  expect(commutator(A, A), F{}, "commutator with itself"); sx_reach("commutator");
}
static void t_bch() {
  int n = sx_pick("n", 0, ORDER); bool two = sx_bool("two"), same = sx_bool("same");
  F a = two ? arb("a", {{0}, {1}}) : arb("a", {{0}}), b = two ? arb("b", {{2}}) : arb("b", {{1}, {2}}); if (same) b = a;
  OperatorExpression A = ex(a), B = ex(b); F t = a, r = a;
  for (int k = 1; k <= n; k++) { F c = com(t, b); t = c; scalar_t f(1); for (int i = 2; i <= k; i++) f *= scalar_t(i); r = lin(r, t, scalar_t(1) / f); }
  expect(same ? bch_series(A, A, n) : bch_series(A, B, n), r, "series"); expect(A, a, "operand A"); expect(B, b, "operand B");
  sx_reach(n < 2 ? "low order" : "nested commutators");
}
static void t_components() { // every component: up to TOK tokens, label o, v or an unknown one, with or without a creation mark
  
#ifdef KNOWN
  int nc = 1;
#else
  int nc = sx_pick("components", 0, 2);
#endif
   bool uniq = sx_bool("unique"), unknown = false; std::vector<std::string> comp; std::vector<std::array<int, 4>> cnt;
  for (int i = 0; i < nc; i++) {
    std::string s, m = std::to_string(i); std::array<int, 4> c{}; int nt = sx_pick("tokens" + m, 0, i ? 1 : TOK);
    for (int j = 0; j < nt; j++) {
      std::string q = m + std::to_string(j); unsigned char b = sx_byte(("b" + q).c_str()); 
#ifdef KNOWN
      sx_assume(sx_logical_or(b == 'o', b == 'v'));
#else
      if (i == 0 && j == 0) sx_assume(sx_logical_or(sx_logical_and(b >= 'a', b <= 'z'), sx_logical_and(b >= 'A', b <= 'Z'))); // every letter
      else sx_assume(sx_logical_or(b == 'o', sx_logical_or(b == 'v', b == 'x')));
#endif
     
      int mark = sx_pick("mark" + q, 0, 2), gap = j == 0 ? 0 :
#ifdef KNOWN
        1;
#else
        sx_pick("gap" + q, 0, 1);
#endif
     
      if (gap) s += ' '; s += (char)b; if (mark) s += mark == 1 ? '+' : '^';
      if (b == 'o') c[mark ? 0 : 1]++; else if (b == 'v') c[mark ? 2 : 3]++; else unknown = true;
    }
    comp.push_back(s); cnt.push_back(c);
  }
  OperatorExpression e; bool thrown = false; try { e = make_diag_operator_expression("A", comp, uniq); } catch (std::exception &) { thrown = true; }
  sx_assert(thrown == unknown, "exactly components with unknown labels are refused"); if (thrown) { sx_reach("refused"); return; }
  std::map<std::array<int, 4>, int> want; for (auto &c : cnt) { if (uniq) want[c] = 1; else want[c]++; }
  size_t n = 0;
  for (const auto &[p, c] : e.terms()) {
    sx_assert(p.size() == 1 && p[0].label() == "A", "one operator with the given label per component");
    std::array<int, 4> k{p[0].cre(0), p[0].ann(0), p[0].cre(1), p[0].ann(1)}; auto it = want.find(k); sx_assert(it != want.end(), "counts of a component"); if (it == want.end()) continue;
    sx_assert(c == scalar_t(it->second), "coefficient of a component"); n++;
  }
  sx_assert(n == want.size(), "a component is missing"); sx_reach("built");
}
int sx_main() {
  setup_spaces("ov");
  L = {Operator("A", {1, 0}, {0, 1}), Operator("A", {0, 1}, {1, 0}), Operator("B", {0, 1}, {1, 0})};
  switch (sx_pick("what", LO, HI)) { case 0: t_commutator(); break; case 1: t_bch(); break; default: t_components(); }
  return 0;
}
