// C14: canonicalizing an operator product or sum only exchanges operators that (anti)commute, with the matching sign.
// Symbolic: labels and the number of creation and annihilation legs of every operator in every space (fermions and
// bosons), coefficients.
#include "common.h"
#include "wick.h"
#include "diagrams/operator_expression.h"
#ifndef LO
#define LO 0
#define HI 2
#endif
#ifndef SPACES
#define SPACES "ov"
#endif
#ifndef NOPS
#define NOPS 3
#endif
#ifndef MAXC
#define MAXC 2
#endif
struct Op { std::string lab; std::vector<int> c, a; };
static bool same(const Operator &x, const Op &o) { if (x.label() != o.lab) return false; for (size_t s = 0; s < o.c.size(); s++) if (x.cre(s) != o.c[s] || x.ann(s) != o.a[s]) return false; return true; }
static bool same(const Op &x, const Op &o) { return x.lab == o.lab && x.c == o.c && x.a == o.a; }
static bool touch(const Op &x, const Op &y) { int n = 0; for (size_t s = 0; s < x.c.size(); s++) n += x.c[s] * y.a[s] + x.a[s] * y.c[s]; return n != 0; } // some pair of legs does not (anti)commute
static int fermi(const Op &x) { int n = 0; for (size_t s = 0; s < x.c.size(); s++) if (orbital_subspaces->field_type(s) == FieldType::Fermion) n += x.c[s] + x.a[s]; return n; }
static std::vector<Op> arb(const std::string &n, int nops, int maxc) {
  std::vector<Op> v; int ns = orbital_subspaces->num_spaces();
  for (int i = 0; i < nops; i++) {
    Op o; o.lab = std::string(1, 'A' + sx_pick(n + "lab" + std::to_string(i), 0, 1));
    for (int s = 0; s < ns; s++) { std::string m = n + std::to_string(i) + std::to_string(s); o.c.push_back(sx_int("c" + m, 0, maxc)); o.a.push_back(sx_int("a" + m, 0, maxc)); }
    v.push_back(o);
  }
  return v;
}
static OperatorProduct prod(const std::vector<Op> &v) { OperatorProduct p; for (auto &o : v) p.push_back(Operator(o.lab, o.c, o.a)); return p; }
static void t_product() {
  std::vector<Op> v = arb("", sx_pick("n", 0, NOPS), MAXC); OperatorProduct p = prod(v); scalar_t s = p.canonicalize();
  sx_assert(p.size() == v.size(), "number of operators");
  std::vector<int> to(v.size(), -1); // order-preserving matching of equal operators
  for (size_t k = 0; k < p.size(); k++) { bool hit = false; for (size_t i = 0; i < v.size() && !hit; i++) if (to[i] < 0 && same(p[k], v[i])) { to[i] = k; hit = true; } sx_assert(hit, "an operator was changed"); if (!hit) return; }
  int sg = 1; bool moved = false;
  for (size_t i = 0; i < v.size(); i++) for (size_t j = i + 1; j < v.size(); j++) if (to[i] > to[j]) { moved = true; sx_assert(!touch(v[i], v[j]), "two operators that do not commute were exchanged"); if ((fermi(v[i]) * fermi(v[j])) & 1) sg = -sg; }
  sx_assert(s == scalar_t(sg), "sign of the reordering"); sx_reach(moved ? "reordered" : "kept");
}
static void t_sum() { // like products merge, the sum is preserved
  std::vector<Op> a = arb("p", 2, 1), b = sx_bool("swapped") ? std::vector<Op>{a[1], a[0]} : arb("q", 1, 1);
  scalar_t x = sx_real("x"), y = sx_real("y"); OperatorExpression e; e.add(prod(a), x); e.add(prod(b), y); e.canonicalize();
  OperatorProduct P = prod(a), Q = prod(b); scalar_t sp = P.canonicalize(), sq = Q.canonicalize(); std::vector<std::pair<OperatorProduct, scalar_t>> w{{P, x * sp}};
  if (Q == P) w[0].second += y * sq; else w.push_back({Q, y * sq});
  size_t n = 0; for (auto &[k, c] : w) { auto it = e.terms().find(k); if (it == e.terms().end()) sx_assert(c == scalar_t(0), "a product is missing"); else { n++; sx_assert(c == it->second, "coefficient after merging"); } }
  sx_assert(n == e.size(), "unexpected product"); sx_reach(w.size() == 1 ? "merged" : "apart");
}
static void t_contract() { // contraction before and after
  std::vector<Op> v; int ns = orbital_subspaces->num_spaces(), tot = 0, nops = NOPS;
  for (int i = 0; i < nops; i++) { Op o; o.lab = std::string(1, "BAB"[i]); for (int s = 0; s < ns; s++) { std::string m = std::to_string(i) + std::to_string(s); for (auto *q : {&o.c, &o.a}) { int k = sx_pick((q == &o.c ? "c" : "a") + m, 0, std::min(1, 4 - tot)); q->push_back(k); tot += k; } } v.push_back(o); }
  scalar_t x = sx_real("x"); OperatorExpression e; e.add(prod(v), x); OperatorExpression f(e); f.canonicalize();
  WickTheorem a, b; a.set_single_threaded(true); b.set_single_threaded(true);
  NSum p = nsum(a.contract(scalar_t(1), e, 0, tot), true), q = nsum(b.contract(scalar_t(1), f, 0, tot), true);
  sx_reach(f.is_equal(e) ? "unchanged" : "reordered and contracted"); assert_equal(p, q, "contraction before and after canonicalization");
}
int sx_main() {
  setup_spaces(SPACES);
  switch (sx_pick("what", LO, HI)) { case 0: t_product(); break; case 1: t_sum(); break; default: t_contract(); }
  return 0;
}
