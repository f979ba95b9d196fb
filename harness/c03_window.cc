// C03: a rank window / cumulant cutoff selects exactly the terms of the unrestricted contraction.
// Symbolic: operator shapes over SPACES, shared labels, overall factor, both ends of the rank window, cutoff.
#include "common.h"
#include "wick.h"
#ifndef NOPS
#define NOPS 2
#endif
#ifndef SPACES
#define SPACES "og"
#endif
#ifndef MAXC
#define MAXC 2
#endif
#ifndef MAXOP
#define MAXOP 4
#endif
#ifndef MAXLEGS
#define MAXLEGS 6
#endif
static int bodies(const std::string &l) { return l == "gamma1" || l == "eta1" ? 1 : l.rfind("lambda", 0) == 0 ? atoi(l.c_str() + 6) : 0; }
int sx_main() {
  setup_spaces(SPACES);
  int ns = orbital_subspaces->num_spaces(), total = 0;
  std::vector<Operator> v;
  std::vector<std::vector<int>> cre, ann;
  for (int o = 0; o < NOPS; o++) {
    std::vector<int> c, a; int n = 0;
    for (int s = 0; s < ns; s++) { int k = sx_pick("cre", 0, std::min(MAXC, std::min(MAXOP - n, MAXLEGS - total))); c.push_back(k); n += k; total += k; }
    for (int s = 0; s < ns; s++) { int k = sx_pick("ann", 0, std::min(MAXC, std::min(MAXOP - n, MAXLEGS - total))); a.push_back(k); n += k; total += k; }
    cre.push_back(c); ann.push_back(a);
    v.push_back(Operator(o == 0 ? "A" : o == 1 ? "B" : "C", c, a));
  }
#ifdef MINLEGS
  sx_assume(total >= MINLEGS);
#endif
  scalar_t f = sx_real("factor");
  WickTheorem full; full.set_single_threaded(true);
  Expression all = full.contract(f, OperatorProduct(v), 0, total);
#ifdef CUT
  int mn = 0, mx = total, mc = sx_int("maxcum", 0, 5);
#else
  int mn = sx_int("minrank", -2, total + 2), mx = sx_int("maxrank", -2, total + 2), mc = 100;
#endif
  Expression win;
  WickTheorem wt; wt.set_single_threaded(true);
#ifdef CUT
  wt.set_max_cumulant(mc);
#endif
  win = wt.contract(f, OperatorProduct(v), mn, mx);
  NSum want; size_t n = 0;
  for (const auto &[t, c] : all.terms()) {
    int rank = t.ops().size(), b = 0;
    for (const auto &x : t.tensors()) b = std::max(b, bodies(x.label()));
    if (rank >= mn && rank <= mx && b <= mc) { nadd(want, net_of(t), c, true); n++; }
  }
  for (const auto &[t, c] : win.terms()) {
    int rank = t.ops().size();
    sx_assert(rank >= mn && rank <= mx, "a term outside the rank window was returned");
    for (const auto &x : t.tensors()) sx_assert(bodies(x.label()) <= mc, "a cumulant above the cutoff was returned");
  }
  sx_reach(n == 0 ? "empty window" : n < all.size() ? "some terms selected" : "all terms selected");
  assert_equal(nsum(win, true), want, "restricted contraction is not the selection of the full one");
  sx_assert(n != 0 || win.size() == 0, "a window without terms must give an empty expression");
  return 0;
}
