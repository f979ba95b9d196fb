// C01/C02: contraction of a product of NOPS operators over the spaces SPACES equals the leg-level expansion.
// Symbolic: the creation/annihilation counts of every operator in every space, which operators share a label,
// the overall factor (any real), the rank window.
#include "common.h"
#include "wick.h"
#ifndef NOPS
#define NOPS 2
#endif
#ifndef SPACES
#define SPACES "ov"
#endif
#ifndef MAXC
#define MAXC 2
#endif
#ifndef MAXOP
#define MAXOP 4
#endif
#ifndef MAXLEGS
#define MAXLEGS 6
#endif
int sx_main() {
  setup_spaces(SPACES);
  int ns = orbital_subspaces->num_spaces();
  std::vector<WickOracle::O> ops; int total = 0;
  for (int o = 0; o < NOPS; o++) {
    WickOracle::O x; int n = 0;
    for (int s = 0; s < ns; s++) { int v = sx_pick("cre", 0, std::min(MAXC, std::min(MAXOP - n, MAXLEGS - total))); x.cre.push_back(v); n += v; total += v; }
    for (int s = 0; s < ns; s++) { int v = sx_pick("ann", 0, std::min(MAXC, std::min(MAXOP - n, MAXLEGS - total))); x.ann.push_back(v); n += v; total += v; }
    x.label = o == 0 ? "A" : o == 1 ? "B" : "C";
    ops.push_back(x);
  }
#ifdef MINLEGS
  sx_assume(total >= MINLEGS);
#endif
#if NOPS > 1
  { bool any = false; for (int o = 1; o < NOPS; o++) for (int q = 0; q < o; q++) { std::vector<int> a = ops[o].cre, b = ops[q].cre; if (ops[o].cre == ops[q].cre && ops[o].ann == ops[q].ann) any = true; }
    if (any && sx_pick("same_label", 0, 1)) for (auto &x : ops) x.label = "A"; }
#endif
  std::vector<Operator> v;
  for (auto &x : ops) v.push_back(Operator(x.label, x.cre, x.ann));
  scalar_t f = sx_real("factor");
  int mn = 0, mx = total;
  WickTheorem wt;
  wt.set_single_threaded(true);
#ifdef MAXCUM
  int mc = sx_pick("maxcum", 1, MAXCUM); wt.set_max_cumulant(mc);
#else
  int mc = 100;
#endif
  Expression r = wt.contract(f, OperatorProduct(v), mn, mx);
  WickOracle w(ops, f, mn, mx, mc);
  NSum e = w.result();
  sx_reach(e.size() > 1 ? "several terms" : "one term");
  assert_equal(nsum(r, true), e, "contraction differs from the leg-level Wick expansion");
  return 0;
}
