// C05: the tasks of a threaded contraction never touch the same memory without ordering.
// Symbolic: operator shapes, rank window, factor, graph canonicalization on or off.
#include "common.h"
#include "wick.h"
#ifndef NOPS
#define NOPS 2
#endif
#ifndef SPACES
#define SPACES "ov"
#endif
#ifndef MAXC
#define MAXC 2
#endif
#ifndef MAXLEGS
#define MAXLEGS 6
#endif
int sx_main() {
  setup_spaces(SPACES);
  int ns = orbital_subspaces->num_spaces(), total = 0;
  std::vector<Operator> v;
  for (int o = 0; o < NOPS; o++) {
    std::vector<int> c, a;
    for (int s = 0; s < ns; s++) { int k = sx_pick("cre", 0, std::min(MAXC, MAXLEGS - total)); c.push_back(k); total += k; }
    for (int s = 0; s < ns; s++) { int k = sx_pick("ann", 0, std::min(MAXC, MAXLEGS - total)); a.push_back(k); total += k; }
    v.push_back(Operator(o == 0 ? "A" : o == 1 ? "B" : "C", c, a));
  }
  scalar_t f = sx_real("factor");
  WickTheorem wt;
  wt.do_canonicalize_graph(sx_pick("graph", 0, 1));
  int mx = sx_int("maxrank", 0, total);
  sxr_race_mode();
  Expression r = wt.contract(f, OperatorProduct(v), 0, mx);
  int n = sxr_ntasks();
  sx_reach(n == 0 ? "no task" : n == 1 ? "one task" : "several tasks");
  sxr_races();
  return 0;
}
