// C04: the value of a contraction does not depend on engine settings or history, and is linear.
// Symbolic: operator shapes, shared labels, graph canonicalization, threading, print level, what the engine contracted
// before and with which settings, coefficients, overall factor, rank window.
#include "common.h"
#include "wick.h"
#ifndef SPACES
#define SPACES "ov"
#endif
#ifndef MAXC
#define MAXC 2
#endif
#ifndef MAXLEGS
#define MAXLEGS 4
#endif
#ifndef NOPS
#define NOPS 2
#endif
static int total;
static OperatorProduct product(const char *lab, int nops, int maxlegs) {
  int ns = orbital_subspaces->num_spaces(), n = 0; std::vector<Operator> v; std::vector<std::pair<std::vector<int>, std::vector<int>>> sh;
  for (int o = 0; o < nops; o++) {
    std::vector<int> c, a;
    for (int s = 0; s < ns; s++) { int k = sx_pick("cre", 0, std::min(MAXC, maxlegs - n)); c.push_back(k); n += k; }
    for (int s = 0; s < ns; s++) { int k = sx_pick("ann", 0, std::min(MAXC, maxlegs - n)); a.push_back(k); n += k; }
    sh.push_back({c, a});
  }
  bool same = nops > 1 && sx_pick("same_label", 0, 1);
  for (int o = 0; o < nops; o++) v.push_back(Operator(std::string(1, lab[0] + (same ? 0 : o)), sh[o].first, sh[o].second));
  total = n;
  return OperatorProduct(v);
}
int sx_main() {
  setup_spaces(SPACES);
#ifdef LINEAR
  OperatorProduct p = product("A", 2, MAXLEGS), q = sx_pick("same_product", 0, 1) ? p : product(sx_pick("same_labels", 0, 1) ? "A" : "X", sx_pick("nops", 1, 2), LINEAR);
  scalar_t x = sx_real("x"), y = sx_real("y"), f = sx_real("factor");
  OperatorExpression e; e.add(p, x); e.add(q, y);
  int mx = sx_pick("open", 0, 1) ? 8 : 0;
  WickTheorem a, b, c; a.set_single_threaded(true); b.set_single_threaded(true); c.set_single_threaded(true);
  Expression r = a.contract(f, e, 0, mx);
  NSum want;
  Expression rp = b.contract(scalar_t(1), p, 0, mx), rq = c.contract(scalar_t(1), q, 0, mx);
  for (const auto &[t, k] : rp.terms()) nadd(want, net_of(t), f * x * k, true);
  for (const auto &[t, k] : rq.terms()) nadd(want, net_of(t), f * y * k, true);
  sx_reach(rp.size() && rq.size() ? "both products contribute" : "one product contributes");
  assert_equal(nsum(r, true), want, "contraction is not linear");
#else
  OperatorProduct p = product("A", NOPS, MAXLEGS);
  int tot = total;
#ifdef PRINTING
  scalar_t f = scalar_t(-3, 2);
#else
  scalar_t f = sx_real("factor");
#endif
  int mn = sx_pick("minrank", 0, 1), mx = sx_pick("narrow", 0, 1) ? tot - 1 : tot;
#ifdef PRINTING
  int hist = 3;
#else
  int hist = sx_pick("history", 0, 3);
#endif
  const int cut = hist == 1 ? 1 : hist == 2 ? 0 : 100; // cumulant cutoff in force
  WickTheorem ref; ref.set_single_threaded(true); ref.set_max_cumulant(cut);
  NSum want = nsum(ref.contract(f, p, mn, mx), true);
   // 0 fresh, 1 same contraction before, 2 a larger one, 3 other settings and a cutoff that is then lifted
#ifdef PRINTING
  const int P = 4;
#else
  const int P = 0;
#endif
  WickTheorem keep; // one object that goes through all settings
  for (int print = 0; print <= P; print++) for (int graph = 0; graph < 2; graph++) for (int single = 0; single < 2; single++) {
    WickTheorem fresh; WickTheorem &wt = hist == 3 ? keep : fresh;
    wt.set_print(PrintLevel::None);
    wt.set_max_cumulant(cut);
    if (hist == 1) { wt.set_single_threaded(true); wt.contract(scalar_t(2), p, 0, tot); }
    if (hist == 2 || hist == 3) {
      std::vector<Operator> o; int ns = orbital_subspaces->num_spaces();
      std::vector<int> some(ns, 1); if (hist == 2) for (int k = 1; k < ns; k++) some[k] = 0; // legs of the first space only, or all
      o.push_back(Operator("A", some, some)); o.push_back(Operator("B", some, some));
      wt.set_max_cumulant(0);
      wt.contract(scalar_t(3), OperatorProduct(o), 0, 8);
      wt.set_max_cumulant(cut);
    }
    wt.do_canonicalize_graph(graph); wt.set_single_threaded(single); wt.set_print((PrintLevel)print);
    Expression r = wt.contract(f, p, mn, mx);
    wt.set_print(PrintLevel::None);
    sx_reach(want.empty() ? "nothing" : "some terms");
    assert_equal(nsum(r, true), want, std::string("contraction depends on settings or history: graph=") + char('0' + graph) + " single=" + char('0' + single) + " print=" + char('0' + print));
  }
#endif
  return 0;
}
