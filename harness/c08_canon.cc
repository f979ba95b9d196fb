// C08: canonicalizing a (normal-ordered) term or expression keeps its value; doing it twice changes nothing.
// Symbolic: number, labels, symmetry and shape of the tensors, the operators, every index (space and number),
// the coefficients.
#include "common.h"
#include "net.h"
#include <set>
#ifndef SPACES
#define SPACES "o"
#endif
#ifndef MAXT
#define MAXT 2
#endif
#ifndef MAXLEG
#define MAXLEG 2
#endif
#ifndef MAXOPS
#define MAXOPS 2
#endif
#ifndef MAXTOT
#define MAXTOT 6
#endif
#ifndef POS
#define POS 6
#endif
static int tot = 0, ixS[32], ixP[32];
static Index idx() {
  int s = orbital_subspaces->num_spaces() > 1 ? sx_pick("space", 0, orbital_subspaces->num_spaces() - 1) : 0;
  int p = sx_int("pos", 0, POS);
  ixS[tot] = s; ixP[tot] = p; tot++;
  return Index(s, p);
}
static SymbolicTerm term(bool sym, int minops) {
  SymbolicTerm t; tot = 0;
  t.set_normal_ordered(true);
  int nt = sx_pick("ntensors", 0, MAXT);
  for (int k = 0; k < nt; k++) {
    std::string lab = k == 0 ? "A" : sx_pick("label", 0, 1) ? "B" : "A";
    std::vector<Index> up, lo;
    int u = sx_pick("nup", 0, std::min(MAXLEG, MAXTOT - tot)); for (int i = 0; i < u; i++) up.push_back(idx());
    int l = sx_pick("nlo", 0, std::min(MAXLEG, MAXTOT - tot)); for (int i = 0; i < l; i++) lo.push_back(idx());
    t.add(Tensor(lab, lo, up, sym ? SymmetryType::Symmetric : SymmetryType::Antisymmetric));
  }
  int no = sx_pick("nops", minops, std::max(minops, std::min(MAXOPS, MAXTOT - tot)));
  for (int k = 0; k < no; k++) { bool c = sx_pick("creation", 0, 1); t.add(SQOperator(c ? SQOperatorType::Creation : SQOperatorType::Annihilation, idx())); }
  return t;
}
#ifdef CLOSED // every index occurs exactly twice (stated without branching)
static void close() {
  for (int i = 0; i < tot; i++) { int c = 0; for (int j = 0; j < tot; j++) c += (int)(ixS[i] == ixS[j]) & (int)(ixP[i] == ixP[j]); sx_assume(c == 2); }
}
#endif
static NSum of(const SymbolicTerm &t, const scalar_t &c) { NSum s; nadd(s, net_of(t), c, true); return s; }
int sx_main() {
  setup_spaces(SPACES);
  bool sym = sx_pick("symmetric", 0, 1);
  SymbolicTerm t = term(sym, 0);
#ifdef CLOSED
  close();
#endif
  NSum before = of(t, scalar_t(1));
  SymbolicTerm c = t;
  scalar_t f = c.canonicalize();
  sx_reach(before.empty() ? "vanishing" : "nonvanishing");
  sx_assert(f == scalar_t(1) || f == scalar_t(-1), "canonicalize returned a factor that is not a phase");
  sx_assert(c.normal_ordered() == t.normal_ordered(), "canonicalize changed the ordering mark");
  assert_equal(of(c, f), before, "canonicalized term differs from the original");
  SymbolicTerm d = c;
  scalar_t g = d.canonicalize();
  assert_equal(of(d, g), of(c, scalar_t(1)), "canonicalizing a canonical term changes its value");
  std::set<std::string> labels; for (const auto &x : t.tensors()) labels.insert(x.label());
  if (!before.empty() && labels.size() == t.tensors().size()) { sx_assert(d == c, "canonicalizing twice gives another term"); sx_assert(g == scalar_t(1), "canonicalizing twice gives another phase"); sx_reach("idempotent"); }
  // expression: the same term with its coefficient, together with a second copy of it
  Expression e; scalar_t x = sx_real("x"), y = scalar_t(0) - x;
  e.add(t, x); e.add(c, y);
  NSum eb = nsum(e, true);
  e.canonicalize();
  assert_equal(nsum(e, true), eb, "canonicalized expression differs from the original");
  return 0;
}
