// Leg-level oracle for (generalized) Wick contraction: explicit sum over all ways of contracting individual legs.
#pragma once
#include "net.h"
#include "diagrams/contraction.h"
#include "diagrams/operator.h"
#include "diagrams/operator_product.h"
#include "diagrams/operator_expression.h"
#include "diagrams/wick_theorem.h"

struct Leg { int op, space; bool cre; int idx; };
struct WickOracle {
  std::vector<Leg> legs; std::vector<NTensor> tens; std::map<int, int> space;
  scalar_t weight;
  NSum out; scalar_t factor; int minrank, maxrank, maxcum;
  long patterns = 0;
  std::vector<std::vector<int>> groups; // chosen contractions (positions of legs)
  std::vector<int> state;               // -1 undecided, 0 free, 1 contracted

  // ops: label, cre counts, ann counts
  struct O { std::string label; std::vector<int> cre, ann; };
  static long fact(int n) { long r = 1; for (int i = 2; i <= n; i++) r *= i; return r; }
  WickOracle(const std::vector<O> &ops, const scalar_t &f, int mn, int mx, int mc = 100) : weight(1), factor(f), minrank(mn), maxrank(mx), maxcum(mc) {
    int id = 0, ns = orbital_subspaces->num_spaces(); long den = 1;
    for (size_t o = 0; o < ops.size(); o++) {
      NTensor t; t.label = ops[o].label; t.sym = 'a';
      for (int s = 0; s < ns; s++) { for (int k = 0; k < ops[o].cre[s]; k++) { legs.push_back({(int)o, s, true, id}); t.lo.push_back(id); space[id] = s; id++; } den *= fact(ops[o].cre[s]) * fact(ops[o].ann[s]); }
      for (int s = ns - 1; s >= 0; s--) for (int k = 0; k < ops[o].ann[s]; k++) { legs.push_back({(int)o, s, false, id}); t.up.insert(t.up.begin(), id); space[id] = s; id++; }
      tens.push_back(t);
    }
    weight = scalar_t(1) / scalar_t((int)den);
    state.assign(legs.size(), -1);
    rec(0);
  }
  void emit() {
    int freen = 0; for (int s : state) freen += s == 0;
    if (freen < minrank || freen > maxrank) return;
    patterns++;
    // sign: bring each group together (creation legs then annihilation legs in chosen order), groups first
    std::vector<int> order; Net n; n.t = tens; n.space = space;
    std::map<int, int> rep; // delta: index -> index
    int sign = 1;
    for (auto &g : groups) {
      std::vector<int> c, a; for (int p : g) (legs[p].cre ? c : a).push_back(p);
      SpaceType st = orbital_subspaces->space_type(legs[g[0]].space);
      if (st == SpaceType::Occupied) { order.push_back(c[0]); order.push_back(a[0]); rep[legs[a[0]].idx] = legs[c[0]].idx; }
      else if (st == SpaceType::Unoccupied) { order.push_back(a[0]); order.push_back(c[0]); rep[legs[a[0]].idx] = legs[c[0]].idx; }
      else if (g.size() == 2) {
        bool gam = c[0] < a[0];
        if (gam) { order.push_back(c[0]); order.push_back(a[0]); } else { order.push_back(a[0]); order.push_back(c[0]); }
        n.t.push_back({gam ? "gamma1" : "eta1", {legs[c[0]].idx}, {legs[a[0]].idx}, 'a'});
      } else { // cumulant lambda^{p q ..}_{r s ..}: a+_p a+_q .. a_s a_r
        NTensor t; t.label = "lambda" + std::to_string(g.size() / 2); t.sym = 'a';
        for (int p : c) { order.push_back(p); t.up.push_back(legs[p].idx); }
        for (int p : a) order.push_back(p);
        for (size_t k = a.size(); k-- > 0;) t.lo.push_back(legs[a[k]].idx);
        n.t.push_back(t);
      }
    }
    for (size_t p = 0; p < legs.size(); p++) if (state[p] == 0) { order.push_back(p); n.ops.push_back({legs[p].cre, legs[p].idx}); }
    sign = perm_parity(order);
    auto sub = [&](int &i) { auto it = rep.find(i); if (it != rep.end()) i = it->second; };
    for (auto &t : n.t) { for (int &i : t.up) sub(i); for (int &i : t.lo) sub(i); }
    auto [k, sg] = canon_net(n, true);
    if (sg == 0) return;
    cnt[k] += sg * sign;
  }
  std::map<std::string, long> cnt;
  NSum result() { NSum r; for (auto &[k, c] : cnt) if (c) r.emplace(k, factor * weight * scalar_t((int)c)); return r; }
  void rec(int p) {
    int n = legs.size();
    while (p < n && state[p] != -1) p++;
    if (p == n) { emit(); return; }
    state[p] = 0; rec(p + 1);
    state[p] = 1;
    SpaceType st = orbital_subspaces->space_type(legs[p].space);
    // groups whose first leg is p
    std::vector<int> cand; for (int q = p + 1; q < n; q++) if (state[q] == -1 && legs[q].space == legs[p].space) cand.push_back(q);
    if (st != SpaceType::General) {
      // occupied: creation left of annihilation; unoccupied: annihilation left of creation
      bool first = st == SpaceType::Occupied;
      if (legs[p].cre == first) for (int q : cand) if (legs[q].cre != first && legs[q].op != legs[p].op) { state[q] = 1; groups.push_back({p, q}); rec(p + 1); groups.pop_back(); state[q] = -1; }
    } else for (unsigned m = 1; m < (1u << cand.size()); m++) {
      std::vector<int> g{p}; int c = legs[p].cre, a = !legs[p].cre; bool multi = false;
      for (size_t k = 0; k < cand.size(); k++) if (m >> k & 1) { int q = cand[k]; g.push_back(q); (legs[q].cre ? c : a)++; if (legs[q].op != legs[p].op) multi = true; }
      if (c != a || !multi || c > maxcum) continue;
      for (int q : g) state[q] = 1;
      groups.push_back(g); rec(p + 1); groups.pop_back();
      for (int q : g) state[q] = -1;
      state[p] = 1;
    }
    state[p] = -1;
  }
};
