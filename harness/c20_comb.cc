// C20: factorial, binomial, permutation sign and integer partitions against their mathematical definitions.
#include "common.h"
#include <set>
#include "helpers/combinatorics.h"
#ifndef PERM
#define PERM 6
#endif
#ifndef WIDE2
#define WIDE2 4095
#endif
#ifndef PARTN
#define PARTN 14
#endif
static void t_factorial() {
  int n = sx_int("n", 0, 20);
  long long r = factorial(n);
  __int128 e = 1; for (int i = 2; i <= n; i++) e *= i;
  sx_reach("factorial");
  sx_assert(r == (long long)e, "factorial is not exact");
}
static void t_binomial_all() { // every n, k whose value fits
  int n = sx_pick("n", 0, 70), k = sx_int("k", -3, 75);
  const __int128 LIM = 9223372036854775807LL;
  std::vector<__int128> row{1}; // Pascal's triangle, saturated
  for (int i = 1; i <= n; i++) { std::vector<__int128> nx{1}; for (int j = 1; j < i; j++) { __int128 v = row[j - 1] + row[j]; nx.push_back(v > LIM ? LIM + 1 : v); } nx.push_back(1); row = nx; }
  int kc = sx_conc_int(k);
  __int128 e = kc < 0 || kc > n ? 0 : row[kc];
  sx_assume(e <= LIM);
  sx_reach("binomial");
  sx_assert(binomial(n, kc) == (long long)e, "binomial is not exact");
}
static void t_binomial_wide() { // arbitrary n, few elements chosen or left out
  int n = sx_int("n", 1, 2147483647), d = sx_pick("d", 0, 1); bool high = sx_bool("high");
  sx_assume(n >= d);
  int k = high ? n - d : d;
  long long r = binomial(n, k);
  sx_reach("binomial, large argument");
  sx_assert(r == (d == 0 ? 1LL : (long long)n), "binomial(n,0), binomial(n,n), binomial(n,1) or binomial(n,n-1) is wrong");
}
static void t_binomial_wide2() {
  int n = sx_int("n", 5, WIDE2);
  bool high = sx_bool("high");
  long long r = binomial(n, high ? n - 2 : 2), m = n;
  sx_reach("binomial, two of many");
  sx_assert(r == m * (m - 1) / 2, "binomial(n,2) or binomial(n,n-2) is wrong");
}
static void t_sign() {
  int n = sx_pick("len", 0, PERM);
  std::vector<int> v;
  for (int i = 0; i < n; i++) v.push_back(sx_int("v", -2147483647, 2147483647));
  for (int i = 0; i < n; i++) for (int j = 0; j < i; j++) sx_assume(v[i] != v[j]);
  for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) if (v[i] > v[j]) sx_reach("pair out of order"); // one path per ordering
  int r = permutation_sign(v);
  // independent: count the transpositions of a selection sort
  int e = 1;
  for (int i = 0; i < n; i++) { int m = i; for (int j = i + 1; j < n; j++) if (v[j] < v[m]) m = j; if (m != i) { std::swap(v[m], v[i]); e = -e; } }
  sx_reach(e < 0 ? "odd permutation" : "even permutation");
  sx_assert(r == e, "permutation_sign is not the parity of the permutation");
}
static void parts(int left, int maxpart, int room, std::vector<int> &cur, std::set<std::vector<int>> &out) {
  if (left == 0) { out.insert(cur); return; }
  if (room == 0) return;
  for (int p = std::min(left, maxpart); p >= 1; p--) { cur.push_back(p); parts(left - p, p, room - 1, cur, out); cur.pop_back(); }
}
static void t_partitions() {
  int n = sx_int("n", 0, PARTN), maxlen = sx_int("maxlen", 0, PARTN + 2);
  bool dflt = sx_bool("default_maxlen");
  auto r = dflt ? integer_partitions(n) : integer_partitions(n, maxlen);
  int nc = sx_conc_int(n), mc = dflt ? 1000 : sx_conc_int(maxlen);
  std::set<std::vector<int>> e, got; std::vector<int> cur;
  parts(nc, nc, mc, cur, e);
  for (auto &p : r) {
    for (size_t i = 0; i + 1 < p.size(); i++) sx_assert(p[i] >= p[i + 1], "parts of a partition are not in nonincreasing order");
    std::vector<int> q; for (int x : p) q.push_back(sx_conc_int(x));
    sx_assert(got.insert(q).second, "a partition is listed twice");
    sx_assert(e.count(q) > 0, "a listed sequence is not a partition with the requested length");
  }
  sx_reach("partitions");
  sx_assert(got.size() == e.size(), "a partition is missing");
}
int sx_main() {
#ifndef TLO
#define TLO 0
#define THI 5
#endif
  switch (sx_pick("test", TLO, THI)) {
    case 0: t_factorial(); break;
    case 1: t_binomial_all(); break;
    case 2: t_binomial_wide(); break;
    case 3: t_sign(); break;
    case 4: t_partitions(); break;
    case 5: t_binomial_wide2(); break;
  }
  return 0;
}
