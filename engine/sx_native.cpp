// Native replay: inputs come from the model in argv[1]. Exit 0 all assertions hold, 1 an assertion failed
// (message on stdout), 3 the model does not satisfy the assumptions.
#ifdef SX_RATIONAL_HDR
#include SX_RATIONAL_HDR
#endif
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>
#include <unistd.h>
static std::map<std::string, std::string> M;
static std::map<std::string, int> used;
static std::string val(const char *name) {
  std::string n = name; int k = used[n]++;
  // same naming rule as the symbolic runtime: a repeated name gets #k appended
  std::string key = n; if (k) key += "#" + std::to_string(k);
  auto it = M.find(key);
  return it == M.end() ? "" : it->second;
}
static int fail_count = 0;
extern "C" {
int sx_int(const char *name, int lo, int hi) { std::string v = val(name); if (v.empty()) return lo; long x = atol(v.c_str()); if (x < lo || x > hi) exit(3); return x; }
bool sx_bool(const char *name) { std::string v = val(name); return !v.empty() && v != "0"; }
uint64_t sx_u64(const char *name) { std::string v = val(name); return strtoull(v[0] == '-' ? v.c_str() : v.c_str(), nullptr, 10); }
unsigned char sx_byte(const char *name) { std::string v = val(name); return v.empty() ? 'a' : (unsigned char)atol(v.c_str()); }
void sx_assume(bool c) { if (!c) exit(fail_count ? 1 : 3); }
void sx_assert(bool c, const char *msg) { if (!c) { printf("ASSERTION FAILED: %s\n", msg); fflush(stdout); _exit(1); } }
void sx_fail(const char *msg) { sx_assert(false, msg); }
void sx_stop_path() { exit(0); }
int sx_conc_int(int v) { return v; }
void sx_reach(const char *l) { if (l && getenv("SX_SHOW")) printf("reach %s\n", l); }
bool sx_logical_or(bool a, bool b) { return a | b; }
bool sx_logical_and(bool a, bool b) { return a & b; }
bool sx_is_symbolic_build() { return false; }
void sxr_note(const char *t) { if (getenv("SX_SHOW")) printf("%s\n", t); }
#ifdef SX_RATIONAL_HDR
void sxr_make(void *r, const char *name) {
  std::string v = val(name); if (v.empty()) v = "0";
  auto p = v.find('/');
  rational_t n(v.substr(0, p).c_str()), d(p == std::string::npos ? "1" : v.substr(p + 1).c_str());
  *(rational *)r = rational(n, d);
}
#endif
}
extern int sx_main();
int main(int argc, char **argv) {
  setvbuf(stdout, nullptr, _IOLBF, 0);
  if (argc > 1) {
    std::ifstream f(argv[1]); std::string tok;
    while (f >> tok) { auto e = tok.find('='); if (e != std::string::npos) M[tok.substr(0, e)] = tok.substr(e + 1); }
  }
  alarm(getenv("SX_ALARM") ? atoi(getenv("SX_ALARM")) : 60);
  sx_main();
  return 0;
}

extern "C" { void sxr_race_mode() {} void sxr_races() {} int sxr_ntasks() { return 0; } }
