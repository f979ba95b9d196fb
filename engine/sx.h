// Harness interface. The same harness source is compiled twice: instrumented (inputs are symbolic,
// rt.cpp) and natively (inputs are read from a model file, sx_native.cpp) to replay counterexamples.
#pragma once
#include <cstdint>
#include <string>
#ifdef __cplusplus
extern "C" {
int sx_int(const char *name, int lo, int hi);      // arbitrary value in [lo, hi]
bool sx_bool(const char *name);
uint64_t sx_u64(const char *name);
unsigned char sx_byte(const char *name);
void sx_assume(bool c);
void sx_assert(bool c, const char *msg);
void sx_fail(const char *msg);
void sx_stop_path();
int sx_conc_int(int v);                            // split on the value of v (one path per feasible value)
void sx_reach(const char *label);                  // non-vacuity label
bool sx_logical_or(bool a, bool b);                // no branching
bool sx_logical_and(bool a, bool b);
bool sx_is_symbolic_build();
bool sx_known(long long v);                       // the value is no symbolic expression
void sxr_make(void *r, const char *name);          // arbitrary real number, as a rational
void sxr_note(const char *text);
void sxr_race_mode();                               // log accesses of tasks started from here on
void sxr_races();                                  // decide whether two logged accesses race in some schedule
int sxr_ntasks();
}
#ifdef SX_RATIONAL
inline rational sx_real(const char *name) { rational r(0); sxr_make(&r, name); return r; }
inline rational sx_real(const std::string &name) { return sx_real(name.c_str()); }
#endif
inline int sx_int(const std::string &n, int lo, int hi) { return sx_int(n.c_str(), lo, hi); }
inline int sx_pick(const char *n, int lo, int hi) { return sx_conc_int(sx_int(n, lo, hi)); }
inline int sx_pick(const std::string &n, int lo, int hi) { return sx_conc_int(sx_int(n.c_str(), lo, hi)); }
inline void sx_assert(bool c, const std::string &m) { sx_assert(c, m.c_str()); }
#endif
