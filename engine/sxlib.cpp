// libc functions over possibly symbolic data, in plain C++ (instrumented with the code under test)
#include <cerrno>
#include <climits>
#include <cstddef>
#define A extern "C" __attribute__((noinline))
A int sxlib_memcmp(const void *a, const void *b, size_t n) {
  const unsigned char *x = (const unsigned char *)a, *y = (const unsigned char *)b;
  for (size_t i = 0; i < n; i++) if (x[i] != y[i]) return x[i] < y[i] ? -1 : 1;
  return 0;
}
A size_t sxlib_strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
A void *sxlib_memchr(const void *a, int c, size_t n) {
  const unsigned char *x = (const unsigned char *)a;
  for (size_t i = 0; i < n; i++) if (x[i] == (unsigned char)c) return (void *)(x + i);
  return nullptr;
}
A int sxlib_strcmp(const char *a, const char *b) {
  size_t i = 0;
  while (a[i] && a[i] == b[i]) i++;
  unsigned char x = a[i], y = b[i];
  return x == y ? 0 : x < y ? -1 : 1;
}
A int sxlib_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
A int sxlib_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
A int sxlib_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
A long sxlib_strtol(const char *s, char **end, int base) {
  const char *p = s;
  while (sxlib_isspace((unsigned char)*p)) p++;
  bool neg = false;
  if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
  if (base == 0) base = 10;
  unsigned long v = 0; bool any = false, over = false;
  unsigned long lim = neg ? (unsigned long)LONG_MAX + 1 : (unsigned long)LONG_MAX;
  while (*p >= '0' && *p <= '9' && *p - '0' < base) {
    unsigned long d = *p - '0';
    if (v > (lim - d) / base) over = true; else v = v * base + d;
    any = true; p++;
  }
  if (end) *end = (char *)(any ? p : s);
  if (over) { errno = ERANGE; return neg ? LONG_MIN : LONG_MAX; }
  return neg ? (long)(0 - v) : (long)v;
}
// tree iteration (in libstdc++'s object code otherwise): stepping from an erased node is a memory violation
struct RbNode { int color; RbNode *parent, *left, *right; };
A RbNode *sxlib_rb_inc(RbNode *x) {
  if (x->right) { x = x->right; while (x->left) x = x->left; return x; }
  RbNode *y = x->parent;
  while (x == y->right) { x = y; y = y->parent; }
  return x->right != y ? y : x;
}
A RbNode *sxlib_rb_dec(RbNode *x) {
  if (!x->color && x->parent->parent == x) return x->right;
  if (x->left) { RbNode *y = x->left; while (y->right) y = y->right; return y; }
  RbNode *y = x->parent;
  while (x == y->left) { x = y; y = y->parent; }
  return y;
}

// std::getline (libstdc++ has it as object code only)
#include <istream>
#include <string>
A std::istream &sxlib_getline(std::istream &is, std::string &s, char delim) {
  std::istream::sentry ok(is, true); std::ios_base::iostate st = std::ios_base::goodbit; bool any = false;
  if (ok) {
    s.erase(); std::streambuf *b = is.rdbuf();
    for (int c = b->sgetc();; c = b->snextc()) {
      if (c == std::char_traits<char>::eof()) { st |= std::ios_base::eofbit; break; }
      any = true;
      if ((char)c == delim) { b->sbumpc(); break; }
      s += (char)c;
    }
  }
  if (!any) st |= std::ios_base::failbit;
  if (st) is.setstate(st);
  return is;
}

// Threads: a task runs to completion where it is started; the runtime logs its accesses (see sxr_races in rt.cpp)
#include <thread>
extern "C" { int sxr_task_begin(); void sxr_task_end(); void sxr_sync(int kind, unsigned long what); int __cxa_guard_acquire(long long *); void __cxa_guard_release(long long *); void sxr_log_pause(int d); }
A int sxlib_mutex_lock(void *m) { sxr_sync(7, (unsigned long)m); return 0; }
A int sxlib_rdlock(void *m) { sxr_sync(9, (unsigned long)m); return 0; }
A int sxlib_mutex_unlock(void *m) { sxr_sync(8, (unsigned long)m); return 0; }
A int sxlib_guard_acquire(char *g) { if (*g) return 0; sxr_log_pause(1); return 1; }
A void sxlib_guard_release(char *g) { *g = 1; sxr_log_pause(-1); }
void std::thread::_M_start_thread(_State_ptr s, void (*)()) {
  _State *p = s.release();
  int k = sxr_task_begin();
  p->_M_run(); delete p;
  sxr_task_end();
  _M_id = id((native_handle_type)(unsigned long)k);
}
void std::thread::join() { sxr_sync(6, (unsigned long)_M_id._M_thread); _M_id = id(); }
void std::thread::detach() { _M_id = id(); }
