// Runtime part of builds where the integer type of rational.cc is replaced (harness/shim): bounded arithmetic is narrowed.
#include "rt.h"
bool sx_narrow = true;
extern "C" void sxr_note(const char *) { extern void *__sx_target; __sx_target = nullptr; }
