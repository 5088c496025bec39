// Vocabulary of the specification contexts: unknown inputs, assumptions and obligations.
#pragma once
#define VP_RUN(...)                           // analysed calling contexts of an entry (read by run.py)
#define VP_MORE(...)                          // further contexts of the thorough tier
double vp_real(const char* name);
double vp_real(const char* name, int i);
double vp_real(const char* name, int i, int j);
int vp_int(const char* name, int lo, int hi);
int vp_int(const char* name, int i, int lo, int hi);
bool vp_bool(const char* name);
void vp_assume(bool c);
void vp_check(bool c, const char* label);
void vp_eq(double a, double b, const char* label);
bool vp_rounded(double read, double value);    // read back from text that shows value with at least six decimals
double vp_diff(double value, double variable);
template <class F> bool vp_aborts(F f) { f(); return false; }       // true iff f ends in a fatal check, abort or exception
void vp_fault(const char* kind, bool active); // from here on the environment fails: open_read, open_write, write, read
int vp_obj_equal(const void* a, const void* b);
bool vp_havoc_counter(const char* name);      // gives the one shared counter of the code an arbitrary state (false: there is not exactly one)
bool vp_havoc_counter(const char* name, unsigned long state);
