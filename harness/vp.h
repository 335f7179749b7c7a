// Harness interface.  Compiled twice: by clang to LLVM IR for the symbolic
// engine (calls below are engine intrinsics) and by g++ for native replay.
#pragma once
#include <cstddef>
extern "C" {
int vp_int(int lo, int hi);              // any int in [lo,hi]
double vp_double(void);                  // any double (all bit patterns)
double vp_real(double lo, double hi);    // any finite double in [lo,hi]
double vp_frac(int lo, int hi);          // any double whose truncation is in [lo,hi], as a truncation and a fraction
bool vp_bool(void);
int vp_pick(int v);                      // same value; engine forks so that it becomes concrete
void vp_assume(bool c);
void vp_check(bool c, const char *id);
void vp_eq(double got, double want, const char *id);    // IEEE-equal or both NaN
void vp_eqi(long got, long want, const char *id);
void vp_close(double got, double want, const char *id); // equal modulo rounding
void vp_obs(double v);                   // observation only (engine/native cross-check)
void vp_reach(const char *id);           // reachability witness
long vp_heap_live(void);                 // number of live heap blocks (operator new)
// captured output (std::cout) as a token list
void vp_out_begin(void);
int vp_out_end(void);                    // number of tokens
int vp_out_isnum(int i);                 // 1 number, 0 text
double vp_out_num(int i);
bool vp_out_text_is(int i, const char *s);
}
#define VP_HARNESS(name) extern "C" __attribute__((used)) void vph_##name()
template <typename F> static inline bool vp_throws(F f) {
  try { f(); } catch (...) { return true; }
  return false;
}
