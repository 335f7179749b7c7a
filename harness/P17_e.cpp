// BOUND: variables of every type that were never assigned
// OUTSIDE: variables of derivative programs as arguments (do not compile)
#include "P17.inc"
template <typename T> static void unassigned() {
  T v; const T &c = v; vp_eqi(length(v), 0, "empty.length"); vp_eqi(length(c), 0, "empty.clength");
  vp_check(vp_throws([&] { dim(v); }), "empty.dim"); vp_check(vp_throws([&] { dim(c); }), "empty.cdim");
  vp_eqi(length(v), 0, "empty.after"); vp_eqi(v.im(), 0, "empty.after");
}
VP_HARNESS(never_assigned) { unassigned<sexp>(); unassigned<Vec<int>>(); unassigned<Vec<bool>>(); unassigned<Vec<double, Borrow<double>>>(); }
