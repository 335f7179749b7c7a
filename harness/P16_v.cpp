#include "P16.inc"
VP_HARNESS(numeric) { sizes<NUM>(); }
VP_HARNESS(integer) { sizes<INT>(); }
VP_HARNESS(logical) { sizes<LGL>(); }
VP_HARNESS(rvalues) { int n = size_(); sexp v; vp_eqi(vp_throws([&] { v = vector_numeric(int(n)); }), n < 1, "allocr.error"); if (n >= 1) vp_eqi((long)v.size(), n, "allocr.size");
  vp_eqi(vp_throws([&] { v = vector_integer(double(n)); }), n < 1, "allocr.error"); if (n >= 1) vp_eqi((long)v.size(), n, "allocr.size"); vp_eqi(vp_throws([&] { v = vector_logical(int(n)); }), n < 1, "allocr.error"); if (n >= 1) vp_eqi((long)v.size(), n, "allocr.size"); }
VP_HARNESS(independent) { int n = vp_pick(vp_int(1, SMAX)); sexp a, b; a = vector_numeric(n); b = vector_numeric(n); double d[SMAX]; for (int i = 0; i < n; i++) { d[i] = vp_double(); a[i] = d[i]; b[i] = 3.0; } for (int i = 0; i < n; i++) { vp_eq(a[i], d[i], "alloci.a"); vp_eq(b[i], 3.0, "alloci.b"); } }
