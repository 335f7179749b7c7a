#include "P20.inc"
constexpr unsigned long M1 = 1ul << 2 | 1ul << 4 | 1ul << 9 | 1ul << 12, M2 = 1ul << 14 | 1ul << 15 | 1ul << 16 | 1ul << 20, M3 = 1ul << 22 | 1ul << 24 | 1ul << 26, M4 = 1ul << 39 | 1ul << 40;
VP_HARNESS(recycled_simple) { one<M1>(-10, 10, false, 3); }
VP_HARNESS(recycled_nested) { DW w(vp_pick(vp_int(0, 2))); int n[4]; for (int i = 0; i < 3; i++) n[i] = vp_pick(vp_int(1, 3)); w.init(n[0], n[1], n[2], -10, 10); w.consts(2, -10, 10); int f = pickForm<M2>(); target<M2>(w, vp_pick(vp_int(0, 2)), f); w.check(); }
VP_HARNESS(recycled_uneven) { DW w(vp_pick(vp_int(0, 2))); int p = vp_pick(vp_int(0, 5)); static const int q[6][3] = {{2, 3, 4}, {3, 2, 4}, {4, 2, 3}, {4, 3, 2}, {2, 4, 3}, {3, 4, 2}}; w.init(q[p][0], q[p][1], q[p][2], -10, 10); w.consts(2, -10, 10); int f = pickForm<M2 | M4>(); target<M2 | M4>(w, vp_pick(vp_int(0, 2)), f); w.check(); }
VP_HARNESS(recycled_quotient) { DW w(vp_pick(vp_int(0, 2))); w.pat = 2; int n[4]; for (int i = 0; i < 3; i++) n[i] = vp_pick(vp_int(1, 3)); w.init(n[0], n[1], n[2], 1, 10); w.consts(2, 1, 10); int f = pickForm<M3>(); target<M3>(w, vp_pick(vp_int(0, 2)), f); w.check(); }
