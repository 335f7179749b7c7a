#include "P22.inc"
// trees of depth 3: outer X over (middle over (inner, leaf), leaf)
template <int O, typename X, typename Y> static auto bin(const X &x, const Y &y) {
  if constexpr (O == 0) return x + y; else if constexpr (O == 1) return x * y; else if constexpr (O == 2) return x < y; else if constexpr (O == 3) return x - y; else if constexpr (O == 4) return coca(x, y); else return x / y;
}
#define BIN(O, X, Y) bin<O>(X, Y)
template <int A, int B, int C> static void deep(P &p, bool left) {
  Var<C == 2 ? 4 : 0> u; Var<B == 2 ? 4 : 0> v; sexp r, t;
  if (left) {
    u = BIN(C, p.a, p.ai); v = BIN(B, u, p.b); r = BIN(A, v, p.x);
    t = BIN(A, BIN(B, BIN(C, p.a, p.ai), p.b), p.x);
  } else {
    u = BIN(C, p.ai, p.x); v = BIN(B, p.b, u); r = BIN(A, p.a, v);
    t = BIN(A, p.a, BIN(B, p.b, BIN(C, p.ai, p.x)));
  }
  same(t, r, "compound.deep");
  if (left) p.a = BIN(A, BIN(B, BIN(C, p.a, p.ai), p.b), p.x); else p.a = BIN(A, p.a, BIN(B, p.b, BIN(C, p.ai, p.x)));
  same(p.a, r, "compound.deep_target");
}
template <int A, int N = 0> static void deepN(P &p, int n, bool left) { if constexpr (N < 25) { if (n == N) deep<A, N / 5, N % 5>(p, left); else deepN<A, N + 1>(p, n, left); } }
template <int A> static void deeps() { int k = lens(vp_pick(vp_int(0, 4))); P p(k / 10, k % 10); int n = vp_pick(vp_int(0, 24)); bool l = vp_pick(vp_int(0, 1)); deepN<A>(p, n, l); }
VP_HARNESS(deep0) { deeps<0>(); }
VP_HARNESS(deep1) { deeps<1>(); }
VP_HARNESS(deep3) { deeps<3>(); }
VP_HARNESS(deep5) { deeps<5>(); }
// matrices: shape and values of compound expressions
VP_HARNESS(matrices) {
  int r = vp_pick(vp_int(1, 2)), c = vp_pick(vp_int(1, 3)), n = r * c;
  sexp z = vector_numeric(int(n)), y = vector_numeric(int(n)); for (int i = 0; i < n; i++) { z[i] = vp_double(); y[i] = vp_double(); }
  sexp m = matrix(coca(z), int(r), int(c)), q = matrix(coca(y), int(r), int(c)); double x = vp_double();
  sexp u, v, w, res, t; Vec<bool> b, b2;
  switch (vp_pick(vp_int(0, 11))) {
  case 0: u = m + q; v = u * x; res = v - z; t = (m + q) * x - z; break;
  case 1: u = x - m; v = sinus(u); res = v / q; t = sinus(x - m) / q; break;
  case 2: b = m < q; u = b * m; res = u + x; t = (m < q) * m + x; break;
  case 3: u = -m; v = u + z; res = z * v; t = z * (-m + z); break;
  case 4: u = m * x; res = coca(u, q); t = coca(m * x, q); break;
  case 5: u = m + x; res = rep(u, 2); t = rep(m + x, 2); break;
  case 6: u = m * q; v = subset(u, true, 1); w = subset(q, 1, true); res = w + x; t = subset(q, 1, true) + x; break;
  case 7: u = subset(m, colon(1, r), true); v = u + q; res = v * x; t = (subset(m, colon(1, r), true) + q) * x; break;
  case 8: u = subset(m, true, c); v = u - x; res = -v; t = -(subset(m, true, c) - x); break;
  case 9: b = m == q; b2 = b != m; res = b2 + x; t = ((m == q) != m) + x; break;
  case 10: u = subset(m, colon(r, 1), colon(c, 1)); v = subset(q, true, true); res = u * v; t = subset(m, colon(r, 1), colon(c, 1)) * subset(q, true, true); break;
  case 11: u = exp(m); v = ln(q); w = u + v; res = w * w; t = (exp(m) + ln(q)) * (exp(m) + ln(q)); break;
  }
  same(t, res, "compound.matrix");
  for (int i = 0; i < n; i++) { vp_eq(m[i], z[i], "compound.matrix_source"); vp_eq(q[i], y[i], "compound.matrix_source"); }
}
// functions of expressions of every type, arguments used more than once
VP_HARNESS(functions) {
  int n = vp_pick(vp_int(1, 3));
  sexp a = vector_numeric(int(n)), u, v, res, t; Vec<int> ai(SI{n}), iu; Vec<bool> ab(SI{n}), bu;
  int op = vp_pick(vp_int(0, 19));
  for (int i = 0; i < n; i++) { a[i] = vp_double(); int k = vp_int(1, n); ai[i] = i == 0 && op >= 2 && op <= 4 ? vp_pick(k) : k; ab[i] = vp_bool(); } // counts are concrete
  double x = vp_double();
  switch (op) {
  case 0: u = 1.5 - ai; res = coca(u, a); t = coca(1.5 - ai, a); break;
  case 1: u = ai * 0.5; res = rep(u, 2); t = rep(ai * 0.5, 2); break;
  case 2: iu = ai + 1; res = rep(a, iu); t = rep(a, ai + 1); break;
  case 3: iu = ai + ai; res = colon(1, iu); t = colon(1, ai + ai); break;
  case 4: u = ai + 0.5; res = colon(u, 6.0); t = colon(ai + 0.5, 6.0); break;
  case 5: u = ai / 2; res = u + a; t = ai / 2 + a; break;
  case 6: u = a * x; bu = isNA(u); res = bu + 1.0; t = isNA(a * x) + 1.0; break;
  case 7: u = a / 0.0; bu = isInf(u); res = bu * x; t = isInf(a / 0.0) * x; break;
  case 8: u = coca(ai, x); v = rep(u, 2); res = v - 1.0; t = rep(coca(ai, x), 2) - 1.0; break;
  case 9: iu = coca(ai, ab); res = iu * 0.5; t = coca(ai, ab) * 0.5; break;
  case 10: u = subset(a, ai(1)); res = u + a; t = subset(a, ai(1)) + a; break;
  case 11: u = sinus(ai); v = u * a; res = v + ab; t = sinus(ai) * a + ab; break;
  case 12: u = -ai; res = u - 0.5; t = -ai - 0.5; break;
  case 13: bu = ai > 1; res = coca(bu, ai, x); t = coca(ai > 1, ai, x); break;
  case 14: u = sqroot(ab); res = u + x; t = sqroot(ab) + x; break;
  case 15: u = ai ^ 2; res = u * 0.5; t = (ai ^ 2) * 0.5; break;
  case 16: u = a ^ x; v = u - a; res = exp(v); t = exp((a ^ x) - a); break;
  case 17: res = colon(1, n); u = res * x; res = coca(u, u); t = coca(colon(1, n) * x, colon(1, n) * x); break;
  case 18: u = ai - 1; u = u / 2; res = rep(u, n); t = rep((ai - 1) / 2, n); break;
  case 19: iu = ab + ai; u = iu / ai; res = u == a; t = ((ab + ai) / ai) == a; break;
  }
  same(t, res, "compound.function");
}
// the element type of every operation: rep keeps it, so a narrowed type loses values
template <typename U, typename F> static void keeps(F f) { // f(use): use(expression) while its temporaries live
  Vec<U> u, r, w; sexp t, s;
  f([&](const auto &e) { u = e; }); r = rep(u, 2); w = coca(u, u);
  f([&](const auto &e) { t = rep(e, 2); s = coca(e, e); });
  vp_eqi((long)t.size(), (long)r.size(), "compound.rep"); for (int i = 0; i < (int)r.size(); i++) vp_eq(t[i], (double)r[i], "compound.rep");
  vp_eqi((long)s.size(), (long)w.size(), "compound.coca"); for (int i = 0; i < (int)w.size(); i++) vp_eq(s[i], (double)w[i], "compound.coca");
}
template <typename A> struct El { using T = A; };
template <typename T_, typename R> struct El<Vec<T_, R>> { using T = T_; };
template <int O, typename A, typename B> static void keepsOp(const A &a, const B &b) {
  using TA = typename El<A>::T; using TB = typename El<B>::T;
  using U = std::conditional_t<(O >= 4), bool, std::conditional_t<O == 3, double, std::common_type_t<TA, TB>>>;
  keeps<U>([&](auto use) { if constexpr (O == 0) use(a + b); else if constexpr (O == 1) use(a - b); else if constexpr (O == 2) use(a * b); else if constexpr (O == 3) use(a / b); else if constexpr (O == 4) use(a < b); else use(a != b); });
}
template <int O> static void types() {
  int n = vp_pick(vp_int(1, 2)), m = vp_pick(vp_int(1, 2));
  sexp a = vector_numeric(int(n)); Vec<int> ai(SI{m}); Vec<bool> ab(SI{m}); for (int i = 0; i < n; i++) a[i] = vp_double(); for (int i = 0; i < m; i++) { ai[i] = vp_int(-30000, 30000); ab[i] = vp_bool(); }
  double x = vp_double(); int k = vp_int(-30000, 30000);
  switch (vp_pick(vp_int(0, 11))) {
  case 0: keepsOp<O>(x, ai); break; case 1: keepsOp<O>(ai, x); break; case 2: keepsOp<O>(k, a); break; case 3: keepsOp<O>(a, k); break;
  case 4: keepsOp<O>(a, ai); break; case 5: keepsOp<O>(ai, a); break; case 6: keepsOp<O>(x, ab); break; case 7: keepsOp<O>(ab, x); break;
  case 8: keepsOp<O>(ab, ai); break; case 9: keepsOp<O>(ai, ab); break; case 10: keepsOp<O>(ab, k); break; case 11: keepsOp<O>(k, ai); break;
  }
}
VP_HARNESS(types_add) { types<0>(); }
VP_HARNESS(types_sub) { types<1>(); }
VP_HARNESS(types_mul) { types<2>(); }
VP_HARNESS(types_div) { types<3>(); }
VP_HARNESS(types_lt) { types<4>(); }
VP_HARNESS(types_ne) { types<5>(); }
