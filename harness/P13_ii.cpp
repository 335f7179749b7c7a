#include "P13.inc"
constexpr unsigned ALL = (1u << ENDS) - 1, SOME = 1u << 0 | 1u << 1 | 1u << 2 | 1u << 4 | 1u << 8;
template <unsigned MA, unsigned MB, typename A, typename B> void one(int ka) { int kb = vp_pick(vp_int(0, ENDS - 1)); if (MB >> kb & 1) whole<MA, MB, A, B>(ka, kb); else { vp_eqi(0, 0, "colon.unused"); } }
#define ROW(ka) VP_HARNESS(ii_##ka) { one<1u << ka, SOME, int, int>(ka); }
ROW(0) ROW(1) ROW(2) ROW(4) ROW(8)
#ifdef VP_THOROUGH
ROW(3) ROW(5) ROW(6) ROW(7)
#endif
