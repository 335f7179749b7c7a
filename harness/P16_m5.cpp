#include "P16.inc"
VP_HARNESS(matrix_ii_5) { int r, c; dim_(r, c, -1); fromData<1u << 5, int, int>(r, c); }
VP_HARNESS(matrix_dd_5) { int r, c; dim_(r, c, -1); fromData<1u << 5, double, double>(r, c); }
VP_HARNESS(matrix_zi_5) { int r, c; dim_(r, c, 0); fromData<1u << 5, std::size_t, int>(r, c); }
VP_HARNESS(matrix_iz_5) { int r, c; dim_(r, c, 0); fromData<1u << 5, int, std::size_t>(r, c); }
