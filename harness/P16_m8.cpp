#include "P16.inc"
VP_HARNESS(matrix_ii_8) { int r, c; dim_(r, c, -1); fromData<1u << 8, int, int>(r, c); }
VP_HARNESS(matrix_dd_8) { int r, c; dim_(r, c, -1); fromData<1u << 8, double, double>(r, c); }
VP_HARNESS(matrix_zi_8) { int r, c; dim_(r, c, 0); fromData<1u << 8, std::size_t, int>(r, c); }
VP_HARNESS(matrix_iz_8) { int r, c; dim_(r, c, 0); fromData<1u << 8, int, std::size_t>(r, c); }
