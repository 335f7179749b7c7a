#include "P16.inc"
VP_HARNESS(matrix_ii_1) { int r, c; dim_(r, c, -1); fromData<1u << 1, int, int>(r, c); }
VP_HARNESS(matrix_dd_1) { int r, c; dim_(r, c, -1); fromData<1u << 1, double, double>(r, c); }
VP_HARNESS(matrix_zi_1) { int r, c; dim_(r, c, 0); fromData<1u << 1, std::size_t, int>(r, c); }
VP_HARNESS(matrix_iz_1) { int r, c; dim_(r, c, 0); fromData<1u << 1, int, std::size_t>(r, c); }
