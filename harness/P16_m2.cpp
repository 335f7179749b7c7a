#include "P16.inc"
VP_HARNESS(matrix_ii_2) { int r, c; dim_(r, c, -1); fromData<1u << 2, int, int>(r, c); }
VP_HARNESS(matrix_dd_2) { int r, c; dim_(r, c, -1); fromData<1u << 2, double, double>(r, c); }
VP_HARNESS(matrix_zi_2) { int r, c; dim_(r, c, 0); fromData<1u << 2, std::size_t, int>(r, c); }
VP_HARNESS(matrix_iz_2) { int r, c; dim_(r, c, 0); fromData<1u << 2, int, std::size_t>(r, c); }
