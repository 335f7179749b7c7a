#include "P16.inc"
VP_HARNESS(matrix_ii_7) { int r, c; dim_(r, c, -1); fromData<1u << 7, int, int>(r, c); }
VP_HARNESS(matrix_dd_7) { int r, c; dim_(r, c, -1); fromData<1u << 7, double, double>(r, c); }
VP_HARNESS(matrix_zi_7) { int r, c; dim_(r, c, 0); fromData<1u << 7, std::size_t, int>(r, c); }
VP_HARNESS(matrix_iz_7) { int r, c; dim_(r, c, 0); fromData<1u << 7, int, std::size_t>(r, c); }
