#include "P16.inc"
VP_HARNESS(matrix_ii_0) { int r, c; dim_(r, c, -1); fromData<1u << 0, int, int>(r, c); }
VP_HARNESS(matrix_dd_0) { int r, c; dim_(r, c, -1); fromData<1u << 0, double, double>(r, c); }
VP_HARNESS(matrix_zi_0) { int r, c; dim_(r, c, 0); fromData<1u << 0, std::size_t, int>(r, c); }
VP_HARNESS(matrix_iz_0) { int r, c; dim_(r, c, 0); fromData<1u << 0, int, std::size_t>(r, c); }
