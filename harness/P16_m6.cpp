#include "P16.inc"
VP_HARNESS(matrix_ii_6) { int r, c; dim_(r, c, -1); fromData<1u << 6, int, int>(r, c); }
VP_HARNESS(matrix_dd_6) { int r, c; dim_(r, c, -1); fromData<1u << 6, double, double>(r, c); }
VP_HARNESS(matrix_zi_6) { int r, c; dim_(r, c, 0); fromData<1u << 6, std::size_t, int>(r, c); }
VP_HARNESS(matrix_iz_6) { int r, c; dim_(r, c, 0); fromData<1u << 6, int, std::size_t>(r, c); }
