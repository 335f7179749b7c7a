#include "P16.inc"
VP_HARNESS(matrix_ii_3) { int r, c; dim_(r, c, -1); fromData<1u << 3, int, int>(r, c); }
VP_HARNESS(matrix_dd_3) { int r, c; dim_(r, c, -1); fromData<1u << 3, double, double>(r, c); }
VP_HARNESS(matrix_zi_3) { int r, c; dim_(r, c, 0); fromData<1u << 3, std::size_t, int>(r, c); }
VP_HARNESS(matrix_iz_3) { int r, c; dim_(r, c, 0); fromData<1u << 3, int, std::size_t>(r, c); }
