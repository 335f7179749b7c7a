#include "P16.inc"
VP_HARNESS(matrix_ii_4) { int r, c; dim_(r, c, -1); fromData<1u << 4, int, int>(r, c); }
VP_HARNESS(matrix_dd_4) { int r, c; dim_(r, c, -1); fromData<1u << 4, double, double>(r, c); }
VP_HARNESS(matrix_zi_4) { int r, c; dim_(r, c, 0); fromData<1u << 4, std::size_t, int>(r, c); }
VP_HARNESS(matrix_iz_4) { int r, c; dim_(r, c, 0); fromData<1u << 4, int, std::size_t>(r, c); }
