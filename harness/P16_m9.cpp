#include "P16.inc"
VP_HARNESS(matrix_ii_9) { int r, c; dim_(r, c, -1); fromData<1u << 9, int, int>(r, c); }
VP_HARNESS(matrix_dd_9) { int r, c; dim_(r, c, -1); fromData<1u << 9, double, double>(r, c); }
VP_HARNESS(matrix_zi_9) { int r, c; dim_(r, c, 0); fromData<1u << 9, std::size_t, int>(r, c); }
VP_HARNESS(matrix_iz_9) { int r, c; dim_(r, c, 0); fromData<1u << 9, int, std::size_t>(r, c); }
