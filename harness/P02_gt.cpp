#define OPNAME "gt"
#define OPID gt
#define OP >
#define WANT(x, y) ((x) > (y))
#include "P02.inc"
