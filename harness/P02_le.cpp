#define OPNAME "le"
#define OPID le
#define OP <=
#define WANT(x, y) ((x) <= (y))
#include "P02.inc"
