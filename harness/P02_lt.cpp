#define OPNAME "lt"
#define OPID lt
#define OP <
#define WANT(x, y) ((x) < (y))
#include "P02.inc"
