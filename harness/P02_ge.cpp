#define OPNAME "ge"
#define OPID ge
#define OP >=
#define WANT(x, y) ((x) >= (y))
#include "P02.inc"
