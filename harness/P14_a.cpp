#include "P14.inc"
REP(0) REP(1) REP(2) REP(3) REP(4) REP(5)
