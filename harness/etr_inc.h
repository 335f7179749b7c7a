// Includes the library under test.  With clang (IR for the symbolic engine) the
// header order of the library trips over an incomplete template (accepted by
// g++): the vector class is then included first.  No semantic effect.
#pragma once
#ifndef STANDALONE_ETR
#define STANDALONE_ETR
#endif
#include <string>
#include <limits>
#ifdef VP_CLANG_ORDER
#define ALLOCATION_ETR_H
#include "etr_bits/Vector/VectorClass.hpp"
#undef ALLOCATION_ETR_H
#endif
#include "etr.hpp"
#include "vp.h"
