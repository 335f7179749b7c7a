// Includes the library under test as it is compiled for R, against the model of R in RcppArmadillo.h
#pragma once
#undef STANDALONE_ETR
#include <string>
#include <limits>
#include "RcppArmadillo.h"
#ifdef VP_CLANG_ORDER
#define ALLOCATION_ETR_H
#include "etr_bits/Vector/VectorClass.hpp"
#undef ALLOCATION_ETR_H
#endif
#include "etr.hpp"
#include "vp.h"
