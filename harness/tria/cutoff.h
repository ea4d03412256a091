// Makes the triangulator's base-case threshold a variable of the harness, so that small inputs recurse.
#pragma once
#include "DCTriangulator.h"
#ifndef VERIF_FIXED_CUTOFF
template<> const uint DCTriangulator<2, double>::BASE_CUTOFF;
template<> const uint DCTriangulator<3, double>::BASE_CUTOFF;
template<> const uint DCTriangulator<2, float>::BASE_CUTOFF;
template<> const uint DCTriangulator<3, float>::BASE_CUTOFF;
#endif
