// World "dyn", universe 1: mathlib.
#include "dyn_types.h"
#define UNIV UNIV_1
#include "dyn_ml.h"
