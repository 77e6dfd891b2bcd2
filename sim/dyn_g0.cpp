// World "dyn", universe 0: mathlib.
#include "dyn_types.h"
#define UNIV UNIV_0
#include "dyn_ml.h"
