// World "dyn", universe 2: mathlib.
#include "dyn_types.h"
#define UNIV UNIV_2
#include "dyn_ml.h"
