// World "dyn", universe 3: mathlib.
#include "dyn_types.h"
#define UNIV UNIV_3
#include "dyn_ml.h"
