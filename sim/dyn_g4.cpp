// World "dyn", universe 4: mathlib.
#include "dyn_types.h"
#define UNIV UNIV_4
#include "dyn_ml.h"
