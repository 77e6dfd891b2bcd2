// World "dyn", universe 2: more operations.
#include "dyn_types.h"
#define UNIV UNIV_2
#include "dyn_more.h"
