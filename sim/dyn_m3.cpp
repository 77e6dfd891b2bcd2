// World "dyn", universe 3: more operations.
#include "dyn_types.h"
#define UNIV UNIV_3
#include "dyn_more.h"
