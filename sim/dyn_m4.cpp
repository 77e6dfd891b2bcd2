// World "dyn", universe 4: more operations.
#include "dyn_types.h"
#define UNIV UNIV_4
#include "dyn_more.h"
