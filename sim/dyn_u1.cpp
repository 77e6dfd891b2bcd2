// World "dyn", universe 1.
#include "dyn_types.h"
#include "dyn_vec.h"
#include "dyn_mat.h"
namespace dyn {
UnivBase* make_univ_1() { return new Univ<UNIV_1>; }
}
