// World "dyn", universe 0.
#include "dyn_types.h"
#include "dyn_vec.h"
#include "dyn_mat.h"
namespace dyn {
UnivBase* make_univ_0() { return new Univ<UNIV_0>; }
}
