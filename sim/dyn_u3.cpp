// World "dyn", universe 3.
#include "dyn_types.h"
#include "dyn_vec.h"
#include "dyn_mat.h"
namespace dyn {
UnivBase* make_univ_3() { return new Univ<UNIV_3>; }
}
