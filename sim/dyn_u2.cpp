// World "dyn", universe 2.
#include "dyn_types.h"
#include "dyn_vec.h"
#include "dyn_mat.h"
namespace dyn {
UnivBase* make_univ_2() { return new Univ<UNIV_2>; }
}
