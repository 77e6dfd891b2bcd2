// World "dyn", universe 4.
#include "dyn_types.h"
#include "dyn_vec.h"
#include "dyn_mat.h"
namespace dyn {
UnivBase* make_univ_4() { return new Univ<UNIV_4>; }
}
