// World "expr", universe of float with a user allocator.
#include "expr.h"
namespace expr { void init_f() { init_univ<float, UserAlloc<float, A_USER1>>("float"); } }
