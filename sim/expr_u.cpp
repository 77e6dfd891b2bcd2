// World "expr", universe of tracked elements with a user allocator.
#include "expr.h"
namespace expr { void init_u() { init_univ<Tracked, UserAlloc<Tracked, A_USER2>>("user,alloc"); } }
