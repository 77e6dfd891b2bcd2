// World "expr", universe of tracked, throwing elements.
#include "expr.h"
namespace expr { void init_t() { init_univ<Tracked, std::allocator<Tracked>>("user"); } }
