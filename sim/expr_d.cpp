// World "expr", universe of double.
#include "expr.h"
namespace expr { void init_d() { init_univ<double, std::allocator<double>>("double"); } }
