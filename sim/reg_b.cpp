#include "reg_univ.h"
namespace reg { UnivBase* make_univ_b() { return new UnivImpl<UB>; } }
