#include "reg_univ.h"
namespace reg { UnivBase* make_univ_a() { return new UnivImpl<UA>; } }
