#include "reg_expr.h"
namespace reg { template void reg_expr<UA>(Registry<UA>&); }
