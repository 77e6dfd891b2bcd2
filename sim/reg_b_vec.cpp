#include "reg_vec.h"
namespace reg { template void reg_vec<UB>(Registry<UB>&); }
