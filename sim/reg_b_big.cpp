#include "reg_big.h"
namespace reg { template void reg_big<UB>(Registry<UB>&); }
