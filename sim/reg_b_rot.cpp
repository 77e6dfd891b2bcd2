#include "reg_rot.h"
namespace reg { template void reg_rot<UB>(Registry<UB>&); }
