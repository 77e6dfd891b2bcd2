#include "reg_more.h"
namespace reg { template void reg_more<UB>(Registry<UB>&); }
