#include "reg_geo.h"
namespace reg { template void reg_geo<UB>(Registry<UB>&); }
