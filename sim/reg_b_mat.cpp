#include "reg_mat.h"
namespace reg { template void reg_mat<UB>(Registry<UB>&); }
