#include "reg_mat2.h"
namespace reg { template void reg_mat2<UA>(Registry<UA>&); }
