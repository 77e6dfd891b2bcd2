#include "reg_mat.h"
namespace reg { template void reg_mat<UA>(Registry<UA>&); }
