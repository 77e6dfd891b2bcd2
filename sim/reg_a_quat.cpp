#include "reg_quat.h"
namespace reg { template void reg_quat<UA>(Registry<UA>&); }
