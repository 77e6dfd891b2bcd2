#include "reg_rot.h"
namespace reg { template void reg_rot<UA>(Registry<UA>&); }
