#include "reg_big.h"
namespace reg { template void reg_big<UA>(Registry<UA>&); }
