#include "reg_more.h"
namespace reg { template void reg_more<UA>(Registry<UA>&); }
