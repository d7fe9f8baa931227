// The interconnect kit is not part of the repository; the units checked only
// need these types to be complete.
#pragma once
#include "axi_llc_shim.h"
namespace axi_interconnect {
struct AXI_Interconnect {};
}
