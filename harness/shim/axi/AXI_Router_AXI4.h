// The interconnect kit is not part of the repository; the units checked only
// need these types to be complete.
#pragma once
namespace axi_interconnect {
struct AXI_Router_AXI4 {};
}
