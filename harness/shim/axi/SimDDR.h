// The interconnect kit is not part of the repository; the units checked only
// need these types to be complete.
#pragma once
namespace sim_ddr {
struct SimDDR {};
}
