// The interconnect kit is not part of the repository; the memory subsystem
// only needs these types to be complete.
#pragma once
namespace axi_interconnect {
struct AXI_LLC_LookupIn_t {};
struct AXI_LLCConfig {};
struct AXI_LLC_TableOut_t {};
struct AXI_LLCPerfCounters_t {};
struct ReadMasterPort_t {};
}
