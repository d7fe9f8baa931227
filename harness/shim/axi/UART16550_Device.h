// The interconnect kit is not part of the repository; the units checked only
// need these types to be complete.
#pragma once
#include <cstdint>
namespace mmio {
struct UART16550_Device {
  UART16550_Device(uint32_t) {}
};
}
