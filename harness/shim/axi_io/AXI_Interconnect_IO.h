// The interconnect kit is not part of the repository; this is the read port as
// the instruction cache uses it.
#pragma once
#include <cstdint>
namespace axi_interconnect {
constexpr uint32_t MAX_READ_TRANSACTION_BYTES = 256;
struct WideData512_t {
  uint32_t words[MAX_READ_TRANSACTION_BYTES / 4] = {0};
  uint32_t &operator[](int idx) { return words[idx]; }
  const uint32_t &operator[](int idx) const { return words[idx]; }
};
struct ReadMasterReq_t {
  bool valid = false;
  bool ready = false;
  bool accepted = false;
  uint8_t accepted_id = 0;
  uint32_t addr = 0;
  uint8_t total_size = 0;
  uint8_t id = 0;
  bool bypass = false;
};
struct ReadMasterResp_t {
  bool valid = false;
  bool ready = false;
  WideData512_t data{};
  uint8_t id = 0;
};
struct ReadMasterPort_t {
  ReadMasterReq_t req{};
  ReadMasterResp_t resp{};
};
}
