// Linked only into the symbolically executed module: out-of-line pieces of the
// C++ runtime with their meaning reduced to what the harnesses rely on.
#include <cstddef>
#include <utility>
namespace std {
namespace __detail {
struct _Prime_rehash_policy {
  float f;
  size_t n;
  std::pair<bool, std::size_t> _M_need_rehash(std::size_t, std::size_t,
                                              std::size_t) const;
  std::size_t _M_next_bkt(std::size_t) const;
};
// hash tables keep a single bucket: lookup order is irrelevant to the clients
std::pair<bool, std::size_t>
_Prime_rehash_policy::_M_need_rehash(std::size_t, std::size_t,
                                     std::size_t) const {
  return {false, 0};
}
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const {
  return n ? n : 1;
}
} // namespace __detail
} // namespace std
