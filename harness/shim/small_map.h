// Stand-in for the standard hash map, for maps holding few keys: a table of
// SLOTS places searched from the front. Same observable behaviour while no
// more than SLOTS keys are present at once.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <unordered_map>
#include <utility>
namespace std {
template <class K, class V, class... Rest> class sx_small_map {
public:
  static constexpr int SLOTS = 8;
  struct value_type {
    K first;
    V second;
  };
  typedef value_type *iterator;
  typedef const value_type *const_iterator;
  iterator begin() { return e; }
  iterator end() { return e + SLOTS; }
  const_iterator begin() const { return e; }
  const_iterator end() const { return e + SLOTS; }
  int where(const K &k) const {
    int r = SLOTS;
    for (int i = SLOTS - 1; i >= 0; i--)
      r = used[i] && e[i].first == k ? i : r;
    return r;
  }
  iterator find(const K &k) { return e + where(k); }
  const_iterator find(const K &k) const { return e + where(k); }
  size_t count(const K &k) const { return where(k) < SLOTS; }
  bool contains(const K &k) const { return where(k) < SLOTS; }
  V &at(const K &k) { return e[where(k)].second; }
  const V &at(const K &k) const { return e[where(k)].second; }
  V &operator[](const K &k) {
    int w = where(k);
    bool fresh = w == SLOTS;
    for (int i = SLOTS - 1; i >= 0; i--)
      w = fresh && !used[i] ? i : w;
    if (fresh) {
      if (w == SLOTS)
        abort(); // more keys than this stand-in holds
      used[w] = true;
      e[w].first = k;
      e[w].second = V();
    }
    return e[w].second;
  }
  std::pair<iterator, bool> insert_or_assign(const K &k, const V &v) {
    bool fresh = !count(k);
    (*this)[k] = v;
    return {find(k), fresh};
  }
  std::pair<iterator, bool> emplace(const K &k, const V &v) {
    bool fresh = !count(k);
    if (fresh)
      (*this)[k] = v;
    return {find(k), fresh};
  }
  std::pair<iterator, bool> try_emplace(const K &k, const V &v) {
    return emplace(k, v);
  }
  template <class P> std::pair<iterator, bool> insert(const P &p) {
    return emplace(p.first, p.second);
  }
  size_t erase(const K &k) {
    int w = where(k);
    if (w < SLOTS)
      used[w] = false;
    return w < SLOTS;
  }
  iterator erase(iterator it) {
    used[it - e] = false;
    return it + 1;
  }
  void clear() {
    for (int i = 0; i < SLOTS; i++)
      used[i] = false;
  }
  bool empty() const {
    bool any = false;
    for (int i = 0; i < SLOTS; i++)
      any = any || used[i];
    return !any;
  }
  size_t size() const {
    size_t n = 0;
    for (int i = 0; i < SLOTS; i++)
      n += used[i];
    return n;
  }
  void reserve(size_t) {}

private:
  bool used[SLOTS] = {};
  value_type e[SLOTS + 1] = {};
};
} // namespace std
#define unordered_map sx_small_map
