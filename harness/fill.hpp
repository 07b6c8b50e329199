// Patterns of keys over a sequence whose shape a history made.
#pragma once
#include "drive.hpp"

namespace d {
constexpr u32 patterns = 11;
// The i-th of n ranks below r.
inline u64 rank(u32 pattern, std::size_t i, std::size_t n, u64 r, u64 salt) {
  auto mix = [salt](u64 a) { return World<Cfg<u32, std::allocator<u32>, 0, 0>>::mix(salt, a); };
  switch (pattern % patterns) {
    case 0: return mix(i) % r;
    case 1: return i * r / n;
    case 2: return (n - 1 - i) * r / n;
    case 3: return salt % r;
    case 4: return (i < n / 2 ? i : n - 1 - i) * 2 * r / (n + 1) % r;
    case 5: return i % r;
    case 6: return mix(i / (1 + salt % 9)) % r;               // runs
    case 7: return mix(i) % 16 ? i * r / n : mix(i + 1) % r;  // nearly sorted
    case 8: return (i & 1) ? 0 : r - 1;
    case 9: return i + 1 == n ? 0 : i * r / n;  // the last belongs first
    default: return mix(i / (1 + n / 3)) % r;   // few long runs
  }
}
// Rewrites every element of the slot.
template <class W>
void fill(W& x, typename W::Slot& sl, u32 pattern, u64 salt) {
  using Tx = typename W::Tx;
  std::size_t const n = sl.m.size();
  u64 r = Tx::keyed ? 16 : (salt & 3) == 0 ? 4 : (salt & 3) == 1 ? 200 : 2 * n + 1;
  std::size_t i = 0;
  for (auto it = sl.s->begin(); i != n; ++it, ++i) {
    u64 k = rank(pattern, i, n, r, salt >> 2);
    u64 id = Tx::keyed ? ((++x.counter << 4) | k) : Tx::norm(k);
    *it = Tx::make(id);
    sl.m[i] = id;
  }
}
}  // namespace d
