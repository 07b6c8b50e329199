// Oracles over one sequence and its model.
#pragma once
#include "world.hpp"

namespace w {
// The iterator against a fresh one for the position. `full`: walks the whole
// sequence in both directions from it; otherwise a few steps.
template <class Seq, class T, class It>
void check_as_fresh(Seq& s, std::vector<u64> const& m, It const it,
                    std::size_t pos, Rng& r, bool full) {
  using Tx = Traits<T>;
  using D = typename Seq::difference_type;
  std::size_t const n = m.size();
  It const fresh(s.nth(pos));
  REQUIRE(s.index_of(it) == pos, "index_of is", s.index_of(it), "want", pos);
  REQUIRE(it == fresh && !(it != fresh), "differs from nth of", pos);
  REQUIRE(it - It(s.begin()) == static_cast<D>(pos), "distance to begin");
  REQUIRE(It(s.end()) - it == static_cast<D>(n - pos), "distance to end");
  if (pos < n) {
    REQUIRE(Tx::id(*it) == m[pos], "reads", Tx::id(*it), "want", m[pos], "at",
            pos, "of", n);
    REQUIRE(std::addressof(*it) == std::addressof(*fresh),
            "refers to another object at", pos);
    REQUIRE(it.current() == fresh.current() && it.begin() == fresh.begin() &&
                it.end() == fresh.end(),
            "segment bounds differ from a fresh iterator's at", pos, "of", n);
  }
  {
    It a = it;
    std::size_t k = pos, stop = full ? n : std::min(n, pos + 3);
    while (k < stop) {
      REQUIRE(Tx::id(*a) == m[k], "walking forward from", pos, "at", k);
      ++a;
      ++k;
      REQUIRE(s.index_of(a) == k, "");
    }
    if (k == n) {
      REQUIRE(a == It(s.end()), "does not end at the end");
      // back again from the end that was walked to
      std::size_t back = full ? n : std::min<std::size_t>(n, 3);
      for (std::size_t i = 0; i != back; ++i) {
        --a;
        --k;
        REQUIRE(Tx::id(*a) == m[k], "walking back from the end, at", k);
      }
    }
  }
  {
    It a = it;
    std::size_t k = pos, stop = full ? 0 : (pos > 3 ? pos - 3 : 0);
    while (k > stop) {
      --a;
      --k;
      REQUIRE(Tx::id(*a) == m[k], "walking backward from", pos, "at", k);
    }
    if (k == 0) REQUIRE(a == It(s.begin()), "does not come back to begin");
  }
  int const jumps = full ? 6 : 2;
  for (int i = 0; i != jumps; ++i) {
    std::size_t t = r.below(n + 1);
    D d = static_cast<D>(t) - static_cast<D>(pos);
    It a = it + d;
    REQUIRE(s.index_of(a) == t, "jump by", d, "from", pos);
    if (t < n) {
      REQUIRE(Tx::id(*a) == m[t], "jump by", d, "from", pos, "of", n, "reads",
              Tx::id(*a), "want", m[t]);
      REQUIRE(std::addressof(it[d]) == std::addressof(*a), "");
    }
    // and onwards from there
    std::size_t u = r.below(n + 1);
    a += static_cast<D>(u) - static_cast<D>(t);
    REQUIRE(s.index_of(a) == u, "second jump");
    if (u < n) REQUIRE(Tx::id(*a) == m[u], "second jump to", u, "of", n);
    if (u > 0) {
      --a;
      REQUIRE(Tx::id(*a) == m[u - 1], "step back after a jump to", u);
    }
  }
}

// Lengths of the segments in order, by segment traversal of the public
// interface, checked against the model as it goes.
template <class Seq, class T>
std::vector<std::size_t> segment_lengths(Seq& s, std::vector<u64> const& m) {
  using Tx = Traits<T>;
  std::vector<std::size_t> r;
  std::size_t k = 0;
  auto it = s.begin();
  while (k < m.size()) {
    REQUIRE(s.index_of(it) == k, "segment starts at", s.index_of(it), "want",
            k);
    REQUIRE(it.current() == it.begin(), "not at the start of a segment");
    auto len = static_cast<std::size_t>(it.end() - it.current());
    REQUIRE(len > 0 && len <= m.size() - k, "segment of length", len, "at", k,
            "of", m.size());
    auto p = it.begin();
    for (std::size_t i = 0; i != len; ++i, ++p)
      REQUIRE(Tx::id(*p) == m[k + i], "segment element", k + i);
    k += len;
    r.push_back(len);
    it.move_after_segment();
  }
  REQUIRE(k == m.size(), "");
  REQUIRE(it == s.end(), "segments do not end at the end");
  return r;
}

// All ways of reading a sequence agree with the model.
template <class Seq, class T>
void check_everything(Seq& s, std::vector<u64> const& m, Rng& r) {
  using Tx = Traits<T>;
  Seq const& c = s;
  std::size_t const n = m.size();
  REQUIRE(s.size() == n, "size", s.size(), "want", n);
  REQUIRE(s.empty() == (n == 0), "");
  std::size_t k = 0;
  for (auto it = c.begin(); it != c.end(); ++it, ++k) {
    REQUIRE(k < n, "");
    REQUIRE(Tx::id(*it) == m[k], "element", k, "of", n, "is", Tx::id(*it),
            "want", m[k]);
  }
  REQUIRE(k == n, "");
  for (auto it = c.rbegin(); it != c.rend(); ++it) {
    --k;
    REQUIRE(Tx::id(*it) == m[k], "reverse element", k, "of", n);
  }
  REQUIRE(k == 0, "");
  for (k = 0; k < n; k += n > 300 ? n / 150 : 1)
    REQUIRE(Tx::id(c[k]) == m[k], "operator[]", k, "of", n);
  segment_lengths<Seq, T>(s, m);
  if (n) {
    std::size_t p = r.below(n + 1);
    check_as_fresh<Seq, T>(s, m, s.nth(p), p, r, false);
  }
}
}  // namespace w
