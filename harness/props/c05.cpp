// C05: segment traversal.
#include "probed.hpp"
using namespace d;
#if PART == 0
char const* const pbt::rule =
    "A case is a history of edits on three containers; at a quarter, at half "
    "and at the end of it each container is traversed by segments forward and "
    "backward, and from up to 120 positions every segment member is called "
    "(current, begin, end, before_segment, after_segment, move_before_segment, "
    "move_after_segment, without and with counts from zero to the last valid "
    "one); resulting iterators are compared with fresh ones. Non-trivial: a "
    "container that was traversed had an index of two or more levels "
    "(height >= 3).";
#endif

template <class It, class Seq, class T>
void from(Seq& s, std::vector<u64> const& m, Rng& r, It const it,
          std::size_t p, std::vector<std::size_t> const& start) {
  using Tx = Traits<T>;
  std::size_t const n = m.size();
  // the segment of p, from the traversal
  std::size_t k = static_cast<std::size_t>(
      std::upper_bound(start.begin(), start.end(), p) - start.begin() - 1);
  std::size_t const b = start[k], e = start[k + 1];
  REQUIRE(static_cast<std::size_t>(it.current() - it.begin()) == p - b,
          "current - begin at", p, "of", n);
  REQUIRE(static_cast<std::size_t>(it.end() - it.begin()) == e - b,
          "segment length at", p, "of", n);
  REQUIRE(std::addressof(*it.current()) == std::addressof(*it), "");
  auto x = it.begin();
  for (std::size_t i = b; i != e; ++i, ++x)
    REQUIRE(Tx::id(*x) == m[i], "element", i, "through the segment of", p);
  {
    It a = it.after_segment();
    check_as_fresh<Seq, T>(s, m, a, e, r, false);
    It c = it;
    It& ref = c.move_after_segment();
    REQUIRE(std::addressof(ref) == std::addressof(c) && c == a, "");
    check_as_fresh<Seq, T>(s, m, c, e, r, false);
    if (k + 2 < start.size() && e < n) {
      // and one more
      It d2 = a.after_segment();
      REQUIRE(s.index_of(d2) == start[k + 2], "second next segment from", p);
    }
  }
  for (int i = 0; i != 4; ++i) {
    std::size_t cnt = i == 0 ? 0
                      : i == 1 ? n - e
                      : i == 2 ? std::min(n - e, r.below(12))
                               : r.below(n - e + 1);
    It a = it.after_segment(cnt);
    check_as_fresh<Seq, T>(s, m, a, e + cnt, r, false);
    It c = it;
    It& ref = c.move_after_segment(cnt);
    REQUIRE(std::addressof(ref) == std::addressof(c) && c == a, "");
    check_as_fresh<Seq, T>(s, m, c, e + cnt, r, false);
  }
  if (b > 0) {
    It a = it.before_segment();
    check_as_fresh<Seq, T>(s, m, a, b - 1, r, false);
    It c = it;
    It& ref = c.move_before_segment();
    REQUIRE(std::addressof(ref) == std::addressof(c) && c == a, "");
    check_as_fresh<Seq, T>(s, m, c, b - 1, r, false);
    for (int i = 0; i != 4; ++i) {
      std::size_t cnt = i == 0 ? 0
                        : i == 1 ? b - 1
                        : i == 2 ? std::min(b - 1, r.below(12))
                                 : r.below(b);
      It f = it.before_segment(cnt);
      check_as_fresh<Seq, T>(s, m, f, b - 1 - cnt, r, false);
      It g = it;
      It& gr = g.move_before_segment(cnt);
      REQUIRE(std::addressof(gr) == std::addressof(g) && g == f, "");
      check_as_fresh<Seq, T>(s, m, g, b - 1 - cnt, r, false);
    }
  }
}

template <class Seq, class T>
void probe(Seq& s, std::vector<u64> const& m, Rng& r) {
  using Tx = Traits<T>;
  using D = typename Seq::difference_type;
  Seq const& c = s;
  std::size_t const n = m.size();
  REQUIRE(s.size() == n, "");
  auto len = segment_lengths<Seq, T>(s, m);
  std::vector<std::size_t> start{0};
  for (auto l : len) start.push_back(start.back() + l);
  if (!n) return;
  // const, forward, leaving each segment from a random element of it
  {
    auto it = c.begin();
    std::size_t k = 0, seg = 0;
    while (k < n) {
      std::size_t in = r.below(len[seg]);
      it += static_cast<D>(in);
      it = it.after_segment();
      k += len[seg++];
      REQUIRE(c.index_of(it) == k, "forward traversal");
    }
    REQUIRE(it == c.end(), "");
  }
  // backward
  {
    auto it = c.penultimate();
    std::size_t seg = len.size() - 1;
    while (true) {
      REQUIRE(c.index_of(it) == start[seg + 1] - 1, "backward traversal");
      REQUIRE(static_cast<std::size_t>(it.end() - it.begin()) == len[seg] &&
                  it.end() - it.current() == 1,
              "backward traversal: segment bounds");
      auto x = it.begin();
      for (std::size_t i = 0; i != len[seg]; ++i, ++x)
        REQUIRE(Tx::id(*x) == m[start[seg] + i], "backward traversal");
      if (!seg) break;
      it -= static_cast<D>(r.below(len[seg]));
      it.move_before_segment();
      --seg;
    }
  }
  // iterators of one segment agree on it
  std::size_t const tries = n <= 60 ? n : 40;
  for (std::size_t i = 0; i != tries; ++i) {
    std::size_t p = n <= 60 ? i : r.below(n);
    if (n > 60 && r.below(2)) {
      std::size_t seg = r.below(len.size());
      p = r.below(2) ? start[seg] : start[seg + 1] - 1;
    }
    if (r.below(2))
      from<typename Seq::iterator, Seq, T>(s, m, r, s.nth(p), p, start);
    else
      from<typename Seq::const_iterator, Seq, T>(
          s, m, r, c.begin() + static_cast<D>(p), p, start);
  }
  label(len.size() > 1 ? "containers of several segments"
                       : "containers of one segment");
}
PROBED_MATRIX(probe)
#include "matrix.inc"
