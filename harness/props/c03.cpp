// C03: positional access.
#include "probed.hpp"
using namespace d;
#if PART == 0
char const* const pbt::rule =
    "A case is a history of edits on three containers; at a quarter, at half "
    "and at the end of it every position of every container (a sample of "
    "positions beyond 400 elements, always including both ends and segment "
    "boundaries) is reached by nth, [], at, front/back/begin/penultimate, const "
    "and not, and positions beyond the end are tried. Non-trivial: a container "
    "that was looked at had an index of two or more levels (height >= 3).";
#endif

template <class Seq, class T>
void probe(Seq& s, std::vector<u64> const& m, Rng& r) {
  using Tx = Traits<T>;
  Seq const& c = s;
  std::size_t const n = m.size();
  REQUIRE(s.size() == n && c.size() == n, "size", s.size(), "want", n);
  REQUIRE(s.empty() == !n, "");
  REQUIRE(s.max_size() >= n, "");
  // objects in the order of iteration
  std::vector<T const*> at;
  at.reserve(n);
  for (auto const& x : c) at.push_back(std::addressof(x));
  REQUIRE(at.size() == n, "iteration yields", at.size(), "of", n);
  auto look = [&](std::size_t p) {
    T const* x = at[p];
    REQUIRE(Tx::id(*x) == m[p], "element", p, "of", n, "is", Tx::id(*x), "want",
            m[p]);
    auto it = s.nth(p);
    auto cit = c.nth(p);
    REQUIRE(std::addressof(*it) == x, "nth", p, "of", n);
    REQUIRE(std::addressof(*cit) == x, "const nth", p, "of", n);
    REQUIRE(it.operator->() == cit.operator->(), "");
    REQUIRE(std::addressof(*it.operator->()) == x, "-> of nth", p);
    REQUIRE(std::addressof(s[p]) == x, "operator[]", p, "of", n);
    REQUIRE(std::addressof(c[p]) == x, "const operator[]", p, "of", n);
    REQUIRE(std::addressof(s.at(p)) == x, "at", p, "of", n);
    REQUIRE(std::addressof(c.at(p)) == x, "const at", p, "of", n);
    REQUIRE(s.index_of(it) == p, "index_of", s.index_of(it), "want", p);
    REQUIRE(c.index_of(cit) == p, "const index_of", c.index_of(cit), "want", p);
    REQUIRE(static_cast<std::size_t>(it - s.begin()) == p, "");
    REQUIRE(static_cast<std::size_t>(c.end() - cit) == n - p, "");
  };
  if (n <= 400)
    for (std::size_t p = 0; p != n; ++p) look(p);
  else {
    for (int i = 0; i != 150; ++i) {
      std::size_t p = r.below(n);
      look(p);
      // the edges of the segment it is in
      auto it = c.nth(p);
      auto in = static_cast<std::size_t>(it.current() - it.begin());
      auto left = static_cast<std::size_t>(it.end() - it.current());
      if (in <= p) look(p - in);
      if (in < p) look(p - in - 1);
      if (p + left < n) look(p + left);
    }
    look(0);
    look(n - 1);
  }
  if (n) {
    REQUIRE(std::addressof(s.front()) == at[0], "front");
    REQUIRE(std::addressof(c.front()) == at[0], "const front");
    REQUIRE(std::addressof(s.back()) == at[n - 1], "back");
    REQUIRE(std::addressof(c.back()) == at[n - 1], "const back");
    REQUIRE(std::addressof(*s.begin()) == at[0] &&
                std::addressof(*c.begin()) == at[0] &&
                std::addressof(*s.cbegin()) == at[0],
            "begin");
    REQUIRE(std::addressof(*s.penultimate()) == at[n - 1], "penultimate");
    REQUIRE(std::addressof(*c.penultimate()) == at[n - 1], "penultimate");
    REQUIRE(std::addressof(*s.cpenultimate()) == at[n - 1], "penultimate");
    REQUIRE(s.index_of(s.penultimate()) == n - 1, "");
    REQUIRE(c.index_of(c.cpenultimate()) == n - 1, "");
    auto p = s.penultimate();
    ++p;
    REQUIRE(p == s.end(), "the one after the penultimate is not the end");
    auto e = c.end();
    --e;
    REQUIRE(e == c.penultimate() && std::addressof(*e) == at[n - 1], "");
    REQUIRE(std::addressof(*s.rbegin()) == at[n - 1], "rbegin");
    REQUIRE(std::addressof(*c.crbegin()) == at[n - 1], "crbegin");
    REQUIRE(std::addressof(*(s.rend() - 1)) == at[0], "rend");
  } else {
    REQUIRE(s.begin() == s.end() && c.begin() == c.end(), "");
    REQUIRE(s.cbegin() == s.cend(), "");
    REQUIRE(s.rbegin() == s.rend() && c.rbegin() == c.rend(), "");
  }
  REQUIRE(s.index_of(s.end()) == n && c.index_of(c.end()) == n, "");
  REQUIRE(s.index_of(s.begin()) == 0 && c.index_of(c.cend()) == n, "");
  for (std::size_t p :
       {n, n + 1, n + 1 + r.below(100), n * 2 + 1, ~std::size_t(0),
        ~std::size_t(0) / 2 + 1}) {
    REQUIRE(s.nth(p) == s.end(), "nth beyond the end");
    REQUIRE(c.nth(p) == c.end(), "const nth beyond the end");
    REQUIRE(s.index_of(s.nth(p)) == n, "");
    bool a = false, b = false;
    try {
      (void)s.at(p);
    } catch (std::out_of_range const&) {
      a = true;
    }
    try {
      (void)c.at(p);
    } catch (std::out_of_range const&) {
      b = true;
    }
    REQUIRE(a && b, "at", p, "of", n, "does not throw out_of_range");
  }
  // a write through one is read through the others
  if (n) {
    std::size_t p = r.below(n);
    u64 old = m[p];
    u64 id = Tx::norm((old ^ 0x10) | 32);
    switch (r.below(5)) {
      case 0: s[p] = Tx::make(id); break;
      case 1: s.at(p) = Tx::make(id); break;
      case 2: *s.nth(p) = Tx::make(id); break;
      case 3:
        p = 0;
        old = m[0];
        s.front() = Tx::make(id);
        break;
      default:
        p = n - 1;
        old = m[p];
        s.back() = Tx::make(id);
        break;
    }
    REQUIRE(Tx::id(c[p]) == id && Tx::id(c.at(p)) == id &&
                Tx::id(*c.nth(p)) == id,
            "written element", p, "of", n);
    s[p] = Tx::make(old);
  }
  label(n > 400 ? "containers of more than 400" : "containers of up to 400");
}
PROBED_MATRIX(probe)
#include "matrix.inc"
