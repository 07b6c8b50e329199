// C04: iterators are random-access iterators on every path.
#include "probed.hpp"
using namespace d;
#if PART == 0
char const* const pbt::rule =
    "A case is a history of edits on three containers; at a quarter, at half "
    "and at the end of it, walks of 40 steps are made over each container with "
    "an iterator, a const iterator and a reverse iterator: steps of all forms "
    "(++ -- post and pre, += -= + - [] d+it, std::next), distances of one, of a "
    "segment, to either end, to a node-sized multiple, uniform; after each step "
    "position, element, object, differences and all six comparisons with "
    "another iterator are checked. Non-trivial: a container that was walked had "
    "an index of two or more levels (height >= 3).";
#endif

template <class It, class Seq, class T>
void walk(Seq& s, std::vector<u64> const& m, Rng& r, It const b, It const e,
          std::vector<T const*> const& at) {
  using D = typename Seq::difference_type;
  std::size_t const n = m.size();
  auto check = [&](It const& it, std::size_t p) {
    REQUIRE(it - b == static_cast<D>(p), "position", it - b, "want", p, "of",
            n);
    REQUIRE(e - it == static_cast<D>(n - p), "");
    REQUIRE(b - it == -static_cast<D>(p), "");
    if (p < n) {
      REQUIRE(std::addressof(*it) == at[p], "refers to another object at", p,
              "of", n);
      REQUIRE(std::addressof(*it.operator->()) == at[p], "-> at", p);
    } else
      REQUIRE(it == e, "");
  };
  std::size_t p = r.below(n + 1), q = r.below(n + 1);
  It it = b + static_cast<D>(p);
  It other = e - static_cast<D>(n - q);
  check(it, p);
  check(other, q);
  std::size_t last_d = 1;
  for (int i = 0; i != 40; ++i) {
    // a target
    std::size_t t;
    switch (r.below(9)) {
      case 0: t = p < n ? p + 1 : p; break;
      case 1: t = p ? p - 1 : p; break;
      case 2: t = 0; break;
      case 3: t = n; break;
      case 4: t = n ? n - 1 : 0; break;
      case 5: t = std::min(n, p + r.below(20)); break;
      case 6: t = p - std::min(p, r.below(20)); break;
      case 7: t = p + last_d <= n ? p + last_d : p; break;
      default: t = r.below(n + 1); break;
    }
    D d = static_cast<D>(t) - static_cast<D>(p);
    last_d = t > p ? t - p : p - t;
    switch (r.below(10)) {
      case 0:
      case 1:
        if (t == p + 1) {
          if (r.below(2)) {
            It& x = ++it;
            REQUIRE(std::addressof(x) == std::addressof(it), "");
          } else {
            It old = it++;
            check(old, p);
          }
          break;
        }
        if (t + 1 == p) {
          if (r.below(2)) {
            It& x = --it;
            REQUIRE(std::addressof(x) == std::addressof(it), "");
          } else {
            It old = it--;
            check(old, p);
          }
          break;
        }
        it += d;
        break;
      case 2: {
        It& x = (it += d);
        REQUIRE(std::addressof(x) == std::addressof(it), "");
        break;
      }
      case 3: {
        It& x = (it -= -d);
        REQUIRE(std::addressof(x) == std::addressof(it), "");
        break;
      }
      case 4: {
        It const old = it;
        it = old + d;
        check(old, p);
        break;
      }
      case 5: {
        It const old = it;
        it = old - (-d);
        check(old, p);
        break;
      }
      case 6: it = d + it; break;
      case 7: it = std::next(it, d); break;
      case 8:
        // step by step
        if (d > -200 && d < 200) {
          for (D k = 0; k < d; ++k) ++it;
          for (D k = 0; k > d; --k) --it;
        } else
          std::advance(it, d);
        break;
      default: {
        It fresh;
        fresh = b;
        fresh += static_cast<D>(t);
        it = fresh;
        break;
      }
    }
    p = t;
    check(it, p);
    std::size_t u = n ? r.below(n) : 0;
    if (n) {
      D f = static_cast<D>(u) - static_cast<D>(p);
      REQUIRE(std::addressof(it[f]) == at[u], "[]", f, "from", p, "of", n);
      check(it, p);
    }
    REQUIRE(it - other == static_cast<D>(p) - static_cast<D>(q), "difference");
    REQUIRE((it == other) == (p == q), "==", p, q);
    REQUIRE((it != other) == (p != q), "!=", p, q);
    REQUIRE((it < other) == (p < q), "<", p, q);
    REQUIRE((it > other) == (p > q), ">", p, q);
    REQUIRE((it <= other) == (p <= q), "<=", p, q);
    REQUIRE((it >= other) == (p >= q), ">=", p, q);
    if (r.below(4) == 0) {
      std::swap(it, other);
      std::swap(p, q);
    }
  }
}

template <class Seq, class T>
void probe(Seq& s, std::vector<u64> const& m, Rng& r) {
  using Tx = Traits<T>;
  using D = typename Seq::difference_type;
  using It = typename Seq::iterator;
  using CIt = typename Seq::const_iterator;
  using Ref = typename std::iterator_traits<It>::reference;
  using CRef = typename std::iterator_traits<CIt>::reference;
  static_assert(std::is_same<typename std::iterator_traits<It>::value_type,
                             T>::value, "");
  static_assert(std::is_same<Ref, T&>::value, "");
  static_assert(std::is_same<CRef, T const&>::value, "");
  static_assert(std::is_base_of<std::random_access_iterator_tag,
                                typename std::iterator_traits<
                                    It>::iterator_category>::value, "");
  static_assert(std::is_convertible<It, CIt>::value, "");
  static_assert(!std::is_convertible<CIt, It>::value, "");
  Seq const& c = s;
  std::size_t const n = m.size();
  std::vector<T const*> at, ra;
  for (auto const& x : c) {
    REQUIRE(at.size() < n, "iteration does not end");
    REQUIRE(Tx::id(x) == m[at.size()], "element", at.size(), "of", n);
    at.push_back(std::addressof(x));
  }
  REQUIRE(at.size() == n, "iteration yields", at.size(), "of", n);
  {
    auto it = c.end();
    for (std::size_t k = n; k-- > 0;) {
      --it;
      REQUIRE(std::addressof(*it) == at[k], "backwards at", k, "of", n);
    }
    REQUIRE(it == c.begin(), "");
  }
  walk<It, Seq, T>(s, m, r, s.begin(), s.end(), at);
  walk<CIt, Seq, T>(s, m, r, c.begin(), c.end(), at);
  ra.assign(at.rbegin(), at.rend());
  walk<typename Seq::reverse_iterator, Seq, T>(s, m, r, s.rbegin(), s.rend(),
                                               ra);
  walk<typename Seq::const_reverse_iterator, Seq, T>(s, m, r, c.rbegin(),
                                                     c.rend(), ra);
  // conversions, and arithmetic across iterators obtained in different ways
  std::size_t p = r.below(n + 1), q = r.below(n + 1);
  It it = s.nth(p);
  CIt ci = it;
  CIt cq = s.nth(q);
  REQUIRE(cq - ci == static_cast<D>(q) - static_cast<D>(p), "");
  REQUIRE(ci == c.nth(p) && !(ci != c.nth(p)), "");
  ci += static_cast<D>(q) - static_cast<D>(p);
  REQUIRE(ci == cq && c.index_of(ci) == q, "");
  if (q < n) REQUIRE(std::addressof(*ci) == at[q], "");
  REQUIRE(std::distance(s.begin(), s.end()) == static_cast<D>(n), "");
  // strides, over the whole of it, both ways
  std::size_t st = 1 + r.below(n / 2 + 2);
  {
    auto x = c.begin();
    std::size_t k = 0;
    while (n - k >= st) {
      REQUIRE(k == n || std::addressof(*x) == at[k], "stride", st, "at", k);
      x += static_cast<D>(st);
      k += st;
    }
    REQUIRE(c.index_of(x) == k, "");
    auto y = c.end();
    k = n;
    while (k >= st) {
      y -= static_cast<D>(st);
      k -= st;
      REQUIRE(std::addressof(*y) == at[k], "stride back", st, "at", k, "of", n);
    }
  }
  label(n ? "walked containers, not empty" : "walked containers, empty");
}
PROBED_MATRIX(probe)
#include "matrix.inc"
