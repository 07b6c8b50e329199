// C15: comparison operators.
#include "drive.hpp"
using namespace d;
#if PART == 0
char const* const pbt::rule =
    "A case builds pairs of sequences, each in one of nine ways (so that equal "
    "contents have different trees), the second one being the contents of the "
    "first with one of ten variations (none, cut, extended, changed to "
    "something smaller, larger or merely equal at any position, unrelated, "
    "empty), and compares all six operators in both directions and against "
    "itself with the lexicographical comparison of the models by the "
    "elements' own == and <, which for some types disagree. Non-trivial: both "
    "are longer than one segment and of different or no first difference "
    "behind the first segment.";
#endif

// == and < look at different things.
struct Odd {
  u64 v = 0;
  explicit Odd(u64 x) : v(x) {}
  friend bool operator==(Odd const& a, Odd const& b) {
    return a.v % 5 == b.v % 5;
  }
  friend bool operator<(Odd const& a, Odd const& b) {
    return (a.v >> 3 & 7) < (b.v >> 3 & 7);
  }
};
struct OnlyEq {
  u64 v = 0;
  explicit OnlyEq(u64 x) : v(x) {}
  friend bool operator==(OnlyEq const& a, OnlyEq const& b) {
    return a.v % 16 == b.v % 16;
  }
};
struct OnlyLess {
  u64 v = 0;
  explicit OnlyLess(u64 x) : v(x) {}
  friend bool operator<(OnlyLess const& a, OnlyLess const& b) {
    return a.v % 16 < b.v % 16;
  }
};
// Equal to nothing, when odd: what a NaN is.
struct Nan {
  u64 v = 0;
  explicit Nan(u64 x) : v(x) {}
  friend bool operator==(Nan const& a, Nan const& b) {
    return a.v == b.v && a.v % 64 != 1;
  }
};

template <class T>
struct Ops {
  static constexpr bool eq = true, less = true;
  static T make(u64 id) { return Traits<T>::make(id); }
  static u64 norm(u64 id) { return Traits<T>::norm(id); }
  static bool e(u64 a, u64 b) { return Traits<T>::key(a) == Traits<T>::key(b); }
  static bool l(u64 a, u64 b) { return Traits<T>::key(a) < Traits<T>::key(b); }
};
template <class T>
struct OddOps {
  static constexpr bool eq = true, less = true;
  static T make(u64 id) { return T(id); }
  static u64 norm(u64 id) { return id; }
  static bool e(u64 a, u64 b) { return a % 16 == b % 16; }
  static bool l(u64 a, u64 b) { return a % 16 < b % 16; }
};
template <>
struct Ops<Odd> : OddOps<Odd> {
  static bool e(u64 a, u64 b) { return a % 5 == b % 5; }
  static bool l(u64 a, u64 b) { return (a >> 3 & 7) < (b >> 3 & 7); }
};
template <>
struct Ops<OnlyEq> : OddOps<OnlyEq> {
  static constexpr bool less = false;
};
template <>
struct Ops<OnlyLess> : OddOps<OnlyLess> {
  static constexpr bool eq = false;
};
template <>
struct Ops<Nan> : OddOps<Nan> {
  static constexpr bool less = false;
  static bool e(u64 a, u64 b) { return a == b && a % 64 != 1; }
};

template <class C>
struct Cmp {
  using T = typename C::T;
  using Seq = typename C::Seq;
  using X = Ops<T>;
  using Ids = std::vector<u64>;
  static constexpr u32 ways = 9;

  static Seq build(Ids const& m, u32 how, Rng& r) {
    Seq s;
    std::size_t const n = m.size();
    auto junk = [&] { return X::make(X::norm(r.u())); };
    switch (how % ways) {
      case 0:
        for (auto i : m) s.push_back(X::make(i));
        break;
      case 1:
        for (std::size_t k = n; k-- != 0;) s.push_front(X::make(m[k]));
        break;
      case 2: {  // in any order
        std::vector<std::size_t> in;
        std::vector<std::size_t> order(n);
        for (std::size_t k = 0; k != n; ++k) order[k] = k;
        for (std::size_t k = n; k > 1; --k)
          std::swap(order[k - 1], order[r.below(k)]);
        for (auto k : order) {
          auto p = std::lower_bound(in.begin(), in.end(), k);
          s.insert(s.nth(static_cast<std::size_t>(p - in.begin())),
                   X::make(m[k]));
          in.insert(p, k);
        }
        break;
      }
      case 3: {  // with others between that go away again
        std::vector<bool> mine;
        for (std::size_t k = 0; k != n; ++k) {
          for (auto j = r.below(3); j; --j) {
            s.push_back(junk());
            mine.push_back(false);
          }
          s.push_back(X::make(m[k]));
          mine.push_back(true);
        }
        for (std::size_t k = mine.size(); k-- != 0;)
          if (!mine[k]) s.erase(s.nth(k));
        break;
      }
      case 4: {
        std::vector<T> v;
        for (auto i : m) v.push_back(X::make(i));
        s.insert(s.end(), v.begin(), v.end());
        break;
      }
      case 5: {  // outside in
        std::size_t a = 0, b = n;
        while (a != b) {
          if (r.below(2))
            s.insert(s.nth(a), X::make(m[a])), ++a;
          else
            --b, s.insert(s.nth(a), X::make(m[b]));
        }
        break;
      }
      case 6: {
        Seq t = build(m, 1, r);
        s = t;
        break;
      }
      case 7: {  // cut out of something longer
        auto f = r.below(40), l = r.below(40);
        for (auto k = f; k; --k) s.push_back(junk());
        for (auto i : m) s.push_back(X::make(i));
        for (auto k = l; k; --k) s.push_back(junk());
        s.erase(s.begin(), s.nth(f));
        s.erase(s.nth(n), s.end());
        break;
      }
      default: {  // overwritten
        for (std::size_t k = 0; k != n; ++k)
          s.insert(s.nth(r.below(k + 1)), junk());
        std::size_t k = 0;
        for (auto& e : s) e = X::make(m[k++]);
      }
    }
    return s;
  }

  static void compare(Seq const& a, Seq const& b, Ids const& m, Ids const& k) {
    if constexpr (X::eq) {
      bool e = m.size() == k.size() &&
               std::equal(m.begin(), m.end(), k.begin(),
                          [](u64 x, u64 y) { return X::e(x, y); });
      REQUIRE((a == b) == e, "== is", a == b, "sizes", m.size(), k.size());
      REQUIRE((a != b) == !e, "!= is", a != b, "sizes", m.size(), k.size());
      label(e ? "equal" : "not equal");
    }
    if constexpr (X::less) {
      auto f = [](u64 x, u64 y) { return X::l(x, y); };
      bool lt = std::lexicographical_compare(m.begin(), m.end(), k.begin(),
                                             k.end(), f);
      bool gt = std::lexicographical_compare(k.begin(), k.end(), m.begin(),
                                             m.end(), f);
      REQUIRE((a < b) == lt, "< is", a < b, "sizes", m.size(), k.size());
      REQUIRE((a > b) == gt, "> is", a > b, "sizes", m.size(), k.size());
      REQUIRE((a <= b) == !gt, "<= is", a <= b, "sizes", m.size(), k.size());
      REQUIRE((a >= b) == !lt, ">= is", a >= b, "sizes", m.size(), k.size());
      label(lt ? "less" : gt ? "greater" : "neither");
    }
    pbt::checkpoint();
  }

  static void one(Op const& o, std::size_t max) {
    Rng r(o.v * 7919u + o.p);
    std::size_t n = o.p % (max + 1);
    if ((o.n & 3) == 0) n %= 12;
    bool const few = o.n & 4;  // few different elements
    auto id = [&] { return X::norm(few ? r.below(3) : r.u()); };
    Ids m, k;
    for (std::size_t i = 0; i != n; ++i) m.push_back(id());
    k = m;
    std::size_t pos = n ? (o.v >> 4) % n : 0;
    u32 var = o.n / 8 % 11;
    switch (var) {
      case 1: k.resize(pos); break;
      case 2: k.push_back(id()); break;
      case 3: if (n) k[pos] = X::norm(k[pos] + 1); break;
      case 4: if (n) k[pos] = X::norm(k[pos] - 1); break;
      case 5: if (n) k[pos] = X::norm(k[pos] + 16); break;
      case 6: if (n) k[n - 1] = X::norm(k[n - 1] + 1 + (o.v & 14)); break;
      case 7: if (n) k.pop_back(); break;
      case 8: if (n) k.erase(k.begin() + long(pos)); break;
      case 9:
        k.clear();
        for (std::size_t i = r.below(max + 1); i; --i) k.push_back(id());
        break;
      case 10: k.clear(); break;
      default: break;
    }
    Seq a = build(m, o.s % ways, r), b = build(k, o.s / ways % ways, r);
    compare(a, b, m, k);
    compare(b, a, k, m);
    compare(a, a, m, m);
    compare(b, b, k, k);
    Seq c = a;
    compare(c, b, m, k);
    compare(c, a, m, m);
    compare(Seq(), a, Ids(), m);
    if (a.height() >= 2 && b.height() >= 2 && (var < 9)) pbt::nontrivial();
    if (a.height() != b.height()) label("different heights");
  }
};

template <class C>
struct Add {
  Add(char const* name, std::size_t max, u64 quick, u64 thorough) {
    pbt::Suite s;
    s.name = name;
    s.opnames = {"pair"};
    s.quick = quick;
    s.thorough = thorough;
    if (max > 65536) s.fixed = true, s.priority = 1;
    s.gen = [max](Rng& r, u64, bool) {
      Case c;
      std::size_t n = max > 65536 ? 1 : 1 + r.below(6);
      for (std::size_t i = 0; i != n; ++i)
        c.ops.push_back(Op{0, u32(r.below(81)), r.u() & 0xfffff,
                           u32(r.below(88)), r.u() & 0xfffff});
      return c;
    };
    s.run = [max](Case const& c) {
      for (auto const& o : c.ops) {
        mem::reset();
        tr_stats = TrStats{};
        Cmp<C>::one(o, max);
        pbt::checkpoint();
        REQUIRE(tr_stats.live == 0, "");
      }
    };
    pbt::Register{s};
  }
};
#if PART == 0
static Add<K<u32, 1, 3>> a("u32 seg1 base3", 120, 4000, 40000);
static Add<K<u64, 3, 4>> b("u64 seg3 base4", 300, 2500, 25000);
#elif PART == 1
static Add<K<std::uint8_t, 4, 3>> a("u8 seg4 base3", 300, 2500, 25000);
static Add<Dflt<u32>> b("u32 defaults", 20000, 60, 600);
#elif PART == 2
static Add<K<std::string, 3, 3>> a("string seg3 base3", 200, 2500, 25000);
static Add<K<Pod<17>, 2, 4>> b("Pod17 seg2 base4", 200, 2500, 25000);
#elif PART == 3
static Add<K<Trk, 2, 3>> a("Trk seg2 base3", 200, 2500, 25000);
static Add<K<Trk, 5, 5, HookAlloc<Trk>>> b("Trk seg5 base5 hooks", 400, 1000, 10000);
#elif PART == 4
static Add<K<Odd, 2, 3>> a("== and < disagree seg2 base3", 200, 4000, 40000);
static Add<K<OnlyEq, 3, 3>> b("only == seg3 base3", 200, 3000, 30000);
#elif PART == 5
static Add<K<OnlyLess, 3, 3>> a("only < seg3 base3", 200, 3000, 30000);
static Add<K<Nan, 2, 3>> b("NaN seg2 base3", 200, 3000, 30000);
#elif PART == 6
static Add<Dflt<std::string>> a("string defaults", 2000, 200, 2000);
static Add<Dflt<std::uint8_t>> b("u8 defaults", 20000, 60, 600);
#elif PART == 7
static Add<K<u32, 2, 3, fancy::RelativeAlloc<u32>>> a("u32 relative pointers", 200, 2500, 25000);
static Add<Cfg<u32, std::allocator<u32>, 0, 0>> b("u32 seg0 base0", 200, 2500, 25000);
#endif
static Add<WideCfg> wide_(WIDE_NAME, 200000, 10, 100);
