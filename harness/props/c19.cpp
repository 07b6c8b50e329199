// C19: the same calls give the same results in every instantiation.
#include "drive.hpp"
#if __cplusplus >= 201703L
#include <any>
#include <memory_resource>
#include <optional>
#endif
#include <scoped_allocator>
using namespace d;
#if PART == 0 || defined(WITH_RULE)
char const* const pbt::rule =
    "A case is one history (all editing, assigning, transferring and "
    "reordering calls) that is played in a group of instantiations that differ "
    "in the segment and index targets (zero, tiny, odd, the defaults, larger "
    "than any content, more than 65535 entries), in the element type's size, "
    "alignment and abilities, and in the allocator (pointer type, size_type, "
    "state, no default constructor); each is compared with the model after "
    "every call and by all kinds of access at the end, and with the capacity "
    "its targets give. The builds repeat this in C++11, 14, 17 and 20 with two "
    "compilers. Non-trivial: some instantiation of the group had an index "
    "(height >= 2) and its height differed from another's, or the only one "
    "had height >= 2.";
#endif

// ---- element types ----
enum class Color : std::uint16_t {};
template <>
struct Traits<Color> : IntTraits<std::uint16_t> {
  static Color make(u64 id) { return static_cast<Color>(norm(id)); }
  static u64 id(Color x) { return static_cast<u64>(x); }
};
template <>
struct Traits<bool> : IntTraits<std::uint8_t> {
  static u64 norm(u64 id) { return id & 1; }
  static bool make(u64 id) { return norm(id) != 0; }
  static u64 id(bool const& x) { return x; }
};
template <>
struct Traits<void const*> : IntTraits<u64> {
  static void const* make(u64 id) {
    return reinterpret_cast<void const*>(static_cast<std::uintptr_t>(id));
  }
  static u64 id(void const* const& x) {
    return reinterpret_cast<std::uintptr_t>(x);
  }
};
template <>
struct Traits<double> : IntTraits<u64> {
  static u64 norm(u64 id) { return id & 0xfffffffffffffULL; }
  static double make(u64 id) { return double(norm(id)); }
  static u64 id(double const& x) { return u64(x); }
  static u64 key(u64 id) { return norm(id); }
};
template <>
struct Traits<long double> : Traits<double> {
  static long double make(u64 id) { return static_cast<long double>(norm(id)); }
  static u64 id(long double const& x) { return u64(x); }
};
template <>
struct Traits<std::pair<u64, std::string>> {
  using P = std::pair<u64, std::string>;
  static constexpr bool copyable = true;
  static constexpr bool keyed = false;
  static u64 norm(u64 id) { return Traits<std::string>::norm(id); }
  static P make(u64 id) {
    return P(norm(id), norm(id) ? Traits<std::string>::make(id)
                                : std::string());
  }
  static u64 id(P const& x) {
    if (Traits<std::string>::id(x.second) != x.first)
      pbt::note_error("the two halves of a pair differ");
    return x.first;
  }
  static u64 key(u64 id) { return id; }
  static constexpr u64 dflt() { return 0; }
};

// Takes over every operator a container should not use on elements.
struct Hostile {
  u64 v;
  Hostile() : v(0) {}
  explicit Hostile(u64 x) : v(x) {}
  Hostile* operator&() const { std::abort(); }
  template <class X>
  void operator,(X&&) const = delete;
  friend bool operator==(Hostile const& a, Hostile const& b) {
    return a.v == b.v;
  }
  friend bool operator<(Hostile const& a, Hostile const& b) {
    return a.v < b.v;
  }
};
template <>
struct Traits<Hostile> : IntTraits<u64> {
  static Hostile make(u64 id) { return Hostile(id); }
  static u64 id(Hostile const& x) { return x.v; }
};
// The same, not trivial.
struct HostileTrk : Trk {
  HostileTrk() = default;
  explicit HostileTrk(u64 x) : Trk(x) {}
  HostileTrk* operator&() const { std::abort(); }
  template <class X>
  void operator,(X&&) const = delete;
};
template <>
struct Traits<HostileTrk> : TrTraits<HostileTrk> {
  static u64 id(HostileTrk const& x) { return x.value(); }
};

// No default constructor, no comparison, nothing but copy and move.
class Bare final {
  Trk t_;

 public:
  struct Key {
    u64 v;
  };
  explicit Bare(Key k) : t_(k.v) {}
  u64 get() const { return t_.value(); }
};
template <>
struct Traits<Bare> : TrTraits<Bare> {
  static Bare make(u64 id) { return Bare(Bare::Key{id}); }
  static u64 id(Bare const& x) { return x.get(); }
};

// Anything converts to it.
class Greedy {
  std::shared_ptr<u64> p_;

 public:
  struct Maker {
    u64 v;
  };
  template <class X,
            typename std::enable_if<
                !std::is_same<typename std::decay<X>::type, Greedy>::value,
                int>::type = 0>
  Greedy(X&& x) : p_(std::make_shared<u64>(val(x))) {}
  static u64 val(Maker const& m) { return m.v; }
  template <class X>
  static u64 val(X const&) {
    pbt::note_error("an element was made of something that is not a value");
    return ~u64(0);
  }
  u64 get() const { return p_ ? *p_ : ~u64(0); }
};
template <>
struct Traits<Greedy> : IntTraits<u64> {
  static Greedy make(u64 id) { return Greedy(Greedy::Maker{id}); }
  static u64 id(Greedy const& x) { return x.get(); }
};

#if __cplusplus >= 201703L
template <>
struct Traits<std::any> : IntTraits<u64> {
  static std::any make(u64 id) { return std::any(id); }
  static u64 id(std::any const& x) {
    if (!x.has_value()) return 0;
    auto p = std::any_cast<u64>(&x);
    if (!p) {
      pbt::note_error("an any holds something else");
      return ~u64(0);
    }
    return *p;
  }
};
template <>
struct Traits<std::optional<std::string>> : Traits<std::string> {
  using O = std::optional<std::string>;
  static O make(u64 id) {
    return norm(id) ? O(Traits<std::string>::make(id)) : O();
  }
  static u64 id(O const& x) { return x ? Traits<std::string>::id(*x) : 0; }
};
#endif

// Sequences of sequences.
template <class Inner>
struct NestedTraits {
  static constexpr bool copyable = true;
  static constexpr bool keyed = false;
  static u64 norm(u64 id) { return id & 0xffffff; }
  static Inner make(u64 id) {
    Inner r;
    for (id = norm(id); id; id >>= 6) r.push_back(id & 63);
    return r;
  }
  static u64 id(Inner const& x) {
    u64 r = 0;
    for (auto i = x.crbegin(); i != x.crend(); ++i) r = r << 6 | *i;
    return r;
  }
  // little end first, shorter before longer
  static u64 key(u64 id) {
    u64 r = 0, n = 0;
    for (; id; id >>= 6, ++n) r = r << 7 | ((id & 63) + 1);
    for (; n < 5; ++n) r <<= 7;
    return r;
  }
  static constexpr u64 dflt() { return 0; }
};
using Nested = boost::segmented_tree::seq<u64, std::allocator<u64>, 8, 0>;
template <>
struct Traits<Nested> : NestedTraits<Nested> {};

// ---- allocators ----
template <class T>
struct Minimal {
  using value_type = T;
  Minimal() noexcept {}
  template <class U>
  Minimal(Minimal<U> const&) noexcept {}
  T* allocate(std::size_t n) {
    return static_cast<T*>(mem::get(n, sizeof(T), 0, true));
  }
  void deallocate(T* p, std::size_t n) {
    mem::put(p, n, sizeof(T), 0, true);
  }
};
template <class T, class U>
bool operator==(Minimal<T> const&, Minimal<U> const&) {
  return true;
}
template <class T, class U>
bool operator!=(Minimal<T> const&, Minimal<U> const&) {
  return false;
}

template <class T, class S>
struct SizeAlloc {
  using value_type = T;
  using size_type = S;
  using difference_type = typename std::make_signed<S>::type;
  template <class U>
  struct rebind {
    using other = SizeAlloc<U, S>;
  };
  explicit SizeAlloc(int) noexcept {}  // and no default
  template <class U>
  SizeAlloc(SizeAlloc<U, S> const&) noexcept {}
  T* allocate(S n) {
    return static_cast<T*>(mem::get(n, sizeof(T), 0, true));
  }
  void deallocate(T* p, S n) { mem::put(p, n, sizeof(T), 0, true); }
  friend bool operator==(SizeAlloc const&, SizeAlloc const&) { return true; }
  friend bool operator!=(SizeAlloc const&, SizeAlloc const&) { return false; }
};

template <class T>
struct AlignAlloc {
  using value_type = T;
  AlignAlloc() noexcept {}
  template <class U>
  AlignAlloc(AlignAlloc<U> const&) noexcept {}
  T* allocate(std::size_t n) {
    void* p = nullptr;
    std::size_t al = alignof(T) < sizeof(void*) ? sizeof(void*) : alignof(T);
    if (posix_memalign(&p, al, n * sizeof(T))) std::abort();
    return static_cast<T*>(p);
  }
  void deallocate(T* p, std::size_t) { std::free(p); }
  friend bool operator==(AlignAlloc const&, AlignAlloc const&) { return true; }
  friend bool operator!=(AlignAlloc const&, AlignAlloc const&) { return false; }
};

using ScopedInner =
    boost::segmented_tree::seq<u64, TrackAlloc<u64, 7, u64>, 16, 0>;
template <>
struct Traits<ScopedInner> : NestedTraits<ScopedInner> {};
using ScopedA = std::scoped_allocator_adaptor<
    TrackAlloc<ScopedInner, 7, ScopedInner>, TrackAlloc<u64, 7, u64>>;

// ---- one history in several instantiations ----
template <class W>
void last_look(W& x, Rng& r) {
  using C = typename W::Seq;
  using Tx = typename W::Tx;
  using D = typename C::difference_type;
  for (auto& sl : x.slot) {
    auto const& m = sl.m;
    C& s = *sl.s;
    C const& c = s;
    std::size_t n = m.size();
    REQUIRE(c.size() == n && c.empty() == (n == 0), "");
    REQUIRE((c.height() == 0) == (n == 0), "");
    REQUIRE(c.end() - c.begin() == D(n), "");
    std::size_t k = 0;
    for (auto i = c.crbegin(); i != c.crend(); ++i, ++k)
      REQUIRE(Tx::id(*i) == m[n - 1 - k], "backward at", n - 1 - k);
    REQUIRE(k == n, "");
    for (int t = 0; t != 12 && n; ++t) {
      std::size_t a = r.below(n), b = r.below(n);
      REQUIRE(Tx::id(s[a]) == m[a] && Tx::id(c.at(a)) == m[a], "at", a);
      auto i = c.nth(a);
      REQUIRE(c.index_of(i) == a, "");
      REQUIRE(std::addressof(*i) == std::addressof(s[a]), "");
      std::size_t in = std::size_t(i.current() - i.begin());
      std::size_t len = std::size_t(i.end() - i.begin());
      REQUIRE(in < len && len <= n, "segment bounds");
      auto j = i + (D(b) - D(a));
      REQUIRE(c.index_of(j) == b && Tx::id(*j) == m[b], "jump", a, b);
      REQUIRE(j - i == D(b) - D(a), "");
      REQUIRE((i < j) == (a < b) && (i == j) == (a == b), "");
    }
  }
  if constexpr (W::has_eq) {
    using T = typename W::T;
    // == and < of sequences use those of the elements, which key() mirrors
    auto key = [](typename W::Ids const& v) {
      typename W::Ids r;
      for (auto i : v) r.push_back(Tx::key(i));
      return r;
    };
    auto a = key(x.slot[0].m), b = key(x.slot[1].m);
    REQUIRE((*x.slot[0].s == *x.slot[1].s) == (a == b), "");
    if constexpr (W::has_lt)
      REQUIRE((*x.slot[0].s < *x.slot[1].s) == (a < b), "");
    (void)sizeof(T);
  }
}
struct Outcome {
  std::vector<std::vector<u64>> m;
  std::size_t top = 0;
};
template <class C>
Outcome play(Case const& c, std::size_t max_size, bool distinct) {
  mem::reset();
  tr_stats = TrStats{};
  Outcome out;
  std::size_t const cap = C::seg_max;
  {
    World<C> wd(distinct);
    wd.portable = true;
    wd.max_size = max_size;
    for (auto const& o : c.ops) {
      if (!wd.apply(o)) continue;
      wd.check_touched();
      for (auto const& sl : wd.slot)
        out.top = std::max<std::size_t>(out.top, sl.s->height());
      for (int t : wd.touched)
        if (t >= 0) {
          // a look at the segments the edit left
          auto const& s = *wd.slot[t].s;
          if (s.empty()) continue;
          auto i = s.nth(c.cfg[0] % s.size());
          REQUIRE(std::size_t(i.end() - i.begin()) <= cap, "a segment of",
                  i.end() - i.begin(), "of", cap);
        }
      pbt::checkpoint();
    }
    Rng r(c.cfg[0] + 7u);
    last_look(wd, r);
    for (auto const& sl : wd.slot) out.m.push_back(sl.m);
  }
  pbt::checkpoint();
  REQUIRE(tr_stats.live == 0, "elements left:", tr_stats.live);
  REQUIRE(mem::st.live.empty(), "blocks left:", mem::st.live.size());
  return out;
}

template <class... Cs>
struct Side {
  // wide: starts with this many elements at the end
  Side(char const* name, Size z, u64 quick, u64 thorough, u32 wide = 0) {
    bool const distinct = false;
    Profile p = everything();
    apply_size(p, z);
    // std::stable_sort and std::inplace_merge of the standard library take a
    // buffer that is not aligned for these, whatever the container
    bool over_aligned[] = {(alignof(typename Cs::T) > 16)...};
    if (over_aligned[0]) p.set({MERGE, MERGE_R, MERGE_C, SORT, SORT_C}, 0);
    pbt::Suite s;
    s.name = name;
    s.opnames = op_names();
    s.quick = quick;
    s.thorough = thorough;
    s.gen = [p, wide](Rng& r, u64, bool) {
      Case c = gen_history(r, p);
      c.cfg[0] = r.u() & 0xffff;
      if (wide) {
        Op o{BULK_INS, 0, 1, wide, 0};
        c.ops.insert(c.ops.begin(), o);
        o.n = u32(r.below(3000));
        o.v = 7 * 100 + u32(r.below(7));
        o.p = r.u() & ~15u;
        c.ops.insert(c.ops.begin() + 1, o);
      }
      return c;
    };
    auto max_size = z.max_size;
    s.run = [max_size, distinct](Case const& c) {
      Outcome all[] = {play<Cs>(c, max_size, distinct)...};
      constexpr std::size_t n = sizeof...(Cs);
      bool differ = false, deep = false;
      for (std::size_t i = 0; i != n; ++i) {
        REQUIRE(all[i].m == all[0].m, "instantiation", i,
                "took another course than the first");
        differ |= all[i].top != all[0].top;
        deep |= all[i].top >= 2;
      }
      label("instantiations played", n);
      for (auto const& o : all) {
        for (auto const& v : o.m)
          if (v.size() > 65535) label("more than 65535 elements");
        if (o.top >= 3) label("height 3 or more");
        if (o.top >= 5) label("height 5 or more");
      }
      if (deep && (differ || n == 1)) pbt::nontrivial();
    };
    pbt::Register{s};
  }
};

// ---- capacities ----
// Elements pushed, and single insertions of a first full segment, against what
// the targets allow.
template <class T, std::size_t SEG, std::size_t BASE>
struct Caps {
  using A = TrackAlloc<T>;
  using C = Cfg<T, A, SEG, BASE>;
  using Seq = typename C::Seq;
  static void look(Seq const& s, std::size_t& most) {
    std::size_t left = s.size();
    auto i = s.begin();
    while (left) {
      std::size_t n = std::size_t(i.end() - i.current());
      REQUIRE(n && n <= left, "segment bounds");
      most = std::max(most, n);
      left -= n;
      i.move_after_segment();
    }
  }
  static void run(Case const& c) {
    mem::reset();
    {
      Rng r(c.cfg[0] + 3u);
      std::size_t const cap = C::seg_max;
      std::size_t n = cap + 1 + r.below(std::min<std::size_t>(cap * 3, 5000));
      Seq s(A(1));
      std::vector<u64> m;
      std::size_t most = 0;
      unsigned kind = c.cfg[1] % 3;
      for (std::size_t i = 0; i != n; ++i) {
        REQUIRE(s.height() == (i == 0 ? 0 : i <= cap ? 1 : s.height()),
                "height", s.height(), "with", i, "of", cap);
        if (i > cap) REQUIRE(s.height() >= 2, "");
        u64 id = Traits<T>::norm(i + 1);
        std::size_t at = kind == 0 ? i : kind == 1 ? 0 : r.below(i + 1);
        if (cap > 2000 && kind == 1 && i > 2000) at = i;
        s.insert(s.nth(at), Traits<T>::make(id));
        m.insert(m.begin() + long(at), id);
        if (i + 1 == cap) look(s, most);
      }
      REQUIRE(most == cap, "a segment held at most", most, "of", cap);
      look(s, most);
      REQUIRE(most <= cap, "");
      std::size_t k = 0;
      for (auto const& e : s) REQUIRE(Traits<T>::id(e) == m[k++], "");
      for (auto const& b : mem::st.live) {
        auto const& bl = b.second;
        if (bl.is_element) {
          REQUIRE(bl.n * bl.size <= (SEG > sizeof(T) ? SEG : sizeof(T)),
                  "a segment of", bl.n * bl.size, "bytes, target", SEG);
        } else {
          REQUIRE(bl.n * bl.size <= (BASE > 96 ? BASE : 96),
                  "an index node of", bl.n * bl.size, "bytes, target", BASE);
          if (BASE <= 1000000 && BASE >= 128)
            REQUIRE(bl.n * bl.size >= BASE / 2, "an index node of",
                    bl.n * bl.size, "bytes, target", BASE);
        }
      }
      pbt::nontrivial();
      label("capacities observed");
    }
    pbt::checkpoint();
  }
  Caps(char const* name, u64 quick) {
    pbt::Suite s;
    s.name = std::string("capacity ") + name;
    s.quick = quick;
    s.thorough = quick * 10;
    s.gen = [](Rng& r, u64, bool) {
      Case c;
      c.cfg[0] = r.u() & 0xffff;
      c.cfg[1] = r.u() & 0xff;
      return c;
    };
    s.run = &run;
    pbt::Register{s};
  }
};

// ---- static facts ----
template <class T, class A, std::size_t S, std::size_t B>
void facts() {
  using Seq = boost::segmented_tree::seq<T, A, S, B>;
  using It = typename Seq::iterator;
  using CIt = typename Seq::const_iterator;
  using Tr_ = std::allocator_traits<A>;
  REQUIRE((std::is_same<typename Seq::value_type, T>::value), "");
  REQUIRE((std::is_same<typename Seq::allocator_type, A>::value), "");
  REQUIRE((std::is_same<typename Seq::size_type,
                        typename Tr_::size_type>::value),
          "");
  REQUIRE((std::is_same<typename Seq::difference_type,
                        typename Tr_::difference_type>::value),
          "");
  REQUIRE((std::is_same<typename Seq::pointer, typename Tr_::pointer>::value),
          "");
  REQUIRE((std::is_same<typename Seq::const_pointer,
                        typename Tr_::const_pointer>::value),
          "");
  REQUIRE((std::is_same<typename Seq::reference, T&>::value), "");
  REQUIRE((std::is_same<typename Seq::const_reference, T const&>::value), "");
  REQUIRE((std::is_same<typename std::iterator_traits<It>::iterator_category,
                        std::random_access_iterator_tag>::value),
          "");
  REQUIRE((std::is_same<typename std::iterator_traits<CIt>::reference,
                        T const&>::value),
          "");
  REQUIRE((std::is_same<decltype(*std::declval<It>()), T&>::value), "");
  REQUIRE((std::is_same<decltype(*std::declval<CIt>()), T const&>::value), "");
  REQUIRE((std::is_convertible<It, CIt>::value), "");
  REQUIRE((!std::is_convertible<CIt, It>::value), "");
  REQUIRE((std::is_same<typename Seq::reverse_iterator,
                        std::reverse_iterator<It>>::value),
          "");
  REQUIRE((std::is_same<typename Seq::const_reverse_iterator,
                        std::reverse_iterator<CIt>>::value),
          "");
  REQUIRE((!std::is_convertible<std::size_t, Seq>::value), "");
  REQUIRE((!std::is_convertible<A, Seq>::value), "");
  REQUIRE(std::is_nothrow_destructible<Seq>::value, "");
}

template <class T, std::size_t S, std::size_t B>
using KT = K<T, S, B, TrackAlloc<T>>;
template <class T, std::size_t S, std::size_t B,
          class A = std::allocator<T>>
using R = Cfg<T, A, S, B>;

#if PART == 0
static Side<R<u32, std::size_t(0), 0>, R<u32, 3, 1>, R<u32, 4, 15>, R<u32, 7, 16>, R<u32, 8, 17>,
            R<u32, 12, 79>, R<u32, 1024, 768>>
    a("u32 small targets", Size{}, 700, 7000);
static Side<R<u32, 16, 80>, R<u32, 20, 96>, R<u32, 28, 111>, R<u32, 31, 128>,
            R<u32, 100, 200>, R<u32, 1000000, 64>, R<u32, 64, 100000>>
    b("u32 larger targets", Size{10, 60, 600, 1200}, 200, 2000);
struct Facts {
  Facts() {
    pbt::Suite s;
    s.name = "static facts";
    s.quick = s.thorough = 1;
    s.gen = [](Rng&, u64, bool) { return Case{}; };
    s.run = [](Case const&) {
      facts<u32, std::allocator<u32>, 1024, 768>();
      facts<std::string, TrackAlloc<std::string>, 0, 0>();
      facts<MoveOnly, std::allocator<MoveOnly>, 3, 5000000>();
      facts<u64, fancy::CountingAlloc<u64>, 64, 64>();
      facts<u64, fancy::RelativeAlloc<u64>, 1, 64>();
      facts<bool, Minimal<bool>, 1000000, 64>();
      facts<Greedy, std::allocator<Greedy>, 64, 64>();
    };
    pbt::Register{s};
  }
};
static Facts facts_;
static Caps<u32, 0, 0> c0("u32 0 0", 6);
static Caps<u32, 1023, 767> c1("u32 1023 767", 6);
static Caps<std::uint8_t, 300, 129> c2("u8 300 129", 6);
static Caps<Pod<17>, 255, 100000> c3("Pod17 255 100000", 6);
static Caps<Trk, 4000, 1000> c4("Trk 4000 1000", 6);
static Caps<std::uint16_t, 200000, 500> c5("u16 200000 500", 2);
#elif PART == 1
static Side<KT<Trk, 1, 3>, KT<Trk, 2, 4>, KT<Trk, 3, 5>, KT<Trk, 4, 6>, KT<Trk, 33, 3>>
    a("Trk targets", Size{}, 300, 3000);
static Side<K<std::uint8_t, 1, 3>, K<std::uint8_t, 2, 3>, K<std::uint8_t, 70000, 3>>
    b("u8 more than 65535 to a segment", Size{5, 20, 30000, 150000}, 4, 80, 65530);
static Side<K<u32, 1, 70000>, Dflt<u32>>
    c("u32 more than 65535 to a node", Size{5, 12, 3000, 140000}, 3, 60, 65530);
#elif PART == 2
static Side<K<Bare, 1, 3>, K<Bare, 2, 3>, K<Bare, 3, 4>> a("Bare", Size{}, 250, 2500);
static Side<K<Hostile, 1, 4>, K<Hostile, 3, 3>, Dflt<Hostile>> b("Hostile", Size{}, 250, 2500);
static Side<K<HostileTrk, 2, 3>, K<HostileTrk, 5, 5>> c("HostileTrk", Size{}, 250, 2500);
static Side<K<Greedy, 1, 3>, K<Greedy, 2, 4>, K<Greedy, 3, 3>> d_("Greedy", Size{}, 200, 2000);
#elif PART == 3
static Side<K<bool, 3, 3>, R<bool, 1, 0>, Dflt<bool>> a("bool", Size{}, 200, 2000);
static Side<K<Color, 3, 3>, K<Color, 8, 4>> b("enum", Size{}, 200, 2000);
static Side<K<void const*, 2, 3>, K<void const*, 5, 5>> c("pointer", Size{}, 200, 2000);
static Side<K<long double, 2, 3>, K<long double, 3, 4>, Dflt<double>>
    d_("floating point", Size{}, 200, 2000);
static Side<K<std::pair<u64, std::string>, 2, 3>, K<std::pair<u64, std::string>, 3, 4>,
            Dflt<std::pair<u64, std::string>>>
    e("pair", Size{}, 200, 2000);
static Side<R<Pod<2000>, 1024, 768>, R<Pod<2000>, 4100, 64>, R<Pod<2000>, 0, 0>>
    f("elements larger than a segment", Size{10, 50, 200, 400}, 150, 1500);
static Side<K<SelfAware, 3, 3>, K<SelfAware, 4, 4>> g("self aware", Size{}, 250, 2500);
#elif PART == 4
#if __cplusplus >= 201703L
// (std::vector, which the harness uses too, aligns these from C++17 on)
static Side<R<AlignedPod, 64, 64, AlignAlloc<AlignedPod>>, R<AlignedPod, 100, 80, AlignAlloc<AlignedPod>>>
    a("alignas(32) own allocator", Size{}, 200, 2000);
static Side<R<Aligned<64>, 128, 64, AlignAlloc<Aligned<64>>>, R<Aligned<64>, 200, 80, AlignAlloc<Aligned<64>>>>
    b("alignas(64) own allocator", Size{}, 200, 2000);
static Side<K<AlignedPod, 3, 3>, Dflt<AlignedPod>> c("alignas(32)", Size{}, 200, 2000);
static Side<K<Aligned<128>, 2, 3>, Dflt<Aligned<128>>> d_("alignas(128)", Size{}, 200, 2000);
static Side<K<std::any, 1, 3>, K<std::any, 2, 3>, Dflt<std::any>> e("any", Size{}, 200, 2000);
static Side<K<std::optional<std::string>, 3, 3>, Dflt<std::optional<std::string>>> f("optional", Size{}, 200, 2000);
#endif
static Side<K<Nested, 2, 3>, K<Nested, 3, 4>> g("sequences of sequences", Size{}, 150, 1500);
#elif PART == 5
static Side<K<u32, 2, 3, SizeAlloc<u32, std::uint32_t>>, K<u32, 2, 3, SizeAlloc<u32, std::uint16_t>>,
            K<u32, 3, 3, SizeAlloc<u32, u64>>>
    a("size types", Size{}, 300, 3000);
static Side<K<Trk, 2, 3, SizeAlloc<Trk, std::uint32_t>>, K<Trk, 3, 4, SizeAlloc<Trk, std::uint16_t>>>
    b("Trk size types", Size{}, 200, 2000);
static Side<K<std::string, 2, 3, Minimal<std::string>>, Dflt<std::string, Minimal<std::string>>>
    c("minimal allocator", Size{}, 200, 2000);
#if __cplusplus >= 201703L
static Side<K<u32, 2, 3, std::pmr::polymorphic_allocator<u32>>, Dflt<u32, std::pmr::polymorphic_allocator<u32>>>
    d_("polymorphic allocator", Size{}, 250, 2500);
#endif
static Side<K<ScopedInner, 2, 3, ScopedA>, K<ScopedInner, 3, 4, ScopedA>>
    e("scoped allocator", Size{}, 100, 1000);
static Side<K<u32, 2, 3, SizeAlloc<u32, std::uint16_t>>> f("16-bit sizes large", Size{5, 15, 15000, 30000}, 6, 60);
#elif PART == 6
static Side<K<u32, 2, 3, fancy::CountingAlloc<u32>>, K<u32, 2, 3, fancy::RelativeAlloc<u32>>, K<u32, 2, 3>>
    a("u32 pointers", Size{}, 200, 2000);
static Side<R<Trk, 100, 128, fancy::CountingAlloc<Trk>>, R<Trk, 150, 96, fancy::RelativeAlloc<Trk>>, KT<Trk, 2, 3>>
    b("Trk pointers", Size{}, 150, 1500);
static Side<R<MoveOnly, 100, 0>, R<MoveOnly, 200, 129>, K<MoveOnly, 2, 3, fancy::RelativeAlloc<MoveOnly>>>
    c("MoveOnly", Size{}, 200, 2000);
#elif PART == 7
static Side<K<std::string, 1, 3>, K<std::string, 2, 4>, K<std::string, 5, 3>, Dflt<std::string>>
    a("string targets", Size{}, 200, 2000);
static Side<R<CopyOnly, 100, 0>, R<CopyOnly, 260, 111>> b("CopyOnly", Size{}, 200, 2000);
static Side<K<u64, 1, 47>, K<u64, 3, 48>, Dflt<u64>> c("u64 deep", Size{5, 20, 10000, 25000}, 8, 80);
static Side<R<u32, 68, 140, HookAlloc<u32>>, R<u32, 32, 120, HookAlloc<u32, 0>>> d_("construct hooks", Size{}, 150, 1500);
#endif
