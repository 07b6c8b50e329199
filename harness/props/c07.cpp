// C07: lifetimes of elements.
#include <unordered_set>
#include "faulted.hpp"
using namespace d;
#if PART == 0
char const* const pbt::rule =
    "A case is a history over every operation a sequence has, on three "
    "containers of elements that know their address, whether they are alive "
    "and whether they were moved from; after every call the number of live "
    "elements equals the sum of the sizes and every element reads as expected; "
    "construction over a live element, use or destruction of a dead one, and "
    "bitwise relocation are reported by the elements. In the histories named "
    "'failing' two thirds of the operations run with a random fault point "
    "(allocation, creation, copy, copy assignment, source, comparison) "
    "throwing. Non-trivial: a container had height >= 3, or an index level was "
    "added and another removed; of the failing ones: two failures.";
#endif

// Types of which one half is trivial. Homed is built by copying its bytes and
// assigned by a function; its allocator writes where it was built.
struct Homed {
  u64 v;
  void const* home;
  Homed() : v(0), home(nullptr) {}
  explicit Homed(u64 x) : v(x), home(nullptr) {}
  Homed(Homed const&) = default;
  Homed& operator=(Homed const& o) {
    v = o.v;
    return *this;
  }
  friend bool operator==(Homed const& a, Homed const& b) { return a.v == b.v; }
  friend bool operator<(Homed const& a, Homed const& b) { return a.v < b.v; }
};
// HalfTrivial is assigned by copying its bytes, and not built or ended so.
struct HalfTrivial {
  static inline long alive = 0;
  static inline std::unordered_set<void const*> where;
  u64 v;
  void begins() {
    ++alive;
    if (!where.insert(this).second)
      pbt::note_error("an element is built over another");
  }
  HalfTrivial() : v(0) { begins(); }
  explicit HalfTrivial(u64 x) : v(x) { begins(); }
  HalfTrivial(HalfTrivial const& o) : v(o.v) { begins(); }
  HalfTrivial& operator=(HalfTrivial const&) = default;
  ~HalfTrivial() {
    --alive;
    if (!where.erase(this))
      pbt::note_error("an element ends that was not built there");
  }
  friend bool operator==(HalfTrivial const& a, HalfTrivial const& b) {
    return a.v == b.v;
  }
  friend bool operator<(HalfTrivial const& a, HalfTrivial const& b) {
    return a.v < b.v;
  }
};
template <>
struct Traits<Homed> : IntTraits<u64> {
  static Homed make(u64 id) { return Homed(id); }
  static u64 id(Homed const& x) { return x.v; }
};
template <>
struct Traits<HalfTrivial> : IntTraits<u64> {
  static HalfTrivial make(u64 id) { return HalfTrivial(id); }
  static u64 id(HalfTrivial const& x) { return x.v; }
};
template <class T>
class HomeAlloc : public HookAlloc<T, 7, Homed> {
  using Base = HookAlloc<T, 7, Homed>;

 public:
  template <class U>
  struct rebind {
    using other = HomeAlloc<U>;
  };
  HomeAlloc() = default;
  explicit HomeAlloc(int a) : Base(a) {}
  template <class U>
  HomeAlloc(HomeAlloc<U> const& o) : Base(o.arena) {}
  HomeAlloc select_on_container_copy_construction() const { return *this; }
  template <class... A>
  void construct(Homed* p, A&&... a) {
    Base::construct(p, std::forward<A>(a)...);
    p->home = p;
  }
};
template <class C>
struct Half {
  static void ok(World<C>& x) {
    std::size_t want = 0;
    for (auto& sl : x.slot) want += sl.s->size();
    if constexpr (std::is_same<typename C::T, Homed>::value) {
      for (auto& sl : x.slot)
        for (auto const& e : *sl.s)
          REQUIRE(e.home == &e, "an element was relocated bitwise");
    } else
      REQUIRE(std::size_t(HalfTrivial::alive) == want, HalfTrivial::alive,
              "elements are alive, the containers hold", want);
  }
  Half(char const* name, Size z, u64 quick, u64 thorough) {
    auto s = histories<C>(
        name, everything(), z, quick, thorough,
        [](World<C>& x, Op const&, Seen&) {
          x.check_touched();
          ok(x);
        },
        [](World<C>& x, Seen& s) {
          x.check_all();
          if (s.top >= 3 || (s.grew && s.shrank)) pbt::nontrivial();
        });
    auto run = s.run;
    s.run = [run](Case const& c) {
      HalfTrivial::alive = 0;
      HalfTrivial::where.clear();
      run(c);
      REQUIRE(HalfTrivial::alive == 0, HalfTrivial::alive, "elements left over");
    };
    pbt::Register{s};
  }
};

template <class C, bool Distinct = false>
struct Add {
  Add(char const* name, Size z, u64 quick, u64 thorough) {
    Profile p = everything();
    pbt::Register(histories<C>(
        name, p, z, quick, thorough,
        [](World<C>& x, Op const&, Seen&) {
          long long want = 0;
          for (auto& sl : x.slot) want += static_cast<long long>(sl.m.size());
          REQUIRE(tr_stats.live == want, tr_stats.live,
                  "elements are alive, the containers hold", want);
          x.check_touched();
        },
        [](World<C>& x, Seen& s) {
          x.check_all();
          Rng r(x.counter);
          // the containers go away in some order
          while (true) {
            bool any = false;
            long long want = 0;
            std::size_t k = r.below(3);
            for (std::size_t i = 0; i != 3; ++i) {
              auto& sl = x.slot[(k + i) % 3];
              if (sl.s && !any) {
                sl.s.reset();
                sl.m.clear();
                any = true;
              }
              want += static_cast<long long>(sl.m.size());
            }
            if (!any) break;
            REQUIRE(tr_stats.live == want, tr_stats.live, "alive, want", want);
          }
          REQUIRE(tr_stats.live == 0, tr_stats.live, "elements left over");
          REQUIRE(tr_stats.constructed == tr_stats.destroyed, "");
          if (s.top >= 3 || (s.grew && s.shrank)) pbt::nontrivial();
        },
        Distinct));
  }
};
static Size const small{};
// Histories with failures.
template <class C, bool Distinct = false>
struct Failing {
  static void count(World<C>& x) {
    long long want = 0;
    for (auto& sl : x.slot) want += static_cast<long long>(sl.s->size());
    REQUIRE(tr_stats.live == want, tr_stats.live,
            "elements are alive, the containers hold", want);
  }
  Failing(char const* name, u64 quick, u64 thorough) {
    auto s = faulted<C>(
        name, quick, thorough,
        [](World<C>& x) {
          count(x);
          x.check_all();
        },
        [](World<C>& x) {
          x.check_all();
          x.slot[0].s->clear();
          x.slot[0].m.clear();
          count(x);
        },
        Distinct);
    auto run = s.run;
    s.run = [run](Case const& c) {
      run(c);
      REQUIRE(tr_stats.live == 0, tr_stats.live, "elements left over");
    };
    pbt::Register{s};
  }
};
// Elements that need no destruction but must not be copied bit by bit: only
// their addresses can be checked.
template <class C, bool Distinct = false>
struct Aware {
  Aware(char const* name, Size z, u64 quick, u64 thorough) {
    pbt::Register(histories<C>(
        name, everything(), z, quick, thorough,
        [](World<C>& x, Op const&, Seen&) { x.check_touched(); },
        [](World<C>& x, Seen& s) {
          x.check_all();
          if (s.top >= 3 || (s.grew && s.shrank)) pbt::nontrivial();
        },
        Distinct));
  }
};
template <class T, std::size_t S, std::size_t B>
using KT = K<T, S, B, TrackAlloc<T>>;
template <class T, std::size_t S, std::size_t B>
using KS = K<T, S, B>;
#if PART == 0
static Add<KT<Trk, 1, 3>> a("Trk seg1 base3", small, 1500, 15000);
static Add<KT<Trk, 2, 3>> b("Trk seg2 base3", small, 1500, 15000);
static Failing<KT<Trk, 2, 3>> f("failing Trk seg2 base3", 500, 5000);
static Aware<KT<SelfAware, 3, 3>> g("SelfAware seg3 base3", small, 600, 6000);
#elif PART == 1
static Add<KT<Trk, 3, 4>> a("Trk seg3 base4", small, 1500, 15000);
static Add<KS<Trk, 4, 5>> b("Trk seg4 base5 std", small, 1500, 15000);
static Failing<KT<Trk, 1, 3>> f("failing Trk seg1 base3", 500, 5000);
static Aware<K<SelfAware, 2, 4, HookAlloc<SelfAware>>> g("SelfAware seg2 base4 hooks", small, 600, 6000);
#elif PART == 2
static Add<KT<MoveOnly, 2, 3>> a("MoveOnly seg2 base3", small, 1500, 15000);
static Add<KS<MoveOnly, 5, 4>> b("MoveOnly seg5 base4 std", small, 1500, 15000);
static Failing<KT<MoveOnly, 3, 4>> f("failing MoveOnly seg3 base4", 500, 5000);
static Half<K<Homed, 3, 3, HomeAlloc<Homed>>> h("trivially built, seg3 base3", small, 400, 4000);
static Half<KT<HalfTrivial, 3, 3>> i("trivially assigned, seg3 base3", small, 400, 4000);
#elif PART == 3
static Add<KT<CopyOnly, 3, 3>> a("CopyOnly seg3 base3", small, 1500, 15000);
static Add<KS<CopyOnly, 1, 4>> b("CopyOnly seg1 base4 std", small, 1500, 15000);
static Failing<KT<CopyOnly, 2, 3>> f("failing CopyOnly seg2 base3", 500, 5000);
static Half<K<Homed, 4, 4, HomeAlloc<Homed>>> h("trivially built, seg4 base4", small, 400, 4000);
static Half<KS<HalfTrivial, 4, 4>> i("trivially assigned, seg4 base4 std", small, 400, 4000);
#elif PART == 4
static Add<KT<TrkP<200>, 6, 6>> a("Trk200 seg6 base6", middle(), 150, 1500);
static Add<Dflt<Trk>> b("Trk defaults", Size{6, 25, 8000, 20000}, 15, 150);
#elif PART == 5
static Add<K<Trk, 3, 3, HookAlloc<Trk>>> a("Trk seg3 base3 hooks", small, 1500, 15000);
static Add<KT<TrkThrow, 3, 3>> b("TrkThrow seg3 base3", small, 1500, 15000);
static Failing<K<Trk, 3, 3, HookAlloc<Trk>>> f("failing Trk seg3 base3 hooks", 500, 5000);
static Aware<KS<SelfAware, 4, 3>> g("SelfAware seg4 base3 std", small, 600, 6000);
#elif PART == 6
static Add<K<Trk, 2, 3, TrackAlloc<Trk, 0>>, true> a("Trk seg2 base3 unequal allocators", small, 1500, 15000);
static Add<K<MoveOnly, 3, 4, TrackAlloc<MoveOnly, 4>>, true> b("MoveOnly seg3 base4 unequal allocators", small, 1500, 15000);
static Failing<K<Trk, 2, 4, TrackAlloc<Trk, 0>>, true> f("failing Trk unequal allocators", 500, 5000);
static Aware<K<SelfAware, 2, 3, TrackAlloc<SelfAware, 0>>, true> g("SelfAware unequal allocators", small, 600, 6000);
#elif PART == 7
static Add<K<Trk, 3, 3, fancy::RelativeAlloc<Trk>>> a("Trk relative pointers", small, 1500, 15000);
static Add<K<Trk, 2, 3, TrackAlloc<Trk, 15>>, true> b("Trk seg2 base3 propagating unequal allocators", small, 1500, 15000);
static Failing<K<Trk, 3, 3, TrackAlloc<Trk, 15>>, true> f("failing Trk propagating unequal allocators", 500, 5000);
#endif
static Add<KS<Trk, 64 + 700 * PART, 4 + 9 * (PART % 4)>> wide_("wide Trk " PBT_STR(PART), wide(), 2, 20);
