// C08: memory.
#include "faulted.hpp"
using namespace d;
#if PART == 0
char const* const pbt::rule =
    "Histories over every operation on three containers whose allocators "
    "record each block with its count, type and arena (every release is "
    "checked against the record), with equal and unequal allocators, own "
    "construct/destroy hooks (every element must have been built through "
    "them), counting and self-relative pointers; histories with "
    "std::allocator whose calls of operator new must balance; and histories "
    "during which operator new must not be called at all. In the histories "
    "named 'failing' two thirds of the operations run with a random fault "
    "point (allocation, creation, copy, copy assignment, source, comparison) "
    "throwing; blocks and segments must balance all the same. Non-trivial: a "
    "container had height >= 3, or an index level was added and another "
    "removed; of the failing ones: two failures.";
#endif

template <class A>
struct IsHook : std::false_type {};
template <class T, unsigned P, class E>
struct IsHook<HookAlloc<T, P, E>> : std::true_type {};
template <class A>
struct IsStd : std::false_type {};
template <class T>
struct IsStd<std::allocator<T>> : std::true_type {};

template <class C, bool Distinct = false>
struct Add {
  static void hooks(World<C>& x) {
    if (!IsHook<typename C::A>::value) return;
    std::size_t want = 0;
    for (auto& sl : x.slot) {
      want += sl.m.size();
      for (auto const& e : *sl.s)
        REQUIRE(mem::built.count(std::addressof(e)),
                "an element was not constructed through the allocator");
    }
    // trivial elements need not be destroyed one by one
    if (!std::is_trivially_destructible<typename C::T>::value) {
      REQUIRE(mem::built.size() == want, mem::built.size(),
              "constructed and not destroyed through the allocator, of", want);
      REQUIRE(mem::construct_calls - mem::destroy_calls ==
                  static_cast<long long>(want),
              "");
    }
  }
  Add(char const* name, Size z, u64 quick, u64 thorough) {
    auto s = histories<C>(
        name, everything(), z, quick, thorough,
        [](World<C>& x, Op const&, Seen&) {
          hooks(x);
          bool empty = true;
          for (auto& sl : x.slot) empty = empty && sl.m.empty();
          if (empty)
            REQUIRE(mem::st.live.empty(), "empty containers hold memory");
        },
        [](World<C>& x, Seen& s) {
          x.check_all();
          x.slot[1].s->clear();
          x.slot[1].m.clear();
          hooks(x);
          for (auto& sl : x.slot) sl.s.reset();
          REQUIRE(mem::st.live.empty(), mem::st.live.size(),
                  "blocks were not given back");
          REQUIRE(mem::st.bytes == 0 && mem::st.allocs == mem::st.frees, "");
          REQUIRE(std::is_trivially_destructible<typename C::T>::value ||
                      (mem::built.empty() &&
                       mem::construct_calls == mem::destroy_calls),
                  "");
          if (!IsStd<typename C::A>::value && s.size)
            REQUIRE(mem::st.allocs > 0, "memory did not come from the allocator");
          if (s.top >= 3 || (s.grew && s.shrank)) pbt::nontrivial();
        },
        Distinct);
    auto run = s.run;
    s.run = [run](Case const& c) {
      auto before = pbt::news.live;
      run(c);
      REQUIRE(pbt::news.live == before, pbt::news.live - before,
              "blocks of operator new were not given back");
    };
    pbt::Register{s};
  }
};

// Nothing is obtained but through the allocator.
template <class T, std::size_t S, std::size_t B>
void no_other_memory(Case const& c) {
  using Seq = boost::segmented_tree::seq<T, TrackAlloc<T>, sizeof(T) * S,
                                         BMAX(B)>;
  using Tx = Traits<T>;
  mem::reset();
  tr_stats = TrStats{};
  {
    std::vector<T> src;
    for (u64 i = 0; i != 200; ++i) src.push_back(Tx::make(Tx::norm(i * 7 + 1)));
    Seq a, b;
    std::size_t top = 0;
    u64 sink = 0;
    std::size_t k = 0;
    for (auto const& o : c.ops) {
      ++k;
      std::size_t const n = a.size(), m = b.size();
      std::size_t const pos = o.p % (n + 1), cnt = o.n % 30;
      auto const calls = pbt::news.calls;
      T const& one = src[o.v % 200];
      std::size_t const from = o.v % 150;
      switch (o.code % 26) {
        case 0: a.insert(a.nth(pos), one); break;
        case 1: a.emplace(a.nth(pos), one); break;
        case 2: a.insert(a.nth(pos), cnt, one); break;
        case 3:
          a.insert(a.nth(pos), src.begin() + long(from),
                   src.begin() + long(from + cnt));
          break;
        case 4: a.push_back(one); break;
        case 5: a.push_front(one); break;
        case 6:
          if (n) a.erase(a.nth(pos % n));
          break;
        case 7:
          a.erase(a.nth(pos), a.nth(std::min(n, pos + cnt * 3)));
          break;
        case 8: a.resize(o.n % 300); break;
        case 9: a.resize(o.n % 300, one); break;
        case 10: a.assign(o.n % 200, one); break;
        case 11:
          a.assign(src.begin(), src.begin() + long(o.n % 200));
          break;
        case 12: a.clear(); break;
        case 13: a = b; break;
        case 14:
          a = std::move(b);
          b.clear();
          break;
        case 15: a.swap(b); break;
        case 16: {
          Seq t(a);
          sink += t == a;
          Seq u(std::move(t));
          u.swap(b);
          break;
        }
        case 17: {
          Seq t(o.n % 200, one);
          b = std::move(t);
          break;
        }
        case 18: {
          Seq t(src.begin(), src.begin() + long(o.n % 200));
          a.splice(a.nth(pos), t);
          break;
        }
        case 19:
          if (m) a.splice(a.nth(pos), b, b.nth(o.v % m));
          break;
        case 20:
          a.splice(a.nth(pos), b, b.nth(o.v % (m + 1)), b.end());
          break;
        case 21: a.reverse(); break;
        case 22: a.unique(); break;
        case 23:
          if (o.v & 1)
            a.remove(one);
          else
            a.remove_if([&](T const& t) { return Tx::id(t) % 3 == o.n % 3; });
          break;
        case 24:
          for (auto const& t : a) sink += Tx::id(t);
          for (auto it = a.rbegin(); it != a.rend(); ++it) sink += Tx::id(*it);
          sink += (a < b) + (a == b) + (a <= b) + (a > b);
          for (std::size_t i = 0; i < n; i += 3)
            sink += Tx::id(a[i]) + Tx::id(a.at(i));
          break;
        default:
          for (std::size_t i = 0; i != cnt * 3; ++i)
            a.insert(a.nth(pos / 2), one);
          break;
      }
      REQUIRE(pbt::news.calls == calls, "call", k, "of kind", o.code % 26,
              "obtained memory with operator new");
      if (a.size() > 2000) a.clear();
      top = std::max(top, std::size_t(a.height()));
      pbt::checkpoint();
    }
    label("calls watched for operator new", c.ops.size());
    if (top >= 3) pbt::nontrivial();
    if (sink == 42) label("");
  }
  REQUIRE(mem::st.live.empty(), "");
  pbt::checkpoint();
}
template <class T, std::size_t S, std::size_t B>
struct Own {
  Own(char const* name, u64 quick, u64 thorough) {
    pbt::Suite s;
    s.name = name;
    s.quick = quick;
    s.thorough = thorough;
    s.gen = [](Rng& r, u64, bool) {
      Case c;
      std::size_t n = 5 + r.below(60);
      for (std::size_t i = 0; i != n; ++i)
        c.ops.push_back(Op{u32(r.chance(1, 4) ? 25 : r.below(26)), 0, r.u() >> 8, r.u() >> 8, r.u() >> 8});
      return c;
    };
    s.run = no_other_memory<T, S, B>;
    pbt::Register{s};
  }
};

// Histories with failures: nothing is leaked by a failed operation.
template <class C, bool Distinct = false>
struct Failing {
  Failing(char const* name, u64 quick, u64 thorough) {
    auto s = faulted<C>(
        name, quick, thorough,
        [](World<C>& x) {
          Add<C>::hooks(x);
          // all segments are accounted for by what can be iterated
          std::size_t segs = 0;
          bool empty = true;
          for (auto& sl : x.slot) {
            empty = empty && sl.s->empty();
            for (auto it = sl.s->begin(); it != sl.s->end();
                 it.move_after_segment())
              ++segs;
          }
          if (!IsStd<typename C::A>::value) {
            REQUIRE(mem::st.live_segments() == segs, mem::st.live_segments(),
                    "blocks of elements are held, iteration finds", segs);
            if (empty)
              REQUIRE(mem::st.live.empty(), "empty containers hold memory");
          }
        },
        [](World<C>& x) {
          x.check_all();
          x.slot[1].s->clear();
          x.slot[1].m.clear();
          Add<C>::hooks(x);
          for (auto& sl : x.slot) sl.s.reset();
          REQUIRE(mem::st.live.empty(), mem::st.live.size(),
                  "blocks were not given back");
          REQUIRE(mem::st.bytes == 0 && mem::st.allocs == mem::st.frees, "");
        },
        Distinct);
    auto run = s.run;
    s.run = [run](Case const& c) {
      auto before = pbt::news.live;
      run(c);
      REQUIRE(pbt::news.live == before, pbt::news.live - before,
              "blocks of operator new were not given back");
    };
    pbt::Register{s};
  }
};

static Size const small{};
template <class T, std::size_t S, std::size_t B>
using KT = K<T, S, B, TrackAlloc<T>>;
template <class T, std::size_t S, std::size_t B>
using KH = K<T, S, B, HookAlloc<T>>;
#if PART == 0
static Add<KT<u32, 1, 3>> a("u32 seg1 base3", small, 1500, 15000);
static Add<KH<u32, 2, 3>> b("u32 seg2 base3 hooks", small, 1000, 10000);
static Own<u32, 2, 3> c("no other memory u32 seg2 base3", 1500, 15000);
static Failing<KT<u32, 1, 3>> f("failing u32 seg1 base3", 500, 5000);
#elif PART == 1
static Add<KH<Trk, 3, 4>> a("Trk seg3 base4 hooks", small, 1000, 10000);
static Add<KT<MoveOnly, 2, 3>> b("MoveOnly seg2 base3", small, 1000, 10000);
static Own<Trk, 3, 3> c("no other memory Trk seg3 base3", 1500, 15000);
static Failing<KH<Trk, 2, 3>> f("failing Trk seg2 base3 hooks", 500, 5000);
#elif PART == 2
static Add<K<std::string, 3, 3>> a("string seg3 base3 std", small, 1000, 10000);
static Add<KT<std::string, 2, 4>> b("string seg2 base4", small, 1000, 10000);
static Failing<KT<std::string, 3, 3>> f("failing string seg3 base3", 500, 5000);
static Failing<KT<u32, 2, 4>> g("failing u32 seg2 base4", 500, 5000);
#elif PART == 3
static Add<K<u32, 2, 3, TrackAlloc<u32, 0>>, true> a("u32 unequal, none propagates", small, 1500, 15000);
static Add<K<Trk, 1, 3, TrackAlloc<Trk, 8>>, true> b("Trk unequal, select", small, 1000, 10000);
static Failing<K<Trk, 1, 3, TrackAlloc<Trk, 0>>, true> f("failing Trk unequal", 500, 5000);
#elif PART == 4
static Add<K<u32, 2, 3, TrackAlloc<u32, 15>>, true> a("u32 unequal, all propagate", small, 1500, 15000);
static Add<K<CopyOnly, 2, 3, HookAlloc<CopyOnly, 1>>, true> b("CopyOnly unequal, copy propagates, hooks", small, 1000, 10000);
static Failing<K<u32, 1, 3, TrackAlloc<u32, 15>>, true> f("failing u32 unequal, all propagate", 500, 5000);
#elif PART == 5
static Add<K<Trk, 2, 4, TrackAlloc<Trk, 2>>, true> a("Trk unequal, move propagates", small, 1000, 10000);
static Add<K<std::string, 2, 3, HookAlloc<std::string, 4>>, true> b("string unequal, swap propagates, hooks", small, 800, 8000);
static Failing<K<Trk, 1, 5, TrackAlloc<Trk, 2>>, true> f("failing Trk unequal, move propagates", 500, 5000);
#elif PART == 6
static Add<K<u32, 3, 3, fancy::RelativeAlloc<u32>>, true> a("u32 relative pointers, unequal", small, 1000, 10000);
static Add<K<Trk, 2, 3, fancy::CountingAlloc<Trk>>> b("Trk counting pointers", small, 1000, 10000);
static Failing<K<u32, 1, 3, fancy::RelativeAlloc<u32>>, true> f("failing u32 relative pointers, unequal", 500, 5000);
#elif PART == 7
static Add<Dflt<u32, TrackAlloc<u32>>> a("u32 defaults", Size{6, 25, 20000, 30000}, 15, 150);
static Add<KT<Pod<17>, 7, 7>> b("Pod17 seg7 base7", middle(), 150, 1500);
static Add<Dflt<std::string>> c("string defaults std", Size{6, 25, 8000, 20000}, 15, 150);
static Failing<KT<MoveOnly, 2, 3>> f("failing MoveOnly seg2 base3", 500, 5000);
#endif
static Add<K<u32, 64 + 700 * PART, 4 + 9 * (PART % 4), TrackAlloc<u32>>> wide_("wide u32 " PBT_STR(PART), wide(), 10, 100);
