// C14: splice and merge.
#include "fill.hpp"
#include "probe.hpp"
using namespace d;
#if PART == 0
char const* const pbt::rule =
    "A case builds three containers by histories of edits and transfers "
    "elements among them: splice of all, one, or a range (lvalue and rvalue "
    "source) at any position, merge of sequences sorted by default and custom "
    "comparisons over eleven patterns of keys, with and without memory for a "
    "temporary buffer, with equal and unequal allocators; both contents are "
    "compared with a std::vector model, in every way of reading, and no "
    "element is copied or made up. Non-trivial: a transfer between sequences "
    "of which one had height >= 2.";
#endif

enum : u32 { FILL = OP_COUNT, MERGE_X };

template <class W>
struct Transfer {
  using Tx = typename W::Tx;
  using T = typename W::T;
  using Ids = std::vector<u64>;
  static bool fn_less(T const& a, T const& b) { return a < b; }

  static bool merge(W& x, Op const& o) {
    auto& a = x.slot[o.s % 3];
    auto& b = x.slot[(o.s / 3) % 3];
    if (&a == &b || a.m.size() + b.m.size() > x.max_size) return false;
    if (o.p & 64) fill(x, a, o.p >> 7, o.v);
    if (o.p & 64) fill(x, b, o.p >> 12, o.v + 1);
    bool const fails = (o.n >> 3) % 4 == 0;
    a.has_cursor = b.has_cursor = false;
    auto go = [&](auto cmp, auto mcmp, int form) {
      a.s->sort(cmp);
      b.s->sort(cmp);
      std::stable_sort(a.m.begin(), a.m.end(), mcmp);
      std::stable_sort(b.m.begin(), b.m.end(), mcmp);
      u64 const copies = tr_stats.copied(), made = tr_stats.creates;
      pbt::news.nothrow_fails = fails;
      if (form == 0)
        a.s->merge(*b.s);
      else if (form == 1)
        a.s->merge(std::move(*b.s));
      else if (form == 2)
        a.s->merge(*b.s, cmp);
      else
        a.s->merge(std::move(*b.s), cmp);
      pbt::news.nothrow_fails = false;
      REQUIRE(tr_stats.copied() == copies, "merge copied elements");
      REQUIRE(tr_stats.creates == made, "merge made up elements");
      Ids r;
      std::merge(a.m.begin(), a.m.end(), b.m.begin(), b.m.end(),
                 std::back_inserter(r), mcmp);
      a.m = r;
      b.m.clear();
    };
    u64 const v = o.v;
    switch (o.p % 8) {
      case 0:
      case 1:
      case 2:
      case 3:
        go([](T const& p, T const& q) { return p < q; },
           [](u64 p, u64 q) { return Tx::key(p) < Tx::key(q); },
           static_cast<int>(o.p % 4));
        break;
      case 4:
        go([](T const& p, T const& q) { return q < p; },
           [](u64 p, u64 q) { return Tx::key(q) < Tx::key(p); },
           2 + static_cast<int>(o.n & 1));
        break;
      case 5:
        go([](T const&, T const&) { return false; },
           [](u64, u64) { return false; }, 2 + static_cast<int>(o.n & 1));
        break;
      case 6: {
        u64 d = 2 + v % 5;
        go([d](T const& p, T const& q) {
             return Tx::id(p) / d % 7 < Tx::id(q) / d % 7;
           },
           [d](u64 p, u64 q) { return p / d % 7 < q / d % 7; },
           2 + static_cast<int>(o.n & 1));
        break;
      }
      default:
        go(&fn_less, [](u64 p, u64 q) { return Tx::key(p) < Tx::key(q); },
           2 + static_cast<int>(o.n & 1));
    }
    return true;
  }
};

template <class C, bool Distinct = false>
struct Add {
  Add(char const* name, Size z, u64 quick, u64 thorough) {
    Profile p = editing();
    p.set({RESIZE, RESIZE_V, ASSIGN_N, ASSIGN_RANGE, ASSIGN_INPUT, CLEAR}, 1);
    p.set({SPLICE_ALL, SPLICE_ALL_R, SPLICE_ONE, SPLICE_ONE_R, SPLICE_RANGE,
           SPLICE_RANGE_R},
          16);
    p.two_slots = 60;
    apply_size(p, z);
    pbt::Suite s;
    s.name = name;
    s.opnames = op_names();
    s.opnames.push_back("FILL");
    s.opnames.push_back("MERGE_X");
    s.quick = quick;
    s.thorough = thorough;
    if (z.wide) s.fixed = true, s.priority = 1;
    s.gen = [p](Rng& r, u64, bool) {
      Case c = gen_history(r, p);
      std::size_t merges = r.below(4);
      for (std::size_t i = 0; i != merges; ++i) {
        Op o;
        o.code = r.chance(1, 4) ? u32(FILL) : u32(MERGE_X);
        o.s = static_cast<u32>(r.below(9));
        o.p = r.u() & 0xffffff;
        o.n = static_cast<u32>(r.below(64));
        o.v = r.u() & 0xfffff;
        c.ops.insert(c.ops.begin() + static_cast<long>(c.ops.size() / 3 +
                     r.below(c.ops.size() - c.ops.size() / 3 + 1)), o);
      }
      return c;
    };
    auto max_size = z.max_size;
    auto is_wide = z.wide;
    s.run = [max_size, is_wide](Case const& c) {
      mem::reset();
      tr_stats = TrStats{};
      {
        World<C> wd(Distinct);
        wd.max_size = max_size;
        wd.wide = is_wide;
        Seen seen;
        Rng r(c.ops.size());
        for (auto const& o : c.ops) {
          auto h = std::max(wd.slot[o.s % 3].s->height(),
                            wd.slot[(o.s / 3) % 3].s->height());
          u64 const copies = tr_stats.copied(), made = tr_stats.creates;
          bool transfer = true;
          if (o.code == FILL) {
            fill(wd, wd.slot[o.s % 3], o.p, o.v);
            transfer = false;
          } else if (o.code == MERGE_X) {
            if (!Transfer<World<C>>::merge(wd, o)) continue;
            label("op MERGE_X");
          } else {
            if (!wd.apply(o)) continue;
            auto k = o.code % OP_COUNT;
            label(op_names_static()[k]);
            transfer = k >= SPLICE_ALL && k <= SPLICE_RANGE_R;
            if (transfer) {
              REQUIRE(tr_stats.copied() == copies, "splice copied elements");
              REQUIRE(tr_stats.creates == made, "splice made up elements");
            }
            for (int t : wd.touched)
              if (t >= 0) seen.look(*wd.slot[t].s, wd.height_before);
          }
          pbt::checkpoint();
          if (!transfer) continue;
          if (h >= 2) pbt::nontrivial();
          for (u32 t : {o.s % 3, (o.s / 3) % 3}) {
            wd.check_contents(static_cast<int>(t));
            check_everything<typename C::Seq, typename C::T>(
                *wd.slot[t].s, wd.slot[t].m, r);
          }
          pbt::checkpoint();
        }
        wd.check_all();
        seen.report();
      }
      pbt::checkpoint();
      REQUIRE(tr_stats.live == 0, tr_stats.live, "elements left over");
    };
    pbt::Register{s};
  }
};
template <class T, std::size_t S, std::size_t B>
using KT = K<T, S, B, TrackAlloc<T>>;
template <class T, std::size_t S, std::size_t B>
using K0 = K<T, S, B, TrackAlloc<T, 0>>;
#if PART == 0
static Add<KT<Trk, 1, 3>> a("Trk seg1 base3", Size{}, 1500, 15000);
static Add<KT<Trk, 2, 3>> b("Trk seg2 base3", Size{}, 1500, 15000);
#elif PART == 1
static Add<KT<Trk, 3, 4>> a("Trk seg3 base4", Size{}, 1500, 15000);
static Add<KT<Trk, 5, 5>> b("Trk seg5 base5", middle(), 150, 1500);
#elif PART == 2
static Add<K0<MoveOnly, 2, 3>, true> a("MoveOnly seg2 base3 unequal allocators", Size{}, 1500, 15000);
static Add<KT<MoveOnly, 6, 4>> b("MoveOnly seg6 base4", middle(), 150, 1500);
#elif PART == 3
static Add<K<u32, 2, 3>> a("u32 seg2 base3", Size{}, 1500, 15000);
static Add<Dflt<u32>> b("u32 defaults", big(), 20, 200);
#elif PART == 4
static Add<K<std::string, 3, 3>> a("string seg3 base3", Size{}, 800, 8000);
static Add<Dflt<std::string>> b("string defaults", Size{6, 25, 8000, 20000}, 20, 200);
#elif PART == 5
static Add<K0<Trk, 4, 4>, true> a("Trk seg4 base4 unequal allocators", Size{}, 1500, 15000);
static Add<K<Pod<17>, 7, 7>> b("Pod17 seg7 base7", middle(), 150, 1500);
#elif PART == 6
static Add<K<std::uint8_t, 5, 3>> a("u8 seg5 base3", Size{}, 1500, 15000);
static Add<Dflt<Trk>> b("Trk defaults", Size{6, 25, 8000, 20000}, 15, 150);
#elif PART == 7
static Add<K<Pod<8>, 3, 3, fancy::RelativeAlloc<Pod<8>>>, true> a("Pod8 relative pointers unequal allocators", Size{}, 800, 8000);
static Add<Cfg<u64, std::allocator<u64>, 0, 0>> b("u64 seg0 base0", Size{}, 800, 8000);
#endif
static Add<WideCfg> wide_(WIDE_NAME, wide(), 20, 200);
