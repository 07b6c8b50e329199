// C13: sort, reverse, unique, remove, remove_if.
#include <set>
#include "fill.hpp"
#include "probe.hpp"
using namespace d;
#if PART == 0
char const* const pbt::rule =
    "A case builds trees by a history of edits, writes keys into them in one "
    "of eleven patterns (random, sorted, reversed, equal, runs, organ pipe, "
    "nearly sorted, ...) and applies sort, reverse, unique, remove and "
    "remove_if with default and custom, stateful and asymmetric functions, "
    "with and without memory for a temporary buffer; the contents are compared "
    "with what the standard algorithms make of a std::vector, and no element "
    "is copied. Non-trivial: an algorithm ran on a tree of height >= 2 and "
    "moved or removed something.";
#endif

enum : u32 { FILL = OP_COUNT, SORT_X, UNIQUE_X, REMOVE_X, REMOVE_IF_X, REVERSE_X };

template <class W>
struct Alg {
  using Tx = typename W::Tx;
  using T = typename W::T;
  using Ids = std::vector<u64>;
  static bool fn_less(T const& a, T const& b) { return a < b; }

  static bool run(W& x, Op const& o) {
    auto& sl = x.slot[o.s % 3];
    auto& s = *sl.s;
    Ids m = sl.m;
    u64 const v = o.v;
    if (o.code == FILL) {
      fill(x, sl, o.p, v);
      return true;
    }
    sl.has_cursor = false;
    u64 const copies = tr_stats.copied();
    u64 const made = tr_stats.creates;
    pbt::news.nothrow_fails = (o.n >> 3) % 4 == 0;
    switch (o.code) {
      case SORT_X:
        switch (o.p % 7) {
          case 0:
            s.sort();
            std::stable_sort(m.begin(), m.end(), [](u64 a, u64 b) {
              return Tx::key(a) < Tx::key(b);
            });
            break;
          case 1:
            s.sort([](T const& a, T const& b) { return b < a; });
            std::stable_sort(m.begin(), m.end(), [](u64 a, u64 b) {
              return Tx::key(b) < Tx::key(a);
            });
            break;
          case 2: {  // everything equal: nothing moves
            s.sort([](T const&, T const&) { return false; });
            break;
          }
          case 3: {  // by another key, and counting
            u64 d = 2 + v % 5, calls = 0;
            s.sort([&](T const& a, T const& b) {
              ++calls;
              return Tx::id(a) / d % 7 < Tx::id(b) / d % 7;
            });
            std::stable_sort(m.begin(), m.end(), [d](u64 a, u64 b) {
              return a / d % 7 < b / d % 7;
            });
            break;
          }
          case 4:
            s.sort(&fn_less);
            std::stable_sort(m.begin(), m.end(), [](u64 a, u64 b) {
              return Tx::key(a) < Tx::key(b);
            });
            break;
          case 5:  // whole ids: the order is total
            s.sort([](T const& a, T const& b) { return Tx::id(a) < Tx::id(b); });
            std::stable_sort(m.begin(), m.end());
            break;
          default: {  // a partition: one class before the other
            u64 k = v % 16;
            s.sort([k](T const& a, T const& b) {
              return (Tx::key(Tx::id(a)) == k) > (Tx::key(Tx::id(b)) == k);
            });
            std::stable_sort(m.begin(), m.end(), [k](u64 a, u64 b) {
              return (Tx::key(a) == k) > (Tx::key(b) == k);
            });
            break;
          }
        }
        break;
      case REVERSE_X:
        s.reverse();
        std::reverse(m.begin(), m.end());
        break;
      case UNIQUE_X:
        if (o.p % 4 == 0) {
          s.unique();
          m.erase(std::unique(m.begin(), m.end(),
                              [](u64 a, u64 b) {
                                return Tx::key(a) == Tx::key(b);
                              }),
                  m.end());
        } else {
          u32 how = o.p % 4;
          u64 d = 1 + v % 3;
          auto pred = [how, d](u64 a, u64 b) -> bool {
            if (how == 1) return Tx::key(b) - Tx::key(a) <= d;  // asymmetric
            if (how == 2) return true;
            return Tx::key(a) / (d + 1) == Tx::key(b) / (d + 1);
          };
          s.unique([&](T const& a, T const& b) {
            return pred(Tx::id(a), Tx::id(b));
          });
          m.erase(std::unique(m.begin(), m.end(), pred), m.end());
        }
        break;
      case REMOVE_X: {
        u64 id = m.empty() || o.p % 3 == 0 ? x.fresh(static_cast<u32>(v))
                                           : m[(v >> 4) % m.size()];
        u64 k = Tx::key(Tx::norm(id));
        {
          T const t = Tx::make(id);
          s.remove(t);
        }
        m.erase(std::remove_if(m.begin(), m.end(),
                               [k](u64 a) { return Tx::key(a) == k; }),
                m.end());
        break;
      }
      default: {
        u32 how = o.p % 6;
        u64 k = v % 16;
        std::set<u64> seen, seen_m;
        std::size_t const n = m.size();
        u64 const lo = n ? m[(v >> 4) % n] : 0, hi = n ? m[(v >> 9) % n] : 0;
        auto pred = [&](u64 a, std::set<u64>& st) -> bool {
          switch (how) {
            case 0: return Tx::key(a) == k;
            case 1: return Tx::key(a) != k;
            case 2: return !st.insert(Tx::key(a)).second;  // seen before
            case 3: return lo <= a && a <= hi;
            case 4: return v & 1;
            default: return a / 3 % 4 == k % 4;
          }
        };
        s.remove_if([&](T const& a) { return pred(Tx::id(a), seen); });
        m.erase(std::remove_if(m.begin(), m.end(),
                               [&](u64 a) { return pred(a, seen_m); }),
                m.end());
      }
    }
    pbt::news.nothrow_fails = false;
    // remove(value) makes one for the call above
    u64 const own = o.code == REMOVE_X ? 1 : 0;
    REQUIRE(tr_stats.copied() == copies, "elements were copied");
    REQUIRE(tr_stats.creates <= made + own, "elements were made up");
    if (m != sl.m && s.height() >= 2) pbt::nontrivial();
    if (m.size() < sl.m.size()) label("elements removed");
    if (m.empty() && !sl.m.empty()) label("all removed");
    sl.m = m;
    return true;
  }
};

template <class C>
struct Add {
  Add(char const* name, Size z, u64 quick, u64 thorough) {
    Profile p = editing();
    p.set({RESIZE, RESIZE_V, ASSIGN_N, ASSIGN_RANGE, ASSIGN_INPUT, CLEAR}, 1);
    apply_size(p, z);
    pbt::Suite s;
    s.name = name;
    s.opnames = op_names();
    for (auto n : {"FILL", "SORT_X", "UNIQUE_X", "REMOVE_X", "REMOVE_IF_X",
                   "REVERSE_X"})
      s.opnames.push_back(n);
    s.quick = quick;
    s.thorough = thorough;
    if (z.wide) s.fixed = true, s.priority = 1;
    s.gen = [p](Rng& r, u64, bool) {
      Profile q = p;
      q.ops_lo = 4;
      q.ops_hi = 14;
      Case c;
      std::size_t rounds = 1 + r.below(5);
      for (std::size_t k = 0; k != rounds; ++k) {
        Case h = gen_history(r, q);
        for (auto& o : h.ops) c.ops.push_back(o);
        std::size_t algs = 1 + r.below(4);
        for (std::size_t i = 0; i != algs; ++i) {
          if (r.chance(3, 4))
            c.ops.push_back(Op{FILL, u32(r.below(4) ? 0 : r.below(3)), u32(r.below(patterns)), 0, r.u() & 0xfffff});
          u32 code = SORT_X + static_cast<u32>(r.pick({5, 4, 3, 4, 3}));
          c.ops.push_back(Op{code, u32(r.below(4) ? 0 : r.below(3)), u32(r.below(420)), u32(r.below(64)), r.u() & 0xfffff});
        }
      }
      return c;
    };
    auto max_size = z.max_size;
    auto is_wide = z.wide;
    s.run = [max_size, is_wide](Case const& c) {
      mem::reset();
      tr_stats = TrStats{};
      World<C> wd;
      wd.max_size = max_size;
      wd.wide = is_wide;
      Seen seen;
      Rng r(c.ops.size());
      for (auto const& o : c.ops) {
        if (o.code < OP_COUNT) {
          if (!wd.apply(o)) continue;
          for (int t : wd.touched)
            if (t >= 0) seen.look(*wd.slot[t].s, wd.height_before);
          continue;
        }
        Alg<World<C>>::run(wd, o);
        static char const* const n[] = {"op FILL", "op SORT_X", "op UNIQUE_X",
                                        "op REMOVE_X", "op REMOVE_IF_X",
                                        "op REVERSE_X"};
        label(n[(o.code - OP_COUNT) % 6]);
        pbt::checkpoint();
        auto i = static_cast<int>(o.s % 3);
        wd.check_contents(i);
        check_everything<typename C::Seq, typename C::T>(*wd.slot[i].s,
                                                         wd.slot[i].m, r);
        pbt::checkpoint();
      }
      wd.check_all();
      seen.report();
    };
    pbt::Register{s};
  }
};
template <class T, std::size_t S, std::size_t B>
using KT = K<T, S, B, TrackAlloc<T>>;
#if PART == 0
static Add<KT<Trk, 1, 3>> a("Trk seg1 base3", Size{}, 1500, 15000);
static Add<KT<Trk, 2, 3>> b("Trk seg2 base3", Size{}, 1500, 15000);
#elif PART == 1
static Add<KT<Trk, 3, 4>> a("Trk seg3 base4", Size{}, 1500, 15000);
static Add<KT<Trk, 5, 5>> b("Trk seg5 base5", middle(), 150, 1500);
#elif PART == 2
static Add<KT<MoveOnly, 2, 3>> a("MoveOnly seg2 base3", Size{}, 1500, 15000);
static Add<KT<MoveOnly, 6, 4>> b("MoveOnly seg6 base4", middle(), 150, 1500);
#elif PART == 3
static Add<K<u32, 2, 3>> a("u32 seg2 base3", Size{}, 1500, 15000);
static Add<Dflt<u32>> b("u32 defaults", big(), 20, 200);
#elif PART == 4
static Add<K<std::string, 3, 3>> a("string seg3 base3", Size{}, 800, 8000);
static Add<Dflt<std::string>> b("string defaults", Size{6, 25, 8000, 20000}, 20, 200);
#elif PART == 5
static Add<K<Pod<0>, 4, 4>> a("Pod0 seg4 base4", Size{}, 1500, 15000);
static Add<K<Pod<17>, 7, 7>> b("Pod17 seg7 base7", middle(), 150, 1500);
#elif PART == 6
static Add<K<std::uint8_t, 5, 3>> a("u8 seg5 base3", Size{}, 1500, 15000);
static Add<Dflt<Trk>> b("Trk defaults", Size{6, 25, 8000, 20000}, 15, 150);
#elif PART == 7
static Add<K<Pod<8>, 3, 3, fancy::RelativeAlloc<Pod<8>>>> a("Pod8 relative pointers", Size{}, 800, 8000);
static Add<Cfg<u64, std::allocator<u64>, 0, 0>> b("u64 seg0 base0", Size{}, 800, 8000);

#endif
static Add<WideCfg> wide_(WIDE_NAME, wide(), 20, 200);
