// C06: balance: height and memory follow the size.
#include "drive.hpp"
#include "probe.hpp"
using namespace d;
#if PART == 0
char const* const pbt::rule =
    "A case is a history of edits, assignments, moves, swaps and splices on "
    "three containers; after every call the lengths of all segments, the "
    "height and the blocks the allocator has out are compared with what half "
    "full to full segments and index nodes allow. Non-trivial: a container had "
    "height >= 3, or an index level was added and another removed.";
#endif

// What the documented targets ask for with raw pointers.
template <class C>
struct Limits {
  static std::size_t seg_max() { return C::seg_max; }
  static std::size_t seg_min() { return (seg_max() + 1) / 2; }
  static std::size_t base_max() {
    std::size_t k = C::base >= 16 ? (C::base - 16) / 16 : 0;
    return k < 3 ? 3 : k > 65535 ? 65535 : k;
  }
  static std::size_t base_min() { return (base_max() + 1) / 2; }
};

struct Blocks {
  u64 segs = 0, nodes_lo = 0, nodes_hi = 0;
};

template <class C>
Blocks measure(typename C::Seq& s, std::vector<u64> const& m) {
  using L = Limits<C>;
  Blocks b;
  auto len = segment_lengths<typename C::Seq, typename C::T>(s, m);
  std::size_t const h = s.height(), k = len.size();
  b.segs = k;
  REQUIRE((h == 0) == m.empty(), "height", h, "at size", m.size());
  if (k == 0) return b;
  if (k == 1) {
    REQUIRE(h == 1, "height", h, "with one segment");
    REQUIRE(len[0] <= L::seg_max(), "segment of", len[0]);
    return b;
  }
  REQUIRE(h >= 2, "height", h, "with", k, "segments");
  for (std::size_t i = 0; i != k; ++i)
    REQUIRE(len[i] >= L::seg_min() && len[i] <= L::seg_max(), "segment", i,
            "of", k, "holds", len[i], "outside", L::seg_min(), "to",
            L::seg_max());
  // h - 1 levels of nodes above k segments
  u64 lo = k, hi = k;
  for (std::size_t level = 1; level != h; ++level) {
    bool root = level + 1 == h;
    if (root) {
      REQUIRE(lo <= L::base_max() && hi >= 2, "height", h, "with", k,
              "segments");
      lo = hi = 1;
    } else {
      lo = (lo + L::base_max() - 1) / L::base_max();
      hi = hi / L::base_min();
      REQUIRE(hi >= 2, "height", h, "is too much for", k, "segments");
      if (lo < 2) lo = 2;
    }
    b.nodes_lo += lo;
    b.nodes_hi += hi;
  }
  return b;
}

template <class C>
void check(World<C>& x, bool exact) {
  using L = Limits<C>;
  u64 segs = 0, lo = 0, hi = 0;
  for (auto& sl : x.slot) {
    REQUIRE(sl.s->size() == sl.m.size(), "size");
    Blocks b = measure<C>(*sl.s, sl.m);
    segs += b.segs;
    lo += b.nodes_lo;
    hi += b.nodes_hi;
  }
  if (!exact) return;
  REQUIRE(mem::st.live_segments() == segs, mem::st.live_segments(),
          "blocks of elements are held for", segs, "segments");
  REQUIRE(mem::st.live_nodes() >= lo && mem::st.live_nodes() <= hi,
          mem::st.live_nodes(), "index blocks are held, not", lo, "to", hi);
  std::size_t const most =
      segs * L::seg_max() * sizeof(typename C::T) +
      hi * (16 * L::base_max() + 16 + 16);
  REQUIRE(mem::st.bytes <= most, mem::st.bytes, "bytes are held, more than",
          most);
}

template <class C>
struct Add {
  Add(char const* name, Size z, u64 quick, u64 thorough) {
    Profile p = editing();
    p.set({COPY_ASSIGN, MOVE_ASSIGN, SWAP, COPY_CTOR, MOVE_CTOR, CTOR_N,
           CTOR_RANGE, SPLICE_ALL, SPLICE_ONE, SPLICE_RANGE, MERGE, UNIQUE,
           REMOVE, REMOVE_IF},
          1);
    p.set({BULK_INS}, 10);
    p.set({BULK_ERASE}, 12);
    bool const exact =
        !std::is_same<typename C::A, std::allocator<typename C::T>>::value;
    pbt::Register(histories<C>(
        name, p, z, quick, thorough,
        [exact](World<C>& x, Op const&, Seen&) { check(x, exact); },
        [exact](World<C>& x, Seen& s) {
          // shrinking gives back; an empty one holds nothing
          for (auto& sl : x.slot) {
            std::size_t step = sl.m.size() / 7 + 1;
            Rng r(sl.m.size() + x.counter);
            while (!sl.m.empty()) {
              std::size_t k = std::min<std::size_t>(step, sl.m.size());
              std::size_t at = r.below(sl.m.size() - k + 1);
              sl.s->erase(sl.s->nth(at), sl.s->nth(at + k));
              sl.m.erase(sl.m.begin() + static_cast<long>(at),
                         sl.m.begin() + static_cast<long>(at + k));
              check(x, exact);
            }
          }
          if (exact)
            REQUIRE(mem::st.live.empty(), mem::st.live.size(),
                    "blocks are held by empty containers");
          if (s.top >= 3 || (s.grew && s.shrank)) pbt::nontrivial();
        }));
  }
};
static Size const small{};
template <class T, std::size_t S, std::size_t B>
using KT = K<T, S, B, TrackAlloc<T>>;
#if PART == 0
static Add<KT<u32, 1, 3>> a("u32 seg1 base3", small, 1500, 15000);
static Add<KT<u32, 2, 3>> b("u32 seg2 base3", small, 1500, 15000);
#elif PART == 1
static Add<KT<u64, 3, 4>> a("u64 seg3 base4", small, 1500, 15000);
static Add<Cfg<u32, TrackAlloc<u32>, 0, 0>> b("u32 seg0 base0", small, 1500, 15000);
#elif PART == 2
static Add<KT<u32, 4, 5>> a("u32 seg4 base5", middle(), 150, 1500);
static Add<Dflt<u32, TrackAlloc<u32>>> b("u32 defaults", big(), 15, 150);
#elif PART == 3
static Add<KT<std::uint8_t, 5, 6>> a("u8 seg5 base6", middle(), 150, 1500);
static Add<KT<std::string, 3, 3>> b("string seg3 base3", small, 1000, 10000);
#elif PART == 4
static Add<KT<Trk, 4, 4>> a("Trk seg4 base4", small, 1000, 10000);
static Add<KT<MoveOnly, 2, 3>> b("MoveOnly seg2 base3", small, 1000, 10000);
#elif PART == 5
static Add<KT<u32, 1, 5>> a("u32 seg1 base5", small, 1500, 15000);
static Add<KT<Pod<17>, 7, 7>> b("Pod17 seg7 base7", middle(), 150, 1500);
#elif PART == 6
static Add<Dflt<std::string, TrackAlloc<std::string>>> a("string defaults", Size{6, 25, 8000, 20000}, 15, 150);
static Add<KT<u64, 16, 3>> b("u64 seg16 base3", middle(), 200, 2000);
#elif PART == 7
static Add<K<u32, 2, 4, HookAlloc<u32>>> a("u32 seg2 base4", small, 1000, 10000);
static Add<KT<u32, 1, 47>> b("u32 seg1 base47", Size{6, 25, 20000, 30000}, 15, 150);
#endif
static Add<K<WideCfg::T, WideCfg::seg / sizeof(WideCfg::T), (WideCfg::base - 16) / 16, TrackAlloc<WideCfg::T>>> wide_(WIDE_NAME, wide(), 20, 200);
