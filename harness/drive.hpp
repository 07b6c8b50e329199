// Registering suites of histories for lists of configurations.
#pragma once
#include <string>
#include "fancy.hpp"
#include "world.hpp"

// base_target for index nodes of at most k entries with ordinary pointers.
#define BMAX(k) (16 + 16 * (k))
// segment_target for segments of at most k elements of type T.
#define SMAX(T, k) (sizeof(T) * (k))

namespace d {
using namespace w;

template <class T, std::size_t S, std::size_t B,
          class A = std::allocator<T>>
using K = Cfg<T, A, sizeof(T) * S, BMAX(B)>;
// the defaults
template <class T, class A = std::allocator<T>>
using Dflt = Cfg<T, A, 1024, 768>;

struct Size {
  std::size_t ops_lo, ops_hi, size_hi, max_size;
  bool wide = false;
  Size(std::size_t a = 10, std::size_t b = 70, std::size_t c = 300,
       std::size_t d = 500)
      : ops_lo(a), ops_hi(b), size_hi(c), max_size(d) {}
};
inline Size big() { return Size{6, 25, 20000, 60000}; }
inline Size middle() { return Size{8, 50, 2500, 6000}; }

// Few operations on sequences of up to 250000 elements.
inline Size wide() {
  Size z{3, 10, 2000, 250000};
  z.wide = true;
  return z;
}

inline void apply_size(Profile& p, Size const& z) {
  p.ops_lo = z.ops_lo;
  p.ops_hi = z.ops_hi;
  p.size_hi = z.size_hi;
  p.wide = z.wide;
}

// Editing, and everything else a sequence can do.
inline Profile everything() {
  Profile p = editing();
  p.set({COPY_ASSIGN, MOVE_ASSIGN, SWAP, SWAP_FREE, COPY_CTOR, MOVE_CTOR}, 2);
  p.set({CTOR_N, CTOR_NV, CTOR_RANGE, CTOR_INPUT, CTOR_IL}, 1);
  p.set({SPLICE_ALL, SPLICE_ALL_R, SPLICE_ONE, SPLICE_ONE_R, SPLICE_RANGE,
         SPLICE_RANGE_R},
        2);
  p.set({MERGE, MERGE_R, MERGE_C, SORT, SORT_C, REVERSE, UNIQUE, UNIQUE_P,
         REMOVE, REMOVE_IF},
        1);
  return p;
}

// What the history reached, for the evidence.
struct Seen {
  std::size_t top = 0, size = 0;
  bool grew = false, shrank = false;
  template <class S>
  void look(S const& s, std::size_t before) {
    auto h = s.height();
    if (h > top) top = h;
    if (s.size() > size) size = s.size();
    if (h > before && before >= 2) grew = true;
    if (h < before && before >= 3) shrank = true;
  }
  void report() const {
    static char const* const hn[] = {
        "max height 0", "max height 1", "max height 2", "max height 3",
        "max height 4", "max height 5", "max height 6", "max height 7",
        "max height 8 or more"};
    label(hn[top < 8 ? top : 8]);
    if (grew) label("an index level was added to an index");
    if (shrank) label("an index level was removed from an index");
    if (size > 10000) label("more than 10000 elements");
    if (size > 65536) label("more than 65536 elements");
  }
};

// A suite of histories: `each` is called after every operation that was
// applied, `last` once at the end; both get the world.
template <class C, class Each, class Last>
pbt::Suite histories(std::string name, Profile p, Size z, u64 quick,
                     u64 thorough, Each each, Last last,
                     bool distinct_allocs = false) {
  apply_size(p, z);
  pbt::Suite s;
  s.name = name;
  s.opnames = op_names();
  s.quick = quick;
  s.thorough = thorough;
  if (z.wide) s.fixed = true, s.priority = 1;
  s.gen = [p](Rng& r, u64, bool) { return gen_history(r, p); };
  auto max_size = z.max_size;
  auto is_wide = z.wide;
  s.run = [each, last, max_size, is_wide, distinct_allocs](Case const& c) {
    mem::reset();
    tr_stats = TrStats{};
    auto live_news = pbt::news.live;
    {
      World<C> wd(distinct_allocs);
      wd.max_size = max_size;
      wd.wide = is_wide;
      Seen seen;
      for (auto const& o : c.ops) {
        if (!wd.apply(o)) continue;
        label(op_names_static()[o.code % OP_COUNT]);
        for (int t : wd.touched)
          if (t >= 0) seen.look(*wd.slot[t].s, wd.height_before);
        each(wd, o, seen);
        pbt::checkpoint();
      }
      last(wd, seen);
      seen.report();
    }
    pbt::checkpoint();
    (void)live_news;
  };
  return s;
}

// For sequences beyond 65536 elements: long segments, many entries, few of
// both.
#if PART == 0
using WideCfg = K<u32, 512, 32>;
#define WIDE_NAME "wide u32 seg512 base32"
#elif PART == 1
using WideCfg = K<std::uint8_t, 1024, 40>;
#define WIDE_NAME "wide u8 seg1024 base40"
#elif PART == 2
using WideCfg = K<u32, 2, 300>;
#define WIDE_NAME "wide u32 seg2 base300"
#elif PART == 3
using WideCfg = K<u64, 16, 16>;
#define WIDE_NAME "wide u64 seg16 base16"
#elif PART == 4
using WideCfg = K<u32, 70000, 4>;
#define WIDE_NAME "wide u32 seg70000 base4"
#elif PART == 5
using WideCfg = K<Pod<17>, 64, 64>;
#define WIDE_NAME "wide Pod17 seg64 base64"
#elif PART == 6
using WideCfg = K<u32, 5000, 9>;
#define WIDE_NAME "wide u32 seg5000 base9"
#else
using WideCfg = Dflt<u32>;
#define WIDE_NAME "wide u32 defaults"
#endif
}  // namespace d
