// C09: failed single insertions, erasures and resizes.
#include "drive.hpp"
#include "probe.hpp"
using namespace d;
#if PART == 0
char const* const pbt::rule =
    "A case is a history of edits on three containers. Every single insert, "
    "emplace, push and resize of it is first run with the 1st, 2nd, 3rd ... "
    "fault point (allocation, creation or copy of an element) failing, until "
    "it succeeds; after each failure the container, its memory and the number "
    "of live elements are what they were. Single erasures, pops, clear, swap, "
    "moves must reach no fault point, or change nothing when it fails. What is "
    "documented as noexcept is so, and a vector of sequences relies on it. "
    "Non-trivial: the history met failing fault points at a height of 2 or "
    "more, and at least one of them was not the first of its call.";
#endif

template <class C>
bool last_segment_full(typename C::Seq& s) {
  if (s.empty()) return false;
  auto it = s.penultimate();
  return static_cast<std::size_t>(it.end() - it.begin()) >= C::seg_max;
}

enum Kind { NONE, STRONG, NOTHROW };
template <class C>
Kind kind_of(World<C>& x, Op const& o) {
  using A = typename C::A;
  using AT = std::allocator_traits<A>;
  auto& a = x.slot[o.s % 3];
  auto& b = x.slot[(o.s / 3) % 3];
  switch (o.code % OP_COUNT) {
    case INS_L: case INS_R: case EMPLACE: case PUSHB_L: case PUSHB_R:
    case EMPB: case PUSHF_L: case PUSHF_R: case EMPF: case RESIZE:
    case RESIZE_V: case ERASE: case POPB: case POPF:
      return STRONG;
    case CLEAR: case SWAP: case SWAP_FREE:
      return NOTHROW;
    case MOVE_ASSIGN:
      return AT::propagate_on_container_move_assignment::value ||
                     a.s->get_allocator() == b.s->get_allocator()
                 ? NOTHROW
                 : NONE;
    case MOVE_CTOR:
      return o.v & 1 ? (b.s->get_allocator() ==
                                x.alloc_for(static_cast<int>(o.s % 3))
                            ? NOTHROW
                            : NONE)
                     : NOTHROW;
    default: return NONE;
  }
}

struct Mark {
  long long live;
  std::size_t bytes, blocks, size, height;
};

template <class C>
pbt::Suite faulty(std::string name, Size z, u64 quick, u64 thorough,
                  unsigned mask, bool only_appends, bool distinct) {
  Profile p = editing();
  p.set({INS_L, INS_R, EMPLACE, PUSHB_L, PUSHB_R, EMPB, PUSHF_L, PUSHF_R,
         EMPF},
        9);
  p.set({RESIZE, RESIZE_V}, 5);
  p.set({ERASE, POPB, POPF}, 6);
  p.set({CLEAR, SWAP, SWAP_FREE, MOVE_ASSIGN, MOVE_CTOR}, 2);
  apply_size(p, z);
  pbt::Suite s;
  s.name = name;
  s.opnames = op_names();
  s.quick = quick;
  s.thorough = thorough;
  s.gen = [p](Rng& r, u64, bool) { return gen_history(r, p); };
  auto max_size = z.max_size;
  s.run = [=](Case const& c) {
    mem::reset();
    tr_stats = TrStats{};
    {
      World<C> x(distinct);
      x.max_size = max_size;
      Seen seen;
      Rng r(c.ops.size());
      u64 failures = 0, later = 0, high = 0;
      for (auto const& o : c.ops) {
        Kind k = kind_of(x, o);
        auto& sl = x.slot[o.s % 3];
        if (only_appends) {
          auto code = o.code % OP_COUNT;
          bool push = code == PUSHB_L || code == PUSHB_R || code == EMPB;
          if (k == STRONG && (!push || last_segment_full<C>(*sl.s))) k = NONE;
        }
        bool did = false;
        if (k == NONE) {
          did = x.apply(o);
        } else {
          auto& other = x.slot[(o.s / 3) % 3];
          auto mark = [&] {
            return Mark{tr_stats.live, mem::st.bytes, mem::st.live.size(),
                        sl.s->size(), sl.s->height()};
          };
          u64 f = 1;
          while (true) {
            if (k == STRONG) sl.has_cursor = false;
            Mark const was = mark();
            bool thrown = false;
            pbt::arm(mask, f);
            try {
              did = x.apply(o);
            } catch (pbt::Injected const& e) {
              thrown = true;
              REQUIRE(pbt::faults.fired && e.kind == pbt::faults.fired_kind,
                      "another exception than the one thrown");
            }
            pbt::disarm();
            pbt::checkpoint();
            REQUIRE(thrown || !pbt::faults.fired, "fault", f, "of",
                    op_names_static()[o.code % OP_COUNT], "was swallowed");
            if (!thrown) break;
            REQUIRE(k == STRONG, op_names_static()[o.code % OP_COUNT],
                    "is documented not to throw; threw at fault point", f);
            ++failures;
            if (f > 1) ++later;
            if (was.height >= 2) ++high;
            Mark const now = mark();
            char const* nm = op_names_static()[o.code % OP_COUNT];
            REQUIRE(now.size == was.size, nm, "failed at fault", f,
                    "and changed the size from", was.size, "to", now.size);
            x.check_contents(static_cast<int>(o.s % 3));
            if (other.s.get() != sl.s.get())
              REQUIRE(other.s->size() == other.m.size(), "");
            REQUIRE(now.live == was.live, nm, "failed at fault", f, "and left",
                    now.live - was.live, "elements");
            // undoing a resize may leave the elements in other segments
            bool shape = o.code % OP_COUNT != RESIZE &&
                         o.code % OP_COUNT != RESIZE_V;
            if (shape) {
            REQUIRE(now.blocks == was.blocks && now.bytes == was.bytes, nm,
                    "failed at fault", f, "and left",
                    static_cast<long long>(now.blocks) -
                        static_cast<long long>(was.blocks),
                    "blocks");
            REQUIRE(now.height == was.height, nm, "changed the height");
            }
            if (f <= 4 || r.below(8) == 0)
              check_everything<typename C::Seq, typename C::T>(*sl.s, sl.m, r);
            f += f < 40 ? 1 : 1 + r.below(f / 8);
          }
        }
        if (!did) continue;
        for (int t : x.touched)
          if (t >= 0) seen.look(*x.slot[t].s, x.height_before);
        x.check_touched();
        pbt::checkpoint();
      }
      x.check_all();
      seen.report();
      label("failed calls", failures);
      label("failed calls at height 2 or more", high);
      label("failures after the first fault point of a call", later);
      if (high && later) pbt::nontrivial();
      if (only_appends && failures) pbt::nontrivial();
    }
    REQUIRE(tr_stats.live == 0, tr_stats.live, "elements leaked");
    REQUIRE(mem::st.live.empty(), mem::st.live.size(), "blocks leaked");
    pbt::checkpoint();
  };
  return s;
}
template <class C>
struct Add {
  Add(char const* name, Size z, u64 quick, u64 thorough,
      unsigned mask = pbt::F_ALLOC | pbt::F_CREATE | pbt::F_COPY,
      bool only_appends = false, bool distinct = false) {
    pbt::Register{faulty<C>(name, z, quick, thorough, mask, only_appends,
                            distinct)};
  }
};

// What is documented as noexcept; and a std::vector of sequences, which relies
// on it when it grows.
template <class C>
void promises(Case const& c) {
  using Seq = typename C::Seq;
  using T = typename C::T;
  using A = typename C::A;
  using AT = std::allocator_traits<A>;
  using Tx = Traits<T>;
  using It = typename Seq::iterator;
  using CIt = typename Seq::const_iterator;
  bool const mc = std::is_nothrow_move_constructible<A>::value;
  bool const ma = AT::propagate_on_container_move_assignment::value &&
                  std::is_nothrow_move_assignable<A>::value;
  REQUIRE(!std::is_nothrow_default_constructible<A>::value ||
              std::is_nothrow_default_constructible<Seq>::value,
          "default construction");
  REQUIRE(!mc || std::is_nothrow_move_constructible<Seq>::value, "move construction");
  REQUIRE(ma == std::is_nothrow_move_assignable<Seq>::value, "move assignment");
  REQUIRE(std::is_nothrow_destructible<Seq>::value, "destruction");
  if (!AT::propagate_on_container_swap::value) {
    REQUIRE(noexcept(std::declval<Seq&>().swap(std::declval<Seq&>())), "swap");
    REQUIRE(noexcept(swap(std::declval<Seq&>(), std::declval<Seq&>())), "swap");
  }
#define PROMISE(x)                                     \
  REQUIRE(noexcept(std::declval<Seq&>().x), "" #x);    \
  REQUIRE(noexcept(std::declval<Seq const&>().x), "const " #x)
  PROMISE(begin());
  PROMISE(end());
  PROMISE(cbegin());
  PROMISE(cend());
  PROMISE(rbegin());
  PROMISE(rend());
  PROMISE(crbegin());
  PROMISE(crend());
  PROMISE(penultimate());
  PROMISE(cpenultimate());
  PROMISE(nth(0));
  PROMISE(size());
  PROMISE(empty());
  PROMISE(height());
  PROMISE(max_size());
  PROMISE(get_allocator());
  PROMISE(get_stored_allocator());
#undef PROMISE
  REQUIRE(noexcept(std::declval<Seq&>().index_of(std::declval<It>())), "index_of");
  REQUIRE(noexcept(std::declval<Seq const&>().index_of(std::declval<CIt>())),
          "const index_of");
  REQUIRE(noexcept(std::declval<Seq&>().clear()), "clear");
  mem::reset();
  tr_stats = TrStats{};
  {
    std::vector<Seq> v;
    std::vector<T const*> at;
    Rng r(c.cfg[0] + 9u);
    std::size_t const n = 1 + r.below(12);
    u64 made = 0;
    for (std::size_t k = 0; k != n; ++k) {
      v.emplace_back(make_alloc<A>(static_cast<int>(1 + k % 3)));
      std::size_t const len = r.chance(1, 5) ? 0 : r.below(r.chance(1, 2) ? 8 : 90);
      for (std::size_t i = 0; i != len; ++i)
        v.back().insert(v.back().nth(r.below(i + 1)), Tx::make(Tx::norm(++made << 4)));
      at.push_back(len ? std::addressof(v.back().front()) : nullptr);
      if (mc)
        for (std::size_t i = 0; i <= k; ++i)
          REQUIRE((v[i].empty() ? nullptr : std::addressof(v[i].front())) == at[i],
                  "a growing vector copied sequence", i, "of", k + 1);
      if (v.back().height() >= 2 && k) pbt::nontrivial();
    }
    label("vectors of sequences");
  }
  REQUIRE(mem::st.live.empty(), mem::st.live.size(), "blocks leaked");
  pbt::checkpoint();
}
template <class C>
struct Promise {
  Promise(char const* name) {
    pbt::Suite s;
    s.name = std::string("promises ") + name;
    s.quick = 60;
    s.thorough = 600;
    s.gen = [](Rng& r, u64, bool) {
      Case c;
      c.cfg[0] = r.u();
      return c;
    };
    s.run = promises<C>;
    pbt::Register{s};
  }
};
static Size const small{};
template <class T, std::size_t S, std::size_t B>
using KT = K<T, S, B, TrackAlloc<T>>;
#if PART == 0
static Add<KT<Trk, 1, 3>> a("Trk seg1 base3", small, 800, 8000);
static Add<KT<Trk, 2, 3>> b("Trk seg2 base3", small, 800, 8000);
static Promise<K<Trk, 2, 3>> p1("Trk, std::allocator");
static Promise<K<Trk, 2, 3, TrackAlloc<Trk, 0>>> p2("Trk, nothing propagates");
static Promise<K<MoveOnly, 2, 3, TrackAlloc<MoveOnly, 7>>> p3("MoveOnly, all propagate");
static Promise<K<u32, 2, 3, fancy::RelativeAlloc<u32>>> p4("u32, relative pointers");
#elif PART == 1
static Add<KT<Trk, 3, 4>> a("Trk seg3 base4", small, 800, 8000);
static Add<KT<u32, 1, 3>> b("u32 seg1 base3", small, 800, 8000);
#elif PART == 2
static Add<KT<MoveOnly, 2, 3>> a("MoveOnly seg2 base3", small, 800, 8000);
static Add<KT<std::string, 2, 3>> b("string seg2 base3", small, 600, 6000);
#elif PART == 3
static Add<KT<CopyOnly, 2, 3>> a("CopyOnly seg2 base3", small, 800, 8000,
                                 pbt::F_ALLOC | pbt::F_CREATE);
static Add<KT<u32, 5, 5>> b("u32 seg5 base5", Size{8, 40, 1500, 2500}, 100, 1000);
#elif PART == 4
// the construction of the new element in place fails
static Add<KT<TrkThrow, 3, 3>> a("TrkThrow seg3 base3 appends", small, 800, 8000,
                                 pbt::F_ALLOC | pbt::F_CREATE | pbt::F_COPY | pbt::F_MOVE, true);
static Add<Dflt<Trk, TrackAlloc<Trk>>> b("Trk defaults", Size{6, 25, 8000, 9000}, 15, 150);
#elif PART == 5
static Add<K<Trk, 2, 3, HookAlloc<Trk>>> a("Trk seg2 base3 hooks", small, 800, 8000);
static Add<KT<Pod<17>, 2, 4>> b("Pod17 seg2 base4", small, 800, 8000);
#elif PART == 6
static Add<K<Trk, 2, 3, fancy::RelativeAlloc<Trk>>> a("Trk relative pointers", small, 600, 6000);
static Add<K<Trk, 1, 4, TrackAlloc<Trk, 15>>> b("Trk seg1 base4 unequal allocators", small, 800, 8000,
                                                pbt::F_ALLOC | pbt::F_CREATE | pbt::F_COPY, false, true);
// for known findings: relocating existing elements fails
static Add<KT<TrkThrow, 3, 3>> c("TrkThrow seg3 base3 relocations", small, 0, 0,
                                 pbt::F_ALLOC | pbt::F_CREATE | pbt::F_COPY | pbt::F_MOVE);
#elif PART == 7
static Add<Cfg<u32, TrackAlloc<u32>, 0, 0>> a("u32 seg0 base0", small, 800, 8000);
static Add<KT<u32, 1, 47>> b("u32 seg1 base47", Size{6, 25, 9000, 9000}, 15, 150);
#endif
