// C11: copies are independent, moves and swaps hand over.
#include <set>
#include "drive.hpp"
#include "probe.hpp"
using namespace d;
#if PART == 0
char const* const pbt::rule =
    "A case is a history of edits, copies, moves and swaps (constructors, "
    "assignments, members and free functions, self-assignment) among three "
    "containers; after every call all three are compared with their models, "
    "so that sharing shows; copies are changed and compared again; after moves "
    "and swaps the addresses of the elements and the count of element "
    "operations are compared, and the source of a move is empty and usable. "
    "Non-trivial: a copy, move or swap of a container of height >= 2.";
#endif

template <class C>
struct Values {
  using T = typename C::T;
  using Tx = Traits<T>;
  using Seq = typename C::Seq;
  using W = World<C>;
  using Ids = std::vector<u64>;
  using Addrs = std::vector<void const*>;
  static Addrs addrs(Seq const& s) {
    Addrs r;
    for (auto const& e : s) r.push_back(std::addressof(e));
    return r;
  }
  static void same(Seq const& s, Ids const& m, char const* what) {
    REQUIRE(s.size() == m.size(), what, "size", s.size(), "want", m.size());
    std::size_t k = 0;
    for (auto const& e : s) {
      REQUIRE(k < m.size() && Tx::id(e) == m[k], what, "element", k, "of",
              m.size());
      ++k;
    }
    REQUIRE(k == m.size(), what);
  }
  static void is_empty(Seq& s) {
    Seq const& c = s;
    REQUIRE(s.empty() && s.size() == 0 && s.height() == 0,
            "the source of a move is not empty");
    REQUIRE(s.begin() == s.end() && c.begin() == c.end(), "");
    REQUIRE(s.nth(0) == s.end(), "");
  }
  // a few changes to s, told to m
  static void scribble(W& x, Seq& s, Ids& m, Rng& r) {
    int n = 1 + int(r.below(4));
    for (int i = 0; i != n; ++i) {
      std::size_t pos = r.below(m.size() + 1);
      u64 id = x.fresh(r.u());
      switch (r.below(5)) {
        case 0:
          s.insert(s.nth(pos), Tx::make(id));
          m.insert(m.begin() + long(pos), id);
          break;
        case 1:
          if (pos < m.size()) {
            s.erase(s.nth(pos));
            m.erase(m.begin() + long(pos));
          }
          break;
        case 2:
          if (pos < m.size()) {
            s[pos] = Tx::make(id);
            m[pos] = id;
          }
          break;
        case 3:
          if (r.below(4) == 0) {
            s.clear();
            m.clear();
          } else if (!m.empty()) {
            s.pop_front();
            m.erase(m.begin());
          }
          break;
        default:
          s.push_back(Tx::make(id));
          m.push_back(id);
          break;
      }
    }
  }
  static void disjoint(Addrs const& a, Addrs const& b) {
    std::set<void const*> s(a.begin(), a.end());
    for (auto p : b)
      REQUIRE(!s.count(p), "a copy shares an element with its source");
  }

  static bool special(W& x, Op const& o, Rng& r) {
    auto& a = x.slot[o.s % 3];
    auto& b = x.slot[(o.s / 3) % 3];
    bool const self = &a == &b;
    auto const code = o.code % OP_COUNT;
    auto big = [&] { return a.s->height() >= 2 || b.s->height() >= 2; };
    bool const was_big = big();
    Addrs const pa = addrs(*a.s), pb = addrs(*b.s);
    auto const alloc_a = a.s->get_allocator();
    auto const alloc_b = b.s->get_allocator();
    switch (code) {
      case COPY_CTOR:
        if constexpr (Tx::copyable) {
          std::unique_ptr<Seq> c;
          Seq const& src = *b.s;
          int const how = int(o.v % 3);
          if (how == 0)
            c.reset(new Seq(src));
          else if (how == 1)
            c.reset(new Seq(src, alloc_a));
          else {
            Seq t = src;
            c.reset(new Seq(std::move(t)));
          }
          same(*c, b.m, "copy");
          same(src, b.m, "source of a copy");
          REQUIRE(addrs(src) == pb, "copying moved elements of the source");
          disjoint(addrs(*c), pb);
          REQUIRE(*c == src && !(*c != src), "a copy is not equal");
          Ids m = b.m;
          scribble(x, *c, m, r);
          same(src, b.m, "source after its copy changed");
          scribble(x, *b.s, b.m, r);
          same(*c, m, "copy after its source changed");
          b.has_cursor = false;
          a.s = std::move(c);
          a.m = m;
          a.has_cursor = false;
          break;
        } else
          return false;
      case COPY_ASSIGN:
        if constexpr (Tx::copyable) {
          Seq& t = *a.s;
          Seq const& src = *b.s;
          Seq& ret = (t = src);
          REQUIRE(std::addressof(ret) == std::addressof(t), "");
          a.m = Ids(b.m);
          same(*a.s, a.m, self ? "self-assigned" : "copy-assigned");
          same(*b.s, b.m, "source of an assignment");
          REQUIRE(addrs(*b.s) == pb, "assigning moved elements of the source");
          if (!self) {
            disjoint(addrs(*a.s), pb);
            scribble(x, *a.s, a.m, r);
            same(*b.s, b.m, "source after its copy changed");
            scribble(x, *b.s, b.m, r);
            same(*a.s, a.m, "copy after its source changed");
          }
          a.has_cursor = b.has_cursor = false;
          break;
        } else
          return false;
      case MOVE_CTOR: {
        if (self) return false;
        Ids const m = b.m;
        tr_stats.reset_counts();
        auto const allocs = mem::st.allocs;
        alignas(Seq) unsigned char raw[sizeof(Seq)];
        Seq* c;
        if (o.v % 2)
          c = ::new (static_cast<void*>(raw)) Seq(std::move(*b.s), alloc_b);
        else
          c = ::new (static_cast<void*>(raw)) Seq(std::move(*b.s));
        REQUIRE(tr_stats.constructed == 0 && tr_stats.destroyed == 0 &&
                    tr_stats.move_assigns == 0 && tr_stats.copy_assigns == 0,
                "move construction touched elements");
        REQUIRE(mem::st.allocs == allocs, "move construction allocated");
        REQUIRE(addrs(*c) == pb, "move construction replaced elements");
        REQUIRE(c->get_allocator() == alloc_b, "");
        is_empty(*b.s);
        b.m.clear();
        same(*c, m, "move-constructed");
        // the source can be used again
        scribble(x, *b.s, b.m, r);
        same(*b.s, b.m, "moved-from and used again");
        same(*c, m, "move-constructed, after its source was used again");
        a.s.reset(new Seq(std::move(*c)));
        c->~Seq();
        a.m = m;
        REQUIRE(addrs(*a.s) == pb, "");
        a.has_cursor = b.has_cursor = false;
        break;
      }
      case MOVE_ASSIGN: {
        if (self) {
          // valid, unspecified
          Seq& t = *a.s;
          t = std::move(*b.s);
          a.m.clear();
          for (auto const& e : t) a.m.push_back(Tx::id(e));
          t.clear();
          a.m.clear();
          a.has_cursor = false;
          break;
        }
        if (!std::allocator_traits<
                typename C::A>::propagate_on_container_move_assignment::value &&
            !(alloc_a == alloc_b))
          return false;
        Ids const m = b.m;
        std::size_t const old = a.m.size();
        tr_stats.reset_counts();
        auto const allocs = mem::st.allocs;
        Seq& ret = (*a.s = std::move(*b.s));
        REQUIRE(std::addressof(ret) == a.s.get(), "");
        REQUIRE(tr_stats.constructed == 0 && tr_stats.move_assigns == 0 &&
                    tr_stats.copy_assigns == 0 &&
                    (tr_stats.destroyed == 0 || tr_stats.destroyed == old),
                "move assignment touched elements");
        REQUIRE(mem::st.allocs == allocs, "move assignment allocated");
        REQUIRE(addrs(*a.s) == pb, "move assignment replaced elements");
        REQUIRE(a.s->get_allocator() == alloc_b, "");
        is_empty(*b.s);
        b.m.clear();
        a.m = m;
        same(*a.s, m, "move-assigned");
        scribble(x, *b.s, b.m, r);
        same(*a.s, m, "move-assigned, after its source was used again");
        a.has_cursor = b.has_cursor = false;
        break;
      }
      case SWAP:
      case SWAP_FREE: {
        if (!std::allocator_traits<
                typename C::A>::propagate_on_container_swap::value &&
            !(alloc_a == alloc_b))
          return false;
        tr_stats.reset_counts();
        auto const allocs = mem::st.allocs, frees = mem::st.frees;
        using std::swap;
        if (code == SWAP)
          a.s->swap(*b.s);
        else
          swap(*a.s, *b.s);
        REQUIRE(tr_stats.constructed == 0 && tr_stats.destroyed == 0 &&
                    tr_stats.move_assigns == 0 && tr_stats.copy_assigns == 0,
                "swap touched elements");
        REQUIRE(mem::st.allocs == allocs && mem::st.frees == frees,
                "swap allocated or freed");
        REQUIRE(addrs(*a.s) == pb && addrs(*b.s) == pa,
                "swap did not exchange the elements");
        if (!self) std::swap(a.m, b.m);
        if (std::allocator_traits<
                typename C::A>::propagate_on_container_swap::value)
          REQUIRE(a.s->get_allocator() == alloc_b &&
                      b.s->get_allocator() == alloc_a,
                  "");
        a.has_cursor = b.has_cursor = false;
        break;
      }
      default: return false;
    }
    label(op_names_static()[code]);
    if (self) label("with itself");
    if (was_big) {
      label("with a container of height 2 or more");
      pbt::nontrivial();
    }
    check_everything<Seq, T>(*a.s, a.m, r);
    check_everything<Seq, T>(*b.s, b.m, r);
    return true;
  }
  static pbt::Suite make(std::string name, Size z, u64 quick, u64 thorough,
                         bool distinct) {
    Profile p = editing();
    p.set({COPY_CTOR, COPY_ASSIGN, MOVE_CTOR, MOVE_ASSIGN, SWAP, SWAP_FREE},
          16);
    p.set({SORT, REVERSE, MERGE, SPLICE_ALL}, 2);
    p.two_slots = 66;
    apply_size(p, z);
    pbt::Suite s;
    s.name = name;
    s.opnames = op_names();
    s.quick = quick;
    s.thorough = thorough;
    if (z.wide) s.fixed = true, s.priority = 1;
    s.gen = [p](Rng& r, u64, bool) {
      Case c = gen_history(r, p);
      c.cfg[0] = r.u() & 0xffff;
      return c;
    };
    auto max_size = z.max_size;
    auto is_wide = z.wide;
    s.run = [distinct, max_size, is_wide](Case const& c) {
      mem::reset();
      tr_stats = TrStats{};
      {
        W x(distinct);
        x.max_size = max_size;
        x.wide = is_wide;
        Rng r(c.cfg[0] + 3u);
        for (auto const& o : c.ops) {
          auto const code = o.code % OP_COUNT;
          bool sp = code == COPY_CTOR || code == COPY_ASSIGN ||
                    code == MOVE_CTOR || code == MOVE_ASSIGN || code == SWAP ||
                    code == SWAP_FREE;
          if (sp ? special(x, o, r) : x.apply(o)) {
            x.check_all();
            pbt::checkpoint();
          }
        }
      }
      REQUIRE(tr_stats.live == 0 && mem::st.live.empty(), "leaked");
      pbt::checkpoint();
    };
    return s;
  }
};
template <class C>
struct Add {
  Add(char const* name, Size z, u64 quick, u64 thorough, bool distinct = false) {
    pbt::Register{Values<C>::make(name, z, quick, thorough, distinct)};
  }
};
static Size const small{10, 60, 200, 400};
template <class T, std::size_t S, std::size_t B>
using KT = K<T, S, B, TrackAlloc<T>>;
#if PART == 0
static Add<K<u32, 1, 3>> a("u32 seg1 base3", small, 1000, 10000);
static Add<KT<u32, 2, 3>> b("u32 seg2 base3", small, 1000, 10000);
#elif PART == 1
static Add<KT<Trk, 2, 3>> a("Trk seg2 base3", small, 1000, 10000);
static Add<Cfg<u32, std::allocator<u32>, 0, 0>> b("u32 seg0 base0", small, 1000, 10000);
#elif PART == 2
static Add<KT<MoveOnly, 2, 3>> a("MoveOnly seg2 base3", small, 1000, 10000);
static Add<K<std::string, 3, 3>> b("string seg3 base3", small, 1000, 10000);
#elif PART == 3
static Add<KT<CopyOnly, 3, 4>> a("CopyOnly seg3 base4", small, 1000, 10000);
static Add<Dflt<u32>> b("u32 defaults", Size{6, 25, 8000, 20000}, 30, 300);
#elif PART == 4
static Add<K<Trk, 2, 3, TrackAlloc<Trk, 7>>> a("Trk unequal propagating", small, 1000, 10000, true);
static Add<K<u32, 3, 3, TrackAlloc<u32, 15>>> b("u32 unequal propagating", small, 1000, 10000, true);
#elif PART == 5
static Add<K<Trk, 1, 3, HookAlloc<Trk>>> a("Trk seg1 base3 hooks", small, 1000, 10000);
static Add<KT<Pod<17>, 4, 4>> b("Pod17 seg4 base4", middle(), 100, 1000);
#elif PART == 6
static Add<K<u32, 2, 3, fancy::RelativeAlloc<u32>>> a("u32 relative pointers", small, 800, 8000);
static Add<K<Trk, 2, 3, fancy::RelativeAlloc<Trk>>> b("Trk relative pointers unequal", small, 800, 8000, true);
#elif PART == 7
static Add<K<Trk, 3, 3, TrackAlloc<Trk, 0>>> a("Trk seg3 base3, nothing propagates", small, 1000, 10000);
static Add<Dflt<std::string>> b("string defaults", Size{6, 25, 4000, 8000}, 30, 300);
#endif
static Add<WideCfg> wide_(WIDE_NAME, wide(), 20, 200);
