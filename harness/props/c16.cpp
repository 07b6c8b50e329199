// C16: iterators, pointers and references kept across operations that are
// documented to invalidate none.
#include "fill.hpp"
#include "probe.hpp"
using namespace d;
#if PART == 0
char const* const pbt::rule =
    "A case builds three containers by histories, takes iterators, const "
    "iterators, reverse iterators and pointers at many positions, and carries "
    "them through swaps, moves, sort, reverse, element writes, comparisons, "
    "copies from and all observers, in any order; after each of these every "
    "kept iterator is compared with a fresh one of the sequence that now owns "
    "the element (index, element, address, segment, walks and jumps in both "
    "directions), and finally used as the position of an edit. Non-trivial: "
    "iterators of a container of height >= 2 were kept across an operation "
    "that changes owner or order.";
#endif

enum : u32 { KEEP = OP_COUNT, SWAP_X, MOVE_CTOR_X, MOVE_ASSIGN_X, SORT_X,
             REVERSE_X, WRITE_X, OBSERVE_X, EDIT_X, X_END };

template <class C>
struct Kept {
  using W = World<C>;
  using Seq = typename C::Seq;
  using T = typename C::T;
  using Tx = Traits<T>;
  using It = typename Seq::iterator;
  using CIt = typename Seq::const_iterator;
  using RIt = typename Seq::reverse_iterator;
  using CRIt = typename Seq::const_reverse_iterator;
  struct One {
    std::size_t pos;
    It it;
    CIt cit;
    T* p;         // null for the end
    bool has_r;   // reverse iterators to the element
    RIt r;
    CRIt cr;
    T const* seg_b;
    T const* seg_e;
  };
  std::vector<One> kept[3];
  // One of several ways to come by an iterator, for const and other.
  static It way(Seq& s, std::size_t pos, std::size_t n, u64 h) {
    using D = typename Seq::difference_type;
    switch (h % 5) {
      case 0: return s.begin() + D(pos);
      case 1: return s.end() - D(n - pos);
      case 2: {
        It i = s.begin();
        if (pos > 64) i = s.nth(pos - 64);
        while (s.index_of(i) != pos) ++i;
        return i;
      }
      case 3: {
        It i = n - pos > 64 ? s.nth(pos + 64) : s.end();
        while (s.index_of(i) != pos) --i;
        return i;
      }
      default: return s.nth(pos);
    }
  }
  void take(W& x, int k, Rng& r) {
    auto& sl = x.slot[k];
    std::size_t const n = sl.m.size();
    for (int i = 0; i != 6; ++i) {
      std::size_t pos = i == 0 ? 0 : i == 1 ? n : r.below(n + 1);
      if (i == 2 && n) pos = n - 1;
      Seq const& cs = *sl.s;
      One o{pos, way(*sl.s, pos, n, r.next()), cs.nth(pos), nullptr, false,
            sl.s->rbegin(), cs.rbegin(), nullptr, nullptr};
      if (pos < n) {
        o.p = std::addressof((*sl.s)[pos]);
        o.has_r = true;
        o.r = sl.s->rend() - typename Seq::difference_type(pos + 1);
        o.cr = cs.rend() - typename Seq::difference_type(pos + 1);
      }
      kept[k].push_back(o);
    }
  }
  void drop(int k) { kept[k].clear(); }
  void drop_ends(int k) {
    auto& v = kept[k];
    v.erase(std::remove_if(v.begin(), v.end(),
                           [](One const& o) { return !o.p; }),
            v.end());
  }
  void check(W& x, int k, Rng& r) {
    auto& sl = x.slot[k];
    for (auto& o : kept[k]) {
      REQUIRE(o.pos <= sl.m.size(), "harness: kept position");
      check_as_fresh<Seq, T>(*sl.s, sl.m, o.it, o.pos, r,
                             sl.m.size() < 80 && r.below(4) == 0);
      check_as_fresh<Seq, T>(*sl.s, sl.m, o.cit, o.pos, r, false);
      if (!o.p) continue;
      REQUIRE(o.p == std::addressof(*o.it) && o.p == std::addressof(*o.cit),
              "pointer and iterator part at", o.pos);
      REQUIRE(Tx::id(*o.p) == sl.m[o.pos], "kept pointer reads",
              Tx::id(*o.p), "want", sl.m[o.pos]);
      REQUIRE(std::addressof(*o.r) == o.p && std::addressof(*o.cr) == o.p,
              "kept reverse iterator");
      REQUIRE(o.r - sl.s->rbegin() ==
                  typename Seq::difference_type(sl.m.size() - 1 - o.pos),
              "");
      REQUIRE(o.r.base() == sl.s->nth(o.pos + 1), "");
    }
    pbt::checkpoint();
  }
};

template <class C>
struct Add {
  using W = World<C>;
  using Seq = typename C::Seq;
  using T = typename C::T;
  using Tx = Traits<T>;
  using A = typename C::A;
  using Tr_ = std::allocator_traits<A>;

  static bool special(W& x, Kept<C>& k, Op const& o, Rng& r) {
    int const ia = int(o.s % 3), ib = int(o.s / 3 % 3);
    auto& a = x.slot[ia];
    auto& b = x.slot[ib];
    a.has_cursor = b.has_cursor = false;
    auto deep = [&](int i) {
      if (x.slot[i].s->height() >= 2 && !k.kept[i].empty()) pbt::nontrivial();
    };
    auto taken_over = [&](int to, int from) {
      // `to` now holds what `from` held, `from` is empty
      k.kept[to] = std::move(k.kept[from]);
      k.kept[from].clear();
      x.slot[to].m = std::move(x.slot[from].m);
      x.slot[from].m.clear();
    };
    switch (o.code) {
      case KEEP:
        k.take(x, ia, r);
        return true;
      case SWAP_X:
        if (ia == ib) return false;
        if (!Tr_::propagate_on_container_swap::value &&
            a.s->get_allocator() != b.s->get_allocator())
          return false;
        if (o.p % 2)
          a.s->swap(*b.s);
        else
          swap(*a.s, *b.s);
        a.m.swap(b.m);
        k.drop_ends(ia);
        k.drop_ends(ib);
        k.kept[ia].swap(k.kept[ib]);
        deep(ia);
        deep(ib);
        label("kept across a swap", k.kept[ia].size() + k.kept[ib].size());
        return true;
      case MOVE_CTOR_X: {
        if (ia == ib) return false;
        k.drop_ends(ib);
        std::unique_ptr<Seq> c;
        if (o.p % 3 == 0)
          c.reset(new Seq(std::move(*b.s)));
        else if (o.p % 3 == 1)
          c.reset(new Seq(std::move(*b.s), b.s->get_allocator()));
        else {
          Seq t(std::move(*b.s));
          c.reset(new Seq(std::move(t)));
        }
        a.s = std::move(c);
        taken_over(ia, ib);
        deep(ia);
        label("kept across a move construction", k.kept[ia].size());
        return true;
      }
      case MOVE_ASSIGN_X:
        if (ia == ib) return false;
        if (!Tr_::propagate_on_container_move_assignment::value &&
            a.s->get_allocator() != b.s->get_allocator())
          return false;
        *a.s = std::move(*b.s);
        taken_over(ia, ib);
        deep(ia);
        label("kept across a move assignment", k.kept[ia].size());
        return true;
      case SORT_X:
        if (o.p & 16) fill(x, a, o.p >> 5, o.v);
        if (o.p % 2) {
          a.s->sort();
          std::stable_sort(a.m.begin(), a.m.end(), [](u64 p, u64 q) {
            return Tx::key(p) < Tx::key(q);
          });
        } else {
          a.s->sort([](T const& p, T const& q) { return q < p; });
          std::stable_sort(a.m.begin(), a.m.end(), [](u64 p, u64 q) {
            return Tx::key(q) < Tx::key(p);
          });
        }
        deep(ia);
        label("kept across a sort", k.kept[ia].size());
        return true;
      case REVERSE_X:
        a.s->reverse();
        std::reverse(a.m.begin(), a.m.end());
        deep(ia);
        label("kept across a reversal", k.kept[ia].size());
        return true;
      case WRITE_X: {
        if (a.m.empty()) return false;
        for (int i = 0; i != 5; ++i) {
          u64 id = x.fresh(r.u());
          std::size_t pos = r.below(a.m.size());
          T* by = nullptr;
          if (!k.kept[ia].empty() && r.below(2)) {
            auto& one = k.kept[ia][r.below(k.kept[ia].size())];
            if (one.p) {
              pos = one.pos;
              switch (r.below(3)) {
                case 0: by = one.p; break;
                case 1: by = std::addressof(*one.it); break;
                default: by = std::addressof(*one.r);
              }
            }
          }
          if (by)
            *by = Tx::make(id);
          else if (r.below(2))
            (*a.s)[pos] = Tx::make(id);
          else
            *a.s->nth(pos) = Tx::make(id);
          a.m[pos] = id;
        }
        return true;
      }
      case OBSERVE_X: {
        Seq const& c = *a.s;
        volatile std::size_t sink = 0;
        sink = c.size() + c.height() + c.max_size() + c.empty();
        if (c.size()) {
          sink = sink + Tx::id(c.front()) + Tx::id(c.back()) +
                 Tx::id(c.at(r.below(c.size()))) + Tx::id(*c.penultimate());
          bool threw = false;
          try {
            (void)c.at(c.size());
          } catch (std::out_of_range const&) {
            threw = true;
          }
          REQUIRE(threw, "");
        }
        for (auto const& e : c) sink = sink + Tx::id(e);
        for (auto& e : *a.s) sink = sink + Tx::id(e);
        for (auto i = c.crbegin(); i != c.crend(); ++i) sink = sink + Tx::id(*i);
        auto seg = c.begin();
        std::size_t left = c.size();
        while (left) {
          left -= std::size_t(seg.end() - seg.current());
          seg.move_after_segment();
        }
        sink = sink + (c == *b.s) + (c < *b.s);
        if constexpr (Tx::copyable) {
          Seq d(c);
          d.clear();
          if (ia != ib) {
            *b.s = c;
            b.m = a.m;
            k.drop(ib);
          }
        }
        (void)c.get_allocator();
        (void)sink;
        return true;
      }
      default: {  // a kept iterator is the position of an edit
        if (k.kept[ia].empty()) return false;
        auto one = k.kept[ia][r.below(k.kept[ia].size())];
        std::size_t pos = one.pos, n = a.m.size();
        CIt at = o.p % 2 ? CIt(one.it) : one.cit;
        k.drop(ia);
        u64 id = x.fresh(o.v);
        switch (o.p / 2 % 5) {
          case 0: {
            auto i = a.s->insert(at, Tx::make(id));
            a.m.insert(a.m.begin() + long(pos), id);
            x.returned(a, i, pos);
            break;
          }
          case 1: {
            if (pos == n) return false;
            auto i = a.s->erase(at);
            a.m.erase(a.m.begin() + long(pos));
            x.returned(a, i, pos);
            break;
          }
          case 2: {
            auto i = a.s->erase(at, a.s->cend());
            a.m.resize(pos);
            x.returned(a, i, pos);
            break;
          }
          case 3: {
            auto i = a.s->erase(a.s->cbegin(), at);
            a.m.erase(a.m.begin(), a.m.begin() + long(pos));
            x.returned(a, i, 0);
            break;
          }
          default: {
            if (n + 20 > x.max_size) return false;
            auto ids = x.fresh_n(17, o.v);
            SourceState<T> st;
            st.ids = &ids;
            auto i = a.s->insert(at, InputIt<T>(&st, false),
                                 InputIt<T>(&st, true));
            a.m.insert(a.m.begin() + long(pos), ids.begin(), ids.end());
            x.returned(a, i, pos);
          }
        }
        a.has_cursor = false;
        label("edits at a kept iterator");
        x.check_contents(ia);
        return true;
      }
    }
  }
  using CIt = typename Seq::const_iterator;

  Add(char const* name, Size z, u64 quick, u64 thorough,
      bool distinct = false) {
    Profile p = editing();
    p.set({RESIZE, RESIZE_V, ASSIGN_N, ASSIGN_RANGE, ASSIGN_INPUT, CLEAR}, 1);
    apply_size(p, z);
    p.two_slots = 60;
    pbt::Suite s;
    s.name = name;
    s.opnames = op_names();
    for (auto n : {"KEEP", "SWAP_X", "MOVE_CTOR_X", "MOVE_ASSIGN_X", "SORT_X",
                   "REVERSE_X", "WRITE_X", "OBSERVE_X", "EDIT_X"})
      s.opnames.push_back(n);
    s.quick = quick;
    s.thorough = thorough;
    if (z.wide) s.fixed = true, s.priority = 1;
    s.gen = [p](Rng& r, u64, bool) {
      Profile q = p;
      q.ops_lo = 3;
      q.ops_hi = 12;
      Case c;
      c.cfg[0] = r.u() & 0xffff;
      std::size_t rounds = 1 + r.below(4);
      for (std::size_t i = 0; i != rounds; ++i) {
        for (auto& o : gen_history(r, q).ops) c.ops.push_back(o);
        for (u32 j = 0; j != 3; ++j) {
          std::size_t n = r.below(3);
          for (std::size_t t = 0; t != n; ++t)
            c.ops.push_back(Op{KEEP, j, 0, 0, 0});
        }
        std::size_t n = 2 + r.below(10);
        for (std::size_t t = 0; t != n; ++t) {
          u32 code = KEEP + static_cast<u32>(
                                r.pick({3, 5, 4, 4, 3, 3, 3, 2, 2}));
          c.ops.push_back(Op{code, u32(r.below(9)), r.u() & 0xffff, 0,
                             r.u() & 0xfffff});
        }
      }
      return c;
    };
    auto max_size = z.max_size;
    auto is_wide = z.wide;
    s.run = [max_size, is_wide, distinct](Case const& c) {
      mem::reset();
      tr_stats = TrStats{};
      {
        W wd(distinct);
        wd.max_size = max_size;
        wd.wide = is_wide;
        Kept<C> k;
        Seen seen;
        Rng r(c.cfg[0] + 1u);
        for (auto const& o : c.ops) {
          if (o.code < OP_COUNT) {
            if (!wd.apply(o)) continue;
            for (int t : wd.touched)
              if (t >= 0) {
                k.drop(t);
                seen.look(*wd.slot[t].s, wd.height_before);
              }
            continue;
          }
          if (!special(wd, k, o, r)) continue;
          pbt::checkpoint();
          for (int i = 0; i != 3; ++i) k.check(wd, i, r);
        }
        wd.check_all();
        seen.report();
      }
      pbt::checkpoint();
    };
    pbt::Register{s};
  }
};
template <class T, std::size_t S, std::size_t B>
using KT = K<T, S, B, TrackAlloc<T>>;
#if PART == 0
static Add<K<u32, 1, 3>> a("u32 seg1 base3", Size{}, 1500, 15000);
static Add<K<u32, 2, 3>> b("u32 seg2 base3", Size{}, 1500, 15000);
#elif PART == 1
static Add<K<u64, 3, 4>> a("u64 seg3 base4", Size{}, 1500, 15000);
static Add<KT<Trk, 2, 3>> b("Trk seg2 base3 unequal propagating allocators", Size{}, 800, 8000, true);
#elif PART == 2
static Add<KT<MoveOnly, 3, 3>> a("MoveOnly seg3 base3", Size{}, 800, 8000);
static Add<K<u32, 4, 5>> b("u32 seg4 base5", middle(), 100, 1000);
#elif PART == 3
static Add<Dflt<u32>> a("u32 defaults", big(), 15, 150);
static Add<K<std::string, 3, 3>> b("string seg3 base3", Size{}, 800, 8000);
#elif PART == 4
static Add<K<Trk, 4, 4, TrackAlloc<Trk, 0>>> a("Trk seg4 base4 nothing propagates", Size{}, 800, 8000);
static Add<K<Pod<17>, 7, 7>> b("Pod17 seg7 base7", middle(), 100, 1000);
#elif PART == 5
static Add<K<u32, 3, 3, fancy::RelativeAlloc<u32>>> a("u32 relative pointers", Size{}, 800, 8000, true);
static Add<Dflt<std::string>> b("string defaults", Size{6, 25, 8000, 20000}, 15, 150);
#elif PART == 6
static Add<Cfg<u64, std::allocator<u64>, 0, 0>> a("u64 seg0 base0", Size{}, 800, 8000);
static Add<K<Trk, 2, 4, TrackAlloc<Trk, 0>>> b("Trk seg2 base4 unequal not propagating", Size{}, 800, 8000, true);
#elif PART == 7
static Add<K<u32, 3, 3, fancy::CountingAlloc<u32>>> a("u32 fancy pointers", Size{}, 800, 8000);
static Add<K<std::uint8_t, 5, 6>> b("u8 seg5 base6", middle(), 100, 1000);
#endif
static Add<WideCfg> wide_(WIDE_NAME, wide(), 20, 200);
