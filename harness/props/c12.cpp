// C12: propagation of allocators.
#include "drive.hpp"
#include "probe.hpp"
using namespace d;
#if PART == 0
char const* const pbt::rule =
    "A case takes one of the 16 combinations of propagation on copy "
    "assignment, move assignment and swap and of "
    "select_on_container_copy_construction, an element type (copyable, "
    "move-only, string, integer; with and without allocator hooks) and runs a "
    "history of constructions, assignments, swaps, splices and edits among "
    "three containers with equal and unequal allocators; after each call the "
    "reported allocators, the allocators that new blocks really come from and "
    "the contents are compared with what the traits say, and element copies "
    "are counted. Non-trivial: a transfer between unequal allocators with "
    "elements on the giving side.";
#endif

template <class T, class A, std::size_t S, std::size_t B, unsigned PROP>
struct Combo {
  using C = K<T, S, B, A>;
  using Seq = typename C::Seq;
  using Tx = Traits<T>;
  using Ids = std::vector<u64>;
  struct Box {
    std::unique_ptr<Seq> s;
    Ids m;
    int arena = 0;
  };
  static constexpr bool pocca = PROP & 1, pocma = PROP & 2, pocs = PROP & 4,
                        soccc = PROP & 8;

  static void check(Box& b) {
    REQUIRE(b.s->get_allocator().arena == b.arena, "get_allocator reports",
            b.s->get_allocator().arena, "want", b.arena);
    REQUIRE(b.s->get_stored_allocator().arena == b.arena,
            "get_stored_allocator reports", b.s->get_stored_allocator().arena,
            "want", b.arena);
    REQUIRE(b.s->size() == b.m.size(), "size", b.s->size(), "want",
            b.m.size());
    std::size_t k = 0;
    for (auto const& e : *b.s) {
      REQUIRE(Tx::id(e) == b.m[k], "element", k, "of", b.m.size());
      ++k;
    }
  }
  static void check_memory(Box* x) {
    // all blocks are in arenas of containers that hold elements, and every
    // such arena has some
    std::size_t seen = 0;
    for (int i = 0; i != 3; ++i) {
      bool first = true;
      for (int j = 0; j != i; ++j)
        if (x[j].arena == x[i].arena) first = false;
      if (!first) continue;
      bool any = false;
      for (int j = 0; j != 3; ++j)
        if (x[j].arena == x[i].arena && !x[j].m.empty()) any = true;
      u64 live = mem::st.live_of(x[i].arena);
      REQUIRE((live > 0) == any, "arena", x[i].arena, "has", live, "blocks");
      seen += live;
    }
    REQUIRE(seen == mem::st.live.size(), "blocks are in arenas of nobody");
  }
  static void grow(Box& b, Rng& r, u64& counter, std::size_t n) {
    for (std::size_t i = 0; i != n; ++i) {
      u64 id = Tx::norm((++counter << 4) | r.below(16));
      std::size_t pos = r.below(b.m.size() + 1);
      auto before = mem::st.allocs;
      b.s->insert(b.s->nth(pos), Tx::make(id));
      if (mem::st.allocs != before)
        REQUIRE(mem::st.last_arena == b.arena, "a block came from arena",
                mem::st.last_arena, "want", b.arena);
      b.m.insert(b.m.begin() + long(pos), id);
    }
  }
  static int fresh_arena(Rng& r) { return 1 + int(r.below(4)); }
  static void remodel(Box& b) {
    // moved from element by element: valid but unspecified
    b.m.clear();
    for (auto const& e : *b.s) b.m.push_back(Tx::id(e));
    b.s->clear();
    b.m.clear();
  }

  static void run(Case const& c) {
    mem::reset();
    tr_stats = TrStats{};
    {
      Rng r(c.cfg[0]);
      u64 counter = 0;
      Box x[3];
      for (auto& b : x) {
        b.arena = fresh_arena(r);
        b.s.reset(new Seq(A(b.arena)));
        grow(b, r, counter, r.below(40));
      }
      for (auto const& o : c.ops) {
        Box& a = x[o.s % 3];
        Box& b = x[o.s / 3 % 3];
        bool const self = &a == &b;
        bool const equal = a.arena == b.arena;
        Rng q(o.v);
        char const* nm = "";
        bool crossing = false;
        tr_stats.reset_counts();
        auto const allocs = mem::st.allocs;
        switch (o.code % 14) {
          case 0:
            if constexpr (Tx::copyable) {
              nm = "copy construction";
              std::unique_ptr<Seq> t(new Seq(*b.s));
              a.s = std::move(t);
              a.m = Ids(b.m);
              a.arena = b.arena + (soccc ? 100 : 0);
              if (a.arena > 900) {  // keep the numbers small
                a.arena = 1;
                a.s.reset(new Seq(A(1)));
                a.m.clear();
              }
              crossing = soccc;
            }
            break;
          case 1:
            if constexpr (Tx::copyable) {
              nm = "allocator-extended copy construction";
              int k = fresh_arena(q);
              crossing = k != b.arena;
              std::unique_ptr<Seq> t(new Seq(*b.s, A(k)));
              a.s = std::move(t);
              a.m = Ids(b.m);
              a.arena = k;
            }
            break;
          case 2: {
            if (self) break;
            nm = "move construction";
            std::unique_ptr<Seq> t(new Seq(std::move(*b.s)));
            REQUIRE(mem::st.allocs == allocs, nm, "allocated");
            REQUIRE(tr_stats.constructed == 0 && tr_stats.destroyed == 0, nm,
                    "touched elements");
            a.s = std::move(t);
            a.m = b.m;
            b.m.clear();
            a.arena = b.arena;
            break;
          }
          case 3: {
            if (self) break;
            nm = "allocator-extended move construction";
            int k = q.below(3) ? fresh_arena(q) : b.arena;
            crossing = k != b.arena;
            std::size_t const n = b.m.size();
            std::unique_ptr<Seq> t(new Seq(std::move(*b.s), A(k)));
            REQUIRE(tr_stats.copied() == 0, nm, "copied elements");
            if (!crossing) {
              REQUIRE(mem::st.allocs == allocs && tr_stats.constructed == 0, nm,
                      "with an equal allocator touched elements");
              REQUIRE(b.s->empty(), nm, "left elements");
            } else if (Tx::keyed && n)
              REQUIRE(tr_stats.moves > 0 || !tr_stats.constructed, nm,
                      "did not move the elements");
            a.s = std::move(t);
            a.m = b.m;
            a.arena = k;
            remodel(b);
            break;
          }
          case 4:
            if constexpr (Tx::copyable) {
              nm = "copy assignment";
              crossing = !equal;
              *a.s = *static_cast<Seq const*>(b.s.get());
              a.m = Ids(b.m);
              if (pocca) a.arena = b.arena;
            }
            break;
          case 5: {
            if (self) break;
            nm = "move assignment";
            crossing = !equal;
            *a.s = std::move(*b.s);
            REQUIRE(tr_stats.copied() == 0, nm, "copied elements");
            if (pocma || equal) {
              REQUIRE(mem::st.allocs == allocs && tr_stats.constructed == 0, nm,
                      "did not take the memory over");
              REQUIRE(b.s->empty(), nm, "left elements");
            }
            a.m = b.m;
            if (pocma) a.arena = b.arena;
            remodel(b);
            break;
          }
          case 6:
          case 7: {
            if (!pocs && !equal) break;
            nm = "swap";
            crossing = !equal;
            using std::swap;
            if (o.code % 14 == 6)
              a.s->swap(*b.s);
            else
              swap(*a.s, *b.s);
            REQUIRE(mem::st.allocs == allocs && tr_stats.constructed == 0 &&
                        tr_stats.destroyed == 0,
                    nm, "touched elements");
            if (!self) {
              a.m.swap(b.m);
              if (pocs) std::swap(a.arena, b.arena);
            }
            break;
          }
          case 8: {
            if (self || a.m.size() > 300) break;
            nm = "splice";
            crossing = !equal;
            std::size_t pos = o.p % (a.m.size() + 1);
            a.s->splice(a.s->nth(pos), *b.s);
            REQUIRE(tr_stats.copied() == 0, nm, "copied elements");
            a.m.insert(a.m.begin() + long(pos), b.m.begin(), b.m.end());
            b.m.clear();
            break;
          }
          case 9: {
            if (self || a.m.size() > 300) break;
            nm = "splice of a range";
            crossing = !equal;
            std::size_t pos = o.p % (a.m.size() + 1);
            std::size_t f = o.n % (b.m.size() + 1);
            std::size_t l = f + q.below(b.m.size() - f + 1);
            a.s->splice(a.s->nth(pos), std::move(*b.s), b.s->nth(f),
                        b.s->nth(l));
            REQUIRE(tr_stats.copied() == 0, nm, "copied elements");
            a.m.insert(a.m.begin() + long(pos), b.m.begin() + long(f),
                       b.m.begin() + long(l));
            b.m.erase(b.m.begin() + long(f), b.m.begin() + long(l));
            break;
          }
          case 10: {
            nm = "construction with an allocator";
            int k = fresh_arena(q);
            Ids m;
            std::unique_ptr<Seq> t;
            switch (q.below(5)) {
              case 0: t.reset(new Seq(A(k))); break;
              case 1: {
                std::size_t n = q.below(30);
                t.reset(new Seq(n, A(k)));
                m.assign(n, Tx::dflt());
                break;
              }
              case 2:
                if constexpr (Tx::copyable) {
                  std::size_t n = q.below(30);
                  u64 id = Tx::norm((++counter << 4));
                  T const v = Tx::make(id);
                  t.reset(new Seq(n, v, A(k)));
                  m.assign(n, id);
                } else
                  t.reset(new Seq(A(k)));
                break;
              case 3:
                if constexpr (Tx::copyable) {
                  std::vector<T> v;
                  std::size_t n = q.below(30);
                  for (std::size_t i = 0; i != n; ++i) {
                    m.push_back(Tx::norm((++counter << 4) | (i & 15)));
                    v.push_back(Tx::make(m.back()));
                  }
                  t.reset(new Seq(v.begin(), v.end(), A(k)));
                } else
                  t.reset(new Seq(A(k)));
                break;
              default:
                if constexpr (Tx::copyable) {
                  if (q.below(3) == 0) {
                    t.reset(new Seq(std::initializer_list<T>(), A(k)));
                  } else {
                    for (int i = 0; i != 2; ++i)
                      m.push_back(Tx::norm((++counter << 4) | 3));
                    t.reset(new Seq({Tx::make(m[0]), Tx::make(m[1])}, A(k)));
                  }
                } else {
                  t.reset(new Seq());
                  k = 0;
                }
                break;
            }
            a.s = std::move(t);
            a.m = m;
            a.arena = k;
            break;
          }
          case 11:
            nm = "insertions";
            if (a.m.size() < 300) grow(a, q, counter, 1 + q.below(40));
            break;
          case 12: {
            nm = "erasure";
            std::size_t f = o.n % (a.m.size() + 1);
            std::size_t l = f + q.below(a.m.size() - f + 1);
            a.s->erase(a.s->nth(f), a.s->nth(l));
            a.m.erase(a.m.begin() + long(f), a.m.begin() + long(l));
            break;
          }
          default: {
            if (self || a.m.size() > 300) break;
            nm = "merge";
            crossing = !equal;
            auto less = [](T const& u, T const& v) {
              return Tx::id(u) < Tx::id(v);
            };
            a.s->sort(less);
            b.s->sort(less);
            tr_stats.reset_counts();
            a.s->merge(*b.s, less);
            REQUIRE(tr_stats.copied() == 0, nm, "copied elements");
            a.m.insert(a.m.end(), b.m.begin(), b.m.end());
            std::stable_sort(a.m.begin(), a.m.end());
            b.m.clear();
            break;
          }
        }
        if (!*nm) continue;
        if (!self && crossing) {
          label("transfers between unequal allocators");
          pbt::nontrivial();
        }
        label(nm);
        check(a);
        if (!self) check(b);
        pbt::checkpoint();
        check_memory(x);
        // the allocator that is used from here on
        if (q.below(2) && a.m.size() < 300) grow(a, q, counter, 5);
        if (q.below(2) && b.m.size() < 300) grow(b, q, counter, 5);
        for (auto& y : x) check(y);
        pbt::checkpoint();
      }
    }
    REQUIRE(tr_stats.live == 0, "elements leaked");
    REQUIRE(mem::st.live.empty(), "blocks leaked");
    pbt::checkpoint();
  }
};

template <class T, class A, std::size_t S, std::size_t B, unsigned PROP>
struct Add {
  Add(std::string name, u64 quick, u64 thorough) {
    pbt::Suite s;
    s.name = name + " prop " + std::to_string(PROP);
    s.quick = quick;
    s.thorough = thorough;
    s.gen = [](Rng& r, u64, bool) {
      Case c;
      std::size_t n = 2 + r.below(25);
      for (std::size_t i = 0; i != n; ++i)
        c.ops.push_back(Op{u32(r.below(14)), u32(r.below(9)), u32(r.below(10000)),
                           u32(r.below(10000)), u32(r.below(1 << 20))});
      c.cfg[0] = r.u() & 0xffff;
      return c;
    };
    s.run = Combo<T, A, S, B, PROP>::run;
    pbt::Register{s};
  }
};
#define ADD(P)                                                               \
  static Add<Trk, TrackAlloc<Trk, P>, 2, 3, P> a##P("Trk", 500, 5000);       \
  static Add<MoveOnly, TrackAlloc<MoveOnly, P>, 3, 4, P> b##P("MoveOnly",    \
                                                              300, 3000);    \
  static Add<u32, TrackAlloc<u32, P>, 1, 3, P> c##P("u32", 300, 3000);       \
  static Add<std::string, HookAlloc<std::string, P>, 2, 3, P> d##P(          \
      "string hooks", 300, 3000);
#if PART == 0
ADD(0) ADD(1)
#elif PART == 1
ADD(2) ADD(3)
#elif PART == 2
ADD(4) ADD(5)
#elif PART == 3
ADD(6) ADD(7)
#elif PART == 4
ADD(8) ADD(9)
#elif PART == 5
ADD(10) ADD(11)
#elif PART == 6
ADD(12) ADD(13)
#elif PART == 7
ADD(14) ADD(15)
#endif
