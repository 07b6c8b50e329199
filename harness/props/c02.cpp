// C02: iterators returned by edits are as good as fresh ones.
#include "drive.hpp"
#include "probe.hpp"
using namespace d;

#if PART == 0
char const* const pbt::rule =
    "A case builds a sequence (history of edits, or bulk appends and "
    "insertions) and then edits it in a chain: every edit (insert lvalue/"
    "rvalue/counted/range/single-pass/initializer list, emplace, erase one/"
    "range) takes the iterator the previous one returned, moved by a few "
    "steps; each returned iterator is compared with a fresh one: index, "
    "element, object, segment bounds, walks to both ends, jumps. Non-trivial: "
    "the index had two or more levels (height >= 3) while the chain ran.";
#endif

enum : u32 {
  H_L, H_R, H_EMP, H_N, H_RANGE, H_INPUT, H_IL, H_ERASE, H_ERASE_FWD,
  H_ERASE_BACK, H_MOVE, H_NEAR, H_SEG, H_COUNT
};
static std::vector<char const*> chain_names() {
  return {"insert_l", "insert_r", "emplace", "insert_n", "insert_range",
          "insert_input", "insert_il", "erase", "erase_forward",
          "erase_backward", "move", "step", "to_segment_edge"};
}

template <class C>
struct Chain {
  using T = typename C::T;
  using Seq = typename C::Seq;
  using Tx = Traits<T>;
  using It = typename Seq::iterator;
  using D = typename Seq::difference_type;

  static void run(Case const& c) {
    mem::reset();
    tr_stats = TrStats{};
    {
      Seq s(make_alloc<typename C::A>(1));
      std::vector<u64> m;
      u64 counter = 0;
      // the start: cfg[0] elements, cfg[1] chooses the way
      Rng b(c.cfg[1] * 77u + 5);
      for (u32 i = 0; i != c.cfg[0]; ++i) {
        u64 id = Tx::norm(++counter << 4);
        std::size_t p;
        switch (c.cfg[1] % 4) {
          case 0: p = m.size(); break;
          case 1: p = 0; break;
          case 2: p = m.size() / 2; break;
          default: p = b.below(m.size() + 1); break;
        }
        s.insert(s.nth(p), Tx::make(id));
        m.insert(m.begin() + static_cast<long>(p), id);
      }
      for (u32 i = 0; i != c.cfg[2] && !m.empty(); ++i) {
        std::size_t p = b.below(m.size());
        s.erase(s.nth(p));
        m.erase(m.begin() + static_cast<long>(p));
      }
      std::size_t pos = m.empty() ? 0 : c.cfg[3] % (m.size() + 1);
      It it = s.nth(pos);
      bool deep = false;
      std::size_t step = 0;
      for (auto const& o : c.ops) {
        Rng r(o.v * 2654435761u + 17);
        std::size_t const n = m.size();
        auto at = [&] { return m.begin() + static_cast<long>(pos); };
        bool const grow = n < 900;
        switch (o.code % H_COUNT) {
          case H_L:
            if constexpr (Tx::copyable) {
              if (!grow) continue;
              u64 id = Tx::norm(++counter << 4);
              T const t = Tx::make(id);
              it = s.insert(it, t);
              m.insert(at(), id);
              break;
            }
            continue;
          case H_R: {
            if (!grow) continue;
            u64 id = Tx::norm(++counter << 4);
            it = s.insert(it, Tx::make(id));
            m.insert(at(), id);
            break;
          }
          case H_EMP: {
            if (!grow) continue;
            u64 id = Tx::norm(++counter << 4);
            it = s.emplace(it, Tx::make(id));
            m.insert(at(), id);
            break;
          }
          case H_N:
            if constexpr (Tx::copyable) {
              if (!grow) continue;
              u64 id = Tx::norm(++counter << 4);
              T const t = Tx::make(id);
              std::size_t k = o.n % 30;
              it = s.insert(it, k, t);
              m.insert(at(), k, id);
              break;
            }
            continue;
          case H_RANGE:
          case H_IL:
          case H_INPUT: {
            if (!grow) continue;
            std::vector<u64> ids;
            std::size_t k = o.code % H_COUNT == H_IL ? 3 : o.n % 40;
            for (std::size_t i = 0; i != k; ++i)
              ids.push_back(Tx::norm(++counter << 4));
            if (o.code % H_COUNT == H_INPUT) {
              SourceState<T> st;
              st.ids = &ids;
              it = s.insert(it, InputIt<T>(&st, false), InputIt<T>(&st, true));
            } else if constexpr (Tx::copyable) {
              if (o.code % H_COUNT == H_IL)
                it = s.insert(it, {Tx::make(ids[0]), Tx::make(ids[1]),
                                   Tx::make(ids[2])});
              else {
                auto src = World<C>::make_all(ids);
                it = s.insert(it, src.begin(), src.end());
              }
            } else
              continue;
            m.insert(at(), ids.begin(), ids.end());
            break;
          }
          case H_ERASE:
            if (pos == n) continue;
            it = s.erase(it);
            m.erase(at());
            break;
          case H_ERASE_FWD: {
            std::size_t k = std::min<std::size_t>(o.n % 40, n - pos);
            it = s.erase(it, it + static_cast<D>(k));
            m.erase(at(), at() + static_cast<long>(k));
            break;
          }
          case H_ERASE_BACK: {
            std::size_t k = std::min<std::size_t>(o.n % 40, pos);
            it = s.erase(it - static_cast<D>(k), it);
            m.erase(at() - static_cast<long>(k), at());
            pos -= k;
            break;
          }
          case H_MOVE: {
            std::size_t t = o.n % (n + 1);
            if (o.v & 1)
              it += static_cast<D>(t) - static_cast<D>(pos);
            else {
              if (o.v & 2) t = n - std::min<std::size_t>(o.n % 3, n);
              // (erasing nothing makes it a non-const one)
              auto p = roundabout(s, t, o.v >> 2);
              it = s.erase(p, p);
            }
            pos = t;
            break;
          }
          case H_NEAR: {
            std::size_t k = o.n % 4;
            if (o.v & 1)
              for (; k && pos < n; --k) ++it, ++pos;
            else
              for (; k && pos > 0; --k) --it, --pos;
            break;
          }
          case H_SEG: {
            if (pos == n) continue;
            auto left = static_cast<std::size_t>(it.end() - it.current());
            auto in = static_cast<std::size_t>(it.current() - it.begin());
            if (o.v & 1) {
              it += static_cast<D>(left - 1);
              pos += left - 1;
              if (o.v & 2) ++it, ++pos;
            } else {
              it -= static_cast<D>(in);
              pos -= in;
              if ((o.v & 2) && pos) --it, --pos;
            }
            break;
          }
          default: continue;
        }
        pbt::checkpoint();
        if (s.height() >= 3) deep = true;
        ++step;
        REQUIRE(s.size() == m.size(), "size", s.size(), "want", m.size());
        check_as_fresh<Seq, T>(s, m, it, pos, r, step % 4 == 0);
        pbt::checkpoint();
      }
      check_as_fresh<Seq, T>(s, m, it, pos, b, true);
      label(s.height() >= 4 ? "ends with height 4 or more"
                            : s.height() == 3 ? "ends with height 3"
                                              : "ends with height up to 2");
      if (deep) pbt::nontrivial();
    }
    pbt::checkpoint();
  }
  static Case gen(Rng& r, std::size_t size_hi) {
    Case c;
    c.cfg[0] = static_cast<u32>(r.chance(1, 8) ? r.below(6) : r.below(size_hi));
    c.cfg[1] = static_cast<u32>(r.below(64));
    c.cfg[2] = r.chance(1, 2) ? 0 : static_cast<u32>(r.below(c.cfg[0] + 1));
    c.cfg[3] = r.u() >> 8;
    std::size_t n = 5 + r.below(40);
    unsigned bias = static_cast<unsigned>(r.below(3));
    std::vector<unsigned> wt{6, 8, 6, 3, 3, 3, 2, 16, 4, 4, 3, 6, 5};
    if (bias == 1) wt[H_ERASE] = 40;
    if (bias == 2) wt[H_R] = 40;
    for (std::size_t i = 0; i != n; ++i) {
      Op o{static_cast<u32>(r.pick(wt)), 0, 0, r.u() & 0xffffff,
           r.u() & 0xffffff};
      c.ops.push_back(o);
    }
    return c;
  }
};

template <class C>
struct Add {
  Add(char const* name, std::size_t size_hi, u64 quick, u64 thorough) {
    pbt::Suite s;
    s.name = std::string("chain ") + name;
    s.quick = quick;
    s.thorough = thorough;
    s.opnames = chain_names();
    s.gen = [size_hi](Rng& r, u64, bool) { return Chain<C>::gen(r, size_hi); };
    s.run = [](Case const& c) { Chain<C>::run(c); };
    pbt::Register(std::move(s));
    auto each = [](World<C>& x, Op const& o, Seen&) {
      auto& sl = x.slot[x.touched[0]];
      if (!sl.has_cursor) return;
      Rng r(o.v + 3u);
      check_as_fresh<typename C::Seq, typename C::T>(
          *sl.s, sl.m, sl.cursor, sl.s->index_of(sl.cursor), r, true);
    };
    pbt::Register(histories<C>(
        std::string("history ") + name, editing(), Size{10, 50, 150, 300},
        quick / 3, thorough / 3, each, [](World<C>& x, Seen& q) {
          x.check_all();
          if (q.top >= 3) pbt::nontrivial();
        }));
  }
  // Insertions and erasures of ranges beyond 16 bits.
  Add(char const* name, Size z, u64 quick, u64 thorough) {
    Profile p = editing();
    p.set({INS_N, INS_RANGE, INS_INPUT}, 14);
    p.set({ERASE_R}, 20);
    pbt::Register(histories<C>(
        name, p, z, quick, thorough,
        [](World<C>& x, Op const& o, Seen&) {
          auto& sl = x.slot[x.touched[0]];
          if (!sl.has_cursor) return;
          Rng r(o.v + 3u);
          check_as_fresh<typename C::Seq, typename C::T>(
              *sl.s, sl.m, sl.cursor, sl.s->index_of(sl.cursor), r, o.v % 4 == 0);
        },
        [](World<C>& x, Seen& q) {
          x.check_all();
          if (q.top >= 3) pbt::nontrivial();
        }));
  }
};
#if PART == 0
static Add<K<u32, 1, 3>> a("u32 seg1 base3", 120, 3000, 30000);
static Add<K<u32, 2, 3>> b("u32 seg2 base3", 200, 3000, 30000);
#elif PART == 1
static Add<K<u64, 3, 4>> a("u64 seg3 base4", 300, 2000, 20000);
static Add<K<u32, 1, 5>> b("u32 seg1 base5", 300, 2000, 20000);
#elif PART == 2
static Add<K<u32, 4, 3>> a("u32 seg4 base3", 300, 2000, 20000);
static Add<Dflt<u32>> b("u32 defaults", 800, 200, 2000);
#elif PART == 3
static Add<K<std::string, 3, 3>> a("string seg3 base3", 250, 1500, 15000);
static Add<K<std::uint8_t, 5, 6>> b("u8 seg5 base6", 500, 1000, 10000);
#elif PART == 4
static Add<K<Trk, 2, 4, TrackAlloc<Trk>>> a("Trk seg2 base4", 200, 1500, 15000);
#elif PART == 5
static Add<K<MoveOnly, 3, 3>> a("MoveOnly seg3 base3", 200, 1500, 15000);
#elif PART == 6
static Add<K<CopyOnly, 2, 3>> a("CopyOnly seg2 base3", 150, 1500, 15000);
#elif PART == 7
static Add<K<u32, 2, 3, fancy::RelativeAlloc<u32>>> a("u32 relative pointers", 200, 1500, 15000);
static Add<Cfg<u32, std::allocator<u32>, 0, 768>> b("u32 seg1 base47", 800, 300, 3000);
#endif
static Add<WideCfg> wide_(WIDE_NAME, wide(), 40, 400);
