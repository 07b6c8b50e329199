// C18: how much work operations do.
#include <cmath>
#include "fill.hpp"
using namespace d;
#if PART == 0
char const* const pbt::rule =
    "A case grows a sequence by a history of edits (up to tens of thousands "
    "of elements, by appending, prepending, inserting at one place, at random, "
    "and eroding it again) and then measures calls at generated positions: "
    "element constructions, copies and moves, allocations, comparisons, and "
    "dereferences of the allocator's pointers. Each count is compared with a "
    "bound made of the segment size, the node width, the height and the number "
    "of elements concerned, with constants two to three times what the "
    "unchanged code needs at most, and bursts of edits with a lower mean. Non-trivial: more than 500 elements and "
    "height >= 3 at a measured call.";
#endif

enum Measure : u32 {
  M_INSERT = OP_COUNT, M_ERASE, M_PUSHB, M_PUSHF, M_POPB, M_POPF, M_ACCESS,
  M_JUMP, M_ENDS, M_WALK, M_WALK_BACK, M_STRIDE, M_SEGMENTS, M_SWAP, M_MOVE,
  M_COPY, M_CLEAR, M_REVERSE, M_UNIQUE, M_REMOVE_IF, M_REMOVE, M_SORT, M_MERGE,
  M_SPLICE_ALL, M_SPLICE_RANGE, M_INS_RANGE, M_INS_N, M_ERASE_RANGE, M_RESIZE,
  M_ASSIGN, M_COMPARE, M_OBSERVE, M_COPY_ASSIGN, M_STEP, M_BURST, M_END
};
static char const* const m_names[] = {
    "M insert", "M erase", "M push_back", "M push_front", "M pop_back",
    "M pop_front", "M access", "M jump", "M ends", "M walk", "M walk back",
    "M stride", "M segments", "M swap", "M move", "M copy", "M clear",
    "M reverse", "M unique", "M remove_if", "M remove", "M sort", "M merge",
    "M splice all", "M splice range", "M insert range", "M insert n",
    "M erase range", "M resize", "M assign", "M compare", "M observe",
    "M copy assign", "M step", "M burst"};

struct Cost {
  double elem, allocs, derefs, compares;
};
struct Meter {
  u64 e0, a0, d0, c0;
  static u64 elem() { return tr_stats.creates + tr_stats.copied() + tr_stats.relocations(); }
  Meter() : e0(elem()), a0(mem::st.allocs), d0(fancy::derefs), c0(tr_stats.compares) {}
  Cost stop() const {
    return Cost{double(elem() - e0), double(mem::st.allocs - a0),
                double(fancy::derefs - d0), double(tr_stats.compares - c0)};
  }
};

template <class C>
struct Work {
  using W = World<C>;
  using Seq = typename C::Seq;
  using T = typename C::T;
  using Tx = Traits<T>;
  using Ids = std::vector<u64>;
  using D = typename Seq::difference_type;
  static constexpr double S = double(C::seg_max);
  static constexpr double B =
      double(((C::base - 16) / 16 > 3 ? (C::base - 16) / 16 : 3));

  static void within(char const* what, char const* unit, double got,
                     double per, double limit, std::size_t n) {
#ifdef PBT_MEASURE
    if (FILE* f = std::fopen("/tmp/b/measure.txt", "a")) {
      std::fprintf(f, "%s|%s|%g|%g\n", what, unit, got / per, limit);
      std::fclose(f);
    }
#endif
    REQUIRE(got <= limit * per, what, "needs", u64(got), unit, "where",
            u64(limit * per), "would be many, size", n);
  }

  static bool run(W& x, Op const& o) {
    auto& sl = x.slot[o.s % 3];
    auto& ot = x.slot[(o.s % 3 + 1) % 3];
    Seq& s = *sl.s;
    Seq& t = *ot.s;
    Ids& m = sl.m;
    std::size_t const n = m.size();
    std::size_t const pos = x.pos_of(sl, o.p);
    double h = double(std::max(s.height(), t.height())) + 1;
    // following a pointer per element, and several per segment
    double const lin = 0.2 + 0.8 * std::min(1.0, 2 / S);
    sl.has_cursor = ot.has_cursor = false;
    char const* const name = m_names[o.code - OP_COUNT];
    u64 const v = o.v;
    if (n > 500 && s.height() >= 3) pbt::nontrivial();
    auto one_edit = [&](Cost const& c, double times = 1) {
      double hh = std::max(h, double(std::max(s.height(), t.height())) + 1);
      within(name, "element operations", c.elem, times * (S + 1), 6 + 6 / times, n);
      within(name, "allocations", c.allocs, times * hh, 5, n);
      within(name, "dereferences", c.derefs, times * (S + hh * B), 7 + 23 / times, n);
    };
    auto none = [&](Cost const& c) {
      REQUIRE(c.elem == 0, name, "touches elements");
      REQUIRE(c.allocs == 0, name, "allocates");
    };
    auto lookup = [&](Cost const& c, double times = 1) {
      none(c);
      within(name, "dereferences", c.derefs, times * h * B, 14, n);
    };
    switch (o.code) {
      case M_INSERT: {
        u64 id = x.fresh(o.v);
        auto it = s.nth(pos);
        Meter q;
        s.insert(it, Tx::make(id));
        one_edit(q.stop());
        m.insert(m.begin() + long(pos), id);
        break;
      }
      case M_ERASE: {
        if (!n) return false;
        auto p = std::min(pos, n - 1);
        auto it = s.nth(p);
        Meter q;
        s.erase(it);
        one_edit(q.stop());
        m.erase(m.begin() + long(p));
        break;
      }
      case M_PUSHB:
      case M_PUSHF: {
        u64 id = x.fresh(o.v);
        Meter q;
        if (o.code == M_PUSHB)
          s.push_back(Tx::make(id));
        else
          s.push_front(Tx::make(id));
        one_edit(q.stop());
        m.insert(o.code == M_PUSHB ? m.end() : m.begin(), id);
        break;
      }
      case M_POPB:
      case M_POPF: {
        if (!n) return false;
        Meter q;
        if (o.code == M_POPB)
          s.pop_back();
        else
          s.pop_front();
        one_edit(q.stop());
        m.erase(o.code == M_POPB ? m.end() - 1 : m.begin());
        break;
      }
      case M_ACCESS: {
        if (!n) return false;
        auto p = std::min(pos, n - 1);
        for (int k = 0; k != 4; ++k) {
          Meter q;
          T* a = k == 0   ? std::addressof(s[p])
                 : k == 1 ? std::addressof(s.at(p))
                 : k == 2 ? std::addressof(*s.nth(p))
                          : std::addressof(*(s.begin() + D(p)));
          lookup(q.stop());
          REQUIRE(Tx::id(*a) == m[p], "");
        }
        Meter q;
        (void)s.nth(n + v);
        lookup(q.stop());
        break;
      }
      case M_JUMP: {
        auto it = s.nth(pos);
        std::size_t at = pos;
        Rng r(v);
        for (int k = 0; k != 6; ++k) {
          std::size_t to = k & 1 ? r.below(n + 1)
                                 : std::min(n, at + r.below(k * 5 + 2));
          Meter q;
          it += D(to) - D(at);
          lookup(q.stop());
          at = to;
        }
        if (at < n) REQUIRE(Tx::id(*it) == m[at], "");
        break;
      }
      case M_ENDS: {
        Meter q;
        auto b = s.begin(), e = s.end();
        auto rb = s.rbegin(), re = s.rend();
        auto pu = s.penultimate();
        (void)b, (void)e, (void)rb, (void)re, (void)pu;
        if (n) (void)std::addressof(s.front()), (void)std::addressof(s.back());
        lookup(q.stop(), 7);
        break;
      }
      case M_WALK: {
        auto it = s.begin();
        auto e = s.end();
        Meter q;
        std::size_t k = 0;
        for (; it != e; ++it) ++k;
        none(q.stop());
        within(name, "dereferences", q.stop().derefs, lin * double(n) + h * B, 22, n);
        REQUIRE(k == n, "");
        break;
      }
      case M_WALK_BACK: {
        auto it = s.end();
        auto e = s.begin();
        Meter q;
        std::size_t k = 0;
        for (; it != e; --it) ++k;
        none(q.stop());
        within(name, "dereferences", q.stop().derefs, lin * double(n) + h * B, 22, n);
        REQUIRE(k == n, "");
        break;
      }
      case M_STRIDE: {
        std::size_t d = 1 + (v >> 1) % (1 + n / 3);
        if (v % 4 == 0) d = 1 + d % 9;
        std::size_t at = 0, steps = 0;
        auto it = s.begin();
        Meter q;
        if (v & 1) {
          while (at + d <= n) it += D(d), at += d, ++steps;
        } else {
          it = s.end();
          at = n;
          while (at >= d) it -= D(d), at -= d, ++steps;
        }
        none(q.stop());
        within(name, "dereferences", q.stop().derefs,
               double(steps) * B * (std::log2(double(d)) + 2) + h * B, 7, n);
        break;
      }
      case M_SEGMENTS: {
        auto it = s.begin();
        std::size_t k = 0, segs = 0;
        Meter q;
        while (k < n) {
          k += std::size_t(it.end() - it.current());
          it.move_after_segment();
          ++segs;
        }
        if (n) {
          --it;
          k -= std::size_t(it.current() - it.begin()) + 1;
        }
        while (k) {
          it.move_before_segment();
          k -= std::size_t(it.current() - it.begin()) + 1;
        }
        none(q.stop());
        within(name, "dereferences", q.stop().derefs,
               2 * double(segs) + h * B, 22, n);
        break;
      }
      case M_STEP: {
        // no single step is worse than the height allows
        auto it = s.nth(pos);
        for (int k = 0; k != 8; ++k) {
          std::size_t p = s.index_of(it);
          Meter q;
          if (k < 4 && p < n)
            ++it;
          else if (p)
            --it;
          lookup(q.stop());
        }
        break;
      }
      case M_BURST: {
        // many edits of one kind: their mean is far below what one may cost
        unsigned const kind = unsigned(v % 6);
        unsigned const where = unsigned(v / 6 % 3);
        std::size_t const want = 40 + (v >> 8) % 160;
        if (n + want > 3 * x.max_size) return false;
        Rng r(v);
        double derefs = 0, per = 0, elem = 0;
        std::size_t done = 0, at = pos;
        for (; done != want; ++done) {
          std::size_t const k = m.size();
          if (kind >= 3 && k == 0) break;
          if (where == 0) at = r.below(k + 1);
          at = std::min(at, kind >= 3 ? k - 1 : k);
          double before = double(s.height());
          u64 id = kind < 3 ? x.fresh(o.v + done) : 0;
          auto it = s.nth(at);
          Meter q;
          if (kind == 0)
            s.insert(it, Tx::make(id));
          else if (kind == 1)
            s.push_back(Tx::make(id)), at = k;
          else if (kind == 2)
            s.push_front(Tx::make(id)), at = 0;
          else if (kind == 3)
            s.erase(it);
          else if (kind == 4)
            s.pop_back(), at = k - 1;
          else
            s.pop_front(), at = 0;
          Cost c = q.stop();
          derefs += c.derefs;
          elem += c.elem;
          per += S + (std::max(before, double(s.height())) + 1) * B;
          if (kind < 3)
            m.insert(m.begin() + long(at), id);
          else
            m.erase(m.begin() + long(at));
          if (where == 2 && kind == 0) ++at;
        }
        if (done < 40) break;
        char const* const kinds[] = {"M burst of insert", "M burst of push_back",
            "M burst of push_front", "M burst of erase", "M burst of pop_back",
            "M burst of pop_front"};
        within(kinds[kind], "dereferences", derefs, per, 6, n);
        within(kinds[kind], "element operations", elem, double(done) * (S + 1), 6, n);
        break;
      }
      case M_SWAP: {
        Meter q;
        if (v & 1)
          s.swap(t);
        else
          swap(s, t);
        none(q.stop());
        within(name, "dereferences", q.stop().derefs, 1, 40, n);
        sl.m.swap(ot.m);
        break;
      }
      case M_MOVE: {
        Meter q;
        Seq u(std::move(s));
        Seq w(std::move(u), t.get_allocator());
        s = std::move(w);
        none(q.stop());
        within(name, "dereferences", q.stop().derefs, 1, 100, n);
        break;
      }
      case M_COPY: {
        Meter q;
        Seq c(s);
        auto k = q.stop();
        within(name, "element operations", k.elem, double(n) + S, 15, n);
        within(name, "allocations", k.allocs, double(n) / S + h, 15, n);
        within(name, "dereferences", k.derefs,
               lin * (double(n) + 1) * (S + h * B), 10, n);
        REQUIRE(c.size() == n, "");
        break;
      }
      case M_COPY_ASSIGN: {
        Meter q;
        std::size_t const k = ot.m.size();
        t = s;
        double diff = double(n > k ? n - k : k - n);
        auto c = q.stop();
        within(name, "element operations", c.elem, double(n) + (n >= k ? diff + S + 1 : (diff + 1) * (S + 1)), 20,
               n);
        within(name, "dereferences", c.derefs,
               lin * (double(n) + double(k)) + (diff + 1) * (S + h * B), 26, n);
        ot.m = m;
        break;
      }
      case M_CLEAR: {
        u64 destroyed = tr_stats.destroyed;
        Meter q;
        t.clear();
        auto c = q.stop();
        none(c);
        REQUIRE(tr_stats.destroyed - destroyed == ot.m.size(), "");
        within(name, "dereferences", c.derefs, lin * double(ot.m.size()) + h * B, 24,
               ot.m.size());
        ot.m.clear();
        break;
      }
      case M_REVERSE: {
        Meter q;
        s.reverse();
        auto c = q.stop();
        within(name, "element operations", c.elem, double(n) + 1, 8, n);
        REQUIRE(c.allocs == 0, "");
        within(name, "dereferences", c.derefs, lin * double(n) + h * B, 24, n);
        std::reverse(m.begin(), m.end());
        break;
      }
      case M_UNIQUE:
      case M_REMOVE_IF:
      case M_REMOVE: {
        fill(x, sl, o.p >> 4, v);
        auto before = m;
        u64 k = v % 16;
        u64 id = x.fresh(u32(v));
        T const val = Tx::make(id);
        u64 calls = 0;
        Meter q;
        if (o.code == M_UNIQUE)
          s.unique([&](T const& a, T const& b) { return ++calls, a == b; });
        else if (o.code == M_REMOVE_IF)
          s.remove_if([&](T const& a) {
            return ++calls, Tx::key(Tx::id(a)) == k;
          });
        else
          s.remove(val);
        auto c = q.stop();
        if (o.code == M_UNIQUE)
          m.erase(std::unique(m.begin(), m.end(),
                              [](u64 a, u64 b) {
                                return Tx::key(a) == Tx::key(b);
                              }),
                  m.end());
        else
          m.erase(std::remove_if(m.begin(), m.end(),
                                 [&](u64 a) { return Tx::key(a) == k; }),
                  m.end());
        double gone = double(n - m.size());
        within(name, "element operations", c.elem, double(n) + (gone + 1) * (S + 1),
               12, n);
        within(name, "dereferences", c.derefs,
               lin * double(n) + (gone + 1) * (S + h * B), 28, n);
        within(name, "calls of the function", double(calls), double(n) + 1, 3,
               n);
        within(name, "comparisons", c.compares, double(n) + 1, 5, n);
        break;
      }
      case M_SORT: {
        fill(x, sl, o.p >> 4, v);
        bool up = v & 1;
        Meter q;
        if (up)
          s.sort();
        else
          s.sort([](T const& a, T const& b) { return b < a; });
        auto c = q.stop();
        double lg = std::log2(double(n) + 2) + 1;
        std::stable_sort(m.begin(), m.end(), [up](u64 a, u64 b) {
          return up ? Tx::key(a) < Tx::key(b) : Tx::key(b) < Tx::key(a);
        });
        within(name, "comparisons", c.compares, double(n) * lg + 4, 4, n);
        within(name, "element operations", c.elem, double(n) * lg + 4, 8, n);
        within(name, "dereferences", c.derefs, (double(n) * lg + 4) * (h * B),
               3, n);
        break;
      }
      case M_MERGE: {
        if (n + ot.m.size() > x.max_size) return false;
        fill(x, sl, o.p >> 4, v);
        fill(x, ot, o.p >> 10, v + 1);
        s.sort();
        t.sort();
        double k = double(ot.m.size()), all = k + double(n);
        Meter q;
        s.merge(t);
        auto c = q.stop();
        auto less = [](u64 a, u64 b) { return Tx::key(a) < Tx::key(b); };
        std::stable_sort(m.begin(), m.end(), less);
        std::stable_sort(ot.m.begin(), ot.m.end(), less);
        std::size_t mid = m.size();
        m.insert(m.end(), ot.m.begin(), ot.m.end());
        std::inplace_merge(m.begin(), m.begin() + long(mid), m.end(), less);
        ot.m.clear();
        within(name, "comparisons", c.compares, all + 4, 8, n);
        within(name, "element operations", c.elem,
               all + (k + 1) * (S + 1), 12, n);
        within(name, "dereferences", c.derefs,
               lin * all + (k + 1) * (S + h * B) + lin * all * h, 14, n);
        break;
      }
      case M_SPLICE_ALL: {
        if (n + ot.m.size() > x.max_size) return false;
        std::size_t k = ot.m.size();
        auto it = s.nth(pos);
        Meter q;
        s.splice(it, t);
        one_edit(q.stop(), double(k) + 1);
        m.insert(m.begin() + long(pos), ot.m.begin(), ot.m.end());
        ot.m.clear();
        break;
      }
      case M_SPLICE_RANGE: {
        std::size_t a = ot.m.empty() ? 0 : (v >> 3) % ot.m.size();
        std::size_t b = std::min(ot.m.size(), a + (v & 7));
        auto it = s.nth(pos);
        auto f = t.nth(a), l = t.nth(b);
        Meter q;
        s.splice(it, t, f, l);
        one_edit(q.stop(), 2 * double(b - a) + 2);
        m.insert(m.begin() + long(pos), ot.m.begin() + long(a),
                 ot.m.begin() + long(b));
        ot.m.erase(ot.m.begin() + long(a), ot.m.begin() + long(b));
        break;
      }
      case M_INS_RANGE: {
        std::size_t k = v % 40;
        Ids ids = x.fresh_n(k, u32(v));
        auto src = W::make_all(ids);
        auto it = s.nth(pos);
        Meter q;
        s.insert(it, src.begin(), src.end());
        one_edit(q.stop(), double(k) + 1);
        m.insert(m.begin() + long(pos), ids.begin(), ids.end());
        break;
      }
      case M_INS_N: {
        std::size_t k = v % 40;
        u64 id = x.fresh(u32(v));
        T const val = Tx::make(id);
        auto it = s.nth(pos);
        Meter q;
        s.insert(it, k, val);
        one_edit(q.stop(), double(k) + 1);
        m.insert(m.begin() + long(pos), k, id);
        break;
      }
      case M_ERASE_RANGE: {
        std::size_t e = std::min(n, pos + (v & 31));
        if ((v & 0x1f00) == 0x1f00) e = n;
        auto f = s.nth(pos), l = s.nth(e);
        Meter q;
        s.erase(f, l);
        one_edit(q.stop(), double(e - pos) + 1);
        m.erase(m.begin() + long(pos), m.begin() + long(e));
        break;
      }
      case M_RESIZE: {
        std::size_t k = v & 1 ? n + (v >> 1) % 50 : n - std::min(n, (v >> 1) % 50);
        Meter q;
        s.resize(k);
        auto c = q.stop();
        double diff = double(k > n ? k - n : n - k);
        one_edit(c, diff + 1);
        if (k > n)
          within(name, "element operations at the end", c.elem, diff + S + 1,
                 16, n);
        m.resize(k, Tx::dflt());
        break;
      }
      case M_ASSIGN: {
        std::size_t k = n > 20 ? n - 10 + v % 20 : v % 40;
        Ids ids = x.fresh_n(k, u32(v));
        auto src = W::make_all(ids);
        Meter q;
        s.assign(src.begin(), src.end());
        auto c = q.stop();
        double diff = double(k > n ? k - n : n - k);
        within(name, "element operations", c.elem, double(k) + (k >= n ? diff + S + 1 : (diff + 1) * (S + 1)), 20,
               n);
        within(name, "dereferences", c.derefs,
               lin * double(k) + (diff + 1) * (S + h * B), 26, n);
        m = ids;
        break;
      }
      case M_COMPARE: {
        Seq c(s);
        Meter q;
        bool e = s == c, l = s < c, g = s <= c;
        REQUIRE(e && !l && g, "");
        auto k = q.stop();
        none(k);
        within(name, "comparisons", k.compares, double(n) + 1, 16, n);
        within(name, "dereferences", k.derefs, lin * double(n) + h * B, 130, n);
        break;
      }
      case M_OBSERVE: {
        auto it = s.nth(pos), jt = s.nth(n / 2);
        Meter q;
        (void)(s.size() + s.empty() + s.height() + s.max_size());
        (void)s.index_of(it);
        (void)(it - jt);
        (void)(it < jt);
        (void)(it == jt);
        none(q.stop());
        within(name, "dereferences", q.stop().derefs, 1, 24, n);
        break;
      }
      default: return false;
    }
    label(name);
    return true;
  }
};

template <class C>
struct Add {
  Add(char const* name, std::size_t size, u64 quick, u64 thorough) {
    pbt::Suite s;
    s.name = name;
    s.opnames = op_names();
    for (auto n : m_names) s.opnames.push_back(n);
    s.quick = quick;
    s.thorough = thorough;
    std::size_t const max_size = 2 * size;
    s.gen = [size](Rng& r, u64, bool) {
      Case c;
      Profile p = editing();
      for (std::size_t round = 1 + r.below(3); round; --round) {
        for (u32 k = 0; k != 3; ++k) {
          if (k && r.chance(1, 2)) continue;
          Op o = any_op(r, p, BULK_INS);
          o.s = k;
          o.n = u32(1 + r.below(r.chance(1, 4) ? size / 20 + 1 : size));
          c.ops.push_back(o);
          if (r.chance(1, 2)) {
            o = any_op(r, p, BULK_ERASE);
            o.s = k;
            o.n = u32(r.below(size * 2 / 3 + 1));
            c.ops.push_back(o);
          }
        }
        for (std::size_t n = 10 + r.below(40); n; --n) {
          u32 code = M_INSERT + u32(r.below(M_END - M_INSERT));
          if (r.chance(1, 2)) code = M_INSERT + u32(r.below(9));
          if (r.chance(1, 8)) code = M_BURST;
          // the ones that end a sequence are rarer
          if ((code == M_CLEAR || code == M_SPLICE_ALL || code == M_MERGE ||
               code == M_UNIQUE) &&
              r.chance(2, 3))
            code = M_JUMP;
          Op o = any_op(r, p, 0);
          o.code = code;
          o.s = r.chance(3, 4) ? 0 : u32(r.below(3));
          c.ops.push_back(o);
        }
      }
      return c;
    };
    s.run = [max_size](Case const& c) {
      mem::reset();
      tr_stats = TrStats{};
      World<C> wd;
      wd.max_size = max_size;
      Seen seen;
      for (auto const& o : c.ops) {
        if (o.code < OP_COUNT) {
          if (wd.apply(o)) seen.look(*wd.slot[o.s % 3].s, wd.height_before);
        } else
          Work<C>::run(wd, o);
        pbt::checkpoint();
      }
      wd.check_all();
      seen.report();
    };
    pbt::Register{s};
  }
};
// base_target for k entries: the nodes of fancy pointers have the same size
template <std::size_t S, std::size_t B, class T = Trk>
using KC = K<T, S, B, fancy::CountingAlloc<T>>;
#if PART == 0
static Add<KC<1, 3>> a("seg1 base3", 3000, 160, 400);
static Add<KC<2, 3>> b("seg2 base3", 3000, 160, 400);
#elif PART == 1
static Add<KC<3, 4>> a("seg3 base4", 3000, 160, 400);
static Add<KC<4, 8>> b("seg4 base8", 5000, 120, 300);
#elif PART == 2
static Add<KC<8, 3>> a("seg8 base3", 5000, 120, 300);
static Add<Cfg<Trk, fancy::CountingAlloc<Trk>, 0, 0>> b("seg0 base0", 3000, 160, 400);
#elif PART == 3
static Add<Dflt<Trk, fancy::CountingAlloc<Trk>>> a("defaults", 30000, 32, 80);
static Add<KC<1, 47>> b("seg1 base47", 10000, 40, 100);
#elif PART == 4
static Add<KC<32, 3>> a("seg32 base3", 10000, 60, 150);
static Add<KC<2, 3>> b("seg2 base3 large", 20000, 32, 80);
static Add<KC<256, 8>> c("seg256 base8", 10000, 48, 120);
#endif
