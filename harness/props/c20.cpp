// C20: arguments that refer to elements of the sequence itself.
#include "drive.hpp"
using namespace d;
#if PART == 0
char const* const pbt::rule =
    "Histories of editing calls in which every other call gets a reference to "
    "an element of the sequence it changes (or to a part of one): insert, "
    "counted insert, emplace, push and emplace at both ends, resize, remove, "
    "assignment of an element to another; the element is chosen relative to "
    "the edited position (the same, one before, one after, the ends of its "
    "segment, the neighbouring segments, first, last, any). 'All pairs' cases "
    "build a small tree by a generated history and try one kind of call with "
    "every position and every element. The model copies the value first; "
    "contents and the returned iterator are compared, elements report use "
    "after destruction or after a move. Non-trivial: three such calls at "
    "height >= 2, or a tree of height >= 2 with all pairs.";
#endif

enum Alias : u32 {
  A_INSERT = OP_COUNT,
  A_INSERT_N,
  A_EMPLACE,
  A_PART,
  A_PUSHB,
  A_EMPB,
  A_PUSHF,
  A_EMPF,
  A_RESIZE,
  A_REMOVE,
  A_SET,
  A_PARTB,
  A_PARTF,
  A_END
};
static std::vector<char const*> names() {
  auto n = op_names();
  for (auto s : {"insert own", "insert n own", "emplace own",
                 "emplace a part of own", "push_back own", "emplace_back own",
                 "push_front own", "emplace_front own", "resize with own",
                 "remove own", "assign own", "emplace_back a part of own",
                 "emplace_front a part of own"})
    n.push_back(s);
  return n;
}

// Arguments that refer into an element. make_part calls f with arguments that
// construct an element, and returns the id that it has.
template <class T>
struct Parts {
  template <class F>
  static void call(T const& x, u32, F f) {
    f(x);
  }
  static u64 id(u64 id, u32) { return id; }
};
template <>
struct Parts<std::string> {
  template <class F>
  static void call(std::string const& x, u32 how, F f) {
    switch (how % 3) {
      case 0: f(x.c_str()); break;
      case 1: f(x, std::size_t(0), std::size_t(64)); break;
      default: f(x.begin(), x.end()); break;
    }
  }
  static u64 id(u64 id, u32) { return id; }
};
template <std::size_t P>
struct Parts<Pod<P>> {
  template <class F>
  static void call(Pod<P> const& x, u32, F f) {
    f(x.v);  // a reference to a member
  }
  static u64 id(u64 id, u32) { return id; }
};
template <unsigned F_, std::size_t P>
struct Parts<Tr<F_, P>> {
  template <class F>
  static void call(Tr<F_, P> const& x, u32, F f) {
    f(x.ref());
  }
  static u64 id(u64 id, u32) { return id; }
};
template <>
struct Parts<CopyOnly> {
  template <class F>
  static void call(CopyOnly const& x, u32, F f) {
    f(x.t.ref());
  }
  static u64 id(u64 id, u32) { return id; }
};

template <class C>
struct Own {
  using W = World<C>;
  using T = typename C::T;
  using Tx = Traits<T>;
  using Slot = typename W::Slot;

  // The index of the element that the argument refers to.
  static std::size_t pick(Slot& x, std::size_t pos, u32 v) {
    std::size_t const n = x.m.size();
    if (pos >= n) pos = n - 1;
    auto it = x.s->nth(pos);
    std::size_t const in = static_cast<std::size_t>(it.current() - it.begin());
    std::size_t const len = static_cast<std::size_t>(it.end() - it.begin());
    std::size_t const first = pos - in;
    std::size_t r = v >> 4;
    switch (v & 15) {
      case 0: return pos;
      case 1: return pos ? pos - 1 : 0;
      case 2: return std::min(pos + 1, n - 1);
      case 3: return 0;
      case 4: return n - 1;
      case 5: return first;
      case 6: return first + len - 1;
      case 7: return std::min(first + len, n - 1);
      case 8: return first ? first - 1 : 0;
      case 9: return first + r % len;
      case 10: return std::min(n - 1, pos + r % 5);
      case 11: return pos - std::min<std::size_t>(pos, r % 5);
      default: return r % n;
    }
  }
  static T const& ref(Slot& x, std::size_t i, u32 how) {
    auto const& cs = *x.s;
    switch (how % 6) {
      case 0: return cs[i];
      case 1: return *cs.nth(i);
      case 2: return *(cs.begin() + static_cast<std::ptrdiff_t>(i));
      case 3:
        if (i == 0) return cs.front();
        if (i + 1 == cs.size()) return cs.back();
        return cs.at(i);
      case 4: return cs.begin()[static_cast<std::ptrdiff_t>(i)];
      default: return *--cs.nth(i + 1);
    }
  }
  static std::ptrdiff_t sd(std::size_t i) {
    return static_cast<std::ptrdiff_t>(i);
  }

  // One call with an argument of its own. pos: where; i: which element.
  static void call(W& w, Slot& x, u32 code, std::size_t pos, std::size_t i,
                   u32 n, u32 how) {
    auto& s = *x.s;
    auto& m = x.m;
    u64 const id = m[i];
    T const& own = ref(x, i, how >> 3);
    using It = typename C::Seq::iterator;
    switch (code) {
      case A_INSERT: {
        auto r = s.insert(w.iter(x, pos, how), own);
        m.insert(m.begin() + sd(pos), id);
        w.returned(x, r, pos);
        break;
      }
      case A_INSERT_N: {
        auto r = s.insert(w.iter(x, pos, how), n, own);
        m.insert(m.begin() + sd(pos), n, id);
        w.returned(x, r, pos);
        break;
      }
      case A_EMPLACE: {
        auto r = s.emplace(w.iter(x, pos, how), own);
        m.insert(m.begin() + sd(pos), id);
        w.returned(x, r, pos);
        break;
      }
      case A_PART: {
        auto p = w.iter(x, pos, how);
        It r{};
        Parts<T>::call(own, n, [&](auto const&... a) { r = s.emplace(p, a...); });
        m.insert(m.begin() + sd(pos), Parts<T>::id(id, n));
        w.returned(x, r, pos);
        break;
      }
      case A_PUSHB:
        s.push_back(own);
        m.push_back(id);
        w.invalidate(x);
        break;
      case A_EMPB:
        s.emplace_back(own);
        m.push_back(id);
        w.invalidate(x);
        break;
      case A_PARTB:
        Parts<T>::call(own, n, [&](auto const&... a) { s.emplace_back(a...); });
        m.push_back(Parts<T>::id(id, n));
        w.invalidate(x);
        break;
      case A_PUSHF:
        s.push_front(own);
        m.insert(m.begin(), id);
        w.invalidate(x);
        break;
      case A_EMPF:
        s.emplace_front(own);
        m.insert(m.begin(), id);
        w.invalidate(x);
        break;
      case A_PARTF:
        Parts<T>::call(own, n, [&](auto const&... a) { s.emplace_front(a...); });
        m.insert(m.begin(), Parts<T>::id(id, n));
        w.invalidate(x);
        break;
      case A_RESIZE: {
        std::size_t const to =
            n & 1 ? m.size() + (n >> 1) % 50
                  : m.size() - std::min<std::size_t>(m.size(), (n >> 1) % 20);
        s.resize(to, own);
        m.resize(to, id);
        w.invalidate(x);
        break;
      }
      case A_REMOVE: {
        s.remove(own);
        u64 const key = Tx::key(id);
        m.erase(std::remove_if(m.begin(), m.end(),
                               [&](u64 a) { return Tx::key(a) == key; }),
                m.end());
        w.invalidate(x);
        break;
      }
      case A_SET:
        if (pos >= m.size()) pos = m.size() - 1;
        s[pos] = own;
        m[pos] = id;
        break;
      default: break;
    }
    pbt::checkpoint();
  }

  static void lifetimes(W& w) {
    if (!std::is_same<T, Trk>::value && !std::is_same<T, CopyOnly>::value)
      return;
    long long want = 0;
    for (auto& sl : w.slot) want += static_cast<long long>(sl.m.size());
    REQUIRE(tr_stats.live == want, tr_stats.live,
            "elements are alive, the containers hold", want);
  }

  static pbt::Suite histories(std::string name, Size z, u64 quick,
                              u64 thorough) {
    pbt::Suite s;
    s.name = name;
    s.opnames = names();
    s.quick = quick;
    s.thorough = thorough;
    s.gen = [z](Rng& r, u64, bool) {
      Profile p = editing();
      apply_size(p, z);
      Case c = gen_history(r, p);
      std::vector<Op> ops;
      for (auto const& o : c.ops) {
        ops.push_back(o);
        if (r.chance(1, 3)) continue;
        Op a = o;
        // the position the last call left (cursor), or any
        a.code = static_cast<u32>(A_INSERT + r.below(A_END - A_INSERT));
        if (a.code == A_REMOVE && r.chance(2, 3)) a.code = A_INSERT;
        a.p = (r.u() & 0xfffffff0u) | static_cast<u32>(r.below(16));
        a.n = static_cast<u32>(r.below(4096) << 20) |
              static_cast<u32>(r.below(r.chance(1, 6) ? 200 : 12));
        a.v = (r.u() & 0xfffff0u) | static_cast<u32>(r.below(16));
        ops.push_back(a);
      }
      c.ops.swap(ops);
      return c;
    };
    auto max_size = z.max_size;
    s.run = [max_size](Case const& c) {
      mem::reset();
      tr_stats = TrStats{};
      {
        W w;
        w.max_size = max_size;
        unsigned deep = 0;
        for (auto const& o : c.ops) {
          if (o.code < OP_COUNT) {
            w.apply(o);
            continue;
          }
          Slot& x = w.slot[o.s % 3];
          if (x.m.empty() || x.m.size() > max_size) continue;
          std::size_t const pos = w.pos_of(x, o.p);
          std::size_t const i = pick(x, pos, o.v);
          label(names()[o.code]);
          auto h = x.s->height();
          if (h >= 2) ++deep;
          if (i == pos) label("the element at the position itself");
          call(w, x, o.code, pos, i, o.n & 0xffff, o.n >> 20);
          if (x.s->height() > h) label("the call added a level");
          w.check_contents(static_cast<int>(o.s % 3));
          lifetimes(w);
        }
        w.check_all();
        if (deep >= 3) pbt::nontrivial();
      }
      pbt::checkpoint();
    };
    return s;
  }

  static pbt::Suite all_pairs(std::string name, u64 quick, u64 thorough) {
    pbt::Suite s;
    s.name = name + " all pairs";
    s.opnames = names();
    s.quick = quick;
    s.thorough = thorough;
    s.gen = [](Rng& r, u64, bool) {
      Case c;
      Profile p = editing();
      p.set({CLEAR, BULK_ERASE, ASSIGN_N, ASSIGN_RANGE, ASSIGN_INPUT,
             ASSIGN_IL, OPEQ_IL, RESIZE, RESIZE_V},
            0);
      Op o = any_op(r, p, BULK_INS);
      o.s = 0;
      o.n = static_cast<u32>(1 + r.below(24));
      c.ops.push_back(o);
      std::size_t n = r.below(6);
      for (std::size_t i = 0; i != n; ++i) {
        o = any_op(r, p, r.pick(p.weight));
        o.s = 0;
        if (o.code == BULK_INS) o.n = 3;
        c.ops.push_back(o);
      }
      o = any_op(r, p, 0);
      o.code = static_cast<u32>(A_INSERT + r.below(A_END - A_INSERT));
      o.s = 0;
      o.n = static_cast<u32>(r.below(4096) << 20) |
            static_cast<u32>(r.below(20));
      c.ops.push_back(o);
      return c;
    };
    s.run = [](Case const& c) {
      if (c.ops.empty() || c.ops.back().code < OP_COUNT) return;
      bool high = false;
      u64 pairs = 0;
      Op const o = c.ops.back();
      for (std::size_t pos = 0, end = 1; pos <= end; ++pos)
        for (std::size_t i = 0; i <= end; ++i) {
          mem::reset();
          tr_stats = TrStats{};
          W w;
          w.max_size = 40;
          for (std::size_t k = 0; k + 1 < c.ops.size(); ++k)
            if (c.ops[k].code < OP_COUNT) w.apply(c.ops[k]);
          Slot& x = w.slot[0];
          end = x.m.size();
          if (i >= end || pos > end) continue;
          high = high || x.s->height() >= 2;
          call(w, x, o.code, pos, i, o.n & 0xffff,
               (o.n >> 20) + static_cast<u32>(pos + i));
          w.check_contents(0);
          lifetimes(w);
          ++pairs;
          // these do not depend on the position
          if (o.code >= A_PUSHB && o.code != A_SET && i + 1 >= end) pos = end;
        }
      label("pairs of position and element", pairs);
      pbt::checkpoint();
      if (high) pbt::nontrivial();
    };
    return s;
  }
};

template <class C>
struct Add {
  Add(char const* name, u64 quick, u64 thorough, Size z = Size{}) {
    pbt::Register{Own<C>::histories(name, z, quick, thorough)};
    if (z.max_size <= 500)
      pbt::Register{Own<C>::all_pairs(name, quick / 4, thorough / 4)};
  }
};
template <class T, std::size_t S, std::size_t B>
using KT = K<T, S, B, TrackAlloc<T>>;
#if PART == 0
static Add<KT<Trk, 1, 3>> a("Trk seg1 base3", 1000, 10000);
static Add<KT<Trk, 3, 4>> b("Trk seg3 base4", 1000, 10000);
#elif PART == 1
static Add<KT<Trk, 2, 3>> a("Trk seg2 base3", 1000, 10000);
static Add<KT<u32, 3, 3>> b("u32 seg3 base3", 1000, 10000);
#elif PART == 2
static Add<KT<CopyOnly, 3, 3>> a("CopyOnly seg3 base3", 1000, 10000);
static Add<KT<std::string, 2, 3>> b("string seg2 base3", 1000, 10000);
#elif PART == 3
static Add<KT<std::string, 5, 4>> a("string seg5 base4", 1000, 10000);
static Add<KT<Pod<9>, 4, 3>> b("Pod9 seg4 base3", 1000, 10000);
#elif PART == 4
static Add<KT<u32, 1, 3>> a("u32 seg1 base3", 1000, 10000);
static Add<K<Trk, 3, 3, HookAlloc<Trk>>> b("Trk seg3 base3 hooks", 1000, 10000);
#elif PART == 5
static Add<KT<u32, 64, 6>> a("u32 seg64 base6", 100, 1000, middle());
static Add<Dflt<std::string>> b("string defaults", 60, 600, middle());
#elif PART == 6
static Add<KT<u64, 2, 4>> a("u64 seg2 base4", 1000, 10000);
static Add<K<SelfAware, 3, 3>> b("SelfAware seg3 base3", 1000, 10000);
#elif PART == 7
static Add<K<Trk, 2, 3, fancy::RelativeAlloc<Trk>>> a("Trk relative pointers", 1000, 10000);
static Add<Dflt<Trk>> b("Trk defaults", 60, 600, middle());
#endif
