// C10: failed bulk operations.
#include <set>
#include "drive.hpp"
#include "probe.hpp"
using namespace d;
#if PART == 0
char const* const pbt::rule =
    "Enumeration: a case is a history and one bulk operation (counted and "
    "range insertions, assignments, constructions, splices, merges, sort, "
    "unique, remove); the history is replayed and the operation run with its "
    "1st, 2nd, 3rd ... fault point (allocation, element creation, copy, copy "
    "assignment, source iterator, comparison, predicate) failing, until it "
    "succeeds. Chaos: histories over all operations in which random fault "
    "points fail. After each failure the contents are compared with what the "
    "guarantee allows, all ways of reading agree, and later edits and the end "
    "of the containers go through without a leak. Non-trivial: a failure at "
    "height 2 or more, or three failures in one case.";
#endif

template <class T>
struct Moved {  // was the element moved from, as far as can be seen?
  static bool is(u64 id) { return id >> 63; }
};
template <>
struct Moved<std::string> {
  static bool is(u64 id) { return id == 0; }
};

template <class C>
struct Bulk {
  using T = typename C::T;
  using Tx = Traits<T>;
  using W = World<C>;
  using Ids = std::vector<u64>;

  static Ids read(typename C::Seq const& s) {
    Ids r;
    std::size_t n = s.size();
    for (auto it = s.begin(); it != s.end(); ++it) {
      REQUIRE(r.size() < n, "iteration goes beyond the size");
      r.push_back(Tx::id(*it));
    }
    REQUIRE(r.size() == n, "iteration yields", r.size(), "of", n);
    return r;
  }
  // Values of a and b come from `from`, none more often than it is there.
  static void no_more_than(Ids const& a, Ids const& b, Ids const& from,
                           char const* nm) {
    // a moved value is gone from where it was, unless moves are copies
    bool const exact = !std::is_trivially_copyable<T>::value &&
                       !std::is_same<T, CopyOnly>::value;
    std::multiset<u64> have(from.begin(), from.end());
    for (auto v : {&a, &b})
      for (auto id : *v) {
        if (Moved<T>::is(id)) continue;
        auto it = have.find(id);
        REQUIRE(it != have.end(), nm, "failed and left the value", id,
                "that was not there, or more often than it was");
        if (exact) have.erase(it);
      }
  }
  static Ids join(Ids a, Ids const& b) {
    a.insert(a.end(), b.begin(), b.end());
    return a;
  }
  // `now` is `old` with a prefix of `added` (j of them) at pos.
  static void inserted_prefix(Ids const& now, Ids const& old, Ids const& added,
                              std::size_t pos, char const* nm) {
    REQUIRE(now.size() >= old.size(), nm, "failed and lost",
            old.size() - now.size(), "elements");
    std::size_t j = now.size() - old.size();
    REQUIRE(j <= added.size(), nm, "failed and added", j, "of", added.size());
    Ids want(old.begin(), old.begin() + long(pos));
    want.insert(want.end(), added.begin(), added.begin() + long(j));
    want.insert(want.end(), old.begin() + long(pos), old.end());
    for (std::size_t i = 0; i != want.size(); ++i)
      REQUIRE(now[i] == want[i], nm, "failed with", j, "of", added.size(),
              "inserted at", pos, "element", i, "is", now[i], "want", want[i]);
    label("failed insertions that kept a prefix", j > 0);
  }
  static void unchanged(Ids const& now, Ids const& old, char const* nm) {
    REQUIRE(now == old, nm, "failed and changed a container it only reads");
  }
  // A source that elements [from, to) are moved out of: the others are there,
  // in order; of those some, or what moving left of them.
  static void husks(Ids const& now, Ids const& old, std::size_t from,
                    std::size_t to, char const* nm) {
    std::size_t const tail = old.size() - to;
    REQUIRE(now.size() <= old.size() && now.size() >= from + tail, nm,
            "failed and left", now.size(), "of", old.size(), "in the source");
    for (std::size_t i = 0; i != from; ++i)
      REQUIRE(now[i] == old[i], nm, "failed; element", i, "of the source is",
              now[i]);
    for (std::size_t i = 0; i != tail; ++i)
      REQUIRE(now[now.size() - tail + i] == old[to + i], nm,
              "failed; element", to + i, "of the source is",
              now[now.size() - tail + i]);
  }

  // Runs o with the f-th fault failing. Says whether it failed.
  static bool step(W& x, Op const& o, unsigned mask, u64 f, bool& did) {
    auto& a = x.slot[o.s % 3];
    auto& b = x.slot[(o.s / 3) % 3];
    bool const same = &a == &b;
    for (auto& sl : x.slot) sl.has_cursor = false;
    Ids const old_a = a.m, old_b = b.m;
    auto const code = o.code % OP_COUNT;
    char const* nm = op_names_static()[code];
    std::size_t const pos = x.pos_of(a, o.p);
    std::size_t const room =
        old_a.size() < x.max_size ? x.max_size - old_a.size() : 0;
    u64 const counter = x.counter;
    std::size_t const blocks = mem::st.live.size(), bytes = mem::st.bytes;
    std::size_t const height = a.s->height();
    std::size_t const was_h = x.height_before;
    (void)was_h;
    bool thrown = false;
    pbt::arm(mask, f);
    try {
      did = x.apply(o);
    } catch (pbt::Injected const& e) {
      thrown = true;
      REQUIRE(pbt::faults.fired && e.kind == pbt::faults.fired_kind,
              "another exception than the one thrown");
    }
    pbt::disarm();
    pbt::checkpoint();
    if (!thrown) {
      REQUIRE(!pbt::faults.fired, nm, "swallowed an exception");
      return false;
    }
    int const kind = pbt::faults.fired_kind;
    label(kind == pbt::F_ALLOC    ? "failed: allocation"
          : kind == pbt::F_CREATE ? "failed: creation of an element"
          : kind == pbt::F_COPY   ? "failed: copy of an element"
          : kind == pbt::F_ASSIGN ? "failed: copy assignment"
          : kind == pbt::F_SOURCE ? "failed: source iterator"
                                  : "failed: comparison or predicate");
    if (height >= 2) label("failures at height 2 or more");

    Ids now_a = read(*a.s), now_b = same ? now_a : read(*b.s);
    for (auto& sl : x.slot)
      if (&sl != &a && &sl != &b) unchanged(read(*sl.s), sl.m, nm);
    Ids fresh;  // the values the operation may have brought
    for (u64 i = counter; i != x.counter; ++i)
      for (u64 low = 0; low != 16; ++low)
        fresh.push_back(Tx::norm(((i + 1) << 4) | low));
    switch (code) {
      case INS_N:
      case INS_RANGE:
      case INS_INPUT:
      case INS_IL: {
        Ids added;
        if (code == INS_N) {
          std::size_t k = std::min<std::size_t>((o.n & 0xffff) % 40, room);
          added.assign(k, Tx::norm(((counter + 1) << 4) | (o.v & 15)));
        } else {
          for (u64 i = 0; i != x.counter - counter; ++i)
            added.push_back(Tx::norm(((counter + 1 + i) << 4) |
                                     ((o.v + i * (1 + (o.v >> 4) % 5)) & 15)));
        }
        inserted_prefix(now_a, old_a, added, pos, nm);
        break;
      }
      case ASSIGN_N:
      case RESIZE:
      case RESIZE_V: {
        Ids many(x.max_size, Tx::norm(((counter + 1) << 4) | (o.v & 15)));
        many.resize(many.size() * 2, Tx::dflt());
        no_more_than(now_a, {}, join(old_a, many), nm);
        break;
      }
      case ASSIGN_RANGE:
      case ASSIGN_INPUT:
      case ASSIGN_IL:
      case OPEQ_IL:
        no_more_than(now_a, {}, join(old_a, fresh), nm);
        break;
      case COPY_ASSIGN:
        if (same)
          unchanged(now_a, old_a, nm);
        else {
          unchanged(now_b, old_b, nm);
          no_more_than(now_a, {}, join(old_a, old_b), nm);
        }
        break;
      case COPY_CTOR:
      case CTOR_N:
      case CTOR_NV:
      case CTOR_RANGE:
      case CTOR_INPUT:
      case CTOR_IL:
        unchanged(now_a, old_a, nm);
        if (code == COPY_CTOR) unchanged(now_b, old_b, nm);
        REQUIRE(mem::st.live.size() == blocks && mem::st.bytes == bytes, nm,
                "failed and left", mem::st.live.size() - blocks, "blocks");
        break;
      case MOVE_CTOR:
        unchanged(now_a, old_a, nm);
        husks(now_b, old_b, 0, old_b.size(), nm);
        REQUIRE(mem::st.live.size() == blocks && mem::st.bytes == bytes, nm,
                "failed and left", mem::st.live.size() - blocks, "blocks");
        break;
      case MOVE_ASSIGN:
        husks(now_b, old_b, 0, old_b.size(), nm);
        no_more_than(now_a, now_b, join(old_a, old_b), nm);
        break;
      case SPLICE_ALL:
      case SPLICE_ALL_R:
        inserted_prefix(now_a, old_a, old_b, pos, nm);
        husks(now_b, old_b, 0, old_b.size(), nm);
        no_more_than(now_a, now_b, join(old_a, old_b), nm);
        break;
      case SPLICE_ONE:
      case SPLICE_ONE_R: {
        std::size_t from = std::min(x.pos_of(b, o.v), old_b.size() - 1);
        unchanged(now_a, old_a, nm);
        husks(now_b, old_b, from, from + 1, nm);
        no_more_than(now_a, now_b, join(old_a, old_b), nm);
        break;
      }
      case SPLICE_RANGE:
      case SPLICE_RANGE_R: {
        std::size_t from = x.pos_of(b, o.v);
        std::size_t to = std::min(
            {old_b.size(), from + (o.n & 0xffff) % 50, from + room});
        inserted_prefix(now_a, old_a,
                        Ids(old_b.begin() + long(from), old_b.begin() + long(to)),
                        pos, nm);
        husks(now_b, old_b, from, to, nm);
        no_more_than(now_a, now_b, join(old_a, old_b), nm);
        break;
      }
      case MERGE:
      case MERGE_R:
      case MERGE_C:
        REQUIRE(now_a.size() + now_b.size() >= old_a.size() + old_b.size(), nm,
                "failed and dropped elements");
        no_more_than(now_a, now_b, join(old_a, old_b), nm);
        break;
      case SORT:
      case SORT_C:
      case REVERSE:
        REQUIRE(now_a.size() == old_a.size(), nm, "failed and dropped elements");
        no_more_than(now_a, {}, old_a, nm);
        break;
      case UNIQUE:
      case UNIQUE_P:
      case REMOVE:
      case REMOVE_IF:
        no_more_than(now_a, {}, old_a, nm);
        break;
      default:  // single insertions and the like: C09
        if (code != BULK_INS && code != BULK_ERASE && code != SET)
          unchanged(now_a, old_a, nm);
        break;
    }
    if (tracked()) {
      long long want = 0;
      for (auto& sl : x.slot) want += static_cast<long long>(sl.s->size());
      REQUIRE(tr_stats.live == want, nm, "failed;", tr_stats.live,
              "elements are alive, the containers hold", want);
    }
    // go on with what is there; what was moved from gets a new value
    resync(x, a, now_a);
    if (!same) resync(x, b, now_b);
    Rng r(counter + f);
    check_everything<typename C::Seq, T>(*a.s, a.m, r);
    if (!same) check_everything<typename C::Seq, T>(*b.s, b.m, r);
    pbt::checkpoint();
    return true;
  }
  static bool tracked() {
    return std::is_same<T, Trk>::value || std::is_same<T, MoveOnly>::value ||
           std::is_same<T, CopyOnly>::value;
  }
  static void resync(W& x, typename W::Slot& sl, Ids const& now) {
    sl.m = now;
    sl.has_cursor = false;
    for (std::size_t i = 0; i != now.size(); ++i)
      if (Moved<T>::is(now[i])) {
        u64 id = x.fresh(static_cast<u32>(i));
        (*sl.s)[i] = Tx::make(id);
        sl.m[i] = id;
      }
  }

  static void end(W& x) {
    x.check_all();
    for (auto& sl : x.slot) sl.s.reset();
    if (tracked())
      REQUIRE(tr_stats.live == 0, tr_stats.live, "elements leaked");
    REQUIRE(mem::st.live.empty(), mem::st.live.size(), "blocks leaked");
    pbt::checkpoint();
  }
  static Profile bulk() {
    Profile p;
    p.set({INS_N, INS_RANGE, INS_INPUT, INS_IL, ASSIGN_N, ASSIGN_RANGE,
           ASSIGN_INPUT, ASSIGN_IL, OPEQ_IL, COPY_ASSIGN, COPY_CTOR, CTOR_N,
           CTOR_NV, CTOR_RANGE, CTOR_INPUT, CTOR_IL, SPLICE_ALL, SPLICE_ALL_R,
           SPLICE_ONE, SPLICE_ONE_R, SPLICE_RANGE, SPLICE_RANGE_R, MERGE,
           MERGE_R, MERGE_C, SORT, SORT_C, UNIQUE, UNIQUE_P, REMOVE,
           REMOVE_IF, MOVE_ASSIGN, MOVE_CTOR, RESIZE, RESIZE_V},
          1);
    p.set({INS_N, INS_RANGE, INS_INPUT}, 3);
    p.two_slots = 60;
    return p;
  }
  static unsigned mask() {
    unsigned m = pbt::F_ALLOC | pbt::F_CREATE | pbt::F_SOURCE | pbt::F_CALL;
    // the relocations of a type without moves are copies
    if (!std::is_same<T, CopyOnly>::value) m |= pbt::F_COPY | pbt::F_ASSIGN;
    return m;
  }

  static pbt::Suite enumerate(std::string name, u64 quick, u64 thorough,
                              bool distinct) {
    pbt::Suite s;
    s.name = name + " every fault";
    s.opnames = op_names();
    s.quick = quick;
    s.thorough = thorough;
    s.gen = [](Rng& r, u64, bool) {
      Profile p = everything();
      p.ops_lo = 2;
      p.ops_hi = 12;
      p.size_hi = r.chance(1, 3) ? 150 : 40;
      p.two_slots = 60;
      Case c = gen_history(r, p);
      Profile q = bulk();
      Op o = any_op(r, q, r.pick(q.weight));
      o.s = static_cast<u32>(r.below(9));
      c.ops.push_back(o);
      c.cfg[0] = r.u() & 0xffff;
      return c;
    };
    s.run = [distinct](Case const& c) {
      if (c.ops.empty()) return;
      u64 fails = 0;
      bool high = false;
      for (u64 f = 1;;) {
        mem::reset();
        tr_stats = TrStats{};
        bool thrown;
        {
          W x(distinct);
          x.max_size = 250;
          for (std::size_t i = 0; i + 1 < c.ops.size(); ++i) x.apply(c.ops[i]);
          bool did = false;
          high = high || x.slot[c.ops.back().s % 3].s->height() >= 2;
          thrown = step(x, c.ops.back(), mask(), f, did);
          if (!thrown && did) x.check_touched();
          if (thrown) {
            // life goes on
            Rng r(c.cfg[0] + f);
            Profile p = everything();
            for (int i = 0; i != 4; ++i) {
              Op o = any_op(r, p, r.pick(p.weight));
              o.s = c.ops.back().s;
              if (o.code == BULK_INS || o.code == BULK_ERASE) o.n %= 40;
              if (x.apply(o)) x.check_touched();
            }
          }
          end(x);
        }
        if (!thrown) break;
        ++fails;
        f += f < 60 ? 1 : 1 + f / 12;
      }
      label("calls enumerated to success");
      if (fails >= 3 || (fails && high)) pbt::nontrivial();
    };
    return s;
  }
  static pbt::Suite chaos(std::string name, u64 quick, u64 thorough,
                          bool distinct) {
    pbt::Suite s;
    s.name = name + " chaos";
    s.opnames = op_names();
    s.quick = quick;
    s.thorough = thorough;
    s.gen = [](Rng& r, u64, bool) {
      Profile p = everything();
      Profile q = bulk();
      for (std::size_t i = 0; i != p.weight.size(); ++i)
        p.weight[i] += 2 * q.weight[i];
      p.ops_lo = 10;
      p.ops_hi = 60;
      p.size_hi = 200;
      p.two_slots = 60;
      Case c = gen_history(r, p);
      c.cfg[0] = r.u() & 0xffff;
      return c;
    };
    s.run = [distinct](Case const& c) {
      mem::reset();
      tr_stats = TrStats{};
      u64 fails = 0;
      bool high = false;
      {
        W x(distinct);
        x.max_size = 500;
        Rng r(c.cfg[0] + 7u);
        for (auto const& o : c.ops) {
          bool did = false;
          if (o.code % OP_COUNT == BULK_INS || o.code % OP_COUNT == BULK_ERASE ||
              o.code % OP_COUNT == SET || r.below(3) == 0) {
            did = x.apply(o);
            if (did) x.check_touched();
            continue;
          }
          u64 f = 1 + (r.below(2) ? r.below(10) : r.below(200));
          if (step(x, o, mask(), f, did)) {
            ++fails;
            high = high || x.slot[o.s % 3].s->height() >= 2;
          } else if (did)
            x.check_touched();
        }
        end(x);
      }
      if (fails >= 3 || (fails && high)) pbt::nontrivial();
    };
    return s;
  }
};

template <class C>
struct Add {
  Add(char const* name, u64 quick, u64 thorough, bool distinct = false) {
    pbt::Register{Bulk<C>::enumerate(name, quick, thorough, distinct)};
    pbt::Register{Bulk<C>::chaos(name, quick / 2, thorough / 2, distinct)};
  }
};
template <class T, std::size_t S, std::size_t B>
using KT = K<T, S, B, TrackAlloc<T>>;
#if PART == 0
static Add<KT<Trk, 1, 3>> a("Trk seg1 base3", 600, 6000);
#elif PART == 1
static Add<KT<Trk, 2, 3>> a("Trk seg2 base3", 600, 6000);
static Add<KT<u32, 1, 3>> b("u32 seg1 base3", 600, 6000);
#elif PART == 2
static Add<KT<MoveOnly, 2, 3>> a("MoveOnly seg2 base3", 600, 6000);
static Add<KT<std::string, 2, 3>> b("string seg2 base3", 600, 6000);
#elif PART == 3
static Add<KT<CopyOnly, 2, 3>> a("CopyOnly seg2 base3", 600, 6000);
static Add<KT<Trk, 4, 5>> b("Trk seg4 base5", 600, 6000);
#elif PART == 4
static Add<K<Trk, 2, 3, TrackAlloc<Trk, 0>>> a("Trk seg2 base3 unequal allocators", 600, 6000, true);
#elif PART == 5
static Add<K<Trk, 3, 3, HookAlloc<Trk>>> a("Trk seg3 base3 hooks", 600, 6000);
#elif PART == 6
static Add<K<Trk, 2, 4, TrackAlloc<Trk, 15>>> a("Trk seg2 base4 unequal propagating", 600, 6000, true);
#elif PART == 7
static Add<K<Trk, 2, 3, fancy::RelativeAlloc<Trk>>> a("Trk relative pointers", 600, 6000);
static Add<KT<Pod<17>, 2, 4>> b("Pod17 seg2 base4", 600, 6000);
#endif
