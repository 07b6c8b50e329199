// Histories over all operations in which random fault points fail.
#pragma once
#include "drive.hpp"

namespace d {
template <class C>
struct Faulted {
  using T = typename C::T;
  using Tx = Traits<T>;
  using W = World<C>;
  // Failures that no documented guarantee is suspended for: relocations do
  // not fail (the relocations of a type without moves are copies).
  static unsigned mask() {
    unsigned m = pbt::F_ALLOC | pbt::F_CREATE | pbt::F_SOURCE | pbt::F_CALL;
    if (!std::is_same<T, CopyOnly>::value) m |= pbt::F_COPY | pbt::F_ASSIGN;
    return m;
  }
  static bool husk(u64 id) {
    return std::is_class<T>::value && !std::is_same<T, std::string>::value &&
           (id >> 63);
  }
  // The model takes over what a failed operation left; what was moved from
  // gets a new value.
  static void resync(W& x) {
    for (auto& sl : x.slot) {
      sl.has_cursor = false;
      sl.m.clear();
      std::size_t const n = sl.s->size();
      for (auto it = sl.s->begin(); it != sl.s->end(); ++it) {
        REQUIRE(sl.m.size() < n, "after a failure iteration does not end");
        u64 id = Tx::id(*it);
        if (husk(id)) {
          id = x.fresh(static_cast<u32>(sl.m.size()));
          *it = Tx::make(id);
        }
        sl.m.push_back(id);
      }
      REQUIRE(sl.m.size() == n, "after a failure iteration yields",
              sl.m.size(), "of", n);
    }
  }
  // Applies o with its f-th fault point failing. Says whether it failed.
  static bool step(W& x, Op const& o, u64 f) {
    bool thrown = false;
    pbt::arm(mask(), f);
    try {
      x.apply(o);
    } catch (pbt::Injected const&) {
      thrown = true;
    }
    pbt::disarm();
    pbt::checkpoint();
    if (!thrown) {
      REQUIRE(!pbt::faults.fired, "an exception was swallowed");
      return false;
    }
    int const kind = pbt::faults.fired_kind;
    label(kind == pbt::F_ALLOC    ? "failed: allocation"
          : kind == pbt::F_CREATE ? "failed: creation of an element"
          : kind == pbt::F_COPY   ? "failed: copy of an element"
          : kind == pbt::F_ASSIGN ? "failed: copy assignment"
          : kind == pbt::F_SOURCE ? "failed: source iterator"
                                  : "failed: comparison or predicate");
    return true;
  }
};

// each(world) after every operation, failed or not, with the model in step;
// last(world) at the end.
template <class C, class Each, class Last>
pbt::Suite faulted(std::string name, u64 quick, u64 thorough, Each each,
                   Last last, bool distinct_allocs = false) {
  using F = Faulted<C>;
  pbt::Suite s;
  s.name = name;
  s.opnames = op_names();
  s.quick = quick;
  s.thorough = thorough;
  s.gen = [](Rng& r, u64, bool) {
    Profile p = everything();
    p.ops_lo = 10;
    p.ops_hi = 60;
    p.size_hi = 200;
    p.two_slots = 50;
    Case c = gen_history(r, p);
    c.cfg[0] = r.u() & 0xffff;
    return c;
  };
  s.run = [each, last, distinct_allocs](Case const& c) {
    mem::reset();
    tr_stats = TrStats{};
    u64 fails = 0;
    {
      World<C> x(distinct_allocs);
      x.max_size = 500;
      Rng r(c.cfg[0] + 11u);
      for (auto const& o : c.ops) {
        if (r.below(3)) {
          // near the start, where the single operations fail, or anywhere
          u64 f = 1 + (r.below(3) ? r.below(6) : r.below(200));
          if (F::step(x, o, f)) {
            ++fails;
            if (x.slot[o.s % 3].s->height() >= 2)
              label("failures at height 2 or more");
            F::resync(x);
          }
        } else
          x.apply(o);
        each(x);
        pbt::checkpoint();
      }
      last(x);
    }
    pbt::checkpoint();
    if (fails >= 2) pbt::nontrivial();
  };
  return s;
}
}  // namespace d
