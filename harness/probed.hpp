// A property that probes the state a history reached: the case's history runs
// first, then `probe` looks at every container (and again halfway).
#pragma once
#include "drive.hpp"
#include "probe.hpp"

namespace d {
template <class C, class Probe>
pbt::Suite probed(std::string name, Profile p, Size z, u64 quick, u64 thorough,
                  Probe probe) {
  apply_size(p, z);
  pbt::Suite s;
  s.name = name;
  s.opnames = op_names();
  s.quick = quick;
  s.thorough = thorough;
  if (z.wide) s.fixed = true, s.priority = 1;
  s.gen = [p](Rng& r, u64, bool) {
    Case c = gen_history(r, p);
    c.cfg[0] = r.u() & 0xffff;
    return c;
  };
  auto max_size = z.max_size;
  auto is_wide = z.wide;
  s.run = [probe, max_size, is_wide](Case const& c) {
    mem::reset();
    tr_stats = TrStats{};
    {
      World<C> wd;
      wd.max_size = max_size;
      wd.wide = is_wide;
      Seen seen;
      Rng r(c.cfg[0] + 1u);
      std::size_t k = 0;
      bool deep = false;
      for (auto const& o : c.ops) {
        bool did = wd.apply(o);
        ++k;
        if (did) {
          for (int t : wd.touched)
            if (t >= 0) seen.look(*wd.slot[t].s, wd.height_before);
          label(op_names_static()[o.code % OP_COUNT]);
        }
        if (k == c.ops.size() || k == c.ops.size() / 2 ||
            k == c.ops.size() / 4) {
          for (auto& sl : wd.slot) {
            if (sl.s->height() >= 3) deep = true;
            probe(*sl.s, sl.m, r);
            pbt::checkpoint();
          }
        }
      }
      seen.report();
      if (deep) pbt::nontrivial();
    }
    pbt::checkpoint();
  };
  return s;
}
}  // namespace d

#define PROBED_MATRIX(Probe)                                                   \
  template <class C>                                                           \
  struct Add {                                                                 \
    Add(char const* name, Size z, u64 quick, u64 thorough) {                   \
      Profile p = editing();                                                   \
      p.set({SPLICE_ALL, SPLICE_RANGE, COPY_ASSIGN, SWAP, MOVE_CTOR}, 1);      \
      pbt::Register(probed<C>(name, p, z, quick, thorough,                     \
                              Probe<typename C::Seq, typename C::T>));         \
    }                                                                          \
  };
