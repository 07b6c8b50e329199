// C17: observers change nothing and can run concurrently.
#include <numeric>
#include <sys/mman.h>
#include <unistd.h>
#ifdef PBT_THREADS
#include <thread>
#endif
#include "drive.hpp"
using namespace d;
#if PART == 0
char const* const pbt::rule =
    "A case builds three sequences by histories of edits in an arena of their "
    "own (sequence objects, nodes and elements), makes the arena's memory "
    "read-only, and calls observers with generated arguments: any write ends "
    "the process. Results are compared with the model, and no observer "
    "allocates. A second build runs the same observers in four threads on "
    "shared sequences under the thread sanitizer. Non-trivial: a sequence "
    "observed had height >= 3 (threads: >= 2).";
#endif

#ifndef PBT_THREADS
// Memory that can be made read-only. What is allocated after freeze() comes
// from pages that stay writable.
namespace arena {
constexpr std::size_t size = std::size_t(1) << 30, page = 4096;
struct State {
  char* base = nullptr;
  std::size_t used = 0, frozen = 0;
  u64 calls = 0;
};
inline State& st() {
  static State s;
  if (!s.base) {
    void* p = mmap(nullptr, size, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) std::abort();
    s.base = static_cast<char*>(p);
  }
  return s;
}
inline void thaw() {
  auto& s = st();
  if (s.frozen && mprotect(s.base, s.frozen, PROT_READ | PROT_WRITE))
    std::abort();
  s.frozen = 0;
}
inline void reset() {
  thaw();
  auto& s = st();
  if (s.used > (8u << 20)) madvise(s.base, s.used, MADV_DONTNEED);
  s.used = 0;
}
inline void* get(std::size_t n) {
  auto& s = st();
  ++s.calls;
  n = (n + 15) / 16 * 16;
  if (n > size - s.used) pbt::fail("the arena of the case is used up");
  void* p = s.base + s.used;
  s.used += n;
  return p;
}
inline void freeze() {
  auto& s = st();
  s.used = (s.used + page - 1) / page * page;
  s.frozen = s.used;
  if (s.frozen && mprotect(s.base, s.frozen, PROT_READ)) std::abort();
}
}  // namespace arena
template <class T>
struct ArenaAlloc {
  using value_type = T;
  int tag = 0;
  ArenaAlloc() = default;
  template <class U>
  ArenaAlloc(ArenaAlloc<U> const& o) : tag(o.tag) {}
  T* allocate(std::size_t n) {
    return static_cast<T*>(arena::get(n * sizeof(T)));
  }
  void deallocate(T*, std::size_t) {}
  friend bool operator==(ArenaAlloc const&, ArenaAlloc const&) { return true; }
  friend bool operator!=(ArenaAlloc const&, ArenaAlloc const&) {
    return false;
  }
};
#endif

enum Observe : u32 {
  O_SIZES, O_NTH, O_INDEX, O_AT, O_ENDS, O_FORWARD, O_BACKWARD, O_REVERSE,
  O_JUMPS, O_SEGMENTS, O_SEGMENTS_BACK, O_SEGMENT_COUNTS, O_COMPARE, O_COPY,
  O_ALLOCATOR, O_INDEX_OF, O_ALGORITHMS, O_WALK_PART, O_COUNT
};

template <class C>
struct Observer {
  using Seq = typename C::Seq;
  using T = typename C::T;
  using Tx = Traits<T>;
  using D = typename Seq::difference_type;
  using Ids = std::vector<u64>;

  // S is Seq or Seq const
  template <class S>
  static void one(S& s, Ids const& m, Seq const& t, Ids const& mt,
                  Op const& o) {
    std::size_t const n = m.size();
    std::size_t const p = n ? o.p % n : 0, q = n ? o.n % n : 0;
    switch (o.code % O_COUNT) {
      case O_SIZES:
        REQUIRE(s.size() == n && s.empty() == (n == 0), "");
        REQUIRE(s.max_size() >= n && (s.height() == 0) == (n == 0), "");
        break;
      case O_NTH: {
        auto i = s.nth(o.p % (n + 2));
        if (o.p % (n + 2) < n)
          REQUIRE(Tx::id(*i) == m[o.p % (n + 2)], "nth");
        else
          REQUIRE(i == s.end(), "");
        break;
      }
      case O_INDEX:
        if (n) REQUIRE(Tx::id(s[p]) == m[p], "operator[]");
        break;
      case O_AT: {
        bool threw = false;
        std::size_t k = o.p % (n + 3);
        try {
          REQUIRE(Tx::id(s.at(k)) == m[k], "at");
        } catch (std::out_of_range const&) {
          threw = true;
        }
        REQUIRE(threw == (k >= n), "at", k, "of", n);
        break;
      }
      case O_ENDS:
        if (n) {
          REQUIRE(Tx::id(s.front()) == m[0], "front");
          REQUIRE(Tx::id(s.back()) == m[n - 1], "back");
          REQUIRE(Tx::id(*s.penultimate()) == m[n - 1], "penultimate");
          REQUIRE(Tx::id(*s.begin()) == m[0] && Tx::id(*s.cbegin()) == m[0],
                  "begin");
        }
        REQUIRE(s.end() - s.begin() == D(n), "");
        break;
      case O_FORWARD: {
        std::size_t k = 0;
        for (auto i = s.begin(); i != s.end(); ++i, ++k)
          REQUIRE(Tx::id(*i) == m[k], "element", k);
        REQUIRE(k == n, "");
        break;
      }
      case O_BACKWARD: {
        std::size_t k = n;
        for (auto i = s.end(); i != s.begin();) {
          if (o.n & 1)
            --i;
          else
            i--;
          REQUIRE(Tx::id(*i) == m[--k], "element", k);
        }
        REQUIRE(k == 0, "");
        break;
      }
      case O_REVERSE: {
        std::size_t k = n;
        for (auto i = s.rbegin(); i != s.rend(); ++i)
          REQUIRE(Tx::id(*i) == m[--k], "element", k);
        for (auto i = s.crend(); i != s.crbegin();)
          REQUIRE(Tx::id(*--i) == m[k++], "element", k);
        break;
      }
      case O_JUMPS: {
        auto i = s.begin();
        std::size_t at = 0;
        Rng r(o.p);
        for (int j = 0; j != 12; ++j) {
          std::size_t to = r.below(n + 1);
          if (j & 1)
            i += D(to) - D(at);
          else
            i -= D(at) - D(to);
          at = to;
          if (at < n) {
            REQUIRE(Tx::id(*i) == m[at], "jump to", at);
            std::size_t u = r.below(n);
            REQUIRE(Tx::id(i[D(u) - D(at)]) == m[u], "[] to", u);
            REQUIRE(Tx::id(*(i + (D(u) - D(at)))) == m[u], "+ to", u);
            REQUIRE(Tx::id(*(i - (D(at) - D(u)))) == m[u], "- to", u);
          }
          REQUIRE(i - s.begin() == D(at) && s.end() - i == D(n - at), "");
        }
        break;
      }
      case O_SEGMENTS: {
        auto i = s.begin();
        std::size_t k = 0;
        while (k < n) {
          for (auto e = i.current(); e != i.end(); ++e)
            REQUIRE(Tx::id(*e) == m[k++], "segment element", k);
          i.move_after_segment();
        }
        REQUIRE(i == s.end(), "");
        break;
      }
      case O_SEGMENTS_BACK: {
        if (!n) break;
        auto i = s.nth(n - 1);
        std::size_t k = n;
        while (true) {
          for (auto e = i.current() + 1; e != i.begin();)
            REQUIRE(Tx::id(*--e) == m[--k], "segment element", k);
          if (!k) break;
          i.move_before_segment();
        }
        break;
      }
      case O_SEGMENT_COUNTS: {
        if (!n) break;
        auto i = s.nth(p);
        std::size_t first = p - std::size_t(i.current() - i.begin());
        std::size_t next = p + std::size_t(i.end() - i.current());
        auto a = i;
        if (first) {
          std::size_t c = q % first;
          a.move_before_segment(c);
          REQUIRE(Tx::id(*a) == m[first - 1 - c], "before segment", c);
        }
        auto b = i;
        std::size_t c = o.n % (n - next + 1);
        b.move_after_segment(c);
        if (next + c < n)
          REQUIRE(Tx::id(*b) == m[next + c], "after segment", c);
        else
          REQUIRE(b == s.end(), "");
        break;
      }
      case O_COMPARE: {
        bool e = n == mt.size() &&
                 std::equal(m.begin(), m.end(), mt.begin(), [](u64 a, u64 b) {
                   return Tx::key(a) == Tx::key(b);
                 });
        bool l = std::lexicographical_compare(
            m.begin(), m.end(), mt.begin(), mt.end(),
            [](u64 a, u64 b) { return Tx::key(a) < Tx::key(b); });
        bool g = std::lexicographical_compare(
            mt.begin(), mt.end(), m.begin(), m.end(),
            [](u64 a, u64 b) { return Tx::key(a) < Tx::key(b); });
        REQUIRE((s == t) == e && (s != t) == !e, "");
        REQUIRE((s < t) == l && (s > t) == g && (s <= t) == !g &&
                    (s >= t) == !l,
                "");
        break;
      }
      case O_COPY: {
        Seq c(static_cast<Seq const&>(s));
        REQUIRE(c.size() == n, "");
        if (n) c.erase(c.nth(p));
        c = static_cast<Seq const&>(s);
        Seq e(s.begin(), s.end());
        REQUIRE(c.size() == n && e.size() == n, "");
        if (n) REQUIRE(Tx::id(c[q]) == m[q] && Tx::id(e[p]) == m[p], "copy");
        break;
      }
      case O_ALLOCATOR: {
        auto a = s.get_allocator();
        auto const& b = static_cast<Seq const&>(s).get_stored_allocator();
        REQUIRE(a == b, "");
        break;
      }
      case O_INDEX_OF: {
        auto i = s.nth(p), j = s.nth(q);
        REQUIRE(s.index_of(i) == p, "index_of");
        REQUIRE((i == j) == (p == q) && (i < j) == (p < q) &&
                    (i <= j) == (p <= q) && i - j == D(p) - D(q),
                "");
        break;
      }
      case O_ALGORITHMS: {
        if (n) {
          auto it = std::find_if(s.begin(), s.end(), [&](T const& e) {
            return Tx::id(e) == m[p];
          });
          REQUIRE(it != s.end(), "find");
          auto k = std::size_t(it - s.begin());
          REQUIRE(k <= p && m[k] == m[p], "find found", k);
        }
        u64 sum = 0, want = 0;
        for (auto const& e : s) sum += Tx::id(e);
        for (auto i : m) want += i;
        REQUIRE(sum == want, "");
        (void)std::is_sorted(s.begin(), s.end());
        (void)std::lower_bound(s.rbegin(), s.rend(), q, [](T const& e, u64 k) {
          return Tx::id(e) < k;
        });
        break;
      }
      default: {
        auto i = s.nth(p);
        std::size_t k = p;
        for (int j = 0; j != 40 && k < n; ++j, ++k, i++)
          REQUIRE(Tx::id(*i) == m[k], "element", k);
        for (int j = 0; j != 60 && k > 0; ++j) {
          --i;
          --k;
          REQUIRE(Tx::id(*i) == m[k], "element", k);
        }
      }
    }
  }
};

static char const* const o_names[] = {
    "sizes", "nth", "index", "at", "ends", "forward", "backward", "reverse",
    "jumps", "segments", "segments back", "segment counts", "compare", "copy",
    "allocator", "index_of", "algorithms", "walk"};

template <class C>
struct Add {
  using W = World<C>;
  using Seq = typename C::Seq;
  Add(char const* name, Size z, u64 quick, u64 thorough) {
    Profile p = editing();
    p.set({SPLICE_RANGE, COPY_ASSIGN, SWAP, MOVE_ASSIGN}, 2);
    apply_size(p, z);
    pbt::Suite s;
    s.name = name;
    s.opnames = op_names();
    for (auto n : o_names) s.opnames.push_back(n);
    s.quick = quick;
    s.thorough = thorough;
    s.gen = [p](Rng& r, u64, bool) {
      Case c = gen_history(r, p);
      std::size_t n = 10 + r.below(50);
      for (std::size_t i = 0; i != n; ++i)
        c.ops.push_back(Op{u32(OP_COUNT + r.below(O_COUNT)), u32(r.below(18)),
                           r.u() & 0xfffffff, r.u() & 0xfffffff, 0});
      return c;
    };
    auto max_size = z.max_size;
    s.run = [max_size](Case const& c) {
      mem::reset();
      tr_stats = TrStats{};
#ifndef PBT_THREADS
      arena::reset();
      struct Thaw {
        ~Thaw() { arena::thaw(); }
      };
#endif
      W wd;
      wd.max_size = max_size;
      Seen seen;
      for (auto const& o : c.ops)
        if (o.code < OP_COUNT && wd.apply(o))
          for (int t : wd.touched)
            if (t >= 0) seen.look(*wd.slot[t].s, wd.height_before);
      std::size_t top = 0;
      for (auto& sl : wd.slot) top = std::max(top, std::size_t(sl.s->height()));
#ifndef PBT_THREADS
      // the sequence objects themselves move into the arena
      Seq* q[3];
      void* raw = arena::get(3 * sizeof(Seq));
      for (int i = 0; i != 3; ++i)
        q[i] = ::new (static_cast<char*>(raw) + i * sizeof(Seq))
            Seq(std::move(*wd.slot[i].s));
      struct Destroy {
        Seq** q;
        ~Destroy() {
          for (int i = 0; i != 3; ++i) q[i]->~Seq();
        }
      } destroy{q};
      Thaw thaw;
      arena::freeze();
      for (auto const& o : c.ops) {
        if (o.code < OP_COUNT) continue;
        std::size_t a = o.s % 3, b = o.s / 3 % 3;
        label(o_names[(o.code - OP_COUNT) % O_COUNT]);
        Op k = o;
        k.code -= OP_COUNT;
        u64 calls = arena::st().calls;
        u64 news = pbt::news.calls;
        if (o.s < 9)
          Observer<C>::one(static_cast<Seq const&>(*q[a]), wd.slot[a].m, *q[b],
                           wd.slot[b].m, k);
        else
          Observer<C>::one(*q[a], wd.slot[a].m, *q[b], wd.slot[b].m, k);
        if (k.code % O_COUNT != O_COPY)
          REQUIRE(arena::st().calls == calls, "an observer allocates");
        (void)news;
        pbt::checkpoint();
      }
      if (top >= 3) pbt::nontrivial();
#else
      // Four threads; each makes its share of the calls, and the first call.
      std::vector<Op> obs;
      for (auto const& o : c.ops)
        if (o.code >= OP_COUNT) obs.push_back(o);
      std::string failed[4];
      auto work = [&](std::size_t t) {
        try {
          for (std::size_t i = 0; i != obs.size(); ++i) {
            if (i % 4 != t && i) continue;
            Op k = obs[i];
            std::size_t a = k.s % 3, b = k.s / 3 % 3;
            bool cst = k.s < 9;
            k.code -= OP_COUNT;
            if (cst)
              Observer<C>::one(static_cast<Seq const&>(*wd.slot[a].s),
                               wd.slot[a].m, *wd.slot[b].s, wd.slot[b].m, k);
            else
              Observer<C>::one(*wd.slot[a].s, wd.slot[a].m, *wd.slot[b].s,
                               wd.slot[b].m, k);
          }
        } catch (pbt::Failure const& f) {
          failed[t] = f.msg;
        } catch (std::exception const& e) {
          failed[t] = e.what();
        }
      };
      std::vector<std::thread> ts;
      for (std::size_t t = 0; t != 4; ++t) ts.emplace_back(work, t);
      for (auto& t : ts) t.join();
      for (auto& f : failed)
        if (!f.empty()) pbt::fail("in a thread: " + f);
      label("observer calls in threads", obs.size());
      if (top >= 2) pbt::nontrivial();
#endif
      seen.report();
    };
    pbt::Register{s};
  }
};
#ifndef PBT_THREADS
template <class T, std::size_t S, std::size_t B>
using KR = K<T, S, B, ArenaAlloc<T>>;
template <class T>
using DR = Dflt<T, ArenaAlloc<T>>;
#else
template <class T, std::size_t S, std::size_t B>
using KR = K<T, S, B>;
template <class T>
using DR = Dflt<T>;
#endif
#if PART == 0
static Add<KR<u32, 1, 3>> a("u32 seg1 base3", Size{}, 1500, 15000);
static Add<KR<u32, 2, 3>> b("u32 seg2 base3", Size{}, 1500, 15000);
#elif PART == 1
static Add<KR<u64, 3, 4>> a("u64 seg3 base4", Size{}, 1500, 15000);
static Add<DR<u32>> b("u32 defaults", big(), 15, 150);
#elif PART == 2
static Add<KR<u32, 4, 5>> a("u32 seg4 base5", middle(), 100, 1000);
static Add<KR<std::string, 3, 3>> b("string seg3 base3", Size{}, 800, 8000);
#elif PART == 3
static Add<KR<Pod<17>, 7, 7>> a("Pod17 seg7 base7", middle(), 100, 1000);
static Add<KR<std::uint8_t, 5, 6>> b("u8 seg5 base6", middle(), 100, 1000);
#elif PART == 4 && !defined(PBT_THREADS)
static Add<KR<Trk, 2, 3>> a("Trk seg2 base3", Size{}, 800, 8000);
static Add<DR<std::string>> b("string defaults", Size{6, 25, 8000, 20000}, 15, 150);
#endif
