// Sequences of more than 2^32 elements, for C01 to C05 (HUGE says which).
//
// The elements are bytes that write themselves only where that changes
// something, and the segments come from a reserved range of addresses, so that
// a sequence of zeros takes no memory. A few elements, the marks, are not zero;
// the model is the size and the sorted list of marks.
#include <sys/mman.h>

#include <algorithm>
#include <boost/segmented_tree/seq.hpp>
#include <cstring>
#include <iterator>
#include <limits>
#include <memory>
#include <new>
#include <stdexcept>

#include "pbt.hpp"

using u64 = std::uint64_t;
using u32 = std::uint32_t;
using pbt::Case;
using pbt::Op;
using pbt::Rng;

char const* const pbt::rule =
    "A case builds a sequence of more than 2^32 elements in one way (one "
    "counted or range insertion, resize, assign, a constructor, push_back), "
    "scatters edits over it, and looks at it around 2^31, 2^32, the ends and "
    "random positions. Every case is non-trivial.";

namespace {
struct Byte {
  unsigned char v;
  static unsigned char get(Byte const& b) {
    unsigned x = b.v;
    asm("" : "+r"(x));  // whatever it is, it is a value
    return static_cast<unsigned char>(x);
  }
  void set(unsigned char x) {
    if (get(*this) != x) v = x;
  }
  Byte() noexcept { set(0); }
  explicit Byte(unsigned char x) noexcept { set(x); }
  Byte(Byte const& o) noexcept { set(get(o)); }
  Byte(Byte&& o) noexcept { set(get(o)); }
  Byte& operator=(Byte const& o) noexcept {
    set(get(o));
    return *this;
  }
  Byte& operator=(Byte&& o) noexcept {
    set(get(o));
    return *this;
  }
};

struct Area {
  static constexpr u64 room = u64(1) << 36;
  char* base = nullptr;
  u64 used = 0;
  std::vector<std::pair<u64, char*>> spare;
  ~Area() { leave(); }
  void enter() {
    leave();
    void* p = mmap(nullptr, room, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) return;
    madvise(p, room, MADV_NOHUGEPAGE);
    base = static_cast<char*>(p);
    used = 0;
  }
  void leave() {
    if (base) munmap(base, room);
    base = nullptr;
    spare.clear();
  }
} area;

template <class T>
struct Alloc {
  using value_type = T;
  Alloc() = default;
  template <class U>
  Alloc(Alloc<U> const&) {}
  T* allocate(std::size_t n) {
    if (sizeof(T) != 1) return static_cast<T*>(::operator new(n * sizeof(T)));
    u64 b = (n + 4095) & ~u64(4095);
    for (auto& s : area.spare)
      if (s.first == b) {
        char* p = s.second;
        s = area.spare.back();
        area.spare.pop_back();
        return reinterpret_cast<T*>(p);
      }
    if (area.used + b > Area::room) throw std::bad_alloc();
    char* p = area.base + area.used;
    area.used += b;
    return reinterpret_cast<T*>(p);
  }
  void deallocate(T* p, std::size_t n) {
    if (sizeof(T) != 1) return ::operator delete(p);
    area.spare.emplace_back((n + 4095) & ~u64(4095),
                            reinterpret_cast<char*>(p));
  }
  template <class U>
  bool operator==(Alloc<U> const&) const {
    return true;
  }
  template <class U>
  bool operator!=(Alloc<U> const&) const {
    return false;
  }
};

// A range of equal elements.
struct Same {
  using iterator_category = std::input_iterator_tag;
  using value_type = Byte;
  using difference_type = std::ptrdiff_t;
  using pointer = Byte const*;
  using reference = Byte const&;
  u64 i;
  Byte const* b;
  reference operator*() const { return *b; }
  pointer operator->() const { return b; }
  Same& operator++() {
    ++i;
    return *this;
  }
  Same operator++(int) {
    Same c = *this;
    ++i;
    return c;
  }
  friend bool operator==(Same const& a, Same const& b) { return a.i == b.i; }
  friend bool operator!=(Same const& a, Same const& b) { return a.i != b.i; }
};

enum { INSERT, ERASE, INSERT_N, INSERT_RANGE, ERASE_RANGE, RESIZE, WRITE, PUSH,
       POP, LOOK, OPS };

template <class Seq>
struct Huge {
  using It = typename Seq::iterator;
  using CIt = typename Seq::const_iterator;
  using D = typename Seq::difference_type;
  using Mark = std::pair<u64, unsigned char>;
  struct Part {
    u64 first;
    Byte const* data;
    u64 length;
  };

  std::unique_ptr<Seq> s;
  u64 n = 0;
  std::vector<Mark> marks;
  std::vector<Part> parts;
  Rng r{1};

  // Reads the sequence segment by segment, and compares it with the model.
  void scan() {
    parts.clear();
    Seq const& c = *s;
    REQUIRE(c.size() == n, "size", c.size(), "want", n);
    u64 at = 0, k = 0;
    for (auto it = c.begin(); at < n; it.move_after_segment()) {
      u64 len = u64(it.end() - it.begin());
      REQUIRE(len != 0 && len <= n - at, "a segment of", len, "at", at);
      parts.push_back(Part{at, it.begin(), len});
      auto p = reinterpret_cast<unsigned char const*>(it.begin());
      u64 i = 0;
      auto byte = [&](u64 j) {
        if (!p[j]) return;
        REQUIRE(k < marks.size() && marks[k].first == at + j &&
                    marks[k].second == p[j],
                "element", at + j, "is", u64(p[j]), "next mark is",
                k < marks.size() ? marks[k].first : n);
        ++k;
      };
      for (; i < len && (reinterpret_cast<std::uintptr_t>(p + i) & 63); ++i)
        byte(i);
      for (; i + 64 <= len; i += 64) {
        u64 w[8];
        std::memcpy(w, p + i, 64);
        if (w[0] | w[1] | w[2] | w[3] | w[4] | w[5] | w[6] | w[7])
          for (u64 j = i; j != i + 64; ++j) byte(j);
      }
      for (; i < len; ++i) byte(i);
      at += len;
    }
    REQUIRE(k == marks.size(), "a mark is missing", k, marks.size());
  }
  Part const& part(u64 p) const {
    auto it = std::upper_bound(
        parts.begin(), parts.end(), p,
        [](u64 a, Part const& b) { return a < b.first; });
    return *std::prev(it);
  }
  Byte const* addr(u64 p) const {
    auto const& x = part(p);
    return x.data + (p - x.first);
  }

  u64 place(u32 v) const {  // any position up to n
    u64 const e = v >> 8;
    u64 const near = e % 9;
    u64 p;
    switch (v % 8) {
      case 0: p = near; break;
      case 1: p = (u64(1) << 31) - 4 + near; break;
      case 2: p = (u64(1) << 32) - 4 + near; break;
      case 3: p = n - std::min(n, near); break;
      case 4:
        p = parts.empty() ? 0 : parts[e % parts.size()].first + (e >> 12) % 2;
        break;
      default: p = e * 0x9e3779b97f4a7c15ULL % (n + 1);
    }
    return std::min(p, n);
  }

  template <class I>
  void is_at(I it, u64 p, char const* what) {
    auto const& c = *s;
    REQUIRE(u64(c.index_of(it)) == p, what, "index", c.index_of(it), "want", p);
    REQUIRE((CIt(it) == c.end()) == (p == n), what, "end", p);
    REQUIRE(u64(CIt(it) - c.begin()) == p, what, "distance from begin", p);
    REQUIRE(u64(c.end() - CIt(it)) == n - p, what, "distance to end", p);
    if (p != n) {
      auto const& x = part(p);
      REQUIRE(std::addressof(*it) == x.data + (p - x.first), what,
              "the element", p);
      REQUIRE(it.begin() == x.data && it.end() == x.data + x.length, what,
              "the segment at", p);
    }
  }
  // A returned or moved iterator, in all that can be seen of it.
  template <class I>
  void good(I it, u64 p, char const* what) {
    is_at(it, p, what);
    for (int i = 0; i != 6; ++i) {
      u64 q = place(r.u());
      I x = it;
      x += D(q - p);
      is_at(x, q, what);
      x -= D(q - p);
      is_at(x, p, what);
    }
    if (p != n) {
      I x = it;
      is_at(++x, p + 1, what);
      is_at(--x, p, what);
    }
    if (p) {
      I x = it;
      is_at(--x, p - 1, what);
      is_at(++x, p, what);
    }
  }

  void moved(u64 from, u64 to) {  // the marks from `from` on move by to - from
    for (auto& m : marks)
      if (m.first >= from) m.first += to - from;
  }
  void gone(u64 a, u64 b) {
    marks.erase(std::remove_if(marks.begin(), marks.end(),
                               [&](Mark const& m) {
                                 return m.first >= a && m.first < b;
                               }),
                marks.end());
    for (auto& m : marks)
      if (m.first >= b) m.first -= b - a;
    n -= b - a;
  }
  void mark(u64 p, unsigned char v) {
    auto it = std::lower_bound(marks.begin(), marks.end(), Mark{p, 0});
    if (it != marks.end() && it->first == p) it = marks.erase(it);
    if (v) marks.insert(it, Mark{p, v});
  }

  void build(u32 how, u64 count) {
    Byte const zero;
    n = count;
    It it;
    bool returned = false;
    switch (how) {
      case 0:
        s.reset(new Seq);
        it = s->insert(s->begin(), count, zero);
        returned = true;
        break;
      case 1:
        s.reset(new Seq);
        it = s->insert(s->end(), Same{0, &zero}, Same{count, &zero});
        returned = true;
        break;
      case 2: s.reset(new Seq(count, zero)); break;
      case 3:
        s.reset(new Seq);
        s->resize(count);
        break;
      case 4:
        s.reset(new Seq);
        s->assign(Same{0, &zero}, Same{count, &zero});
        break;
      default:
        s.reset(new Seq);
        s->assign(count, zero);
    }
    scan();
    if (returned) {
#if HUGE == 2
      good(it, 0, "the iterator returned by the insertion");
#endif
    }
  }

  void look() {
    Seq& t = *s;
    Seq const& c = t;
#if HUGE == 3
    for (int i = 0; i != 12; ++i) {
      u64 p = place(r.u());
      good(t.nth(p), p, "nth");
      good(c.nth(p), p, "const nth");
      u64 far = n + (r.chance(1, 2) ? r.below(9) : u64(1) << (31 + r.below(33)));
      REQUIRE(t.nth(far) == t.end() && c.nth(far) == c.end(), "nth", far);
      for (u64 q : {p, far}) {
        bool out = false, cout = false;
        try {
          REQUIRE(std::addressof(t.at(q)) == addr(std::min(q, n - 1)), "at", q);
        } catch (std::out_of_range const&) {
          out = true;
        }
        try {
          REQUIRE(std::addressof(c.at(q)) == addr(std::min(q, n - 1)), "at", q);
        } catch (std::out_of_range const&) {
          cout = true;
        }
        REQUIRE(out == (q >= n) && cout == out, "at", q, "of", n);
      }
      if (p == n) continue;
      REQUIRE(std::addressof(t[p]) == addr(p), "[]", p);
      REQUIRE(std::addressof(c[p]) == addr(p), "const []", p);
    }
    REQUIRE(std::addressof(t.front()) == addr(0), "");
    REQUIRE(std::addressof(c.front()) == addr(0), "");
    REQUIRE(std::addressof(t.back()) == addr(n - 1), "");
    REQUIRE(std::addressof(c.back()) == addr(n - 1), "");
    good(t.begin(), 0, "begin");
    good(c.cend(), n, "end");
    good(t.end(), n, "end");
    good(t.penultimate(), n - 1, "penultimate");
    good(c.penultimate(), n - 1, "penultimate");
#elif HUGE == 4
    auto it = t.nth(place(r.u()));
    u64 p = u64(t.index_of(it));
    for (int i = 0; i != 40; ++i) {
      u64 q = place(r.u());
      D d = D(q - p);
      It jt = it;
      switch (r.below(8)) {
        case 0: jt += d; break;
        case 1: jt -= -d; break;
        case 2: jt = it + d; break;
        case 3: jt = d + it; break;
        case 4: jt = it - -d; break;
        case 5:
          jt = (std::reverse_iterator<It>(it) - d).base();
          break;
        case 6: jt = std::next(it, d); break;
        default: {
          u64 m = place(r.u());
          jt += D(m - p);
          is_at(jt, m, "a stop");
          jt += D(q - m);
        }
      }
      is_at(jt, q, "a jump");
      CIt a = it, b = jt;
      REQUIRE(jt - it == d && it - jt == -d && b - a == d, "difference", p, q);
      REQUIRE((it == jt) == (p == q) && (it != jt) == (p != q), p, q);
      REQUIRE((it < jt) == (p < q) && (it > jt) == (p > q), p, q);
      REQUIRE((a <= b) == (p <= q) && (a >= b) == (p >= q), p, q);
      if (q != n) {
        REQUIRE(std::addressof(it[d]) == addr(q), "it[d]", p, q);
        REQUIRE(std::addressof(a[d]) == addr(q), "it[d]", p, q);
        typename Seq::const_reverse_iterator rit(c.cend());
        REQUIRE(std::addressof(rit[D(n - 1 - q)]) == addr(q), "rit[]", q);
      }
      it = jt;
      p = q;
    }
    good(it, p, "a walk");
#elif HUGE == 5
    u64 seen = 0;
    for (auto it = c.begin(); it != c.end(); it = it.after_segment()) {
      REQUIRE(it == c.nth(seen) || seen % 64, "segment at", seen);
      REQUIRE(u64(c.index_of(it)) == seen, "segment at", seen);
      seen += u64(it.end() - it.current());
    }
    REQUIRE(seen == n, "segments of", seen, "want", n);
    auto back = c.penultimate();
    for (u64 k = parts.size(); k-- != 0;) {
      u64 last = parts[k].first + parts[k].length - 1;
      REQUIRE(u64(c.index_of(back)) == last &&
                  back.current() == parts[k].data + parts[k].length - 1,
              "segment that ends at", last);
      if (k) back.move_before_segment();
    }
    for (int i = 0; i != 30; ++i) {
      u64 p = place(r.u()), q = place(r.u());
      if (p == n) p = n - 1;
      auto const& x = part(p);
      u64 next = x.first + x.length;
      It it = t.nth(p);
      if (q >= next) {
        It a = it;
        a.move_after_segment(q - next);
        is_at(a, q, "move_after_segment");
        good(CIt(it).after_segment(q - next), q, "after_segment");
      } else if (q < x.first) {
        It a = it;
        a.move_before_segment(x.first - 1 - q);
        is_at(a, q, "move_before_segment");
        good(CIt(it).before_segment(x.first - 1 - q), q, "before_segment");
      }
    }
#else
    (void)t;
    (void)c;
#endif
  }

  void step(Op const& o) {
    r = Rng(o.v * 77 + o.p);
    Seq& t = *s;
    u64 p = place(o.p);
    auto v = static_cast<unsigned char>(o.v % 255 + 1);
    It it{};
    u64 at = ~u64(0);
    switch (o.code) {
      case INSERT:
        it = o.v & 256 ? t.insert(t.nth(p), Byte(v)) : t.emplace(t.nth(p), v);
        moved(p, p + 1);
        ++n;
        mark(p, v);
        at = p;
        break;
      case ERASE:
        if (p == n) --p;
        it = t.erase(t.nth(p));
        gone(p, p + 1);
        at = p;
        break;
      case INSERT_N: {
        u64 k = o.n % 7;
        it = t.insert(t.nth(p), k, Byte(v));
        moved(p, p + k);
        n += k;
        for (u64 i = 0; i != k; ++i) mark(p + i, v);
        at = p;
        break;
      }
      case INSERT_RANGE: {
        Byte a[3] = {Byte(v), Byte(0), Byte(9)};
        it = t.insert(t.nth(p), a, a + 3);
        moved(p, p + 3);
        n += 3;
        mark(p, v);
        mark(p + 2, 9);
        at = p;
        break;
      }
      case ERASE_RANGE: {
        u64 e = std::min(n, p + o.n % 2000);
        it = t.erase(t.nth(p), t.nth(e));
        gone(p, e);
        at = p;
        break;
      }
      case RESIZE: {
        u64 k = o.v & 256 ? n + o.n % 3000 : n - o.n % 3000;
        t.resize(k);
        if (k < n)
          gone(k, n);
        else
          n = k;
        break;
      }
      case WRITE:
        if (p == n) --p;
        (o.v & 256 ? t[p] : *(t.end() - D(n - p))) = Byte(v);
        mark(p, v);
        break;
      case PUSH:
        if (o.v & 256) {
          t.push_back(Byte(v));
          mark(n++, v);
        } else {
          t.push_front(Byte(v));
          moved(0, 1);
          ++n;
          mark(0, v);
        }
        break;
      case POP:
        if (o.v & 256) {
          t.pop_back();
          gone(n - 1, n);
        } else {
          t.pop_front();
          gone(0, 1);
        }
        break;
      default: look(); return;
    }
    scan();
#if HUGE == 2
    if (at != ~u64(0)) good(it, at, "the returned iterator");
#endif
    (void)at;
  }

  static void run(Case const& c) {
    area.enter();
    if (!area.base) return;  // no room for addresses here
    {
      Huge h;
      h.r = Rng(c.cfg[1]);
      h.build(c.cfg[0], (u64(1) << 32) + c.cfg[1]);
      pbt::nontrivial();
      for (auto const& o : c.ops) h.step(o);
    }
    area.leave();
  }
};

Case gen(Rng& r, u64 index, bool) {
  Case c;
  static u32 const order[] = {0, 1, 3, 4, 5, 2};
  c.cfg[0] = order[index % 6];
  c.cfg[1] = 1000 + u32(r.below(1 << 21));
  int k = 30;
  for (int i = 0; i != k; ++i) {
    Op o{};
    o.code = u32(r.below(OPS));
    if (HUGE >= 3 && i % 3 == 2) o.code = LOOK;
    if (HUGE < 3 && o.code == LOOK) o.code = INSERT;
    o.p = r.u();
    o.n = r.u();
    o.v = u32(r.below(512));
    c.ops.push_back(o);
  }
  return c;
}

#define OPNAMES                                                           \
  {"insert", "erase", "insert n", "insert range", "erase range", "resize", \
   "write", "push", "pop", "look"}
template <std::size_t seg, std::size_t base>
pbt::Suite make(char const* name, u64 quick, u64 thorough) {
  pbt::Suite s;
  s.name = name;
  s.gen = gen;
  s.run = Huge<boost::segmented_tree::seq<Byte, Alloc<Byte>, seg, base>>::run;
  s.quick = quick;
  s.thorough = thorough;
  s.opnames = OPNAMES;
  s.fixed = true;
  s.cpu = 280;
  return s;
}
#if HUGE == 1
constexpr u64 flat = 6, deep = 1;
#else
constexpr u64 flat = 2, deep = 1;
#endif
pbt::Register a(make<(1u << 20), (1u << 17)>("2^32 flat", flat, 6));
pbt::Register b(make<(1u << 19), (1u << 12)>("2^32 deep", deep, 6));
}  // namespace
