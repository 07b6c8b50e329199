// A stateful model: a few containers, each beside a std::vector of ids that
// plays the same calls.
#pragma once
#include <boost/segmented_tree/seq.hpp>

#include <algorithm>
#include <initializer_list>
#include <iterator>
#include <memory>
#include <vector>
#include "alloc.hpp"
#include "pbt.hpp"
#include "types.hpp"

namespace w {
using pbt::Case;
using pbt::Op;
using pbt::Rng;
using pbt::label;
using pbt::u32;
using pbt::u64;

#define W_OPS(X)                                                             \
  X(INS_L) X(INS_R) X(EMPLACE) X(INS_N) X(INS_RANGE) X(INS_INPUT) X(INS_IL)  \
  X(PUSHB_L) X(PUSHB_R) X(EMPB) X(PUSHF_L) X(PUSHF_R) X(EMPF) X(POPB)        \
  X(POPF) X(ERASE) X(ERASE_R) X(RESIZE) X(RESIZE_V) X(ASSIGN_N)              \
  X(ASSIGN_RANGE) X(ASSIGN_INPUT) X(ASSIGN_IL) X(OPEQ_IL) X(CLEAR)           \
  X(COPY_ASSIGN) X(MOVE_ASSIGN) X(SWAP) X(SWAP_FREE) X(COPY_CTOR)            \
  X(MOVE_CTOR) X(CTOR_N) X(CTOR_NV) X(CTOR_RANGE) X(CTOR_INPUT) X(CTOR_IL)   \
  X(SPLICE_ALL) X(SPLICE_ALL_R) X(SPLICE_ONE) X(SPLICE_ONE_R)                \
  X(SPLICE_RANGE) X(SPLICE_RANGE_R) X(MERGE) X(MERGE_R) X(MERGE_C) X(SORT)   \
  X(SORT_C) X(REVERSE) X(UNIQUE) X(UNIQUE_P) X(REMOVE) X(REMOVE_IF)          \
  X(BULK_INS) X(BULK_ERASE) X(SET)

enum OpCode : u32 {
#define X(n) n,
  W_OPS(X)
#undef X
      OP_COUNT
};
inline std::vector<char const*> op_names() {
  return {
#define X(n) #n,
      W_OPS(X)
#undef X
  };
}

inline char const* const* op_names_static() {
  static char const* const n[] = {
#define X(n) "op " #n,
      W_OPS(X)
#undef X
  };
  return n;
}

// A single-pass source that yields elements made from ids, and checks that
// every element is read once, in order.
template <class T>
struct SourceState {
  std::vector<u64> const* ids;
  std::size_t next = 0;       // the element the stream stands at
  std::size_t reads = 0;      // reads of the current element
  std::size_t total_reads = 0;
};
template <class T>
class InputIt {
  SourceState<T>* st_;
  bool end_;

 public:
  using iterator_category = std::input_iterator_tag;
  using value_type = T;
  using difference_type = std::ptrdiff_t;
  using pointer = T const*;
  using reference = T;
  InputIt(SourceState<T>* st, bool end) : st_(st), end_(end) {}
  T operator*() const {
    pbt::fault_point(pbt::F_SOURCE);
    if (end_ || st_->next >= st_->ids->size())
      pbt::note_error("read past the end of the source");
    ++st_->reads;
    ++st_->total_reads;
    return Traits<T>::make((*st_->ids)[st_->next]);
  }
  InputIt& operator++() {
    pbt::fault_point(pbt::F_SOURCE);
    if (end_ || st_->next >= st_->ids->size())
      pbt::note_error("advanced past the end of the source");
    ++st_->next;
    st_->reads = 0;
    return *this;
  }
  struct Post {  // what *it++ reads
    u64 id;
    T operator*() const { return Traits<T>::make(id); }
  };
  Post operator++(int) {
    Post p{end_ || st_->next >= st_->ids->size() ? 0 : (*st_->ids)[st_->next]};
    ++st_->total_reads;
    ++*this;
    return p;
  }
  bool at_end() const { return end_ || st_->next == st_->ids->size(); }
  friend bool operator==(InputIt const& a, InputIt const& b) {
    return a.at_end() == b.at_end();
  }
  friend bool operator!=(InputIt const& a, InputIt const& b) {
    return !(a == b);
  }
};

template <class T_, class A_, std::size_t SEG, std::size_t BASE>
struct Cfg {
  using T = T_;
  using A = A_;
  using Seq = boost::segmented_tree::seq<T, A, SEG, BASE>;
  static constexpr std::size_t seg = SEG;
  static constexpr std::size_t base = BASE;
  // The capacities that the documented targets ask for.
  static constexpr std::size_t seg_max =
      SEG / sizeof(T) > 1 ? SEG / sizeof(T) : 1;
};

template <class A>
A make_alloc_impl(int i, std::true_type) {
  return A(i);
}
template <class A>
A make_alloc_impl(int, std::false_type) {
  return A();
}
template <class A>
A make_alloc(int i) {
  return make_alloc_impl<A>(i, std::is_constructible<A, int>{});
}

// What a type can do besides.
template <class T>
auto has_eq_f(int)
    -> decltype(std::declval<T const&>() == std::declval<T const&>(),
                std::true_type{});
template <class T>
std::false_type has_eq_f(long);
template <class T>
auto has_lt_f(int)
    -> decltype(std::declval<T const&>() < std::declval<T const&>(),
                std::true_type{});
template <class T>
std::false_type has_lt_f(long);

// Functors whose calls are fault points.
struct CountCalls {
  static u64& calls() {
    static u64 c = 0;
    return c;
  }
};

// A const iterator for a position, by way of others.
template <class Seq>
typename Seq::const_iterator roundabout(Seq& s, std::size_t pos, u32 how) {
  using CIt = typename Seq::const_iterator;
  using D = typename Seq::difference_type;
  std::size_t const n = s.size();
  auto by = [](std::size_t to, std::size_t from) {
    return static_cast<D>(to) - static_cast<D>(from);
  };
  if (n) switch (how % 8) {
      case 0: {  // the last element
        auto it = s.penultimate();
        it += by(pos, n - 1);
        return CIt(it);
      }
      case 1: {
        Seq const& c = s;
        auto it = c.penultimate();
        std::size_t at = n - 1;
        if (n - pos < 40)
          for (; at > pos; --at) --it;
        if (at < pos) ++it, ++at;
        return it - by(at, pos);
      }
      case 2: {  // the next segment
        auto it = s.nth(pos);
        if (pos == n) break;
        auto const left = static_cast<std::size_t>(it.end() - it.current());
        it.move_after_segment();
        return CIt(it - static_cast<D>(left));
      }
      case 3: {  // the segment before
        auto it = s.nth(pos);
        if (pos == n) break;
        auto const in = static_cast<std::size_t>(it.current() - it.begin());
        if (in == pos) break;
        it.move_before_segment();
        return CIt(it + static_cast<D>(in + 1));
      }
      case 4:
        return CIt((s.rbegin() + by(n, pos)).base());
      case 5: {
        auto it = s.begin();
        auto const len = static_cast<std::size_t>(it.end() - it.begin());
        if (pos < len) break;
        it.move_after_segment(pos - len);
        return CIt(it);
      }
      case 6: {
        auto it = s.penultimate();
        auto const len = static_cast<std::size_t>(it.current() - it.begin()) + 1;
        if (pos >= n - len) break;
        it.move_before_segment(n - len - 1 - pos);
        return CIt(it);
      }
      default:
        return static_cast<Seq const&>(s).nth(pos);
    }
  return CIt(s.nth(pos));
}

template <class C>
struct World {
  using T = typename C::T;
  using A = typename C::A;
  using Seq = typename C::Seq;
  using Tx = Traits<T>;
  using It = typename Seq::iterator;
  using CIt = typename Seq::const_iterator;
  using Ids = std::vector<u64>;
  static constexpr bool has_eq = decltype(has_eq_f<T>(0))::value;
  static constexpr bool has_lt = decltype(has_lt_f<T>(0))::value;

  struct Slot {
    std::unique_ptr<Seq> s;
    Ids m;
    bool has_cursor = false;
    It cursor{};
  };
  static constexpr int slots = 3;
  Slot slot[slots];
  u64 counter = 0;
  bool distinct_allocs = false;  // each slot has its own arena
  bool equal_only = false;       // for transfers: nothing needed
  std::size_t max_size = 600;    // no op grows a container beyond this
  bool check_ret = true;
  bool portable = false;         // positions do not depend on segments
  bool wide = false;             // ranges and counts beyond 16 bits
  // what the last op did
  int touched[2] = {-1, -1};
  bool last_erased = false;
  std::size_t height_before = 0;

  explicit World(bool distinct = false) : distinct_allocs(distinct) {
    for (int i = 0; i != slots; ++i) slot[i].s.reset(new Seq(alloc_for(i)));
  }
  A alloc_for(int i) const {
    return make_alloc<A>(distinct_allocs ? i + 1 : 1);
  }

  u64 fresh(u32 v) { return Tx::norm((++counter << 4) | (v & 15)); }
  Ids fresh_n(std::size_t n, u32 v) {
    Ids r;
    for (std::size_t i = 0; i != n; ++i)
      r.push_back(fresh(static_cast<u32>(v + i * (1 + (v >> 4) % 5))));
    return r;
  }
  static std::vector<T> make_all(Ids const& ids) {
    std::vector<T> r;
    r.reserve(ids.size());
    for (auto i : ids) r.push_back(Tx::make(i));
    return r;
  }

  std::size_t pos_of(Slot& x, u32 p) const {
    std::size_t n = x.m.size();
    std::size_t r = p >> 4;
    switch (p & 15) {
      case 0: return 0;
      case 1: return n;
      case 2:
      case 3:
        if (x.has_cursor) {
          std::size_t c = std::min<std::size_t>(x.s->index_of(x.cursor), n);
          std::size_t d = r % 4;
          if ((p & 15) == 2) return std::min(c + d, n);
          return c - std::min(c, d);
        }
        return r % (n + 1);
      case 4:
      case 5:
      case 6: {
        if (portable) return r % (n + 1);
        // at, before and after a segment boundary
        if (!n) return 0;
        auto it = x.s->nth(r % n);
        auto in = static_cast<std::size_t>(it.current() - it.begin());
        std::size_t b = r % n - std::min(in, r % n);
        if ((p & 15) == 5) return b ? b - 1 : 0;
        if ((p & 15) == 6) return std::min(b + 1, n);
        return b;
      }
      case 7: return n ? n - 1 : 0;
      default: return r % (n + 1);
    }
  }
  // An iterator for a position, by one of many ways.
  CIt iter(Slot& x, std::size_t pos, u32 how) const {
    Seq& s = *x.s;
    using D = typename Seq::difference_type;
    if (how / 8 % 3 == 1 && how % 8) return roundabout(s, pos, how);
    switch (how % 8) {
      case 1: return CIt(s.begin() + static_cast<D>(pos));
      case 2: return CIt(s.end() - static_cast<D>(x.m.size() - pos));
      case 3:
        if (x.has_cursor)
          return CIt(x.cursor + (static_cast<D>(pos) -
                                 static_cast<D>(s.index_of(x.cursor))));
        return CIt(s.nth(pos));
      case 4: {
        Seq const& cs = s;
        return cs.nth(pos);
      }
      case 5:
        if (pos) {
          auto it = s.nth(pos - 1);
          ++it;
          return CIt(it);
        }
        return s.cbegin();
      case 6:
        if (pos < x.m.size()) {
          auto it = s.nth(pos + 1);
          --it;
          return CIt(it);
        }
        return s.cend();
      default: return CIt(s.nth(pos));
    }
  }
  void returned(Slot& x, It it, std::size_t want) {
    if (check_ret) {
      REQUIRE(x.s->index_of(it) == want, "returned index",
              x.s->index_of(it), "want", want);
      if (want < x.m.size())
        REQUIRE(Tx::id(*it) == x.m[want], "returned iterator reads",
                Tx::id(*it), "want", x.m[want], "at", want);
      else
        REQUIRE(it == x.s->end(), "");
    }
    x.cursor = it;
    x.has_cursor = true;
  }
  // As returned(), for a call that inserted id at want.
  void returned_after(Slot& x, It it, std::size_t want, u64 id) {
    x.m.insert(x.m.begin() + static_cast<long>(want), id);
    returned(x, it, want);
  }
  void invalidate(Slot& x) { x.has_cursor = false; }

  // One insertion or erasure, used by the single and the bulk operations.
  void insert_one(Slot& x, std::size_t pos, u32 kind, u32 how, u32 v) {
    u64 id = fresh(v);
    auto it = iter(x, pos, how);
    It r;
    if constexpr (Tx::copyable) {
      if (kind % 3 == 0) {
        T const t = Tx::make(id);
        r = x.s->insert(it, t);
      } else if (kind % 3 == 1)
        r = x.s->insert(it, Tx::make(id));
      else
        r = x.s->emplace(it, Tx::make(id));
    } else {
      if (kind % 2)
        r = x.s->insert(it, Tx::make(id));
      else
        r = x.s->emplace(it, Tx::make(id));
    }
    x.m.insert(x.m.begin() + static_cast<long>(pos), id);
    returned(x, r, pos);
  }
  void erase_one(Slot& x, std::size_t pos, u32 how) {
    auto it = iter(x, pos, how);
    It r = x.s->erase(it);
    x.m.erase(x.m.begin() + static_cast<long>(pos));
    last_erased = true;
    returned(x, r, pos);
  }

  static void merge_model(Ids& a, Ids& b) {
    Ids r;
    std::merge(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r),
               [](u64 x, u64 y) { return Tx::key(x) < Tx::key(y); });
    a.swap(r);
    b.clear();
  }

  bool apply(Op const& o) {
    Slot& x = slot[o.s % slots];
    Slot& y = slot[(o.s / slots) % slots];
    touched[0] = static_cast<int>(o.s % slots);
    touched[1] = -1;
    last_erased = false;
    height_before = x.s->height();
    bool two = false;
    std::size_t const n = x.m.size();
    std::size_t const room = n < max_size ? max_size - n : 0;
    u32 const how = o.n >> 20;
    auto less = [](T const& a, T const& b) {
      ++CountCalls::calls();
          pbt::fault_point(pbt::F_CALL);
      return Tx::key(Tx::id(a)) < Tx::key(Tx::id(b));
    };
    auto greater = [](T const& a, T const& b) {
      ++CountCalls::calls();
          pbt::fault_point(pbt::F_CALL);
      return Tx::key(Tx::id(b)) < Tx::key(Tx::id(a));
    };
    switch (o.code % OP_COUNT) {
      case INS_L:
        if (!room) return false;
        insert_one(x, pos_of(x, o.p), 0, how, o.v);
        break;
      case INS_R:
        if (!room) return false;
        insert_one(x, pos_of(x, o.p), 1, how, o.v);
        break;
      case EMPLACE:
        if (!room) return false;
        insert_one(x, pos_of(x, o.p), 2, how, o.v);
        break;
      case INS_N:
        if constexpr (Tx::copyable) {
          std::size_t k = std::min(length(o, 40), room);
          std::size_t pos = pos_of(x, o.p);
          u64 id = fresh(o.v);
          T const t = Tx::make(id);
          auto r = x.s->insert(iter(x, pos, how), k, t);
          x.m.insert(x.m.begin() + static_cast<long>(pos), k, id);
          returned(x, r, pos);
          break;
        }
        return false;
      case INS_RANGE:
        if constexpr (Tx::copyable) {
          std::size_t k = std::min(length(o, 60), room);
          std::size_t pos = pos_of(x, o.p);
          Ids ids = fresh_n(k, o.v);
          std::vector<T> const src = make_all(ids);
          auto r = x.s->insert(iter(x, pos, how), src.begin(), src.end());
          x.m.insert(x.m.begin() + static_cast<long>(pos), ids.begin(),
                     ids.end());
          returned(x, r, pos);
          break;
        }
        return false;
      case INS_INPUT: {
        std::size_t k = std::min(length(o, 60), room);
        std::size_t pos = pos_of(x, o.p);
        Ids ids = fresh_n(k, o.v);
        SourceState<T> st;
        st.ids = &ids;
        auto r = x.s->insert(iter(x, pos, how), InputIt<T>(&st, false),
                             InputIt<T>(&st, true));
        x.m.insert(x.m.begin() + static_cast<long>(pos), ids.begin(),
                   ids.end());
        returned(x, r, pos);
        break;
      }
      case INS_IL:
        if constexpr (Tx::copyable) {
          if (room < 4) return false;
          std::size_t pos = pos_of(x, o.p);
          Ids ids = fresh_n((o.n & 0xffff) % 2 ? 4 : (o.n & 0xffff) % 3, o.v);
          It r;
          if (ids.size() == 4)
            r = x.s->insert(iter(x, pos, how),
                            {Tx::make(ids[0]), Tx::make(ids[1]),
                             Tx::make(ids[2]), Tx::make(ids[3])});
          else if (ids.size() == 2)
            r = x.s->insert(iter(x, pos, how),
                            {Tx::make(ids[0]), Tx::make(ids[1])});
          else {
            ids.clear();
            r = x.s->insert(iter(x, pos, how), std::initializer_list<T>{});
          }
          x.m.insert(x.m.begin() + static_cast<long>(pos), ids.begin(),
                     ids.end());
          returned(x, r, pos);
          break;
        }
        return false;
      case PUSHB_L:
      case PUSHB_R:
      case EMPB: {
        if (!room) return false;
        u64 id = fresh(o.v);
        if (o.code % OP_COUNT == PUSHB_R)
          x.s->push_back(Tx::make(id));
        else if (o.code % OP_COUNT == EMPB)
          x.s->emplace_back(Tx::make(id));
        else if constexpr (Tx::copyable) {
          T const t = Tx::make(id);
          x.s->push_back(t);
        } else
          return false;
        x.m.push_back(id);
        invalidate(x);
        break;
      }
      case PUSHF_L:
      case PUSHF_R:
      case EMPF: {
        if (!room) return false;
        u64 id = fresh(o.v);
        if (o.code % OP_COUNT == PUSHF_R)
          x.s->push_front(Tx::make(id));
        else if (o.code % OP_COUNT == EMPF)
          x.s->emplace_front(Tx::make(id));
        else if constexpr (Tx::copyable) {
          T const t = Tx::make(id);
          x.s->push_front(t);
        } else
          return false;
        x.m.insert(x.m.begin(), id);
        invalidate(x);
        break;
      }
      case POPB:
        if (!n) return false;
        x.s->pop_back();
        x.m.pop_back();
        last_erased = true;
        invalidate(x);
        break;
      case POPF:
        if (!n) return false;
        x.s->pop_front();
        x.m.erase(x.m.begin());
        last_erased = true;
        invalidate(x);
        break;
      case ERASE: {
        if (!n) return false;
        erase_one(x, std::min(pos_of(x, o.p), n - 1), how);
        break;
      }
      case ERASE_R: {
        std::size_t a = pos_of(x, o.p);
        std::size_t len = length(o, 64);
        if ((o.v & 15) == 7) len = n - a;
        std::size_t b = std::min(n, a + len);
        auto r = x.s->erase(iter(x, a, how), iter(x, b, how >> 3));
        x.m.erase(x.m.begin() + static_cast<long>(a),
                  x.m.begin() + static_cast<long>(b));
        last_erased = a != b;
        returned(x, r, a);
        break;
      }
      case RESIZE: {
        std::size_t k = resize_target(n, o);
        if constexpr (std::is_default_constructible<T>::value)
          x.s->resize(k);
        else
          return false;
        x.m.resize(k, Tx::dflt());
        invalidate(x);
        break;
      }
      case RESIZE_V:
        if constexpr (Tx::copyable) {
          std::size_t k = resize_target(n, o);
          u64 id = fresh(o.v);
          T const t = Tx::make(id);
          x.s->resize(k, t);
          x.m.resize(k, id);
          invalidate(x);
          break;
        }
        return false;
      case ASSIGN_N:
        if constexpr (Tx::copyable) {
          std::size_t k = resize_target(n, o);
          u64 id = fresh(o.v);
          T const t = Tx::make(id);
          x.s->assign(k, t);
          x.m.assign(k, id);
          invalidate(x);
          break;
        }
        return false;
      case ASSIGN_RANGE:
        if constexpr (Tx::copyable) {
          Ids ids = fresh_n(resize_target(n, o), o.v);
          std::vector<T> const src = make_all(ids);
          x.s->assign(src.begin(), src.end());
          x.m = ids;
          invalidate(x);
          break;
        }
        return false;
      case ASSIGN_INPUT: {
        Ids ids = fresh_n(resize_target(n, o), o.v);
        SourceState<T> st;
        st.ids = &ids;
        x.s->assign(InputIt<T>(&st, false), InputIt<T>(&st, true));
        x.m = ids;
        invalidate(x);
        break;
      }
      case ASSIGN_IL:
      case OPEQ_IL:
        if constexpr (Tx::copyable) {
          Ids ids = fresh_n(3, o.v);
          if (o.code % OP_COUNT == ASSIGN_IL)
            x.s->assign(
                {Tx::make(ids[0]), Tx::make(ids[1]), Tx::make(ids[2])});
          else
            *x.s = {Tx::make(ids[0]), Tx::make(ids[1]), Tx::make(ids[2])};
          x.m = ids;
          invalidate(x);
          break;
        }
        return false;
      case CLEAR:
        x.s->clear();
        x.m.clear();
        invalidate(x);
        break;
      case COPY_ASSIGN:
        if constexpr (Tx::copyable) {
          two = true;
          *x.s = *y.s;
          x.m = Ids(y.m);
          invalidate(x);
          break;
        }
        return false;
      case MOVE_ASSIGN: {
        if (&x == &y) return false;
        two = true;
        *x.s = std::move(*y.s);
        x.m = y.m;
        y.s->clear();
        y.m.clear();
        invalidate(x);
        invalidate(y);
        break;
      }
      case SWAP:
      case SWAP_FREE: {
        using std::swap;
        if (!std::allocator_traits<A>::propagate_on_container_swap::value &&
            distinct_allocs)
          return false;
        two = true;
        if (o.code % OP_COUNT == SWAP)
          x.s->swap(*y.s);
        else
          swap(*x.s, *y.s);
        if (&x != &y) {
          x.m.swap(y.m);
          std::swap(x.cursor, y.cursor);
          std::swap(x.has_cursor, y.has_cursor);
        }
        break;
      }
      case COPY_CTOR:
        if constexpr (Tx::copyable) {
          two = true;
          std::unique_ptr<Seq> c;
          if (o.v & 1)
            c.reset(new Seq(*y.s, alloc_for(int(o.s % slots))));
          else
            c.reset(new Seq(*y.s));
          Ids m = y.m;
          x.s = std::move(c);
          x.m = m;
          invalidate(x);
          break;
        }
        return false;
      case MOVE_CTOR: {
        if (&x == &y) return false;
        two = true;
        std::unique_ptr<Seq> c;
        if (o.v & 1)
          c.reset(new Seq(std::move(*y.s), alloc_for(int(o.s % slots))));
        else
          c.reset(new Seq(std::move(*y.s)));
        x.s = std::move(c);
        x.m = y.m;
        y.s->clear();
        y.m.clear();
        invalidate(x);
        invalidate(y);
        break;
      }
      case CTOR_N: {
        std::size_t k = resize_target(0, o);
        if constexpr (std::is_default_constructible<T>::value) {
          std::unique_ptr<Seq> c(new Seq(k, alloc_for(int(o.s % slots))));
          x.s = std::move(c);
        } else
          return false;
        x.m.assign(k, Tx::dflt());
        invalidate(x);
        break;
      }
      case CTOR_NV:
        if constexpr (Tx::copyable) {
          std::size_t k = resize_target(0, o);
          u64 id = fresh(o.v);
          T const t = Tx::make(id);
          std::unique_ptr<Seq> c(new Seq(k, t, alloc_for(int(o.s % slots))));
          x.s = std::move(c);
          x.m.assign(k, id);
          invalidate(x);
          break;
        }
        return false;
      case CTOR_RANGE:
        if constexpr (Tx::copyable) {
          Ids ids = fresh_n(resize_target(0, o), o.v);
          std::vector<T> const src = make_all(ids);
          std::unique_ptr<Seq> c(
              new Seq(src.begin(), src.end(), alloc_for(int(o.s % slots))));
          x.s = std::move(c);
          x.m = ids;
          invalidate(x);
          break;
        }
        return false;
      case CTOR_INPUT: {
        Ids ids = fresh_n(resize_target(0, o), o.v);
        SourceState<T> st;
        st.ids = &ids;
        std::unique_ptr<Seq> c(new Seq(InputIt<T>(&st, false),
                                       InputIt<T>(&st, true),
                                       alloc_for(int(o.s % slots))));
        x.s = std::move(c);
        x.m = ids;
        invalidate(x);
        break;
      }
      case CTOR_IL:
        if constexpr (Tx::copyable) {
          Ids ids = fresh_n(3, o.v);
          std::unique_ptr<Seq> c(new Seq(
              {Tx::make(ids[0]), Tx::make(ids[1]), Tx::make(ids[2])},
              alloc_for(int(o.s % slots))));
          x.s = std::move(c);
          x.m = ids;
          invalidate(x);
          break;
        }
        return false;
      case SPLICE_ALL:
      case SPLICE_ALL_R: {
        if (&x == &y || y.m.size() > room) return false;
        two = true;
        std::size_t pos = pos_of(x, o.p);
        auto it = iter(x, pos, how);
        if (o.code % OP_COUNT == SPLICE_ALL)
          x.s->splice(it, *y.s);
        else
          x.s->splice(it, std::move(*y.s));
        x.m.insert(x.m.begin() + static_cast<long>(pos), y.m.begin(),
                   y.m.end());
        y.m.clear();
        invalidate(x);
        invalidate(y);
        break;
      }
      case SPLICE_ONE:
      case SPLICE_ONE_R: {
        if (&x == &y || y.m.empty() || !room) return false;
        two = true;
        std::size_t pos = pos_of(x, o.p);
        std::size_t from = std::min(pos_of(y, o.v), y.m.size() - 1);
        auto it = iter(x, pos, how);
        auto f = iter(y, from, how >> 3);
        if (o.code % OP_COUNT == SPLICE_ONE)
          x.s->splice(it, *y.s, f);
        else
          x.s->splice(it, std::move(*y.s), f);
        x.m.insert(x.m.begin() + static_cast<long>(pos), y.m[from]);
        y.m.erase(y.m.begin() + static_cast<long>(from));
        last_erased = true;
        invalidate(x);
        invalidate(y);
        break;
      }
      case SPLICE_RANGE:
      case SPLICE_RANGE_R: {
        if (&x == &y) return false;
        two = true;
        std::size_t pos = pos_of(x, o.p);
        std::size_t a = pos_of(y, o.v);
        std::size_t b =
            std::min({y.m.size(), a + length(o, 50), a + room});
        auto it = iter(x, pos, how);
        auto f = iter(y, a, how >> 3), l = iter(y, b, how >> 6);
        if (o.code % OP_COUNT == SPLICE_RANGE)
          x.s->splice(it, *y.s, f, l);
        else
          x.s->splice(it, std::move(*y.s), f, l);
        x.m.insert(x.m.begin() + static_cast<long>(pos),
                   y.m.begin() + static_cast<long>(a),
                   y.m.begin() + static_cast<long>(b));
        y.m.erase(y.m.begin() + static_cast<long>(a),
                  y.m.begin() + static_cast<long>(b));
        last_erased = a != b;
        invalidate(x);
        invalidate(y);
        break;
      }
      case MERGE:
      case MERGE_R:
      case MERGE_C: {
        if (&x == &y || y.m.size() > room) return false;
        two = true;
        auto c = o.code % OP_COUNT;
        bool up = !(c == MERGE_C && (o.v & 1));
        auto mkey = [up](u64 a, u64 b) {
          return up ? Tx::key(a) < Tx::key(b) : Tx::key(b) < Tx::key(a);
        };
        if (up) {
          x.s->sort(less);
          y.s->sort(less);
        } else {
          x.s->sort(greater);
          y.s->sort(greater);
        }
        std::stable_sort(x.m.begin(), x.m.end(), mkey);
        std::stable_sort(y.m.begin(), y.m.end(), mkey);
        bool plain = false;
        if constexpr (has_lt) {
          plain = c == MERGE || c == MERGE_R;
          if (c == MERGE)
            x.s->merge(*y.s);
          else if (c == MERGE_R)
            x.s->merge(std::move(*y.s));
        }
        if (plain)
          ;
        else if (up && (o.v & 2))
          x.s->merge(std::move(*y.s), less);
        else if (up)
          x.s->merge(*y.s, less);
        else
          x.s->merge(*y.s, greater);
        Ids r;
        std::merge(x.m.begin(), x.m.end(), y.m.begin(), y.m.end(),
                   std::back_inserter(r), mkey);
        x.m = r;
        y.m.clear();
        invalidate(x);
        invalidate(y);
        break;
      }
      case SORT:
        if constexpr (has_lt)
          x.s->sort();
        else
          return false;
        std::stable_sort(x.m.begin(), x.m.end(), [](u64 a, u64 b) {
          return Tx::key(a) < Tx::key(b);
        });
        break;
      case SORT_C:
        x.s->sort(greater);
        std::stable_sort(x.m.begin(), x.m.end(), [](u64 a, u64 b) {
          return Tx::key(b) < Tx::key(a);
        });
        break;
      case REVERSE:
        x.s->reverse();
        std::reverse(x.m.begin(), x.m.end());
        break;
      case UNIQUE:
        if constexpr (has_eq)
          x.s->unique();
        else
          return false;
        x.m.erase(std::unique(x.m.begin(), x.m.end(),
                              [](u64 a, u64 b) {
                                return Tx::key(a) == Tx::key(b);
                              }),
                  x.m.end());
        last_erased = x.m.size() != n;
        invalidate(x);
        break;
      case UNIQUE_P: {
        // not symmetric and not transitive on purpose: the first of a group is
        // what the others are compared with
        u64 d = 1 + (o.v & 3);
        auto pred = [d](u64 a, u64 b) {
          return Tx::key(b) - Tx::key(a) <= d;
        };
        x.s->unique([&](T const& a, T const& b) {
          ++CountCalls::calls();
          pbt::fault_point(pbt::F_CALL);
          return pred(Tx::id(a), Tx::id(b));
        });
        x.m.erase(std::unique(x.m.begin(), x.m.end(), pred), x.m.end());
        last_erased = x.m.size() != n;
        invalidate(x);
        break;
      }
      case REMOVE: {
        u64 id = n && (o.v & 16) ? x.m[(o.v >> 5) % n] : fresh(o.v);
        T const t = Tx::make(id);
        if constexpr (has_eq)
          x.s->remove(t);
        else
          return false;
        u64 k = Tx::key(Tx::norm(id));
        x.m.erase(std::remove_if(x.m.begin(), x.m.end(),
                                 [k](u64 a) { return Tx::key(a) == k; }),
                  x.m.end());
        last_erased = x.m.size() != n;
        invalidate(x);
        break;
      }
      case REMOVE_IF: {
        u64 mod = 2 + (o.v & 7), res = (o.v >> 3) % mod;
        bool inv = (o.v >> 12) & 1;
        auto pred = [=](u64 a) { return (a / 3 % mod == res) != inv; };
        x.s->remove_if([&](T const& a) {
          ++CountCalls::calls();
          pbt::fault_point(pbt::F_CALL);
          return pred(Tx::id(a));
        });
        x.m.erase(std::remove_if(x.m.begin(), x.m.end(), pred), x.m.end());
        last_erased = x.m.size() != n;
        invalidate(x);
        break;
      }
      case BULK_INS: {
        std::size_t k = std::min<std::size_t>(o.n & 0xffff, room);
        std::size_t c = pos_of(x, o.p);
        for (std::size_t i = 0; i != k; ++i) {
          std::size_t sz = x.m.size(), pos;
          switch (o.v % 7) {
            case 0: pos = sz; break;
            case 1: pos = 0; break;
            case 2: pos = c; break;                           // same place
            case 3: pos = std::min(c + i, sz); break;         // after the last
            case 4: pos = (i & 1) ? sz : 0; break;            // both ends
            case 5: pos = mix(o.p, i) % (sz + 1); break;      // anywhere
            default: pos = (c + i * 7) % (sz + 1); break;     // striding
          }
          insert_one(x, pos, static_cast<u32>(i), how & 7 ? how : 0, o.v >> 3);
        }
        break;
      }
      case BULK_ERASE: {
        std::size_t k = std::min<std::size_t>(o.n & 0xffff, n);
        std::size_t c = pos_of(x, o.p);
        for (std::size_t i = 0; i != k; ++i) {
          std::size_t sz = x.m.size(), pos;
          switch (o.v % 7) {
            case 0: pos = sz - 1; break;
            case 1: pos = 0; break;
            case 2: pos = std::min(c, sz - 1); break;
            case 3: pos = (c > i ? c - i : 0) % sz; break;
            case 4: pos = (i & 1) ? sz - 1 : 0; break;
            case 5: pos = mix(o.p, i) % sz; break;
            default: pos = (c + i * 7) % sz; break;
          }
          erase_one(x, pos, how & 7 ? how : 0);
        }
        break;
      }
      case SET: {
        if (!n) return false;
        std::size_t pos = std::min(pos_of(x, o.p), n - 1);
        u64 id = fresh(o.v);
        switch (how % 3) {
          case 0: (*x.s)[pos] = Tx::make(id); break;
          case 1: x.s->at(pos) = Tx::make(id); break;
          default: *x.s->nth(pos) = Tx::make(id); break;
        }
        x.m[pos] = id;
        break;
      }
      default: return false;
    }
    if (two) touched[1] = static_cast<int>((o.s / slots) % slots);
    pbt::checkpoint();
    return true;
  }

  static u64 mix(u64 a, u64 b) {
    pbt::Rng r(a * 0x9e3779b97f4a7c15ULL + b);
    return r.next() >> 8;
  }
  // The length of a range: below lim, or far beyond.
  std::size_t length(Op const& o, std::size_t lim) const {
    std::size_t const r = o.n & 0xffff;
    return wide && (o.v >> 4) % 4 ? r * (1 + (o.v >> 6) % 3) : r % lim;
  }
  std::size_t resize_target(std::size_t n, Op const& o) const {
    std::size_t r = o.n & 0xffff;
    if (wide && (o.v >> 4) % 4) {
      r *= 1 + (o.v >> 6) % 3;
      std::size_t const t = o.p % 6 == 1   ? n - std::min(n, r)
                            : o.p % 6 == 3 ? n + r
                                           : r;
      return std::min(t, max_size);
    }
    std::size_t t;
    switch (o.p % 6) {
      case 0: t = n + r % 20; break;
      case 1: t = n - std::min<std::size_t>(n, r % 20); break;
      case 2: t = r % 5; break;
      case 3: t = n + r % 150; break;
      case 4: t = n / 2; break;
      default: t = r % (max_size / 2 + 1); break;
    }
    return std::min(t, max_size);
  }

  // The contents against the model, walking forward.
  void check_contents(int i) {
    Slot& x = slot[i];
    Seq const& s = *x.s;
    REQUIRE(s.size() == x.m.size(), "size", s.size(), "want", x.m.size(),
            "slot", i);
    REQUIRE(s.empty() == x.m.empty(), "");
    std::size_t k = 0;
    auto e = s.end();
    for (auto it = s.begin(); it != e; ++it, ++k) {
      REQUIRE(k < x.m.size(), "iteration does not end");
      u64 got = Tx::id(*it);
      REQUIRE(got == x.m[k], "element", k, "is", got, "want", x.m[k], "slot",
              i, "size", s.size());
    }
    REQUIRE(k == x.m.size(), "iteration ended after", k, "of", x.m.size());
    pbt::checkpoint();
  }
  void check_touched() {
    for (int t : touched)
      if (t >= 0) check_contents(t);
  }
  void check_all() {
    for (int i = 0; i != slots; ++i) check_contents(i);
  }
};

// ---- generation ----
struct Profile {
  // relative weights of the operations, indexed by OpCode
  std::vector<unsigned> weight = std::vector<unsigned>(OP_COUNT, 0);
  std::size_t ops_lo = 10, ops_hi = 80;
  std::size_t size_hi = 400;   // target size of growth phases
  unsigned two_slots = 30;     // percent of ops on slots other than 0
  bool wide = false;           // few, long operations
  Profile& set(std::initializer_list<u32> ops, unsigned w) {
    for (auto o : ops) weight[o] = w;
    return *this;
  }
};
inline Profile editing() {
  Profile p;
  p.set({INS_L, INS_R, EMPLACE}, 9);
  p.set({ERASE}, 26);
  p.set({PUSHB_L, PUSHB_R, EMPB, PUSHF_L, PUSHF_R, EMPF, POPB, POPF}, 4);
  p.set({INS_N, INS_RANGE, INS_INPUT, INS_IL}, 3);
  p.set({ERASE_R}, 7);
  p.set({RESIZE, RESIZE_V, ASSIGN_N, ASSIGN_RANGE, ASSIGN_INPUT}, 2);
  p.set({ASSIGN_IL, OPEQ_IL, CLEAR}, 1);
  p.set({BULK_INS, BULK_ERASE}, 8);
  p.set({SET}, 2);
  return p;
}
inline Op any_op(Rng& r, Profile const& p, std::size_t code) {
  Op o;
  o.code = static_cast<u32>(code);
  u32 a = r.chance(p.two_slots, 100) ? static_cast<u32>(r.below(3)) : 0;
  u32 b = static_cast<u32>(r.below(3));
  o.s = a + 3 * b;
  o.p = (r.u() & 0xfffffff0u) | static_cast<u32>(r.below(16));
  o.n = static_cast<u32>(r.below(4096) << 20) |
        static_cast<u32>(r.below(0xffff));
  o.v = r.u() & 0xfffff;
  return o;
}
// Histories in phases: grow to a random size, churn, shrink, churn again.
inline Case gen_history(Rng& r, Profile const& p) {
  Case c;
  std::size_t target = p.ops_lo + r.below(p.ops_hi - p.ops_lo + 1);
  if (p.wide) {
    for (std::size_t i = 0; i != target; ++i) {
      Op o = any_op(r, p, i ? r.pick(p.weight) : r.chance(1, 2) ? INS_INPUT : ASSIGN_INPUT);
      if (!i) {
        o.n = (o.n & ~0xffffu) | static_cast<u32>(20000 + r.below(45000));
        o.v |= 16 | 64;  // long, twice or three times n
      } else if (r.chance(1, 6))  // at and about 16 bits
        o.n = (o.n & ~0xffffu) | static_cast<u32>(r.chance(1, 2) ? 0xffff : 0x7ffd + r.below(6));
      if (o.code == BULK_INS || o.code == BULK_ERASE)
        o.n = (o.n & ~0xffffu) | static_cast<u32>(r.below(2000));
      c.ops.push_back(o);
    }
    return c;
  }
  auto bulk = [&](u32 code, std::size_t n) {
    Op o = any_op(r, p, code);
    o.n = static_cast<u32>((r.chance(1, 3) ? r.below(8) << 20 : 0) |
                           std::min<std::size_t>(n, 0xffff));
    c.ops.push_back(o);
  };
  bool bulks = p.weight[BULK_INS] != 0;
  while (c.ops.size() < target) {
    std::size_t phase = r.below(4);
    if (phase == 0 && bulks)
      bulk(BULK_INS, 1 + r.below(r.chance(1, 3) ? p.size_hi
                                                : p.size_hi / 6 + 1));
    else if (phase == 1 && bulks)
      bulk(BULK_ERASE, 1 + r.below(r.chance(1, 3) ? p.size_hi
                                                  : p.size_hi / 6 + 1));
    std::size_t run = 2 + r.below(14);
    // a churn with a bias towards growth or shrinking
    std::size_t bias = r.below(3);
    for (std::size_t i = 0; i != run && c.ops.size() < target; ++i) {
      std::size_t k = r.pick(p.weight);
      if ((k == BULK_INS || k == BULK_ERASE)) {
        bulk(static_cast<u32>(k), 1 + r.below(p.size_hi / 8 + 1));
        continue;
      }
      if (bias == 1 && (k == ERASE || k == ERASE_R) && r.chance(2, 3))
        k = INS_R;
      if (bias == 2 && (k <= INS_IL) && r.chance(2, 3)) k = ERASE;
      if (!p.weight[k]) k = r.pick(p.weight);
      c.ops.push_back(any_op(r, p, k));
    }
  }
  return c;
}
}  // namespace w
