// C21: sources and arguments.
#include "drive.hpp"
#include <deque>
#include <forward_list>
#include <list>
#include <set>
#include <sstream>
using namespace d;
#if PART == 0
char const* const pbt::rule =
    "Sources: after a generated history a sequence is constructed from, "
    "assigned or given at a position a range of generated length from one of "
    "many kinds of source: a single-pass stream whose stale copies may not be "
    "used, with a proxy as reference and with comma and & overloaded; a "
    "forward source that counts reads per element; vector, list, forward_list, "
    "deque, raw pointers, another sequence in either direction, move "
    "iterators, computed values, stream iterators, vector<bool>, values of a "
    "type to convert. Contents, the number and order of reads, and the source "
    "afterwards are checked. Arguments: emplace* with packs of every value "
    "category, identity and number of arguments recorded by the constructor; "
    "rvalues must be moved from and never copied, lvalues unchanged; histories "
    "of the operations that need no copies may not copy. Integers as both "
    "arguments mean a count and a value. Non-trivial: height >= 2 and a range "
    "of two or more, or ten checked calls at height >= 2.";
#endif

// ---- sources ----
struct Comma {};
template <class A>
void operator,(A const&, Comma) = delete;

// Single pass. All copies of an iterator but the advanced one are stale.
template <class T>
struct Stream {
  std::vector<u64> ids;
  std::size_t at = 0;
  std::vector<unsigned> reads;
  explicit Stream(std::vector<u64> v) : ids(std::move(v)), reads(ids.size()) {}
};
template <class T>
struct Proxy {
  u64 id;
  operator T() const { return Traits<T>::make(id); }
};
template <class T, bool UseProxy>
class StrictIt {
  Stream<T>* st_;
  std::size_t at_;
  bool end_;
  void live(char const* what) const {
    if (end_)
      pbt::note_error(std::string(what) + " of the end of a source");
    else if (at_ != st_->at)
      pbt::note_error(std::string(what) +
                      " of a copy of a single-pass iterator that was advanced");
    else if (at_ >= st_->ids.size())
      pbt::note_error(std::string(what) + " past the end of a source");
  }

 public:
  using iterator_category = std::input_iterator_tag;
  using value_type = T;
  using difference_type = std::ptrdiff_t;
  using pointer = void;
  using reference =
      typename std::conditional<UseProxy, Proxy<T>, T>::type;
  StrictIt(Stream<T>* st, bool end) : st_(st), at_(0), end_(end) {}
  reference operator*() const {
    return make(one(), std::integral_constant<bool, UseProxy>{});
  }
  StrictIt& operator++() {
    live("advance");
    ++st_->at;
    at_ = st_->at;
    return *this;
  }
  struct Post {  // for *it++
    Stream<T>* st;
    std::size_t at;
    reference operator*() const {
      if (at >= st->ids.size()) return make(0, std::integral_constant<bool, UseProxy>{});
      ++st->reads[at];
      return make(st->ids[at], std::integral_constant<bool, UseProxy>{});
    }
  };
  Post operator++(int) {
    Post p{st_, at_};
    ++*this;
    return p;
  }
  friend bool operator==(StrictIt const& a, StrictIt const& b) {
    return a.done() == b.done();
  }
  friend bool operator!=(StrictIt const& a, StrictIt const& b) {
    return a.done() != b.done();
  }
  template <class B>
  void operator,(B const&) const = delete;
  StrictIt* operator&() = delete;
  StrictIt const* operator&() const = delete;

 private:
  u64 one() const {
    live("read");
    if (at_ >= st_->ids.size()) return 0;
    ++st_->reads[at_];
    return st_->ids[at_];
  }
  static T make(u64 id, std::false_type) { return Traits<T>::make(id); }
  static Proxy<T> make(u64 id, std::true_type) { return Proxy<T>{id}; }
  bool done() const {
    if (end_) return true;
    if (at_ != st_->at)
      pbt::note_error("comparison of a copy of an iterator that was advanced");
    return at_ == st_->ids.size();
  }
};

// Multi-pass; reads are counted.
template <class T, class Cat>
class CountIt {
  std::vector<T> const* v_;
  std::vector<unsigned>* reads_;
  std::size_t i_;

 public:
  using iterator_category = Cat;
  using value_type = T;
  using difference_type = std::ptrdiff_t;
  using pointer = T const*;
  using reference = T const&;
  CountIt() : v_(nullptr), reads_(nullptr), i_(0) {}
  CountIt(std::vector<T> const* v, std::vector<unsigned>* r, std::size_t i)
      : v_(v), reads_(r), i_(i) {}
  T const& operator*() const {
    if (i_ >= v_->size()) {
      pbt::note_error("read past the end of a source");
      pbt::checkpoint();
    }
    ++(*reads_)[i_];
    return (*v_)[i_];
  }
  T const* operator->() const { return std::addressof(**this); }
  CountIt& operator++() {
    if (i_ >= v_->size()) pbt::note_error("advanced past the end of a source");
    ++i_;
    return *this;
  }
  CountIt operator++(int) {
    auto c = *this;
    ++*this;
    return c;
  }
  CountIt& operator--() {
    --i_;
    return *this;
  }
  CountIt operator--(int) {
    auto c = *this;
    --*this;
    return c;
  }
  CountIt& operator+=(std::ptrdiff_t n) {
    i_ += static_cast<std::size_t>(n);
    return *this;
  }
  CountIt& operator-=(std::ptrdiff_t n) {
    i_ -= static_cast<std::size_t>(n);
    return *this;
  }
  T const& operator[](std::ptrdiff_t n) const { return *(*this + n); }
  friend CountIt operator+(CountIt a, std::ptrdiff_t n) { return a += n; }
  friend CountIt operator+(std::ptrdiff_t n, CountIt a) { return a += n; }
  friend CountIt operator-(CountIt a, std::ptrdiff_t n) { return a -= n; }
  friend std::ptrdiff_t operator-(CountIt const& a, CountIt const& b) {
    return static_cast<std::ptrdiff_t>(a.i_) - static_cast<std::ptrdiff_t>(b.i_);
  }
  friend bool operator==(CountIt const& a, CountIt const& b) { return a.i_ == b.i_; }
  friend bool operator!=(CountIt const& a, CountIt const& b) { return a.i_ != b.i_; }
  friend bool operator<(CountIt const& a, CountIt const& b) { return a.i_ < b.i_; }
  friend bool operator>(CountIt const& a, CountIt const& b) { return b < a; }
  friend bool operator<=(CountIt const& a, CountIt const& b) { return !(b < a); }
  friend bool operator>=(CountIt const& a, CountIt const& b) { return !(a < b); }
};

// Elements computed from ids (random access, values as references).
template <class T>
class ComputedIt {
  std::vector<u64> const* v_;
  std::ptrdiff_t i_;

 public:
  using iterator_category = std::input_iterator_tag;
  using value_type = T;
  using difference_type = std::ptrdiff_t;
  using pointer = void;
  using reference = T;
  ComputedIt(std::vector<u64> const* v, std::ptrdiff_t i) : v_(v), i_(i) {}
  T operator*() const { return Traits<T>::make((*v_)[static_cast<std::size_t>(i_)]); }
  ComputedIt& operator++() {
    ++i_;
    return *this;
  }
  ComputedIt operator++(int) { return ComputedIt(v_, i_++); }
  friend bool operator==(ComputedIt const& a, ComputedIt const& b) { return a.i_ == b.i_; }
  friend bool operator!=(ComputedIt const& a, ComputedIt const& b) { return a.i_ != b.i_; }
};

enum Kind : u32 {
  K_STRICT,
  K_PROXY,
  K_COUNT_FWD,
  K_COUNT_RA,
  K_VECTOR,
  K_VECTOR_MUTABLE,
  K_LIST,
  K_FLIST,
  K_DEQUE,
  K_POINTER,
  K_SEQ,
  K_SEQ_REV,
  K_MOVE_VECTOR,
  K_MOVE_SEQ,
  K_COMPUTED,
  K_SPECIAL,
  K_SPECIAL2,
  K_END
};
static char const* const kind_names[] = {
    "source: strict stream", "source: stream of proxies",
    "source: counted forward", "source: counted random access",
    "source: vector", "source: mutable vector", "source: list",
    "source: forward_list", "source: deque", "source: pointers",
    "source: seq", "source: seq reversed", "source: moved vector",
    "source: moved seq", "source: computed values", "source: special",
    "source: special 2"};

// Sources that only some element types can take. f(first, last).
template <class T>
struct Special {
  template <class F>
  static bool call(std::vector<u64> const&, u32, F) {
    return false;
  }
};
template <>
struct Special<u64> {
  template <class F>
  static bool call(std::vector<u64> const& ids, u32 which, F f) {
    if (which) {
      std::set<u64> const s(ids.begin(), ids.end());  // ids grow
      if (s.size() != ids.size() || !std::is_sorted(ids.begin(), ids.end()))
        return false;
      f(s.begin(), s.end());
      return true;
    }
    std::stringstream st;
    for (auto id : ids) st << id << ' ';
    f(std::istream_iterator<u64>(st), std::istream_iterator<u64>());
    return true;
  }
};
template <>
struct Special<u32> {
  template <class F>
  static bool call(std::vector<u64> const& ids, u32 which, F f) {
    if (which) {
      std::vector<short> v;  // converted
      for (auto id : ids)
        if (id > 30000) return false;
      for (auto id : ids) v.push_back(static_cast<short>(id));
      f(v.begin(), v.end());
      return true;
    }
    f(ids.begin(), ids.end());  // u64 to u32
    return true;
  }
};
template <>
struct Special<std::uint8_t> {
  template <class F>
  static bool call(std::vector<u64> const& ids, u32 which, F f) {
    if (which) {
      std::vector<bool> v;
      for (auto id : ids)
        if (id > 1) return false;
      for (auto id : ids) v.push_back(id != 0);
      f(v.begin(), v.end());
      return true;
    }
    std::string s;
    for (auto id : ids) s += static_cast<char>(id);
    std::istringstream st(s);
    f(std::istreambuf_iterator<char>(st), std::istreambuf_iterator<char>());
    return true;
  }
};
template <>
struct Special<std::string> {
  template <class F>
  static bool call(std::vector<u64> const& ids, u32 which, F f) {
    std::vector<std::string> v;
    for (auto id : ids) v.push_back(Traits<std::string>::make(id));
    if (which) {
      for (auto const& x : v)
        if (x.empty()) return false;
      std::stringstream st;
      for (auto const& x : v) st << x << '\n';
      f(std::istream_iterator<std::string>(st),
        std::istream_iterator<std::string>());
      return true;
    }
    std::vector<char const*> p;
    for (auto const& x : v) p.push_back(x.c_str());
    f(p.data(), p.data() + p.size());
    return true;
  }
};

template <class T>
bool husk(T const&) {
  return true;
}
template <unsigned F, std::size_t P>
bool husk(Tr<F, P> const& x) {
  return x.moved_from();
}
inline bool husk(MoveOnly const& x) { return x.t.moved_from(); }

template <class C>
struct Sources {
  using W = World<C>;
  using T = typename C::T;
  using Seq = typename C::Seq;
  using Tx = Traits<T>;
  using Ids = std::vector<u64>;

  template <class F>
  static bool feed(u32 kind, Ids const& ids, F f) {
    switch (kind) {
      case K_STRICT:
      case K_PROXY: {
        Stream<T> st(ids);
        if (kind == K_PROXY)
          f(StrictIt<T, true>(&st, false), StrictIt<T, true>(&st, true));
        else
          f(StrictIt<T, false>(&st, false), StrictIt<T, false>(&st, true));
        REQUIRE(st.at == ids.size(), "the source was read up to", st.at, "of",
                ids.size());
        for (auto r : st.reads)
          REQUIRE(r == 1, "a source element was read", r, "times");
        return true;
      }
      case K_COMPUTED:
        f(ComputedIt<T>(&ids, 0),
          ComputedIt<T>(&ids, static_cast<std::ptrdiff_t>(ids.size())));
        return true;
      case K_MOVE_VECTOR: {
        auto v = W::make_all(ids);
        f(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end()));
        for (auto const& x : v)
          REQUIRE(husk(x), "an element was copied from a move iterator");
        return true;
      }
      case K_MOVE_SEQ: {
        Seq v;
        for (auto id : ids) v.push_back(Tx::make(id));
        f(std::make_move_iterator(v.begin()), std::make_move_iterator(v.end()));
        REQUIRE(v.size() == ids.size(), "");
        for (auto const& x : v)
          REQUIRE(husk(x), "an element was copied from a move iterator");
        return true;
      }
      case K_SPECIAL:
      case K_SPECIAL2: return Special<T>::call(ids, kind == K_SPECIAL2, f);
      default: break;
    }
    if constexpr (Tx::copyable) {
      auto unchanged = [&](auto const& c) {
        std::size_t i = 0;
        for (auto const& x : c) {
          REQUIRE(i < ids.size() && Tx::id(x) == ids[i], "the source changed");
          ++i;
        }
        REQUIRE(i == ids.size(), "the source changed");
      };
      auto v = W::make_all(ids);
      switch (kind) {
        case K_COUNT_FWD: {
          std::vector<unsigned> r(ids.size() + 1);
          using I = CountIt<T, std::forward_iterator_tag>;
          f(I(&v, &r, 0), I(&v, &r, v.size()));
          for (std::size_t i = 0; i != v.size(); ++i)
            REQUIRE(r[i] == 1, "source element", i, "was read", r[i], "times");
          break;
        }
        case K_COUNT_RA: {
          std::vector<unsigned> r(ids.size() + 1);
          using I = CountIt<T, std::random_access_iterator_tag>;
          f(I(&v, &r, 0), I(&v, &r, v.size()));
          for (std::size_t i = 0; i != v.size(); ++i)
            REQUIRE(r[i] == 1, "source element", i, "was read", r[i], "times");
          break;
        }
        case K_VECTOR: f(v.cbegin(), v.cend()); break;
        case K_VECTOR_MUTABLE: f(v.begin(), v.end()); break;
        case K_LIST: {
          std::list<T> l(v.begin(), v.end());
          f(l.begin(), l.end());
          unchanged(l);
          break;
        }
        case K_FLIST: {
          std::forward_list<T> l(v.begin(), v.end());
          f(l.begin(), l.end());
          unchanged(l);
          break;
        }
        case K_DEQUE: {
          std::deque<T> l(v.begin(), v.end());
          f(l.begin(), l.end());
          unchanged(l);
          break;
        }
        case K_POINTER: f(v.data(), v.data() + v.size()); break;
        case K_SEQ: {
          Seq l;
          for (auto const& x : v) l.push_back(x);
          if (ids.size() & 1)
            f(l.begin(), l.end());
          else
            f(l.cbegin(), l.cend());
          unchanged(l);
          break;
        }
        case K_SEQ_REV: {
          Seq l;
          for (auto const& x : v) l.push_front(x);
          if (ids.size() & 1)
            f(l.rbegin(), l.rend());
          else
            f(l.crbegin(), l.crend());
          break;
        }
        default: return false;
      }
      unchanged(v);
      return true;
    } else
      return false;
  }

  static pbt::Suite suite(std::string name, Size z, u64 quick, u64 thorough) {
    pbt::Suite s;
    s.name = name + " sources";
    s.opnames = op_names();
    s.quick = quick;
    s.thorough = thorough;
    s.gen = [z](Rng& r, u64 index, bool) {
      Profile p = editing();
      p.ops_lo = 0;
      p.ops_hi = 12;
      p.size_hi = z.size_hi / 3;
      Case c = gen_history(r, p);
      std::size_t n = 1 + r.below(6);
      for (std::size_t i = 0; i != n; ++i) {
        Op o;
        o.code = 1000 + static_cast<u32>(r.below(3));
        o.s = static_cast<u32>((index + i * 7 + r.below(2)) % K_END);
        o.p = (r.u() & 0xfffffff0u) | static_cast<u32>(r.below(16));
        o.n = static_cast<u32>(r.below(8) << 20) |
              static_cast<u32>(r.below(r.chance(1, 3) ? z.size_hi : 12));
        o.v = r.u();
        c.ops.push_back(o);
      }
      return c;
    };
    auto max_size = z.max_size;
    s.run = [max_size](Case const& c) {
      mem::reset();
      tr_stats = TrStats{};
      bool deep = false;
      {
        W w;
        w.max_size = max_size;
        for (auto const& o : c.ops) {
          if (o.code < OP_COUNT) {
            w.apply(o);
            continue;
          }
          auto& x = w.slot[0];
          u32 const kind = o.s % K_END;
          std::size_t n = std::min<std::size_t>(o.n & 0xffff, max_size);
          Ids ids;
          if (std::is_same<T, u32>::value && kind == K_SPECIAL2)
            for (std::size_t i = 0; i != n; ++i) ids.push_back((o.v + i * 7) % 30000);
          else if (std::is_same<T, std::uint8_t>::value && kind == K_SPECIAL2)
            for (std::size_t i = 0; i != n; ++i) ids.push_back((o.v >> (i % 20)) & 1);
          else
            ids = w.fresh_n(n, o.v);
          auto const copied = tr_stats.copied();
          bool did;
          switch (o.code % 3) {
            case 0: {  // construct
              std::unique_ptr<Seq> fresh;
              did = feed(kind, ids, [&](auto a, auto b) {
                if (o.v & 1)
                  fresh.reset(new Seq(a, b, w.alloc_for(0)));
                else
                  fresh.reset(new Seq(a, b));
              });
              if (did) {
                x.s = std::move(fresh);
                x.m = ids;
                w.invalidate(x);
              }
              break;
            }
            case 1:  // assign
              did = feed(kind, ids, [&](auto a, auto b) { x.s->assign(a, b); });
              if (did) {
                x.m = ids;
                w.invalidate(x);
              }
              break;
            default: {
              if (x.m.size() + n > max_size * 3) continue;
              std::size_t pos = w.pos_of(x, o.p);
              typename W::It r{};
              did = feed(kind, ids, [&](auto a, auto b) {
                r = x.s->insert(w.iter(x, pos, o.n >> 20), a, b);
              });
              if (did) {
                x.m.insert(x.m.begin() + static_cast<std::ptrdiff_t>(pos),
                           ids.begin(), ids.end());
                w.returned(x, r, pos);
              }
              break;
            }
          }
          if (!did) continue;
          label(kind_names[kind]);
          if (kind == K_STRICT || kind == K_PROXY || kind == K_MOVE_VECTOR ||
              kind == K_MOVE_SEQ)
            REQUIRE((std::is_same<T, CopyOnly>::value) ||
                        tr_stats.copied() == copied,
                    "elements were copied, not moved, from", kind_names[kind]);
          w.check_contents(0);
          deep = deep || (x.s->height() >= 2 && n >= 2);
        }
        w.check_all();
      }
      pbt::checkpoint();
      REQUIRE(tr_stats.live == 0, "");
      if (deep) pbt::nontrivial();
    };
    return s;
  }
};

// ---- forwarding ----
struct Tag {};
struct Immovable {
  int x = 7;
  Immovable() = default;
  Immovable(Immovable const&) = delete;
  Immovable& operator=(Immovable const&) = delete;
};
inline void some_function() {}

// Remembers what it was constructed from.
struct Heard {
  u32 cats = 0;
  u32 count = 0;
  void const* addr[4] = {};
  template <class A>
  u32 hear(void const* p) {
    addr[count] = p;
    using R = typename std::remove_reference<A>::type;
    u32 c = (std::is_lvalue_reference<A>::value ? 1 : 2) +
            (std::is_const<R>::value ? 4 : 0);
    cats |= c << (4 * count);
    ++count;
    return c;
  }
};
template <class T>
void const* where(T& x) {
  return reinterpret_cast<void const*>(std::addressof(x));
}

template <bool Trivial>
struct Fw : Heard {
  u64 v;
  Fw() : v(0) {}
  explicit Fw(u64 id) : v(id) {}
  template <class... A>
  Fw(Tag, u64 id, A&&... a) : v(id) {
    int x[] = {0, (this->template hear<A&&>(where(a)), 0)...};
    (void)x;
  }
  Fw(Tag, std::unique_ptr<u64> p) : v(*p) { cats = 0x77; }
  friend bool operator==(Fw const& a, Fw const& b) { return a.v == b.v; }
  friend bool operator<(Fw const& a, Fw const& b) { return a.v < b.v; }
};
template <>
struct Fw<false> : Heard {
  u64 v;
  Trk t;  // not trivial
  static u64& copies() {
    static u64 c = 0;
    return c;
  }
  Fw() : v(0) {}
  explicit Fw(u64 id) : v(id) {}
  Fw(Fw const&) = default;
  Fw(Fw&&) = default;
  Fw& operator=(Fw const&) = default;
  Fw& operator=(Fw&&) = default;
  template <class... A>
  Fw(Tag, u64 id, A&&... a) : v(id) {
    int x[] = {0, (this->template hear<A&&>(where(a)), 0)...};
    (void)x;
  }
  Fw(Tag, std::unique_ptr<u64> p) : v(*p) { cats = 0x77; }
  friend bool operator==(Fw const& a, Fw const& b) { return a.v == b.v; }
  friend bool operator<(Fw const& a, Fw const& b) { return a.v < b.v; }
};
template <bool Trivial>
struct Traits<Fw<Trivial>> : IntTraits<u64> {
  static Fw<Trivial> make(u64 id) { return Fw<Trivial>(id); }
  static u64 id(Fw<Trivial> const& x) { return x.v; }
};

template <class C>
struct Forward {
  using W = World<C>;
  using T = typename C::T;

  template <class... A>
  static T const& put(W& w, typename W::Slot& x, u32 how, std::size_t pos,
                      u32 it, u64 id, A&&... a) {
    auto& s = *x.s;
    switch (how % 3) {
      case 0: {
        auto r = s.emplace(w.iter(x, pos, it), std::forward<A>(a)...);
        x.m.insert(x.m.begin() + static_cast<std::ptrdiff_t>(pos), id);
        w.returned(x, r, pos);
        return *r;
      }
      case 1:
        s.emplace_back(std::forward<A>(a)...);
        x.m.push_back(id);
        w.invalidate(x);
        return s.back();
      default:
        s.emplace_front(std::forward<A>(a)...);
        x.m.insert(x.m.begin(), id);
        w.invalidate(x);
        return s.front();
    }
  }
  static void one(W& w, Op const& o) {
    auto& x = w.slot[0];
    if (x.m.size() > 3000) return;
    std::size_t const pos = w.pos_of(x, o.p);
    u32 const it = o.n >> 20, how = o.v;
    u64 const id = w.fresh(o.v >> 8);
    Tag tag;
    auto const copied = tr_stats.copied();
    auto const created = tr_stats.creates;
    auto heard = [&](T const& e, std::initializer_list<u32> cats,
                     std::initializer_list<void const*> at) {
      REQUIRE(e.v == id, "");
      u32 want = 0, n = 0;
      for (auto c : cats) want |= c << (4 * n++);
      REQUIRE(e.count == n && e.cats == want,
              "arguments arrived with other value categories:", e.cats, "want",
              want);
      n = 0;
      for (auto p : at)
        REQUIRE(e.addr[n++] == p, "another object than the argument arrived");
    };
    enum : u32 { L = 1, R = 2, CL = 5, CR = 6 };
    int a = 5;
    int const b = 6;
    std::string st = "a string that needs memory of its own";
    std::string const cst = st;
    Immovable im;
    switch (o.s % 14) {
      case 0: heard(put(w, x, how, pos, it, id, tag, id), {}, {}); break;
      case 1:
        heard(put(w, x, how, pos, it, id, tag, id, a), {L}, {where(a)});
        REQUIRE(a == 5, "");
        break;
      case 2:
        heard(put(w, x, how, pos, it, id, tag, id, b), {CL}, {where(b)});
        break;
      case 3:
        heard(put(w, x, how, pos, it, id, tag, id, std::move(a)), {R},
              {where(a)});
        break;
      case 4:
        heard(put(w, x, how, pos, it, id, tag, id, std::move(b)), {CR},
              {where(b)});
        break;
      case 5:
        heard(put(w, x, how, pos, it, id, tag, id, a, b, std::move(st)),
              {L, CL, R}, {where(a), where(b), where(st)});
        break;
      case 6: {
        std::unique_ptr<u64> u(new u64(id));
        T const& e = put(w, x, how, pos, it, id, tag, std::move(u));
        REQUIRE(e.cats == 0x77 && !u, "");
        break;
      }
      case 7:
        heard(put(w, x, how, pos, it, id, tag, id, "abc", nullptr), {CL, R},
              {});
        break;
      case 8:
        heard(put(w, x, how, pos, it, id, tag, id, im), {L}, {where(im)});
        break;
      case 9:
        heard(put(w, x, how, pos, it, id, tag, id, some_function,
                  std::move(cst), st),
              {L, CR, L}, {});
        REQUIRE(st == cst, "an lvalue argument changed");
        break;
      case 10: put(w, x, how, pos, it, 0); break;  // no argument at all
      case 11: {
        T e(id);
        put(w, x, how, pos, it, id, e);
        REQUIRE(e.v == id, "");
        break;
      }
      case 12:
        heard(put(w, x, how, pos, it, id, tag, id, st, std::move(st), cst,
                  std::string("tmp")),
              {L, R, CL, R}, {where(st), where(st), where(cst)});
        break;
      default: {
        int const arr[3] = {1, 2, 3};
        int mut[2] = {1, 2};
        heard(put(w, x, how, pos, it, id, tag, id, arr, mut), {CL, L},
              {where(arr), where(mut)});
        break;
      }
    }
    label("emplacements with recorded arguments");
    if (!std::is_trivially_copyable<T>::value && o.s % 14 != 11) {
      REQUIRE(tr_stats.copied() == copied, "an emplaced element was copied");
      REQUIRE(tr_stats.creates == created + 1, "an emplaced element was made",
              tr_stats.creates - created, "times");
    }
    pbt::checkpoint();
  }
  static pbt::Suite suite(std::string name, u64 quick, u64 thorough) {
    pbt::Suite s;
    s.name = name + " arguments";
    s.opnames = op_names();
    s.quick = quick;
    s.thorough = thorough;
    s.gen = [](Rng& r, u64, bool) {
      Profile p = editing();
      p.two_slots = 0;
      p.ops_hi = 40;
      Case c = gen_history(r, p);
      std::vector<Op> ops;
      for (auto const& o : c.ops) {
        ops.push_back(o);
        Op a = any_op(r, p, 0);
        a.code = 1000;
        a.s = r.u() & 0xffff;
        ops.push_back(a);
      }
      c.ops.swap(ops);
      return c;
    };
    s.run = [](Case const& c) {
      mem::reset();
      tr_stats = TrStats{};
      unsigned deep = 0;
      {
        W w;
        for (auto const& o : c.ops) {
          if (o.code < OP_COUNT) {
            w.apply(o);
            continue;
          }
          deep += w.slot[0].s->height() >= 2;
          one(w, o);
          w.check_contents(0);
        }
      }
      pbt::checkpoint();
      if (deep >= 10) pbt::nontrivial();
    };
    return s;
  }
};

// ---- rvalues and lvalues of the element type ----
template <class C>
struct Values {
  using W = World<C>;
  using T = typename C::T;
  using Tx = Traits<T>;
  static bool moved(Trk const& x) { return x.moved_from(); }
  static bool moved(MoveOnly const& x) { return x.t.moved_from(); }
  static bool moved(CopyOnly const&) { return true; }
  static bool moved(std::string const& s) { return s.size() < 20; }
  static bool moved(SelfAware const&) { return true; }

  static void one(W& w, Op const& o) {
    auto& x = w.slot[0];
    auto& s = *x.s;
    if (x.m.size() > 3000) return;
    std::size_t const pos = w.pos_of(x, o.p);
    auto const at = [&] { return x.m.begin() + static_cast<std::ptrdiff_t>(pos); };
    u64 id = w.fresh(o.v >> 8);
    if (std::is_same<T, std::string>::value) id |= 16;  // on the heap
    T t = Tx::make(id);
    T const& ct = t;
    auto const copied = tr_stats.copied();
    std::size_t const n = (o.n & 0xffff) % 9;
    bool rvalue = false;
    std::size_t made = 1;
    switch (o.s % 20) {
      case 0:
        rvalue = true;
        w.returned_after(x, s.insert(w.iter(x, pos, o.n >> 20), std::move(t)), pos, id);
        break;
      case 1:
        rvalue = true;
        w.returned_after(x, s.emplace(w.iter(x, pos, o.n >> 20), std::move(t)), pos, id);
        break;
      case 2:
        rvalue = true;
        s.push_back(std::move(t));
        x.m.push_back(id);
        break;
      case 3:
        rvalue = true;
        s.emplace_back(std::move(t));
        x.m.push_back(id);
        break;
      case 4:
        rvalue = true;
        s.push_front(std::move(t));
        x.m.insert(x.m.begin(), id);
        break;
      case 5:
        rvalue = true;
        s.emplace_front(std::move(t));
        x.m.insert(x.m.begin(), id);
        break;
      default:
        if constexpr (Tx::copyable) {
          switch (o.s % 20) {
            case 6: w.returned_after(x, s.insert(w.iter(x, pos, o.n >> 20), t), pos, id); break;
            case 7: w.returned_after(x, s.emplace(w.iter(x, pos, o.n >> 20), t), pos, id); break;
            case 8: w.returned_after(x, s.emplace(w.iter(x, pos, o.n >> 20), ct), pos, id); break;
            case 9: s.push_back(t); x.m.push_back(id); break;
            case 10: s.emplace_back(t); x.m.push_back(id); break;
            case 11: s.push_front(t); x.m.insert(x.m.begin(), id); break;
            case 12: s.emplace_front(t); x.m.insert(x.m.begin(), id); break;
            case 13: {
              auto r = s.insert(w.iter(x, pos, o.n >> 20), n, t);
              x.m.insert(at(), n, id);
              w.returned(x, r, pos);
              made = n;
              break;
            }
            case 14: {
              std::size_t old = x.m.size(), to = old + n;
              s.resize(to, t);
              x.m.resize(to, id);
              made = n;
              break;
            }
            case 15:
              s.assign(n, t);
              x.m.assign(n, id);
              made = n;
              break;
            case 16: {
              std::initializer_list<T> il = {t, t, t};
              auto r = s.insert(w.iter(x, pos, o.n >> 20), il);
              x.m.insert(at(), 3, id);
              w.returned(x, r, pos);
              for (auto const& e : il)
                REQUIRE(Tx::id(e) == id, "an initializer_list changed");
              break;
            }
            case 17: {
              std::initializer_list<T> il = {t, t};
              if (n & 1)
                s.assign(il);
              else
                s = il;
              x.m.assign(2, id);
              for (auto const& e : il)
                REQUIRE(Tx::id(e) == id, "an initializer_list changed");
              break;
            }
            case 18: {
              typename C::Seq f(n, t, w.alloc_for(0));
              s.swap(f);
              x.m.assign(n, id);
              made = n;
              break;
            }
            default: {
              T const c = Tx::make(id);
              w.returned_after(x, s.insert(w.iter(x, pos, o.n >> 20), std::move(c)), pos, id);
              REQUIRE(Tx::id(c) == id, "a const argument changed");
              break;
            }
          }
          if (o.s % 20 < 6 || o.s % 20 > 8)
            if (o.s % 20 != 13 && o.s % 20 != 16) w.invalidate(x);
        } else
          return;
    }
    if (o.s % 20 >= 2 && o.s % 20 <= 5) w.invalidate(x);
    if (rvalue) {
      label("calls with an rvalue");
      REQUIRE((std::is_same<T, CopyOnly>::value) || tr_stats.copied() == copied,
              "an rvalue was copied");
      REQUIRE(moved(t), "an rvalue was not moved from");
    } else {
      label("calls with an lvalue");
      REQUIRE(Tx::id(t) == id, "an lvalue argument changed");
      if (std::is_same<T, Trk>::value && o.s % 20 != 16 && o.s % 20 != 17)
        REQUIRE(tr_stats.copied() - copied >= made &&
                    tr_stats.copied() - copied <= made + 1,
                "copies made:", tr_stats.copied() - copied, "of", made);
    }
    pbt::checkpoint();
  }
  static pbt::Suite suite(std::string name, u64 quick, u64 thorough) {
    pbt::Suite s;
    s.name = name + " values";
    s.opnames = op_names();
    s.quick = quick;
    s.thorough = thorough;
    s.gen = [](Rng& r, u64, bool) {
      Profile p = editing();
      p.two_slots = 0;
      p.ops_hi = 40;
      Case c = gen_history(r, p);
      std::vector<Op> ops;
      for (auto const& o : c.ops) {
        ops.push_back(o);
        std::size_t k = r.below(3);
        for (std::size_t i = 0; i != k; ++i) {
          Op a = any_op(r, p, 0);
          a.code = 1000;
          a.s = r.u() & 0xffff;
          if (a.s % 20 >= 15 && a.s % 20 <= 18 && r.chance(4, 5)) a.s = 0;
          ops.push_back(a);
        }
      }
      c.ops.swap(ops);
      return c;
    };
    s.run = [](Case const& c) {
      mem::reset();
      tr_stats = TrStats{};
      unsigned deep = 0;
      {
        W w;
        for (auto const& o : c.ops) {
          if (o.code < OP_COUNT) {
            w.apply(o);
            continue;
          }
          deep += w.slot[0].s->height() >= 2;
          one(w, o);
          w.check_contents(0);
        }
      }
      pbt::checkpoint();
      REQUIRE(tr_stats.live == 0, "");
      if (deep >= 10) pbt::nontrivial();
    };
    return s;
  }
};

// Histories of what needs no copies do not copy.
template <class C>
pbt::Suite no_copies(std::string name, u64 quick, u64 thorough,
                     bool distinct = false) {
  Profile p;
  p.set({INS_R, EMPLACE, INS_INPUT}, 6);
  p.set({ERASE}, 8);
  p.set({PUSHB_R, EMPB, PUSHF_R, EMPF, POPB, POPF, ERASE_R}, 3);
  p.set({RESIZE, CLEAR, MOVE_ASSIGN, MOVE_CTOR, SWAP, SWAP_FREE, CTOR_INPUT,
         SPLICE_ALL, SPLICE_ALL_R, SPLICE_ONE, SPLICE_ONE_R, SPLICE_RANGE,
         SPLICE_RANGE_R, MERGE, MERGE_R, MERGE_C, SORT, SORT_C, REVERSE,
         UNIQUE, UNIQUE_P, REMOVE, REMOVE_IF, SET, ASSIGN_INPUT, CTOR_N},
        1);
  p.set({BULK_ERASE}, 3);
  p.two_slots = 50;
  return d::histories<C>(
      name + " no copies", p, Size{}, quick, thorough,
      [](World<C>& x, Op const& o, Seen&) {
        REQUIRE(tr_stats.copied() == 0, op_names_static()[o.code % OP_COUNT],
                "copied", tr_stats.copied(), "elements");
        x.check_touched();
      },
      [](World<C>& x, Seen& s) {
        x.check_all();
        if (s.top >= 2) pbt::nontrivial();
      },
      distinct);
}

// ---- a count and a value, of any integral types ----
template <class T, class N, class V>
void ints(u64 n0, u64 v0, u64 pos0) {
  using Seq = boost::segmented_tree::seq<T, std::allocator<T>, 3 * sizeof(T), BMAX(3)>;
  N const n = static_cast<N>(n0);
  V const v = static_cast<V>(v0);
  auto const cnt = static_cast<std::size_t>(n);
  auto all = [&](Seq const& s, std::size_t k, std::size_t from) {
    REQUIRE(s.size() >= from + k, "");
    for (std::size_t i = 0; i != k; ++i)
      REQUIRE(s[from + i] == static_cast<T>(v), "an integral pair was not taken as count and value");
  };
  Seq a(n, v);
  REQUIRE(a.size() == cnt, "size", a.size(), "want", cnt);
  all(a, cnt, 0);
  Seq b;
  b.assign(n, v);
  REQUIRE(b.size() == cnt, "size", b.size(), "want", cnt);
  all(b, cnt, 0);
  std::size_t const pos = pos0 % (cnt + 1);
  Seq c(a);
  auto r = c.insert(c.nth(pos), n, v);
  REQUIRE(c.size() == 2 * cnt && c.index_of(r) == pos, "");
  all(c, cnt, pos);
  Seq e(a);
  e.resize(n, v);
  REQUIRE(e == a, "");
  Seq f(n);
  REQUIRE(f.size() == cnt, "");
  for (auto const& x : f) REQUIRE(x == T(), "");
  Seq g{static_cast<T>(v), static_cast<T>(v)};  // braces: a list
  REQUIRE(g.size() == 2 && g[0] == static_cast<T>(v), "");
}
template <class T, class N>
void ints_n(u32 k, u64 n, u64 v, u64 p) {
  switch (k % 7) {
    case 0: return ints<T, N, int>(n, v, p);
    case 1: return ints<T, N, unsigned char>(n, v, p);
    case 2: return ints<T, N, long>(n, v, p);
    case 3: return ints<T, N, std::size_t>(n, v, p);
    case 4: return ints<T, N, short>(n, v, p);
    case 5: return ints<T, N, char>(n, v, p);
    default: return ints<T, N, T>(n, v, p);
  }
}
template <class T>
void ints_t(u32 k, u64 n, u64 v, u64 p) {
  switch (k / 7 % 6) {
    case 0: return ints_n<T, int>(k, n, v, p);
    case 1: return ints_n<T, unsigned char>(k, n, v, p);
    case 2: return ints_n<T, long>(k, n, v, p);
    case 3: return ints_n<T, std::size_t>(k, n, v, p);
    case 4: return ints_n<T, short>(k, n, v, p);
    default: return ints_n<T, char>(k, n, v, p);
  }
}
inline pbt::Suite integers(u64 quick, u64 thorough) {
  pbt::Suite s;
  s.name = "integral pairs";
  s.quick = quick;
  s.thorough = thorough;
  s.gen = [](Rng& r, u64, bool) {
    Case c;
    for (int i = 0; i != 12; ++i) {
      u32 n = static_cast<u32>(r.below(r.chance(1, 3) ? 120 : 10));
      c.ops.push_back(Op{static_cast<u32>(r.below(4)), static_cast<u32>(r.below(42)),
                         r.u(), n, static_cast<u32>(r.below(120))});
    }
    return c;
  };
  s.run = [](Case const& c) {
    bool big = false;
    for (auto const& o : c.ops) {
      big = big || o.n > 10;
      switch (o.code % 4) {
        case 0: ints_t<int>(o.s, o.n, o.v, o.p); break;
        case 1: ints_t<long>(o.s, o.n, o.v, o.p); break;
        case 2: ints_t<std::uint8_t>(o.s, o.n, o.v, o.p); break;
        default: ints_t<double>(o.s, o.n, o.v, o.p); break;
      }
      label("integral pairs");
    }
    pbt::checkpoint();
    if (big) pbt::nontrivial();
  };
  return s;
}

template <class C>
struct Src {
  Src(char const* name, u64 quick, u64 thorough, Size z = Size{}) {
    pbt::Register{Sources<C>::suite(name, z, quick, thorough)};
  }
};
template <class C>
struct Fwd {
  Fwd(char const* name, u64 quick, u64 thorough) {
    pbt::Register{Forward<C>::suite(name, quick, thorough)};
  }
};
template <class C>
struct Val {
  Val(char const* name, u64 quick, u64 thorough) {
    pbt::Register{Values<C>::suite(name, quick, thorough)};
  }
};
template <class C>
struct NoCopies {
  NoCopies(char const* name, u64 quick, u64 thorough, bool distinct = false) {
    pbt::Register{no_copies<C>(name, quick, thorough, distinct)};
  }
};
template <class T, std::size_t S, std::size_t B>
using KT = K<T, S, B, TrackAlloc<T>>;
#if PART == 0
static Src<KT<Trk, 2, 3>> a("Trk seg2 base3", 1500, 15000);
static Src<KT<MoveOnly, 3, 4>> b("MoveOnly seg3 base4", 1500, 15000);
#elif PART == 1
static Src<KT<Trk, 3, 4>> a("Trk seg3 base4", 1500, 15000);
static Src<KT<u64, 3, 3>> b("u64 seg3 base3", 1500, 15000);
static struct Ints {
  Ints() { pbt::Register{integers(1500, 15000)}; }
} c;
#elif PART == 2
static Src<KT<std::string, 2, 3>> a("string seg2 base3", 1500, 15000);
static Src<KT<CopyOnly, 4, 4>> b("CopyOnly seg4 base4", 1500, 15000);
#elif PART == 3
static Src<KT<u32, 1, 3>> a("u32 seg1 base3", 1500, 15000);
static Src<KT<Pod<3>, 5, 6>> b("Pod3 seg5 base6", 1500, 15000);
static Src<Dflt<u32>> c("u32 defaults", 60, 600, middle());
#elif PART == 4
static Src<KT<std::uint8_t, 4, 3>> a("u8 seg4 base3", 1500, 15000);
static Fwd<KT<Fw<true>, 3, 3>> b("trivial seg3 base3", 1500, 15000);
static Fwd<KT<Fw<true>, 1, 4>> c("trivial seg1 base4", 1500, 15000);
#elif PART == 5
static Fwd<KT<Fw<false>, 2, 3>> a("nontrivial seg2 base3", 1500, 15000);
static Fwd<K<Fw<false>, 3, 4, HookAlloc<Fw<false>>>> b("nontrivial seg3 base4 hooks", 1000, 10000);
static Val<KT<Trk, 2, 3>> c("Trk seg2 base3", 1500, 15000);
#elif PART == 6
static Val<KT<Trk, 5, 4>> a("Trk seg5 base4", 1500, 15000);
static Val<KT<MoveOnly, 1, 3>> b("MoveOnly seg1 base3", 1500, 15000);
static Val<KT<std::string, 3, 3>> c("string seg3 base3", 1500, 15000);
static Val<KT<CopyOnly, 2, 4>> d_("CopyOnly seg2 base4", 1000, 10000);
#elif PART == 7
static NoCopies<KT<Trk, 1, 3>> a("Trk seg1 base3", 1500, 15000);
static NoCopies<KT<Trk, 3, 4>> b("Trk seg3 base4", 1500, 15000);
static NoCopies<K<Trk, 2, 3, TrackAlloc<Trk, 0>>> c("Trk seg2 base3 unequal allocators", 1500, 15000, true);
static NoCopies<K<Trk, 4, 5>> d_("Trk seg4 base5 std", 1500, 15000);
#endif
