// C22: workloads and benchmark programs.
#include "drive.hpp"
#include <cstdint>
#include <deque>
#include <iostream>
#include <limits>
#include <random>
#include <sstream>
#include <stdexcept>
#include <bits/stdc++.h>  // before programs are included in namespaces
#include <bench/range.hpp>
#include <bench/single.hpp>
#include <common/generate_range.hpp>
#include <common/generate_single.hpp>
using namespace d;
#if PART == 0
char const* const pbt::rule =
    "Plans: counts, sizes, seeds and element widths are generated; each plan "
    "is compared with the one that the recorded generator gives, replayed "
    "on sequences of several tunings, vector, deque and a minimal container, "
    "compared with a replay on a plain array, and undone. Bounded numbers: "
    "generators of small ranges are made up, every raw value is fed, every "
    "result must be hit equally often; and random ones. Accumulators: random "
    "contents and distances against sums by index. Checksums: against a bit by "
    "bit CRC. Programs: the generator's output is given to the benchmarks, "
    "right and altered, also with containers that have one fault in insertion, "
    "iteration or erasure; the records of scripts/bench.py are run. "
    "Non-trivial: 64 elements or more, or a made-up generator that rejects.";
#endif

template <class T, std::size_t S, std::size_t B>
using Sq = boost::segmented_tree::seq<T, std::allocator<T>, S, B>;

// ---- the real programs, their mains renamed ----
#if PART == 4 || PART == 5
namespace {
namespace prog {
#define main(...) run(__VA_ARGS__)
namespace gs8 {
#include <common/generate_single_8.cpp>
}
namespace gs64 {
#include <common/generate_single_64.cpp>
}
namespace gr8 {
#include <common/generate_range_8.cpp>
}
namespace gr64 {
#include <common/generate_range_64.cpp>
}
namespace s8s {
#include <bench/single_segmented_tree_seq_8.cpp>
}
namespace s8v {
#include <bench/single_vector_8.cpp>
}
namespace s8d {
#include <bench/single_deque_8.cpp>
}
namespace s64s {
#include <bench/single_segmented_tree_seq_64.cpp>
}
namespace s64v {
#include <bench/single_vector_64.cpp>
}
namespace s64d {
#include <bench/single_deque_64.cpp>
}
namespace r8s {
#include <bench/range_segmented_tree_seq_8.cpp>
}
namespace r8v {
#include <bench/range_vector_8.cpp>
}
namespace r8d {
#include <bench/range_deque_8.cpp>
}
namespace r64s {
#include <bench/range_segmented_tree_seq_64.cpp>
}
namespace r64v {
#include <bench/range_vector_64.cpp>
}
namespace r64d {
#include <bench/range_deque_64.cpp>
}
#undef main
}  // namespace prog
}  // namespace
#endif

// ---- running programs in this process ----
struct Ran {
  int rc = 0;
  bool thrown = false;
  std::string out, err;
  bool ok() const { return !thrown && rc == EXIT_SUCCESS; }
};
template <class Main>
Ran run_main(Main m, std::vector<std::string> args) {
  args.insert(args.begin(), "program");
  std::vector<char*> argv;
  for (auto& a : args) argv.push_back(&a[0]);
  argv.push_back(nullptr);
  std::ostringstream out, err;
  auto* o = std::cout.rdbuf(out.rdbuf());
  auto* e = std::cerr.rdbuf(err.rdbuf());
  Ran r;
  try {
    r.rc = m(static_cast<int>(args.size()), argv.data());
  } catch (std::exception const&) {
    r.thrown = true;
  } catch (...) {
    std::cout.rdbuf(o);
    std::cerr.rdbuf(e);
    throw;
  }
  std::cout.rdbuf(o);
  std::cerr.rdbuf(e);
  r.out = out.str();
  r.err = err.str();
  return r;
}
inline std::string str(u64 x) { return std::to_string(x); }

// ---- models ----
// The plan of a count and a seed, as it was when the records were made.
template <class T>
insertion_data<T> plan_single(std::size_t count, std::uint32_t seed) {
  boost::random::seed_seq seq{seed};
  boost::random::mt19937 engine{seq};
  boost::random::independent_bits_engine<boost::random::mt19937,
                                         std::numeric_limits<T>::digits, T>
      bits{seq};
  insertion_data<T> r;
  for (u64 i = 0; i != count; ++i) {
    u64 const ub = i + 1;
    u64 const reject = ((u64(1) << 32) - ub) % ub;
    u64 x;
    do
      x = engine();
    while (x < reject);
    r.indexes.push_back(x % ub);
    r.ordered.push_back(bits());
  }
  return r;
}
template <class T>
insertion_data<T> plan_range(std::size_t count, std::size_t size,
                             std::uint32_t seed) {
  boost::random::seed_seq seq{seed};
  boost::random::mt19937 engine{seq};
  boost::random::independent_bits_engine<boost::random::mt19937,
                                         std::numeric_limits<T>::digits, T>
      bits{seq};
  insertion_data<T> r;
  for (u64 i = 0; i != count; ++i) {
    for (u64 j = 0; j != size; ++j) r.ordered.push_back(bits());
    u64 const ub = i * size + 1;
    u64 const reject = ((u64(1) << 32) - ub) % ub;
    u64 x;
    do
      x = engine();
    while (x < reject);
    r.indexes.push_back(x % ub);
  }
  return r;
}
template <class T>
std::vector<T> replay(insertion_data<T> const& p) {
  std::vector<T> r;
  std::size_t const count = p.indexes.size();
  std::size_t const size = p.ordered.size() / count;
  for (std::size_t i = 0; i != count; ++i) {
    REQUIRE(p.indexes[i] <= r.size(), "position", p.indexes[i], "of",
            r.size(), "in the plan");
    r.insert(r.begin() + static_cast<std::ptrdiff_t>(p.indexes[i]),
             p.ordered.begin() + static_cast<std::ptrdiff_t>(i * size),
             p.ordered.begin() + static_cast<std::ptrdiff_t>((i + 1) * size));
  }
  return r;
}
inline u64 crc_bits(unsigned char const* p, std::size_t n) {
  u64 c = 0;
  for (std::size_t i = 0; i != n; ++i)
    for (int b = 7; b >= 0; --b) {
      u64 const in = ((p[i] >> b) & 1) ^ (c >> 63);
      c = (c << 1) ^ (in ? 0x42F0E1EBA9EA3693ULL : 0);
    }
  return c;
}
template <class T>
u64 crc_model(std::vector<T> const& v) {
  return crc_bits(reinterpret_cast<unsigned char const*>(v.data()),
                  v.size() * sizeof(T));
}

// Containers that have the least the workloads need; calls are counted.
template <class T>
struct WithNth {  // has nth and no reserve; begin() + n is not for positions
  using value_type = T;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  using reference = T&;
  using const_reference = T const&;
  using iterator = typename std::vector<T>::iterator;
  using const_iterator = typename std::vector<T>::const_iterator;
  std::vector<T> v;
  std::size_t nths = 0;
  iterator nth(size_type n) {
    ++nths;
    if (n > v.size()) {
      pbt::note_error("nth beyond the end");
      n = v.size();
    }
    return v.begin() + static_cast<std::ptrdiff_t>(n);
  }
  iterator begin() { return v.begin(); }
  iterator end() { return v.end(); }
  const_iterator begin() const { return v.begin(); }
  const_iterator end() const { return v.end(); }
  size_type size() const { return v.size(); }
  T& operator[](size_type i) { return v[i]; }
  iterator insert(const_iterator p, T const& x) { return v.insert(p, x); }
  template <class I>
  iterator insert(const_iterator p, I a, I b) {
    return v.insert(p, a, b);
  }
  iterator erase(const_iterator p) { return v.erase(p); }
  iterator erase(const_iterator a, const_iterator b) { return v.erase(a, b); }
};
template <class T>
struct WithReserve : std::vector<T> {  // no nth
  using std::vector<T>::vector;
  std::size_t reserved = 0;
  void reserve(std::size_t n) {
    reserved = std::max(reserved, n);
    std::vector<T>::reserve(n);
  }
};

template <class T, class Con>
void check_on(insertion_data<T> const& p, std::vector<T> const& want,
              bool range, char const* name) {
  Con c;
  if (range)
    insert_range(c, p);
  else
    insert_single(c, p);
  REQUIRE(c.size() == want.size(), name, "has", c.size(), "of", want.size());
  std::vector<T> got(c.begin(), c.end());
  REQUIRE(got == want, name, "got other contents from the plan");
  Con const& cc = c;
  for (std::size_t by : {1, 3, 10, 100})
    REQUIRE(accumulate_forward_by(cc, by) == accumulate_forward_by(want, by) &&
                accumulate_backward_by(cc, by) ==
                    accumulate_backward_by(want, by),
            name, "accumulates another sum by", by);
  REQUIRE(accumulate_forward(cc) == accumulate_forward(want) &&
              accumulate_backward(cc) == accumulate_backward(want),
          name);
  if (range)
    erase_range(c, p);
  else
    erase_single(c, p);
  REQUIRE(c.size() == 1, name, "has", c.size(),
          "elements after everything but the first was erased");
  REQUIRE(c[0] == p.ordered[0], name,
          "is left with another element than the first");
}
template <class T>
void check_plan(insertion_data<T> const& p, insertion_data<T> const& model,
                bool range) {
  REQUIRE(p.indexes.size() == model.indexes.size(), "");
  REQUIRE(p.ordered == model.ordered, "the plan has other values than recorded");
  REQUIRE(p.indexes == model.indexes, "the plan has other positions than recorded");
  auto want = replay(p);
  REQUIRE(make_checksum_unsigned(want) == crc_model(want), "checksum");
  check_on<T, Sq<T, 1024, 768>>(p, want, range, "seq");
  check_on<T, Sq<T, 0, 0>>(p, want, range, "seq<0,0>");
  check_on<T, Sq<T, 3 * sizeof(T), 80>>(p, want, range, "seq<3,4>");
  check_on<T, std::vector<T>>(p, want, range, "vector");
  check_on<T, std::deque<T>>(p, want, range, "deque");
  {
    check_on<T, WithNth<T>>(p, want, range, "minimal container");
    WithNth<T> c;
    if (range)
      insert_range(c, p);
    else
      insert_single(c, p);
    REQUIRE(c.nths == p.indexes.size(), "nth of the container was called",
            c.nths, "times");
    WithReserve<T> r;
    if (range)
      insert_range(r, p);
    else
      insert_single(r, p);
    REQUIRE(r.reserved == p.indexes.size(), "reserved", r.reserved);
  }
  label("elements in plans", want.size());
  if (want.size() >= 64) pbt::nontrivial();
  pbt::checkpoint();
}
template <class T>
void plans(Case const& c) {
  u32 const seed = c.cfg[0];
  std::size_t const count = 1 + c.cfg[1] % 3000, size = 1 + c.cfg[2] % 300;
  if (c.cfg[3] & 1)
    check_plan(make_insertion_data_range<T>(count, size, seed),
               plan_range<T>(count, size, seed), true);
  else
    check_plan(make_insertion_data_single<T>(count, seed),
               plan_single<T>(count, seed), false);
  label(c.cfg[3] & 1 ? "range plans" : "single plans");
}
template <class T>
pbt::Suite plan_suite(char const* name, u64 quick, u64 thorough) {
  pbt::Suite s;
  s.name = name;
  s.quick = quick;
  s.thorough = thorough;
  s.gen = [](Rng& r, u64, bool thorough) {
    Case c;
    c.cfg[0] = r.u();
    c.cfg[3] = r.u();
    if (c.cfg[3] & 1) {
      c.cfg[1] = static_cast<u32>(r.below(r.chance(1, 4) ? 60 : 20));
      c.cfg[2] = static_cast<u32>(r.below(r.chance(1, 3) ? 100 : 12));
    } else
      c.cfg[1] = static_cast<u32>(
          r.below(r.chance(1, 8) ? (thorough ? 3000 : 1500) : 120));
    return c;
  };
  s.run = plans<T>;
  return s;
}

// ---- bounded_rand ----
// A generator that yields what it is told: [min, max] are template arguments.
template <class R, R Min, R Max>
struct Told {
  using result_type = R;
  static constexpr R min() { return Min; }
  static constexpr R max() { return Max; }
  std::vector<u64> const* raw;
  std::size_t next = 0;
  R operator()() {
    if (next >= raw->size()) {
      pbt::note_error("more random numbers were drawn than can be rejected");
      pbt::checkpoint();
    }
    return static_cast<R>(Min + (*raw)[next++]);
  }
};
template <class R, class Result, u64 Min, u64 Max>
void bounded(u64 upper0, u64 seed) {
  // every raw value of a small range once: results are hit equally often
  u64 const range = Max - Min + 1;
  u64 const ub = 1 + upper0 % std::min<u64>(range, std::numeric_limits<Result>::max());
  using G = Told<R, static_cast<R>(Min), static_cast<R>(Max)>;
  std::vector<u64> hits(ub, 0);
  u64 accepted = 0, rejected = 0;
  Rng r(seed);
  for (u64 x = 0; x != range; ++x) {
    // followed by values that some accept, so that a rejection shows
    std::vector<u64> raw{x};
    for (u64 k = 0; k != range; ++k) raw.push_back((x + 1 + k) % range);
    G g{&raw, 0};
    Result const v = bounded_rand(g, static_cast<Result>(ub));
    REQUIRE(v < ub, "bounded_rand gave", u64(v), "for the bound", ub);
    if (g.next == 1) {
      ++hits[v];
      ++accepted;
    } else
      ++rejected;
  }
  for (auto h : hits)
    REQUIRE(h == hits[0] && h > 0, "bound", ub, "of the range", range,
            "results are hit", h, "and", hits[0], "times");
  REQUIRE(accepted * 2 > range, "most raw values are rejected");
  label("made-up generators");
  if (rejected) {
    label("made-up generators that reject");
    pbt::nontrivial();
  }
}
template <class Result>
void bounded_real(u64 upper, u64 seed) {
  boost::random::mt19937 a(static_cast<std::uint32_t>(seed));
  std::minstd_rand b(static_cast<std::uint32_t>(seed % 2147483646 + 1));
  for (int i = 0; i != 50; ++i) {
    Result const ub = static_cast<Result>(
        1 + (upper >> (i % 32)) % std::numeric_limits<Result>::max());
    u64 const x = bounded_rand(a, ub);
    REQUIRE(x < ub, "bounded_rand gave", x, "for", u64(ub));
    Result const small = static_cast<Result>(1 + ub % 1000);
    u64 const y = bounded_rand(b, small);
    REQUIRE(y < small, "bounded_rand gave", y, "for", u64(small));
    REQUIRE(bounded_rand(a, Result(1)) == 0, "");
  }
  label("bounded numbers", 150);
}
inline void bounds(Case const& c) {
  for (auto const& o : c.ops) {
    u64 const up = o.n, seed = o.v;
    switch (o.code % 12) {
      case 0: bounded<std::uint8_t, std::uint8_t, 0, 255>(up, seed); break;
      case 1: bounded<std::uint8_t, std::uint32_t, 0, 255>(up, seed); break;
      case 2: bounded<std::uint32_t, std::uint32_t, 1, 97>(up, seed); break;
      case 3: bounded<std::uint32_t, std::size_t, 5, 260>(up, seed); break;
      case 4: bounded<std::size_t, std::size_t, 0, 99>(up, seed); break;
      case 5: bounded<std::size_t, std::uint32_t, 1000, 1127>(up, seed); break;
      case 6: bounded<std::uint16_t, std::uint16_t, 10, 600>(up, seed); break;
      case 7: bounded<std::uint32_t, std::size_t, 0, 1>(up, seed); break;
      case 8: bounded<std::uint8_t, std::size_t, 0, 255>(up, seed); break;
      case 9: bounded_real<std::uint32_t>(up, seed); break;
      case 10: bounded_real<std::size_t>(up, seed); break;
      default: bounded<std::uint32_t, std::size_t, 0, 300>(up, seed); break;
    }
  }
  pbt::checkpoint();
}

// ---- accumulators and checksums ----
template <class T, class Con>
void sums_of(std::vector<T> const& v, std::size_t by, char const* name) {
  Con const c(v.begin(), v.end());
  u64 all = 0, fwd = 0, bwd = 0;
  for (auto x : v) all += x;
  for (std::size_t k = 0; (k + 1) * by <= v.size(); ++k) {
    fwd += v[k * by];
    bwd += v[v.size() - (k + 1) * by];
  }
  REQUIRE(accumulate_forward(c) == all, name, "forward");
  REQUIRE(accumulate_backward(c) == all, name, "backward");
  REQUIRE(accumulate_forward_by(c, by) == fwd, name, "forward by", by, "of",
          v.size());
  REQUIRE(accumulate_backward_by(c, by) == bwd, name, "backward by", by, "of",
          v.size());
}
template <class T>
void sums(u64 n, u64 by, u64 seed) {
  Rng r(seed);
  std::vector<T> v;
  for (u64 i = 0; i != n; ++i) v.push_back(static_cast<T>(r.next()));
  by = 1 + by % (n + 3);
  sums_of<T, std::vector<T>>(v, by, "vector");
  sums_of<T, std::deque<T>>(v, by, "deque");
  sums_of<T, Sq<T, 1024, 768>>(v, by, "seq");
  sums_of<T, Sq<T, 0, 0>>(v, by, "seq<0,0>");
  sums_of<T, Sq<T, 5 * sizeof(T), 96>>(v, by, "seq<5,5>");
  u64 const crc = make_checksum_unsigned(v);
  REQUIRE(crc == crc_model(v), "checksum");
  if (n) {  // a checksum that misses a changed bit is none
    auto w = v;
    w[r.below(n)] ^= static_cast<T>(T(1) << r.below(8 * sizeof(T)));
    REQUIRE(make_checksum_unsigned(w) != crc, "a changed bit kept the checksum");
    w = v;
    w.push_back(T(1));
    REQUIRE(make_checksum_unsigned(w) != crc, "");
    if (v.front() != v.back()) {
      w = v;
      std::swap(w.front(), w.back());
      REQUIRE(make_checksum_unsigned(w) != crc, "");
    }
  }
  label("contents accumulated");
  if (n >= 64) pbt::nontrivial();
}

// ---- programs ----
// One fault at a place that the benchmark reaches.
namespace {
struct Fault {
  enum Kind { NONE, INSERT_SKIP, INSERT_VALUE, INSERT_PLACE, ERASE_SKIP,
              ERASE_OTHER, ERASE_FIRST, READ_FWD, READ_BWD, PLUS, MINUS, PREV,
              KINDS };
  static Kind kind;
  static u64 at;       // the how-manieth call, or the position, that goes wrong
  static u64 by;       // PLUS, MINUS: for jumps of this distance
  static u64 seen;
  static bool fired;
  static bool now(Kind k) {
    if (kind != k || fired) return false;
    if (seen++ != at) return false;
    fired = true;
    return true;
  }
  // Faults of iterators are there whenever they are at that position.
  static bool here(Kind k, std::ptrdiff_t pos) {
    if (kind != k || pos != static_cast<std::ptrdiff_t>(at)) return false;
    return fired = true;
  }
};
Fault::Kind Fault::kind = Fault::NONE;
u64 Fault::at = 0, Fault::by = 0, Fault::seen = 0;
bool Fault::fired = false;

template <class T>
class Faulty {
  std::vector<T> v_;

 public:
  using value_type = T;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  using reference = T&;
  using const_reference = T const&;
  using iterator = typename std::vector<T>::iterator;
  class const_iterator {
    std::vector<T> const* v_;
    std::ptrdiff_t i_;

   public:
    using iterator_category = std::random_access_iterator_tag;
    using value_type = T;
    using difference_type = std::ptrdiff_t;
    using pointer = T const*;
    using reference = T const&;
    const_iterator(std::vector<T> const* v, std::ptrdiff_t i) : v_(v), i_(i) {}
    T const& operator*() const {
      static T const other = static_cast<T>(0x5a5a5a5a5a5a5a5aULL);
      if (i_ < 0 || i_ >= static_cast<std::ptrdiff_t>(v_->size())) return other;
      return (*v_)[static_cast<std::size_t>(i_)];
    }
    const_iterator& operator++() {
      bool const f = Fault::here(Fault::READ_FWD, i_);
      ++i_;
      if (f && i_ + 1 < static_cast<std::ptrdiff_t>(v_->size())) ++i_;
      return *this;
    }
    const_iterator& operator--() {
      bool const f = Fault::here(Fault::PREV, i_);
      --i_;
      if (f && i_ > 0) --i_;
      return *this;
    }
    const_iterator& operator+=(std::ptrdiff_t n) {
      bool const f =
          static_cast<u64>(n) == Fault::by && Fault::here(Fault::PLUS, i_);
      i_ += n;
      if (f) --i_;
      return *this;
    }
    const_iterator& operator-=(std::ptrdiff_t n) {
      bool const f =
          static_cast<u64>(n) == Fault::by && Fault::here(Fault::MINUS, i_);
      i_ -= n;
      if (f) ++i_;
      return *this;
    }
    friend const_iterator operator+(const_iterator a, std::ptrdiff_t n) { return a += n; }
    friend const_iterator operator+(std::ptrdiff_t n, const_iterator a) { return a += n; }
    friend const_iterator operator-(const_iterator a, std::ptrdiff_t n) { return a -= n; }
    friend std::ptrdiff_t operator-(const_iterator const& a, const_iterator const& b) { return a.i_ - b.i_; }
    const_iterator() : v_(nullptr), i_(0) {}
    T const* operator->() const { return &**this; }
    T const& operator[](std::ptrdiff_t n) const { return *(*this + n); }
    const_iterator operator++(int) { auto r = *this; ++*this; return r; }
    const_iterator operator--(int) { auto r = *this; --*this; return r; }
    friend bool operator<(const_iterator const& a, const_iterator const& b) { return a.i_ < b.i_; }
    friend bool operator>(const_iterator const& a, const_iterator const& b) { return a.i_ > b.i_; }
    friend bool operator<=(const_iterator const& a, const_iterator const& b) { return a.i_ <= b.i_; }
    friend bool operator>=(const_iterator const& a, const_iterator const& b) { return a.i_ >= b.i_; }
    friend bool operator==(const_iterator const& a, const_iterator const& b) { return a.i_ == b.i_; }
    friend bool operator!=(const_iterator const& a, const_iterator const& b) { return a.i_ != b.i_; }
  };
  iterator nth(size_type n) {
    return v_.begin() + static_cast<std::ptrdiff_t>(std::min(n, v_.size()));
  }
  iterator begin() { return v_.begin(); }
  iterator end() { return v_.end(); }
  const_iterator begin() const { return const_iterator(&v_, 0); }
  const_iterator end() const {
    return const_iterator(&v_, static_cast<std::ptrdiff_t>(v_.size()));
  }
  const_iterator cbegin() const { return begin(); }
  const_iterator cend() const { return end(); }
  size_type size() const { return v_.size(); }
  bool empty() const { return v_.empty(); }
  T& front() { return v_.front(); }
  T const& front() const { return v_.front(); }
  T& back() { return v_.back(); }
  T const& back() const { return v_.back(); }
  T& at(size_type i) { return v_.at(i); }
  T const& at(size_type i) const { return v_.at(i); }
  T& operator[](size_type i) { return v_[i]; }
  T const& operator[](size_type i) const { return v_[i]; }
  iterator insert(iterator p, T const& x) {
    if (Fault::now(Fault::INSERT_SKIP)) return p;
    if (Fault::now(Fault::INSERT_VALUE)) return v_.insert(p, static_cast<T>(x + 1));
    if (v_.size() > 1 && Fault::now(Fault::INSERT_PLACE)) {
      auto i = p - v_.begin();
      i = i ? i - 1 : 1;
      return v_.insert(v_.begin() + i, x);
    }
    return v_.insert(p, x);
  }
  template <class I>
  iterator insert(iterator p, I a, I b) {
    auto i = p - v_.begin();
    while (a != b) {
      i = insert(v_.begin() + i, *a) - v_.begin() + 1;
      i = std::min(i, static_cast<std::ptrdiff_t>(v_.size()));
      ++a;
    }
    return v_.begin() + i;
  }
  iterator erase(iterator p) {
    if (Fault::now(Fault::ERASE_SKIP)) return p;
    if (v_.size() > 1 && Fault::now(Fault::ERASE_OTHER))
      p = p == v_.begin() ? p + 1 : v_.begin();
    return v_.erase(p);
  }
  iterator erase(iterator a, iterator b) {
    auto i = a - v_.begin();
    auto n = b - a;
    while (n--) {
      auto before = v_.size();
      erase(v_.begin() + i);
      if (v_.size() == before && n + i >= static_cast<std::ptrdiff_t>(before)) --n;
      if (n < 0) break;
    }
    return v_.begin() + i;
  }
};
}  // namespace

// What the broken container should give away, by playing the plan on it.
template <class T>
bool shows(insertion_data<T> const& p, bool range) {
  Faulty<T> c;
  if (range)
    insert_range(c, p);
  else
    insert_single(c, p);
  Faulty<T> const& cc = c;
  std::vector<T> want = replay(p);
  std::vector<T> got(cc.size());
  for (std::size_t i = 0; i != got.size(); ++i) got[i] = c[i];
  if (got != want) return true;
  bool bad = false;
  auto jumps = [&](std::size_t by) {
    u64 f = 0, b = 0;
    auto it = cc.begin();
    for (auto left = cc.size(); left >= by; left -= by) {
      f += *it;
      it += static_cast<std::ptrdiff_t>(by);
    }
    it = cc.end();
    for (auto left = cc.size(); left >= by; left -= by) {
      it -= static_cast<std::ptrdiff_t>(by);
      b += *it;
    }
    u64 wf = 0, wb = 0;
    for (std::size_t k = 0; (k + 1) * by <= want.size(); ++k) {
      wf += want[k * by];
      wb += want[want.size() - (k + 1) * by];
    }
    bad = bad || f != wf || b != wb;
  };
  u64 f = 0, b = 0, w = 0;
  for (auto x : want) w += x;
  for (auto it = cc.begin(); it != cc.end(); ++it) f += *it;
  for (std::size_t by : {1, 10, 100, 1000, 10000}) jumps(by);
  for (auto it = cc.end(); it != cc.begin();) b += *--it;
  if (f != w || b != w || bad) return true;
  if (range)
    erase_range(c, p);
  else
    erase_single(c, p);
  return c.size() != 1 || c[0] != p.ordered[0];
}

template <class T>
Ran single_faulty(std::vector<std::string> a) {
  return run_main([](int c, char** v) { return bench_single<Faulty, T>(c, v); }, a);
}
template <class T>
Ran range_faulty(std::vector<std::string> a) {
  return run_main([](int c, char** v) { return bench_range<Faulty, T>(c, v); }, a);
}
inline void set_fault(Fault::Kind k, u64 at, u64 by) {
  Fault::kind = k;
  Fault::at = at;
  Fault::by = by;
  Fault::seen = 0;
  Fault::fired = false;
}
template <class T>
void faulty(Case const& c) {
  bool const range = c.cfg[0] & 1;
  u32 const seed = c.cfg[1];
  auto const kind = static_cast<Fault::Kind>(1 + c.cfg[0] / 2 % (Fault::KINDS - 1));
  static u64 const bys[] = {1, 10, 100, 1000, 10000};
  u64 const by = bys[c.cfg[3] % 5];
  // enough elements for the jump to be followed by another read
  std::size_t count = 2 + c.cfg[2] % 150;
  if (kind == Fault::PLUS || kind == Fault::MINUS)
    count = std::max<std::size_t>(count, range ? 2 * by / 9 + 20 : 2 * by + 20);
  std::size_t const size = range ? 10 : 1;
  auto p = range ? make_insertion_data_range<T>(count, size, seed)
                 : make_insertion_data_single<T>(count, seed);
  std::size_t const n = count * size;
  u64 at;
  if (kind == Fault::PLUS)
    at = c.cfg[2] % (n / by) * by;
  else if (kind == Fault::MINUS)
    at = n - c.cfg[2] % (n / by) * by;
  else
    at = 1 + (c.cfg[2] >> 8) % (n - 1);
  std::vector<std::string> args{str(count)};
  if (range) args.push_back(str(size));
  args.push_back(str(seed));
  args.push_back(str(crc_model(replay(p))));
  set_fault(kind, at, by);
  bool const must = shows(p, range);
  bool const reached = Fault::fired;
  set_fault(Fault::NONE, 0, 0);
  Ran r = range ? range_faulty<T>(args) : single_faulty<T>(args);
  REQUIRE(r.ok(), "a benchmark rejected a container that does all right");
  if (!must || !reached) return;
  set_fault(kind, at, by);
  r = range ? range_faulty<T>(args) : single_faulty<T>(args);
  set_fault(Fault::NONE, 0, 0);
  REQUIRE(!r.ok(), "a benchmark accepted a container with fault", int(kind),
          "at call", at, "by", by, "count", count);
  static char const* const names[] = {
      "", "fault: insertion left out", "fault: another value inserted",
      "fault: inserted elsewhere", "fault: erasure left out",
      "fault: other element erased", "", "fault: ++ skips", "", "fault: += short",
      "fault: -= short", "fault: -- skips"};
  label(names[kind]);
  if (n >= 64) pbt::nontrivial();
  pbt::checkpoint();
}

#if PART == 4 || PART == 5
struct Programs {
  int (*generate)(int, char**);
  int (*bench[3])(int, char**);
  bool range;
  int width;
};
static Programs const programs[] = {
    {prog::gs8::run, {prog::s8s::run, prog::s8v::run, prog::s8d::run}, false, 8},
    {prog::gs64::run, {prog::s64s::run, prog::s64v::run, prog::s64d::run}, false, 64},
    {prog::gr8::run, {prog::r8s::run, prog::r8v::run, prog::r8d::run}, true, 8},
    {prog::gr64::run, {prog::r64s::run, prog::r64v::run, prog::r64d::run}, true, 64}};

static void timings(Ran const& r) {
  // lines "description,milliseconds"
  std::istringstream in(r.out);
  std::string line;
  std::size_t n = 0;
  std::vector<std::string> seen;
  while (std::getline(in, line)) {
    auto k = line.find(',');
    REQUIRE(k != std::string::npos && k > 0, "a line without a time:", line);
    char* end;
    double ms = std::strtod(line.c_str() + k + 1, &end);
    REQUIRE(*end == 0 && ms >= 0, "no time:", line);
    seen.push_back(line.substr(0, k));
    ++n;
  }
  REQUIRE(n == 14, n, "lines of 14");
  static char const* const want[] = {
      "Insert values", "Accumulate forward", "Accumulate forward by 1",
      "Accumulate forward by 10", "Accumulate forward by 100",
      "Accumulate forward by 1000", "Accumulate forward by 10000",
      "Accumulate backward", "Accumulate backward by 1",
      "Accumulate backward by 10", "Accumulate backward by 100",
      "Accumulate backward by 1000", "Accumulate backward by 10000",
      "Erase values"};
  // scripts/bench.py takes them by their place
  for (std::size_t i = 0; i != n; ++i)
    REQUIRE(seen[i] == want[i], "line", i, "is", seen[i]);
}
static void run_programs(Case const& c) {
  Programs const& p = programs[c.cfg[0] % 4];
  std::size_t const count = 1 + c.cfg[1] % 2000, size = 1 + c.cfg[2] % 100;
  std::vector<std::string> args{str(count)};
  if (p.range) args.push_back(str(size));
  Ran g = run_main(p.generate, args);
  REQUIRE(g.ok(), "a generator failed");
  std::istringstream in(g.out);
  std::string seed, sum, more;
  REQUIRE(static_cast<bool>(in >> seed >> sum) && !(in >> more),
          "a generator printed", g.out);
  REQUIRE(g.out == seed + " " + sum + "\n", "a generator printed", g.out);
  u64 const s = std::strtoull(seed.c_str(), nullptr, 10);
  u64 const ck = std::strtoull(sum.c_str(), nullptr, 10);
  REQUIRE(str(s) == seed && str(ck) == sum && s >> 32 == 0, "");
  u32 const sd = static_cast<u32>(s);
  u64 model = p.width == 8
                  ? crc_model(replay(p.range ? plan_range<std::uint8_t>(count, size, sd)
                                             : plan_single<std::uint8_t>(count, sd)))
                  : crc_model(replay(p.range ? plan_range<u64>(count, size, sd)
                                             : plan_single<u64>(count, sd)));
  REQUIRE(ck == model, "a generator printed the checksum", ck, "want", model);
  Rng r(c.cfg[3]);
  for (auto b : p.bench) {
    auto a = args;
    a.push_back(seed);
    a.push_back(sum);
    Ran ok = run_main(b, a);
    REQUIRE(ok.ok(), "a benchmark rejected what its generator printed");
    timings(ok);
    a.back() = str(ck ^ (u64(1) << r.below(64)));
    Ran bad = run_main(b, a);
    REQUIRE(!bad.ok(), "a benchmark accepted a wrong checksum");
    a.back() = sum;
    a[a.size() - 2] = str(sd ^ (u32(1) << r.below(32)));
    bool const same =
        count == 1 && size == 1;  // one byte may well be the same by chance
    bad = run_main(b, a);
    REQUIRE(same || p.width == 8 || !bad.ok(), "a benchmark accepted another seed");
    a.pop_back();
    bad = run_main(b, a);
    REQUIRE(!bad.ok() && !bad.thrown && !bad.err.empty() && bad.out.empty(),
            "a benchmark ran with an argument missing");
    a.push_back("1");
    a.push_back("2");
    bad = run_main(b, a);
    REQUIRE(!bad.ok() && !bad.err.empty(), "a benchmark ran with an argument too many");
  }
  args.push_back("3");
  g = run_main(p.generate, args);
  REQUIRE(!g.ok() && !g.err.empty() && g.out.empty(), "a generator ran with an argument too many");
  label("generator and benchmark programs run");
  if (count * size >= 64) pbt::nontrivial();
  pbt::checkpoint();
}

// The records of scripts/bench.py.
struct Record {
  int program;
  u64 count, size;
  u32 seed;
  u64 sum;
};
static Record const records[] = {
    {0, 256, 0, 2107779313u, 15865477950454414828u},
    {0, 7936, 0, 976634119u, 3238950223561105499u},
    {1, 32, 0, 2397254571u, 4723602420748635361u},
    {1, 992, 0, 463092544u, 12966777589746855639u},
    {1, 30752, 0, 430452927u, 751509891372566603u},
    {3, 961, 992, 5659033u, 14482810490810820797u},
    {3, 31, 30752, 1082972474u, 11846815057285548515u},
    {3, 1, 953312, 235951511u, 7803621008785366632u},
    {0, 246016, 0, 3515491141u, 5644467892570804156u},
    {3, 29791, 32, 3727649439u, 10804193997107502541u},
    // the rest takes long
    {1, 953312, 0, 3109453262u, 10176667110359292238u},
    {2, 1, 7626496, 1319121800u, 13937110459523125406u},
    {2, 31, 246016, 3037209825u, 7094631787510567342u},
    {2, 961, 7936, 2984486723u, 3526507821286439548u},
    {2, 29791, 256, 197924070u, 9499073426478457076u},
    {0, 7626496, 0, 1106530671u, 6965094249249093704u},
};
static void record(Case const& c) {
  Record const& r = records[c.cfg[0] % 16];
  Programs const& p = programs[r.program];
  std::vector<std::string> a{str(r.count)};
  if (p.range) a.push_back(str(r.size));
  a.push_back(str(r.seed));
  a.push_back(str(r.sum));
  REQUIRE(run_main(p.bench[0], a).ok(), "the record of scripts/bench.py for",
          r.count, r.size, "is not accepted");
  label("records of scripts/bench.py");
  pbt::nontrivial();
}

#endif

// ---- bench(), verify, scope_guard ----
inline void pieces(Case const& c) {
  Rng r(c.cfg[0]);
  u64 const x = r.next(), y = r.chance(1, 2) ? x : r.next();
  bool threw = false;
  try {
    verify(x, y);
  } catch (std::runtime_error const& e) {
    threw = true;
    REQUIRE(std::string(e.what()).find(str(x)) != std::string::npos &&
                std::string(e.what()).find(str(y)) != std::string::npos,
            "");
  }
  REQUIRE(threw == (x != y), "verify of", x, y);
  int runs = 0;
  auto f = [&runs] { ++runs; };
  {
    scope_guard<decltype(f)> a(std::move(f));
    REQUIRE(runs == 0, "");
    if (x & 1) a.dismiss();
    if (x & 2) {
      scope_guard<decltype(f)> b(std::move(a));
      if ((x & 5) == 4) b.dismiss();
    }
  }
  bool const moved = x & 2;
  // (what is moved runs once, at the new place; a dismissed one that is moved
  // is not specified)
  if (!(x & 1)) {
    int want = moved && (x & 4) ? 0 : 1;
    REQUIRE(runs == want, "a guard ran", runs, "times, want", want);
  } else if (!moved)
    REQUIRE(runs == 0, "a dismissed guard ran");
  std::ostringstream out;
  auto* o = std::cout.rdbuf(out.rdbuf());
  u64 got = 0;
  int called = 0;
  bool thrown = false;
  using clock = std::chrono::steady_clock;
  using millis = std::chrono::duration<double, std::milli>;
  double inside = 0;
  auto const before = clock::now();
  try {
    got = bench("some text", [&]() -> u64 {
      ++called;
      auto const start = clock::now();
      do inside = millis(clock::now() - start).count();
      while (inside < static_cast<double>(x >> 8 & 63) / 1000);
      if (y & 8) throw std::runtime_error("no");
      return y;
    });
  } catch (std::runtime_error const&) {
    thrown = true;
  }
  double const outside = millis(clock::now() - before).count();
  std::cout.rdbuf(o);
  REQUIRE(called == 1 && thrown == ((y & 8) != 0) && (thrown || got == y),
          "bench() returned", got, "want", y);
  REQUIRE(out.str().compare(0, 10, "some text,") == 0, out.str());
  // milliseconds, six digits or more
  double const told = std::strtod(out.str().c_str() + 10, nullptr);
  REQUIRE(told >= inside * 0.9999 && told <= outside * 1.0001, "bench() told",
          out.str(), "for a call of", inside, "to", outside, "ms");
  pbt::nontrivial();
}

struct Add {
  Add(pbt::Suite s, int priority = 0) {
    s.priority = priority;
    pbt::Register{s};
  }
};
template <class F>
pbt::Suite simple(char const* name, u64 quick, u64 thorough, F f) {
  pbt::Suite s;
  s.name = name;
  s.quick = quick;
  s.thorough = thorough;
  s.gen = [](Rng& r, u64, bool) {
    Case c;
    for (auto& x : c.cfg) x = r.u();
    return c;
  };
  s.run = f;
  return s;
}
#if PART == 0
static Add a(plan_suite<std::uint8_t>("plans u8", 300, 3000));
static Add b(plan_suite<std::uint64_t>("plans u64", 300, 3000));
#elif PART == 1
static Add a(plan_suite<std::uint16_t>("plans u16", 200, 2000));
static Add b(plan_suite<std::uint32_t>("plans u32", 200, 2000));
#elif PART == 2
static pbt::Suite bs() {
  pbt::Suite s;
  s.name = "bounded numbers";
  s.quick = 400;
  s.thorough = 4000;
  s.gen = [](Rng& r, u64, bool) {
    Case c;
    for (int i = 0; i != 6; ++i)
      c.ops.push_back(Op{r.u(), 0, 0, r.u(), r.u()});
    return c;
  };
  s.run = bounds;
  return s;
}
static Add a(bs());
static Add b(simple("pieces", 600, 6000, pieces));
#elif PART == 3
static Add a(simple("accumulators and checksums", 500, 5000, [](Case const& c) {
  u64 const n = c.cfg[0] & 1 ? c.cfg[1] % 60 : c.cfg[1] % 900;
  switch (c.cfg[0] / 2 % 4) {
    case 0: return sums<std::uint8_t>(n, c.cfg[2], c.cfg[3]);
    case 1: return sums<std::uint16_t>(n, c.cfg[2], c.cfg[3]);
    case 2: return sums<std::uint32_t>(n, c.cfg[2], c.cfg[3]);
    default: return sums<u64>(n, c.cfg[2], c.cfg[3]);
  }
}));
#elif PART == 4
static pbt::Suite ps() {
  auto s = simple("programs", 80, 800, run_programs);
  s.gen = [](Rng& r, u64 i, bool) {
    Case c;
    c.cfg[0] = static_cast<u32>(i);
    c.cfg[1] = static_cast<u32>(c.cfg[0] % 4 >= 2 ? r.below(40) : r.below(r.chance(1, 4) ? 1500 : 200));
    c.cfg[2] = static_cast<u32>(r.below(60));
    c.cfg[3] = r.u();
    return c;
  };
  return s;
}
static Add a(ps());
#elif PART == 5
static pbt::Suite rs() {
  // scaled: 40 cases at the scale that props.json gives
  auto s = simple("records", 1, 2, record);
  s.gen = [](Rng&, u64 i, bool thorough) {
    Case c;
    c.cfg[0] = static_cast<u32>(thorough ? i % 16 : i % 10);
    return c;
  };
  return s;
}
static Add a(rs(), 5);
#elif PART == 6
static Add a(simple("faulty containers of u64", 150, 1500, faulty<u64>));
#elif PART == 7
static Add a(simple("faulty containers of u32", 150, 1500, faulty<u32>));
#endif
