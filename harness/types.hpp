// Element types. Each has a Traits<T>: make(id), id(x), key(id), and what the
// type can do. key() is what operator== and operator< of the type compare.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <type_traits>
#include <utility>
#include "pbt.hpp"

using pbt::u32;
using pbt::u64;

template <class T>
struct Traits;

template <class U>
struct IntTraits {
  static constexpr bool copyable = true;
  static constexpr bool keyed = false;
  static u64 norm(u64 id) { return static_cast<U>(id); }
  static U make(u64 id) { return static_cast<U>(id); }
  static u64 id(U const& x) { return x; }
  static u64 key(u64 id) { return id; }
  static constexpr u64 dflt() { return 0; }
};
template <>
struct Traits<std::uint8_t> : IntTraits<std::uint8_t> {};
template <>
struct Traits<std::uint16_t> : IntTraits<std::uint16_t> {};
template <>
struct Traits<std::uint32_t> : IntTraits<std::uint32_t> {};
template <>
struct Traits<std::uint64_t> : IntTraits<std::uint64_t> {};

// Trivially copyable, compares a small key, carries a tag.
template <std::size_t Pad>
struct Pod {
  u64 v;
  unsigned char pad[Pad];
  Pod() : v(0) { fill(); }
  explicit Pod(u64 id) : v(id) { fill(); }
  void fill() {
    for (std::size_t i = 0; i != Pad; ++i)
      pad[i] = static_cast<unsigned char>(v + i);
  }
  bool whole() const {
    for (std::size_t i = 0; i != Pad; ++i)
      if (pad[i] != static_cast<unsigned char>(v + i)) return false;
    return true;
  }
};
template <>
struct Pod<0> {
  u64 v;
  Pod() : v(0) {}
  explicit Pod(u64 id) : v(id) {}
  bool whole() const { return true; }
};
template <std::size_t P>
bool operator==(Pod<P> const& a, Pod<P> const& b) {
  pbt::fault_point(pbt::F_CALL);
  return (a.v & 15) == (b.v & 15);
}
template <std::size_t P>
bool operator<(Pod<P> const& a, Pod<P> const& b) {
  pbt::fault_point(pbt::F_CALL);
  return (a.v & 15) < (b.v & 15);
}
template <std::size_t P>
struct Traits<Pod<P>> {
  static constexpr bool copyable = true;
  static constexpr bool keyed = true;
  static u64 norm(u64 id) { return id; }
  static Pod<P> make(u64 id) { return Pod<P>(id); }
  static u64 id(Pod<P> const& x) {
    if (!x.whole()) pbt::note_error("element bytes torn");
    return x.v;
  }
  static u64 key(u64 id) { return id & 15; }
  static constexpr u64 dflt() { return 0; }
};

template <>
struct Traits<std::string> {
  static constexpr bool copyable = true;
  static constexpr bool keyed = false;
  // short and long (heap) strings, ordered like the ids
  static u64 norm(u64 id) { return id & 0xffffffffffULL; }
  static std::string make(u64 id) {
    id = norm(id);
    if (!id) return std::string();
    char b[64];
    std::snprintf(b, sizeof b, "%012llu", static_cast<unsigned long long>(id));
    std::string s(b);
    if (id & 16) s += "-a-longer-tail-to-force-the-heap";
    return s;
  }
  static u64 id(std::string const& s) {
    if (s.empty()) return 0;
    return std::strtoull(s.c_str(), nullptr, 10);
  }
  static u64 key(u64 id) { return id; }
  static constexpr u64 dflt() { return 0; }
};

// A type that knows whether it is alive, where it lives, and whether its value
// was moved away. Flags choose what it can do.
enum : unsigned {
  T_COPY = 1,       // copyable
  T_MOVE = 2,       // has its own move operations (else copies are used)
  T_THROW_MOVE = 4  // moves are fault points
};

struct TrStats {
  long long live = 0;
  u64 constructed = 0, destroyed = 0;
  u64 copies = 0, moves = 0, copy_assigns = 0, move_assigns = 0, creates = 0;
  u64 compares = 0;
  void reset_counts() {
    constructed = destroyed = copies = moves = copy_assigns = move_assigns =
        creates = compares = 0;
  }
  u64 relocations() const { return moves + move_assigns; }
  u64 copied() const { return copies + copy_assigns; }
};
extern TrStats tr_stats;

template <unsigned Flags, std::size_t Pad = 1>
class Tr {
  static constexpr u32 LIVE = 0x4c495645, DEAD = 0x44454144;
  u32 magic_;
  u32 moved_;
  Tr const* self_;
  u64 v_;
  unsigned char pad_[Pad];

  void born() {
    // The memory may hold anything, but not an object that was never
    // destroyed. Allocators fill fresh memory with a pattern.
    u32 m;
    Tr const* s;
    std::memcpy(&m, static_cast<void*>(&magic_), sizeof m);
    std::memcpy(&s, static_cast<void*>(&self_), sizeof s);
    if (m == LIVE && s == this)
      pbt::note_error("element constructed over a live element");
    magic_ = LIVE;
    self_ = this;
    moved_ = 0;
    for (auto& c : pad_) c = static_cast<unsigned char>(v_);
    ++tr_stats.live;
    ++tr_stats.constructed;
  }

 public:
  void check(char const* what) const {
    if (magic_ != LIVE) {
      pbt::note_error(std::string(what) + ": element is " +
                      (magic_ == DEAD ? "destroyed" : "not constructed"));
    } else if (self_ != this)
      pbt::note_error(std::string(what) + ": element was relocated bitwise");
    else if (pad_[0] != static_cast<unsigned char>(v_) ||
             pad_[Pad - 1] != static_cast<unsigned char>(v_))
      pbt::note_error(std::string(what) + ": element torn");
  }
  Tr() : v_(0) {
    pbt::fault_point(pbt::F_CREATE);
    ++tr_stats.creates;
    born();
  }
  explicit Tr(u64 v) : v_(v) {
    pbt::fault_point(pbt::F_CREATE);
    ++tr_stats.creates;
    born();
  }
  Tr(Tr const& o) : v_(o.v_) {
    static_assert(Flags & T_COPY, "");
    o.check("copy from");
    pbt::fault_point(pbt::F_COPY);
    if (!(Flags & T_MOVE)) pbt::fault_point(pbt::F_MOVE);
    ++tr_stats.copies;
    born();
    moved_ = o.moved_;
  }
  Tr(Tr&& o) noexcept(!(Flags & T_THROW_MOVE)) : v_(o.v_) {
    o.check("move from");
    if (Flags & T_THROW_MOVE) pbt::fault_point(pbt::F_MOVE);
    ++tr_stats.moves;
    born();
    moved_ = o.moved_;
    o.moved_ = 1;
  }
  Tr& operator=(Tr const& o) {
    check("copy assign to");
    o.check("copy assign from");
    pbt::fault_point(pbt::F_ASSIGN);
    ++tr_stats.copy_assigns;
    v_ = o.v_;
    moved_ = o.moved_;
    for (auto& c : pad_) c = static_cast<unsigned char>(v_);
    return *this;
  }
  Tr& operator=(Tr&& o) noexcept(!(Flags & T_THROW_MOVE)) {
    check("move assign to");
    o.check("move assign from");
    if (Flags & T_THROW_MOVE) pbt::fault_point(pbt::F_MOVE);
    ++tr_stats.move_assigns;
    if (this != &o) {
      v_ = o.v_;
      moved_ = o.moved_;
      o.moved_ = 1;
      for (auto& c : pad_) c = static_cast<unsigned char>(v_);
    }
    return *this;
  }
  ~Tr() {
    check("destroy");
    --tr_stats.live;
    ++tr_stats.destroyed;
    // volatile: the store to a dying object must not be optimized away
    *static_cast<u32 volatile*>(&magic_) = DEAD;
  }
  bool moved_from() const { return moved_ != 0; }
  u64 raw() const { return v_; }
  u64 const& ref() const { return v_; }
  u64 value() const {
    check("read");
    return moved_ ? (v_ | (u64(1) << 63)) : v_;
  }
  friend bool operator==(Tr const& a, Tr const& b) {
    a.check("compare");
    b.check("compare");
    ++tr_stats.compares;
    pbt::fault_point(pbt::F_CALL);
    return (a.value() & 15) == (b.value() & 15) && !a.moved_ && !b.moved_;
  }
  friend bool operator<(Tr const& a, Tr const& b) {
    a.check("compare");
    b.check("compare");
    ++tr_stats.compares;
    pbt::fault_point(pbt::F_CALL);
    return (a.value() & 15) < (b.value() & 15);
  }
};

// Copyable and move-only specimens. Copy operations of the move-only one are
// deleted by the wrapper.
using Trk = Tr<T_COPY | T_MOVE>;
template <std::size_t Pad>
using TrkP = Tr<T_COPY | T_MOVE, Pad>;
using TrkThrow = Tr<T_COPY | T_MOVE | T_THROW_MOVE>;

struct MoveOnly {
  Trk t;
  MoveOnly() = default;
  explicit MoveOnly(u64 v) : t(v) {}
  MoveOnly(MoveOnly&&) = default;
  MoveOnly& operator=(MoveOnly&&) = default;
  MoveOnly(MoveOnly const&) = delete;
  MoveOnly& operator=(MoveOnly const&) = delete;
  friend bool operator==(MoveOnly const& a, MoveOnly const& b) {
    return a.t == b.t;
  }
  friend bool operator<(MoveOnly const& a, MoveOnly const& b) {
    return a.t < b.t;
  }
};
// Copies, declares no move: what a C++98 class looks like.
struct CopyOnly {
  Trk t;
  CopyOnly() {}
  explicit CopyOnly(u64 v) : t(v) {}
  CopyOnly(CopyOnly const& o) : t(o.t) {}
  CopyOnly& operator=(CopyOnly const& o) {
    t = o.t;
    return *this;
  }
  ~CopyOnly() {}
  friend bool operator==(CopyOnly const& a, CopyOnly const& b) {
    return a.t == b.t;
  }
  friend bool operator<(CopyOnly const& a, CopyOnly const& b) {
    return a.t < b.t;
  }
};

template <class T>
struct TrTraits {
  static constexpr bool copyable = true;
  static constexpr bool keyed = true;
  static u64 norm(u64 id) { return id; }
  static T make(u64 id) { return T(id); }
  static u64 key(u64 id) { return id & 15; }
  static constexpr u64 dflt() { return 0; }
};
template <unsigned F, std::size_t P>
struct Traits<Tr<F, P>> : TrTraits<Tr<F, P>> {
  static u64 id(Tr<F, P> const& x) { return x.value(); }
};
template <>
struct Traits<MoveOnly> : TrTraits<MoveOnly> {
  static constexpr bool copyable = false;
  static u64 id(MoveOnly const& x) { return x.t.value(); }
};
template <>
struct Traits<CopyOnly> : TrTraits<CopyOnly> {
  static u64 id(CopyOnly const& x) { return x.t.value(); }
};

template <std::size_t Al>
struct alignas(Al) Aligned {
  u64 v;
  Aligned() : v(0) { check(); }
  explicit Aligned(u64 x) : v(x) { check(); }
  Aligned(Aligned const& o) : v(o.v) { check(); }
  Aligned& operator=(Aligned const&) = default;
  void check() const {
    if (reinterpret_cast<std::uintptr_t>(this) % Al)
      pbt::note_error("element at a misaligned address");
  }
  friend bool operator==(Aligned const& a, Aligned const& b) {
    return a.v == b.v;
  }
  friend bool operator<(Aligned const& a, Aligned const& b) {
    return a.v < b.v;
  }
};
template <std::size_t Al>
struct Traits<Aligned<Al>> : IntTraits<u64> {
  static Aligned<Al> make(u64 id) { return Aligned<Al>(id); }
  static u64 id(Aligned<Al> const& x) { return x.v; }
};
// A trivial one.
struct alignas(32) AlignedPod {
  u64 v;
  friend bool operator==(AlignedPod const& a, AlignedPod const& b) {
    return a.v == b.v;
  }
  friend bool operator<(AlignedPod const& a, AlignedPod const& b) {
    return a.v < b.v;
  }
};
template <>
struct Traits<AlignedPod> : IntTraits<u64> {
  static AlignedPod make(u64 id) {
    AlignedPod r;
    r.v = id;
    return r;
  }
  static u64 id(AlignedPod const& x) { return x.v; }
};
// Trivially destructible and not trivially copyable.
struct SelfAware {
  SelfAware const* me;
  u64 v;
  SelfAware() : me(this), v(0) {}
  explicit SelfAware(u64 x) : me(this), v(x) {}
  SelfAware(SelfAware const& o) : me(this), v(o.v) {}
  SelfAware& operator=(SelfAware const& o) {
    v = o.v;
    return *this;
  }
  friend bool operator==(SelfAware const& a, SelfAware const& b) {
    return a.v == b.v;
  }
  friend bool operator<(SelfAware const& a, SelfAware const& b) {
    return a.v < b.v;
  }
};
template <>
struct Traits<SelfAware> : IntTraits<u64> {
  static SelfAware make(u64 id) { return SelfAware(id); }
  static u64 id(SelfAware const& x) {
    if (x.me != &x) pbt::note_error("element was relocated bitwise");
    return x.v;
  }
};
