// Property-based testing engine: deterministic generation, fork isolation,
// crash and non-termination detection, shrinking, replay, evidence.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <new>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt {
using u64 = std::uint64_t;
using u32 = std::uint32_t;

// splitmix64: every random choice of a case comes from one of these, seeded
// from (VERIF_SEED, suite name, case index).
struct Rng {
  u64 s;
  explicit Rng(u64 seed) : s(seed) {}
  u64 next() {
    u64 z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
  }
  u64 below(u64 n) { return n ? next() % n : 0; }
  u64 range(u64 lo, u64 hi) { return lo + below(hi - lo + 1); }
  bool chance(u64 num, u64 den) { return below(den) < num; }
  u32 u() { return static_cast<u32>(next()); }
  // index into weights
  std::size_t pick(std::vector<unsigned> const& w) {
    u64 t = 0;
    for (auto x : w) t += x;
    u64 r = below(t);
    for (std::size_t i = 0; i != w.size(); ++i) {
      if (r < w[i]) return i;
      r -= w[i];
    }
    return 0;
  }
};

// One step of a history. The arguments are interpreted modulo the current
// state, so that every subsequence of a history is a history.
struct Op {
  u32 code, s, p, n, v;
};

struct Case {
  u32 cfg[4] = {0, 0, 0, 0};
  std::vector<Op> ops;
};

struct Failure {
  std::string msg;
};

[[noreturn]] void fail(std::string msg);
// For places that may not throw (destructors, deallocate): remembered, and
// raised by the next checkpoint().
void note_error(std::string const& msg);
void checkpoint();
bool has_note();
void clear_notes();

// Counters for the evidence: how often a class of events occurred.
void label(char const* name, u64 by = 1);
// Marks the current case as non-trivial.
void nontrivial();

struct Suite {
  std::string name;
  std::function<Case(Rng&, u64 index, bool thorough)> gen;
  std::function<void(Case const&)> run;
  u64 quick = 0, thorough = 0;
  std::vector<char const*> opnames;
  int priority = 0;  // higher runs first
  bool fixed = false;  // the counts are not scaled
  int cpu = 60;        // CPU seconds one case may take
};

struct Register {
  Register(Suite s);
};

extern char const* const rule;  // set by each property's main part

#define PBT_STR2(x) #x
#define PBT_STR(x) PBT_STR2(x)
#define REQUIRE(cond, ...)                                                  \
  do {                                                                      \
    if (!(cond))                                                            \
      ::pbt::fail(std::string("line " PBT_STR(__LINE__) ": " #cond " ") +   \
                  ::pbt::fmt(__VA_ARGS__));                                 \
  } while (0)

inline std::string fmt() { return {}; }
inline std::string to_s(char const* s) { return s; }
inline std::string to_s(std::string const& s) { return s; }
inline std::string to_s(bool b) { return b ? "true" : "false"; }
template <class T>
std::string to_s(T v) {
  return std::to_string(v);
}
template <class A, class... R>
std::string fmt(A const& a, R const&... r) {
  return to_s(a) + " " + fmt(r...);
}

// Fault injection: code under test reaches fault points; the armed one throws.
struct Injected {
  int kind;
};
// What is thrown also derives from what such a failure may be caught as.
struct InjectedAlloc : Injected, std::bad_alloc {
  explicit InjectedAlloc(int k) : Injected{k} {}
};
struct InjectedError : Injected, std::runtime_error {
  explicit InjectedError(int k) : Injected{k}, std::runtime_error("injected") {}
};
enum FaultKind : unsigned {
  F_ALLOC = 1,    // allocate()
  F_CREATE = 2,   // construction of a new element from a value
  F_COPY = 4,     // copy construction of an element
  F_ASSIGN = 8,   // copy assignment of an element
  F_SOURCE = 16,  // reading or advancing a source iterator
  F_CALL = 32,    // comparison, predicate
  F_MOVE = 64,    // move construction or assignment
};
struct Faults {
  bool armed = false;
  unsigned mask = 0;
  u64 left = 0;      // throws at the left-th point of a masked kind
  u64 seen = 0;      // points of masked kinds seen while counting or armed
  bool fired = false;
  int fired_kind = 0;
  bool counting = false;
};
extern Faults faults;
inline void fault_point(unsigned kind) {
  if (!faults.armed && !faults.counting) return;
  if (!(faults.mask & kind)) return;
  ++faults.seen;
  if (faults.armed && --faults.left == 0) {
    faults.armed = false;
    faults.fired = true;
    faults.fired_kind = static_cast<int>(kind);
    if (kind == F_ALLOC) throw InjectedAlloc(static_cast<int>(kind));
    if (faults.seen & 1) throw InjectedError(static_cast<int>(kind));
    throw Injected{static_cast<int>(kind)};
  }
}
inline void arm(unsigned mask, u64 nth) {
  faults = Faults{};
  faults.armed = true;
  faults.mask = mask;
  faults.left = nth;
}
inline void disarm() {
  faults.armed = false;
  faults.counting = false;
}

// Global operator new accounting (main.cpp replaces operator new).
struct NewStats {
  long long live = 0;
  u64 calls = 0;
  bool nothrow_fails = false;  // operator new(nothrow) returns null
};
extern NewStats news;
}  // namespace pbt

// Gives every part of a property an exported name of its own (the address
// sanitizer tells modules apart by these).
#ifdef PART
#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
int PBT_CAT(pbt_part_, PART)();
int PBT_CAT(pbt_part_, PART)() { return PART; }
#endif
