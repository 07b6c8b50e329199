// Allocators that account for every call.
#pragma once
#include <cstddef>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <memory>
#include <new>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include "pbt.hpp"

namespace mem {
using pbt::u64;
struct Block {
  std::size_t n, size;  // count and sizeof
  int arena;
  bool is_element;      // allocated as elements, not as index nodes
};
// For the registry itself: keeps the count of calls of operator new clean.
template <class T>
struct Malloc {
  using value_type = T;
  Malloc() = default;
  template <class U>
  Malloc(Malloc<U> const&) {}
  T* allocate(std::size_t n) {
    void* p = std::malloc(n * sizeof(T));
    if (!p) std::abort();
    return static_cast<T*>(p);
  }
  void deallocate(T* p, std::size_t) { std::free(p); }
  friend bool operator==(Malloc const&, Malloc const&) { return true; }
  friend bool operator!=(Malloc const&, Malloc const&) { return false; }
};
struct State {
  std::unordered_map<void*, Block, std::hash<void*>, std::equal_to<void*>,
                     Malloc<std::pair<void* const, Block>>>
      live;
  u64 allocs = 0, frees = 0;
  u64 segments = 0;  // live blocks of elements
  int last_arena = -1;
  std::size_t bytes = 0, peak = 0;
  u64 live_of(int arena) const {
    u64 c = 0;
    for (auto const& b : live)
      if (b.second.arena == arena) ++c;
    return c;
  }
  u64 live_segments() const { return segments; }
  u64 live_nodes() const { return live.size() - segments; }
};
extern State st;
extern long long construct_calls, destroy_calls;
// Where elements were constructed through HookAlloc and not yet destroyed.
extern std::unordered_set<void const*, std::hash<void const*>,
                          std::equal_to<void const*>, Malloc<void const*>>
    built;
// what a case left behind is freed before the next one starts
void reset();

void* get(std::size_t n, std::size_t size, int arena, bool is_element);
void put(void* p, std::size_t n, std::size_t size, int arena, bool is_element);
}  // namespace mem

// PROP bits: 1 copy assignment, 2 move assignment, 4 swap propagate;
// 8 select_on_container_copy_construction returns arena + 100;
// 16 has construct/destroy members of its own.
template <class T, unsigned PROP = 7, class Elem = T>
class TrackAlloc {
 public:
  using value_type = T;
  using propagate_on_container_copy_assignment =
      std::integral_constant<bool, (PROP & 1) != 0>;
  using propagate_on_container_move_assignment =
      std::integral_constant<bool, (PROP & 2) != 0>;
  using propagate_on_container_swap =
      std::integral_constant<bool, (PROP & 4) != 0>;
  using is_always_equal = std::false_type;
  template <class U>
  struct rebind {
    using other = TrackAlloc<U, PROP, Elem>;
  };
  int arena;
  TrackAlloc() : arena(0) {}
  explicit TrackAlloc(int a) : arena(a) {}
  template <class U>
  TrackAlloc(TrackAlloc<U, PROP, Elem> const& o) : arena(o.arena) {}

  T* allocate(std::size_t n) {
    pbt::fault_point(pbt::F_ALLOC);
    return static_cast<T*>(
        mem::get(n, sizeof(T), arena, std::is_same<T, Elem>::value));
  }
  void deallocate(T* p, std::size_t n) {
    mem::put(p, n, sizeof(T), arena, std::is_same<T, Elem>::value);
  }
  TrackAlloc select_on_container_copy_construction() const {
    return TrackAlloc((PROP & 8) ? arena + 100 : arena);
  }
  friend bool operator==(TrackAlloc const& a, TrackAlloc const& b) {
    return a.arena == b.arena;
  }
  friend bool operator!=(TrackAlloc const& a, TrackAlloc const& b) {
    return a.arena != b.arena;
  }
};

// As TrackAlloc, with construct and destroy of its own, so that the container
// may not bypass them for elements.
template <class T, unsigned PROP = 7, class Elem = T>
class HookAlloc : public TrackAlloc<T, PROP, Elem> {
  using Base = TrackAlloc<T, PROP, Elem>;

 public:
  template <class U>
  struct rebind {
    using other = HookAlloc<U, PROP, Elem>;
  };
  HookAlloc() = default;
  explicit HookAlloc(int a) : Base(a) {}
  template <class U>
  HookAlloc(HookAlloc<U, PROP, Elem> const& o) : Base(o.arena) {}
  HookAlloc select_on_container_copy_construction() const {
    return HookAlloc((PROP & 8) ? this->arena + 100 : this->arena);
  }
  template <class U, class... A>
  void construct(U* p, A&&... a) {
    ++mem::construct_calls;
    ::new (static_cast<void*>(p)) U(std::forward<A>(a)...);
    mem::built.insert(p);
  }
  template <class U>
  void destroy(U* p) {
    ++mem::destroy_calls;
    if (!mem::built.erase(p))
      pbt::note_error("the allocator destroys what it did not construct");
    p->~U();
  }
};
