// Pointer types that are not raw pointers: one that counts how often it is
// followed, and one that stores its distance from its own address.
#pragma once
#include <cstddef>
#include <cstdint>
#include <iterator>
#include <memory>
#include <type_traits>
#include "alloc.hpp"

namespace fancy {
using pbt::u64;
extern u64 derefs;

// How a pointer value is kept.
struct Plain {
  void* p = nullptr;
  void* get() const { return p; }
  void set(void const* q) { p = const_cast<void*>(q); }
  Plain() = default;
};
struct Relative {
  std::intptr_t off = 1;  // 1: null
  Relative() = default;
  Relative(Relative const& o) { set(o.get()); }
  Relative& operator=(Relative const& o) {
    set(o.get());
    return *this;
  }
  void* get() const {
    if (off == 1) return nullptr;
    return reinterpret_cast<void*>(reinterpret_cast<std::intptr_t>(this) + off);
  }
  void set(void const* q) {
    off = q ? reinterpret_cast<std::intptr_t>(q) -
                  reinterpret_cast<std::intptr_t>(this)
            : 1;
  }
};

template <class T, class Rep>
class Ptr;
template <class T>
struct ref_of {
  using type = T&;
};
template <>
struct ref_of<void> {
  using type = void;
};
template <>
struct ref_of<void const> {
  using type = void;
};

template <class T, class Rep>
class Ptr {
  Rep r_;
  template <class, class>
  friend class Ptr;

 public:
  using element_type = T;
  using value_type = typename std::remove_cv<T>::type;
  using difference_type = std::ptrdiff_t;
  using reference = typename ref_of<T>::type;
  using pointer = Ptr;
  using iterator_category = std::random_access_iterator_tag;
  template <class U>
  using rebind = Ptr<U, Rep>;

  Ptr() noexcept {}
  Ptr(std::nullptr_t) noexcept {}
  explicit Ptr(T* p) noexcept { set(p); }
  Ptr(Ptr const& o) noexcept : r_(o.r_) {}
  Ptr& operator=(Ptr const& o) noexcept {
    r_ = o.r_;
    return *this;
  }
  Ptr& operator=(std::nullptr_t) noexcept {
    r_.set(nullptr);
    return *this;
  }
  // as raw pointers convert: to const, to void
  template <class U, typename std::enable_if<
                         std::is_convertible<U*, T*>::value &&
                             !std::is_same<U, T>::value,
                         int>::type = 0>
  Ptr(Ptr<U, Rep> const& o) noexcept {
    set(o.get());
  }
  // static_cast from void
  template <class U,
            typename std::enable_if<!std::is_convertible<U*, T*>::value &&
                                        std::is_void<U>::value,
                                    int>::type = 0>
  explicit Ptr(Ptr<U, Rep> const& o) noexcept {
    set(static_cast<T*>(o.get()));
  }
  T* get() const { return static_cast<T*>(r_.get()); }
  void set(T* p) {
    r_.set(const_cast<void*>(static_cast<void const volatile*>(p)));
  }

  template <class V = T>
  typename std::enable_if<!std::is_void<V>::value, V&>::type operator*()
      const {
    ++derefs;
    return *get();
  }
  T* operator->() const {
    ++derefs;
    return get();
  }
  template <class V = T>
  typename std::enable_if<!std::is_void<V>::value, V&>::type operator[](
      std::ptrdiff_t n) const {
    ++derefs;
    return get()[n];
  }
  Ptr& operator+=(std::ptrdiff_t n) {
    set(get() + n);
    return *this;
  }
  Ptr& operator-=(std::ptrdiff_t n) {
    set(get() - n);
    return *this;
  }
  Ptr& operator++() { return *this += 1; }
  Ptr& operator--() { return *this -= 1; }
  Ptr operator++(int) {
    Ptr c = *this;
    ++*this;
    return c;
  }
  Ptr operator--(int) {
    Ptr c = *this;
    --*this;
    return c;
  }
  friend Ptr operator+(Ptr p, std::ptrdiff_t n) { return p += n; }
  friend Ptr operator+(std::ptrdiff_t n, Ptr p) { return p += n; }
  friend Ptr operator-(Ptr p, std::ptrdiff_t n) { return p -= n; }
  friend std::ptrdiff_t operator-(Ptr const& a, Ptr const& b) {
    return a.get() - b.get();
  }
  explicit operator bool() const { return get() != nullptr; }
  template <class V = T>
  static typename std::enable_if<!std::is_void<V>::value, Ptr>::type
  pointer_to(V& x) {
    return Ptr(std::addressof(x));
  }
  friend bool operator==(Ptr const& a, Ptr const& b) {
    return a.get() == b.get();
  }
  friend bool operator!=(Ptr const& a, Ptr const& b) {
    return a.get() != b.get();
  }
  friend bool operator==(Ptr const& a, std::nullptr_t) { return !a.get(); }
  friend bool operator!=(Ptr const& a, std::nullptr_t) { return a.get(); }
  friend bool operator==(std::nullptr_t, Ptr const& a) { return !a.get(); }
  friend bool operator!=(std::nullptr_t, Ptr const& a) { return a.get(); }
  friend bool operator<(Ptr const& a, Ptr const& b) {
    return a.get() < b.get();
  }
  friend bool operator>(Ptr const& a, Ptr const& b) { return b < a; }
  friend bool operator<=(Ptr const& a, Ptr const& b) { return !(b < a); }
  friend bool operator>=(Ptr const& a, Ptr const& b) { return !(a < b); }
};

template <class T, class Rep, class Elem = T>
class Alloc {
 public:
  using value_type = T;
  using pointer = Ptr<T, Rep>;
  using const_pointer = Ptr<T const, Rep>;
  using void_pointer = Ptr<void, Rep>;
  using const_void_pointer = Ptr<void const, Rep>;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;
  using propagate_on_container_copy_assignment = std::true_type;
  using propagate_on_container_move_assignment = std::true_type;
  using propagate_on_container_swap = std::true_type;
  template <class U>
  struct rebind {
    using other = Alloc<U, Rep, Elem>;
  };
  int arena;
  Alloc() : arena(0) {}
  explicit Alloc(int a) : arena(a) {}
  template <class U>
  Alloc(Alloc<U, Rep, Elem> const& o) : arena(o.arena) {}
  pointer allocate(std::size_t n) {
    pbt::fault_point(pbt::F_ALLOC);
    return pointer(static_cast<T*>(
        mem::get(n, sizeof(T), arena, std::is_same<T, Elem>::value)));
  }
  void deallocate(pointer p, std::size_t n) {
    mem::put(p.get(), n, sizeof(T), arena, std::is_same<T, Elem>::value);
  }
  friend bool operator==(Alloc const& a, Alloc const& b) {
    return a.arena == b.arena;
  }
  friend bool operator!=(Alloc const& a, Alloc const& b) {
    return a.arena != b.arena;
  }
};
template <class T>
using CountingAlloc = Alloc<T, Plain>;
template <class T>
using RelativeAlloc = Alloc<T, Relative>;
}  // namespace fancy
