// Shared by the type-level witnesses.  A witness is an assertion the compiler
// discharges while type checking; nothing here is ever linked or run.
#ifndef VP_WIT_H
#define VP_WIT_H
#include VP_HEADER  // first: nothing else helps it
#include <cstddef>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <memory>
#include <new>
#include <type_traits>
#include <utility>
#include <vector>
#include <limits>
#if __cplusplus >= 202002L
#include <compare>
#include <concepts>
#endif
#if __cplusplus >= 201703L
#include <memory_resource>
#endif
#define W(text, ...) static_assert((__VA_ARGS__), "WITNESS " text)

#if VP_POLY
#define VP_WR xyz::polymorphic
#else
#define VP_WR xyz::indirect
#endif
// Language mode of the implementation under test (the 14/17 headers keep
// their own in_place types).
#if VP_MODERN
#define VP_IP std::in_place_t
template <class T> using vp_ipt = std::in_place_type_t<T>;
#else
#if !VP_POLY
#define VP_IP xyz::in_place_t
#else
template <class T> using vp_ipt = xyz::in_place_type_t<T>;
#endif
#endif

namespace vpw {
template <bool B> using Bool = std::integral_constant<bool, B>;
template <class T> using rcvr = std::remove_cv_t<std::remove_reference_t<T>>;
template <class...> struct voider { using type = void; };
template <class... T> using void_v = typename voider<T...>::type;
template <class A, class B> constexpr bool same = std::is_same<A, B>::value;
template <class T> T&& dv() noexcept;
template <class To, class... As> constexpr bool ctor = std::is_constructible<To, As...>::value;

// implicit (copy-list-initialisation from a braced list of) construction
template <class To> void sink(To);
template <class V, class To, class... As> struct implicit_ : std::false_type {};
template <class To, class... As> struct implicit_<void_v<decltype(sink<To>({dv<As>()...}))>, To, As...> : std::true_type {};
template <class To, class... As> constexpr bool implicit = implicit_<void, To, As...>::value;

// minimal stateful allocator: exactly the standard requirements
template <class T, bool CA, bool MA, bool SW, bool AE>
struct Al {
  using value_type = T;
  using propagate_on_container_copy_assignment = Bool<CA>;
  using propagate_on_container_move_assignment = Bool<MA>;
  using propagate_on_container_swap = Bool<SW>;
  using is_always_equal = Bool<AE>;
  template <class U> struct rebind { using other = Al<U, CA, MA, SW, AE>; };
  int id;
  constexpr Al() noexcept : id(0) {}
  constexpr explicit Al(int i) noexcept : id(i) {}
  template <class U> constexpr Al(const Al<U, CA, MA, SW, AE>& o) noexcept : id(o.id) {}
  T* allocate(std::size_t);
  void deallocate(T*, std::size_t);
};
template <class T, class U, bool CA, bool MA, bool SW, bool AE> bool operator==(const Al<T, CA, MA, SW, AE>&, const Al<U, CA, MA, SW, AE>&) noexcept;
template <class T, class U, bool CA, bool MA, bool SW, bool AE> bool operator!=(const Al<T, CA, MA, SW, AE>&, const Al<U, CA, MA, SW, AE>&) noexcept;

// no default constructor
template <class T>
struct AlNoDef {
  using value_type = T;
  using is_always_equal = std::false_type;
  int id;
  AlNoDef() = delete;
  constexpr explicit AlNoDef(int i) noexcept : id(i) {}
  template <class U> constexpr AlNoDef(const AlNoDef<U>& o) noexcept : id(o.id) {}
  T* allocate(std::size_t);
  void deallocate(T*, std::size_t);
};
template <class T, class U> bool operator==(const AlNoDef<T>&, const AlNoDef<U>&) noexcept;
template <class T, class U> bool operator!=(const AlNoDef<T>&, const AlNoDef<U>&) noexcept;

// Not assignable, not swappable, no default constructor, explicit nothing else
template <class T>
struct AlRigid {
  using value_type = T;
  const int id;
  AlRigid() = delete;
  explicit AlRigid(int i) noexcept : id(i) {}
  AlRigid(const AlRigid&) = default;
  template <class U> AlRigid(const AlRigid<U>& o) noexcept : id(o.id) {}
  AlRigid& operator=(const AlRigid&) = delete;
  T* allocate(std::size_t);
  void deallocate(T*, std::size_t);
};
template <class T, class U> bool operator==(const AlRigid<T>&, const AlRigid<U>&) noexcept;
template <class T, class U> bool operator!=(const AlRigid<T>&, const AlRigid<U>&) noexcept;

template <class T>
struct AlEmpty {
  using value_type = T;
  AlEmpty() = default;
  template <class U> constexpr AlEmpty(const AlEmpty<U>&) noexcept {}
  T* allocate(std::size_t);
  void deallocate(T*, std::size_t);
};
template <class T, class U> bool operator==(const AlEmpty<T>&, const AlEmpty<U>&) noexcept;
template <class T, class U> bool operator!=(const AlEmpty<T>&, const AlEmpty<U>&) noexcept;

template <class T>
struct AlFinal final {
  using value_type = T;
  AlFinal() = default;
  template <class U> constexpr AlFinal(const AlFinal<U>&) noexcept {}
  T* allocate(std::size_t);
  void deallocate(T*, std::size_t);
};
template <class T, class U> bool operator==(const AlFinal<T>&, const AlFinal<U>&) noexcept;
template <class T, class U> bool operator!=(const AlFinal<T>&, const AlFinal<U>&) noexcept;
}  // namespace vpw
#endif
