// P30: associated types, result types and traits of the wrappers.
#include "wit.h"
#include <iterator>
namespace vpw {
struct Ord { int i; Ord(); Ord(int); Ord(const Ord&); friend bool operator==(const Ord&, const Ord&); friend bool operator!=(const Ord&, const Ord&); friend bool operator<(const Ord&, const Ord&); friend bool operator>(const Ord&, const Ord&); friend bool operator<=(const Ord&, const Ord&); friend bool operator>=(const Ord&, const Ord&); };
struct Fin final { Fin(); Fin(const Fin&); };
struct Virt { Virt(); Virt(const Virt&); virtual ~Virt(); };
struct Unhashed {};
template <class T> struct AlHuge { using value_type = T; using is_always_equal = std::false_type; void* v[4]; explicit AlHuge(int); template <class U> AlHuge(const AlHuge<U>&); template <class U> struct rebind { using other = AlHuge<U>; }; T* allocate(std::size_t); void deallocate(T*, std::size_t); };
template <class T, class U> bool operator==(const AlHuge<T>&, const AlHuge<U>&); template <class T, class U> bool operator!=(const AlHuge<T>&, const AlHuge<U>&);

template <class T, class A> struct types {
  using Wr = VP_WR<T, A>;
  W("value_type is the element type", same<typename Wr::value_type, T>);
  W("allocator_type is the allocator type", same<typename Wr::allocator_type, A>);
  W("pointer is the allocator's pointer type", same<typename Wr::pointer, typename std::allocator_traits<A>::pointer>);
  W("const_pointer is the allocator's const_pointer type", same<typename Wr::const_pointer, typename std::allocator_traits<A>::const_pointer>);
  W("uses_allocator holds for its allocator", std::uses_allocator<Wr, A>::value);
  W("uses_allocator holds for a rebound allocator", std::uses_allocator<Wr, typename std::allocator_traits<A>::template rebind_alloc<long>>::value);
  W("uses_allocator does not hold for something else", !std::uses_allocator<Wr, Unhashed>::value);
  W("get_allocator returns the allocator by value", same<decltype(dv<const Wr&>().get_allocator()), A>);
  W("get_allocator is callable on a non-const wrapper", same<decltype(dv<Wr&>().get_allocator()), A>);
  W("valueless_after_move returns bool", same<decltype(dv<const Wr&>().valueless_after_move()), bool>);
  W("copy assignment returns the assigned-to wrapper", same<decltype(dv<Wr&>() = dv<const Wr&>()), Wr&>);
  W("move assignment returns the assigned-to wrapper", same<decltype(dv<Wr&>() = dv<Wr&&>()), Wr&>);
  W("member swap returns nothing", same<decltype(dv<Wr&>().swap(dv<Wr&>())), void>);
  W("free swap returns nothing", same<decltype(swap(dv<Wr&>(), dv<Wr&>())), void>);
  W("const wrappers cannot be assigned", !std::is_assignable<const Wr&, const Wr&>::value && !std::is_assignable<const Wr&, Wr&&>::value);
  W("a wrapper does not convert to its element", !std::is_convertible<Wr&, T&>::value && !std::is_convertible<const Wr&, const T&>::value && !std::is_convertible<Wr&, T*>::value && !std::is_convertible<const Wr&, const T*>::value && !std::is_constructible<bool, Wr&>::value && !std::is_constructible<T*, Wr&>::value);
  W("wrappers can be copied, moved and destroyed", std::is_copy_constructible<Wr>::value && std::is_move_constructible<Wr>::value && std::is_copy_assignable<Wr>::value && std::is_move_assignable<Wr>::value && std::is_destructible<Wr>::value);
  W("wrappers manage a resource", !std::is_trivially_copyable<Wr>::value && !std::is_trivially_destructible<Wr>::value && !std::is_trivially_copy_constructible<Wr>::value && !std::is_trivially_move_constructible<Wr>::value);
  W("wrappers have no virtual functions and are not final", !std::is_polymorphic<Wr>::value && !std::is_final<Wr>::value);
#if VP_MODERN
  W("wrappers model the standard object concepts", std::copyable<Wr> && std::movable<Wr> && std::swappable<Wr>);
#endif
};
template <class T> struct all { types<T, std::allocator<T>> a; types<T, AlEmpty<T>> b; types<T, AlRigid<T>> c; types<T, AlHuge<T>> d; types<T, AlFinal<T>> e; types<T, Al<T, true, true, true, false>> f; types<T, Al<T, false, false, false, false>> g; types<T, Al<T, false, true, false, true>> h;
#if __cplusplus >= 201703L
  types<T, std::pmr::polymorphic_allocator<T>> p;
#endif
};
template struct all<Ord>; template struct all<Virt>; template struct all<Unhashed>;
#if !VP_POLY
template struct all<int>; template struct all<double>; template struct all<Fin>; template struct all<void*>; template struct all<VP_WR<int>>;

// converting assignment, comparison, hash
template <class A> struct results {
  using Wr = VP_WR<Ord, A>; using Y = VP_WR<int>; using V = VP_WR<Ord>;
  W("assigning a value returns the assigned-to wrapper", same<decltype(dv<Wr&>() = dv<const Ord&>()), Wr&> && same<decltype(dv<Wr&>() = dv<int>()), Wr&>);
#define OP(o) same<decltype(dv<const Wr&>() o dv<const Wr&>()), bool> && same<decltype(dv<const Wr&>() o dv<const V&>()), bool> && same<decltype(dv<const Wr&>() o dv<const Ord&>()), bool> && same<decltype(dv<const Ord&>() o dv<const Wr&>()), bool> && same<decltype(dv<Wr>() o dv<Ord>()), bool>
  W("equality comparisons return bool", OP(==) && OP(!=));
  W("ordering comparisons return bool", OP(<) && OP(>) && OP(<=) && OP(>=));
  W("hash returns size_t", same<decltype(std::hash<VP_WR<int>>{}(dv<const VP_WR<int>&>())), std::size_t>);
};
template struct results<std::allocator<Ord>>; template struct results<AlRigid<Ord>>; template struct results<Al<Ord, true, true, true, false>>;
// a comparison result that only converts to bool
struct Yes { operator bool() const; };
struct Loose { friend Yes operator==(const Loose&, const Loose&); friend Yes operator!=(const Loose&, const Loose&); friend Yes operator<(const Loose&, const Loose&); friend Yes operator>(const Loose&, const Loose&); friend Yes operator<=(const Loose&, const Loose&); friend Yes operator>=(const Loose&, const Loose&); };
W("comparisons return bool whatever the element's return", same<decltype(dv<const VP_WR<Loose>&>() == dv<const VP_WR<Loose>&>()), bool> && same<decltype(dv<const VP_WR<Loose>&>() == dv<const Loose&>()), bool>);
template <class T> constexpr bool hashed = std::is_default_constructible<std::hash<T>>::value && std::is_copy_constructible<std::hash<T>>::value && std::is_destructible<std::hash<T>>::value;
W("hash function objects can be called as const", same<decltype(dv<const std::hash<VP_WR<int>>&>()(dv<const VP_WR<int>&>())), std::size_t> && same<decltype(dv<const std::hash<VP_WR<double, AlRigid<double>>>&>()(dv<VP_WR<double, AlRigid<double>>>())), std::size_t>);
W("std::hash is enabled when the element's is", hashed<VP_WR<int>> && hashed<VP_WR<double, AlRigid<double>>> && hashed<VP_WR<void*>> && hashed<VP_WR<VP_WR<int>>>);
}  // namespace vpw
namespace vpw { struct Keyed { explicit Keyed(int); Keyed(const Keyed&) = delete; Keyed& operator=(const Keyed&) = delete; }; struct KeyedConst final { KeyedConst() = delete; KeyedConst(KeyedConst&&); }; }
template <> struct std::hash<vpw::Keyed> { std::size_t operator()(const vpw::Keyed&) const; };
template <> struct std::hash<vpw::KeyedConst> { std::size_t operator()(const vpw::KeyedConst&) const noexcept(false); };
namespace vpw {
W("std::hash is enabled whatever else the element can do", hashed<VP_WR<Keyed>> && hashed<VP_WR<KeyedConst>> && hashed<VP_WR<Keyed, AlRigid<Keyed>>> && same<decltype(std::hash<VP_WR<Keyed>>{}(dv<const VP_WR<Keyed>&>())), std::size_t> && same<decltype(std::hash<VP_WR<KeyedConst>>{}(dv<VP_WR<KeyedConst>&>())), std::size_t>);
#if VP_MODERN
W("std::hash is disabled when the element's is", !hashed<VP_WR<Unhashed>> && !hashed<VP_WR<Ord, AlRigid<Ord>>> && !hashed<VP_WR<VP_WR<Unhashed>>>);
struct Str { friend std::strong_ordering operator<=>(const Str&, const Str&); friend bool operator==(const Str&, const Str&); };
struct Weak { friend std::weak_ordering operator<=>(const Weak&, const Weak&); friend bool operator==(const Weak&, const Weak&); };
struct Part { friend std::partial_ordering operator<=>(const Part&, const Part&); friend bool operator==(const Part&, const Part&); };
struct Less { friend bool operator<(const Less&, const Less&); friend bool operator==(const Less&, const Less&); };
template <class T, class C, class A = std::allocator<T>> struct category {
  using Wr = VP_WR<T, A>;
  W("three-way comparison of wrappers has the element's category", same<decltype(dv<const Wr&>() <=> dv<const Wr&>()), C> && same<decltype(dv<Wr>() <=> dv<Wr&>()), C> && same<decltype(dv<const Wr&>() <=> dv<const VP_WR<T>&>()), C>);
  W("three-way comparison with a value has the element's category", same<decltype(dv<const Wr&>() <=> dv<const T&>()), C> && same<decltype(dv<const T&>() <=> dv<const Wr&>()), C>);
};
template struct category<int, std::strong_ordering>; template struct category<double, std::partial_ordering>; template struct category<Str, std::strong_ordering>; template struct category<Weak, std::weak_ordering>; template struct category<Part, std::partial_ordering>; template struct category<Less, std::weak_ordering>;
template struct category<Str, std::strong_ordering, AlRigid<Str>>; template struct category<Part, std::partial_ordering, Al<Part, true, true, true, false>>; template struct category<Less, std::weak_ordering, AlEmpty<Less>>;
W("nested wrappers have the category of the innermost element", same<decltype(dv<const VP_WR<VP_WR<int>>&>() <=> dv<const VP_WR<VP_WR<int>>&>()), std::strong_ordering> && same<decltype(dv<const VP_WR<VP_WR<double>>&>() <=> dv<const VP_WR<VP_WR<double>>&>()), std::partial_ordering>);
W("mixed three-way comparison has the category of the elements", same<decltype(dv<const VP_WR<int>&>() <=> dv<const VP_WR<double>&>()), std::partial_ordering> && same<decltype(dv<const VP_WR<int>&>() <=> 1L), std::strong_ordering> && same<decltype(dv<const VP_WR<int>&>() <=> 1.0), std::partial_ordering>);
W("wrappers model the comparison concepts of their elements", std::equality_comparable<VP_WR<int>> && std::totally_ordered<VP_WR<int>> && std::three_way_comparable<VP_WR<int>, std::strong_ordering> && std::three_way_comparable<VP_WR<double>, std::partial_ordering> && !std::three_way_comparable<VP_WR<double>, std::weak_ordering> && std::regular<VP_WR<int>>);
#endif
#else
// a polymorphic is not comparable and not hashable
template <class X, class = void> struct eq : std::false_type {}; template <class X> struct eq<X, void_v<decltype(dv<const X&>() == dv<const X&>())>> : std::true_type {};
W("polymorphic has no comparison", !eq<VP_WR<Ord>>::value);
W("polymorphic has no hash", !std::is_default_constructible<std::hash<VP_WR<Ord>>>::value);
#endif
}  // namespace vpw
