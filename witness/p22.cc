// P22: a wrapper with an empty allocator is the size of one pointer.
#include "wit.h"
namespace vpw {
struct Incomplete;
struct Big { char c[1000]; }; struct alignas(64) Wide { double d[8]; };
struct Virt { virtual ~Virt(); int x; }; struct Empty {};
struct Fin final { int x; };
template <class T> struct AlOne { using value_type = T; char c; AlOne(); template <class U> AlOne(const AlOne<U>&); T* allocate(std::size_t); void deallocate(T*, std::size_t); };
template <class T, class U> bool operator==(const AlOne<T>&, const AlOne<U>&); template <class T, class U> bool operator!=(const AlOne<T>&, const AlOne<U>&);
template <class T> struct AlPtr { using value_type = T; void* c; explicit AlPtr(int); template <class U> AlPtr(const AlPtr<U>&); T* allocate(std::size_t); void deallocate(T*, std::size_t); };
template <class T, class U> bool operator==(const AlPtr<T>&, const AlPtr<U>&); template <class T, class U> bool operator!=(const AlPtr<T>&, const AlPtr<U>&);
template <class T> struct AlFat { using value_type = T; void* c[3]; explicit AlFat(int); template <class U> AlFat(const AlFat<U>&); T* allocate(std::size_t); void deallocate(T*, std::size_t); };
template <class T, class U> bool operator==(const AlFat<T>&, const AlFat<U>&); template <class T, class U> bool operator!=(const AlFat<T>&, const AlFat<U>&);
template <class T> struct alignas(32) AlWide { using value_type = T; char c[32]; explicit AlWide(int); template <class U> AlWide(const AlWide<U>&); T* allocate(std::size_t); void deallocate(T*, std::size_t); };
template <class T, class U> bool operator==(const AlWide<T>&, const AlWide<U>&); template <class T, class U> bool operator!=(const AlWide<T>&, const AlWide<U>&);
// Empty allocators of every kind: what matters is that they are empty.
#define EMPTY_AL(N, ...) template <class T> struct N { using value_type = T; __VA_ARGS__ template <class U> N(const N<U>&); T* allocate(std::size_t); void deallocate(T*, std::size_t); }; \
  template <class T, class U> bool operator==(const N<T>&, const N<U>&); template <class T, class U> bool operator!=(const N<T>&, const N<U>&);
EMPTY_AL(EmNoDefault, explicit EmNoDefault(int);)
EMPTY_AL(EmDeletedDefault, EmDeletedDefault() = delete; explicit EmDeletedDefault(int) noexcept;)
EMPTY_AL(EmThrowing, EmThrowing() noexcept(false); EmThrowing(const EmThrowing&) noexcept(false); EmThrowing& operator=(const EmThrowing&) noexcept(false);)
EMPTY_AL(EmNonTrivial, EmNonTrivial() noexcept; EmNonTrivial(const EmNonTrivial&) noexcept; ~EmNonTrivial();)
EMPTY_AL(EmRigid, explicit EmRigid(int); EmRigid(const EmRigid&) = default; EmRigid& operator=(const EmRigid&) = delete;)
EMPTY_AL(EmUnequal, EmUnequal(); using is_always_equal = std::false_type; using propagate_on_container_move_assignment = std::true_type;)
EMPTY_AL(EmPropagates, EmPropagates(); using propagate_on_container_copy_assignment = std::true_type; using propagate_on_container_swap = std::true_type; using propagate_on_container_move_assignment = std::true_type;)
EMPTY_AL(EmConstructs, EmConstructs(); template <class U, class... As> void construct(U*, As&&...); template <class U> void destroy(U*);)
template <class T> struct EmDerived : std::allocator<T> { template <class U> struct rebind { using other = EmDerived<U>; }; EmDerived(); template <class U> EmDerived(const EmDerived<U>&); };
template <class T> struct EmPrivateBase : private EmNoDefault<int> { using value_type = T; template <class U> EmPrivateBase(const EmPrivateBase<U>&); T* allocate(std::size_t); void deallocate(T*, std::size_t); friend bool operator==(const EmPrivateBase&, const EmPrivateBase&); friend bool operator!=(const EmPrivateBase&, const EmPrivateBase&); };
template <class T> struct EmFinalNoDefault final { using value_type = T; explicit EmFinalNoDefault(int); template <class U> EmFinalNoDefault(const EmFinalNoDefault<U>&); T* allocate(std::size_t); void deallocate(T*, std::size_t); friend bool operator==(const EmFinalNoDefault&, const EmFinalNoDefault&); friend bool operator!=(const EmFinalNoDefault&, const EmFinalNoDefault&); };
template <class A> struct pair_like_t { void* p; alignas(A) unsigned char a[sizeof(A)]; };
// Stateful allocators of many kinds: each adds its own size and padding.
#define STATE_AL(N, ...) template <class T> struct N { using value_type = T; void* state; __VA_ARGS__ N(const N&); template <class U> N(const N<U>&); T* allocate(std::size_t); void deallocate(T*, std::size_t); }; \
  template <class T, class U> bool operator==(const N<T>&, const N<U>&); template <class T, class U> bool operator!=(const N<T>&, const N<U>&);
STATE_AL(StVirtual, StVirtual(); StVirtual& operator=(const StVirtual&); virtual ~StVirtual();)
STATE_AL(StRigid, explicit StRigid(int); StRigid& operator=(const StRigid&) = delete;)
STATE_AL(StThrowing, StThrowing() noexcept(false); StThrowing& operator=(const StThrowing&) noexcept(false);)
STATE_AL(StConstructs, StConstructs(); StConstructs& operator=(const StConstructs&); template <class U, class... As> void construct(U*, As&&...); template <class U> void destroy(U*);)
STATE_AL(StAlwaysEqual, StAlwaysEqual(); StAlwaysEqual& operator=(const StAlwaysEqual&); using is_always_equal = std::true_type;)
STATE_AL(StPropagates, StPropagates(); StPropagates& operator=(const StPropagates&); using propagate_on_container_copy_assignment = std::true_type; using propagate_on_container_swap = std::true_type; using propagate_on_container_move_assignment = std::true_type;)
STATE_AL(StPocca, StPocca(); StPocca& operator=(const StPocca&); using propagate_on_container_copy_assignment = std::true_type;)
STATE_AL(StPocma, StPocma(); StPocma& operator=(const StPocma&); using propagate_on_container_move_assignment = std::true_type;)
STATE_AL(StPocs, StPocs(); StPocs& operator=(const StPocs&); using propagate_on_container_swap = std::true_type;)
STATE_AL(StSocc, StSocc(); StSocc& operator=(const StSocc&); StSocc select_on_container_copy_construction() const;)
template <class T> struct StFinal final { using value_type = T; void* state; explicit StFinal(int); template <class U> StFinal(const StFinal<U>&); T* allocate(std::size_t); void deallocate(T*, std::size_t); friend bool operator==(const StFinal&, const StFinal&); friend bool operator!=(const StFinal&, const StFinal&); };
template <class T, class A> struct adds_itself { W("a stateful allocator of any kind adds no more than its own size and padding", sizeof(VP_WR<T, A>) <= sizeof(pair_like_t<A>)); };
template <class T, class A> struct one_pointer { W("a wrapper with an empty allocator of any kind is one pointer", sizeof(VP_WR<T, A>) == sizeof(T*) && alignof(VP_WR<T, A>) == alignof(T*)); };
template <class A> struct pair_like { void* p; A a; };

template <class T> struct sizes {
  W("a wrapper with std::allocator is one pointer", sizeof(VP_WR<T>) == sizeof(T*) && alignof(VP_WR<T>) == alignof(T*));
  W("a wrapper with an empty allocator is one pointer", sizeof(VP_WR<T, AlEmpty<T>>) == sizeof(T*));
#if VP_MODERN
  W("a wrapper with an empty final allocator is one pointer", sizeof(VP_WR<T, AlFinal<T>>) == sizeof(T*));
#else
  W("a wrapper with an empty final allocator is at most two pointers", sizeof(VP_WR<T, AlFinal<T>>) <= 2 * sizeof(T*));
#endif
  one_pointer<T, EmNoDefault<T>> e1; one_pointer<T, EmDeletedDefault<T>> e2; one_pointer<T, EmThrowing<T>> e3; one_pointer<T, EmNonTrivial<T>> e4; one_pointer<T, EmRigid<T>> e5; one_pointer<T, EmUnequal<T>> e6;
  one_pointer<T, EmPropagates<T>> e7; one_pointer<T, EmConstructs<T>> e8; one_pointer<T, EmDerived<T>> e9; one_pointer<T, EmPrivateBase<T>> e10;
#if VP_MODERN
  one_pointer<T, EmFinalNoDefault<T>> e11;
#endif
  adds_itself<T, StVirtual<T>> s1; adds_itself<T, StRigid<T>> s2; adds_itself<T, StThrowing<T>> s3; adds_itself<T, StConstructs<T>> s4; adds_itself<T, StAlwaysEqual<T>> s5; adds_itself<T, StPropagates<T>> s6;
  adds_itself<T, StPocca<T>> s7; adds_itself<T, StPocma<T>> s8; adds_itself<T, StPocs<T>> s9; adds_itself<T, StSocc<T>> s10; adds_itself<T, StFinal<T>> s11;
  W("a small stateful allocator adds no more than padding", sizeof(VP_WR<T, AlOne<T>>) <= sizeof(pair_like<AlOne<T>>));
  W("an int-sized stateful allocator adds no more than padding", sizeof(VP_WR<T, Al<T, false, false, false, false>>) <= sizeof(pair_like<Al<T, false, false, false, false>>));
  W("a pointer-sized stateful allocator adds its own size", sizeof(VP_WR<T, AlPtr<T>>) == sizeof(T*) + sizeof(AlPtr<T>));
  W("a large stateful allocator adds its own size", sizeof(VP_WR<T, AlFat<T>>) == sizeof(T*) + sizeof(AlFat<T>));
  W("an over-aligned allocator adds no more than padding", sizeof(VP_WR<T, AlWide<T>>) <= sizeof(pair_like<AlWide<T>>));
#if __cplusplus >= 201703L
  W("a polymorphic_allocator adds its own size", sizeof(VP_WR<T, std::pmr::polymorphic_allocator<T>>) == sizeof(T*) + sizeof(std::pmr::polymorphic_allocator<T>));
#endif
  W("the size does not depend on the element type", sizeof(VP_WR<T>) == sizeof(VP_WR<Empty>) && sizeof(VP_WR<T, AlPtr<T>>) == sizeof(VP_WR<Empty, AlPtr<Empty>>));
};
template struct sizes<Big>; template struct sizes<Wide>; template struct sizes<Virt>; template struct sizes<Empty>; template struct sizes<Incomplete>; template struct sizes<Fin>;
#if !VP_POLY
template struct sizes<char>; template struct sizes<void*>; template struct sizes<VP_WR<int>>;
#endif
}  // namespace vpw
