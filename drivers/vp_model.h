// Opaque element and allocator types the analysed templates are instantiated
// with.  Nothing declared here has a definition: the analyser supplies a
// typestate transfer function for each operation.  This code is never run.
#ifndef VP_MODEL_H
#define VP_MODEL_H
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <memory>
#include <new>
#include <type_traits>
#include <utility>
#if __cplusplus >= 202002L
#include <compare>
#endif

#ifndef VP_POCCA
#define VP_POCCA 0
#endif
#ifndef VP_POCMA
#define VP_POCMA 0
#endif
#ifndef VP_POCS
#define VP_POCS 0
#endif
#ifndef VP_AE
#define VP_AE 0
#endif
#ifndef VP_CONS   // allocator has its own construct/destroy
#define VP_CONS 1
#endif
#ifndef VP_EMPTY  // 0 stateful, 1 empty, 2 empty and final, 3 std::allocator
#define VP_EMPTY 0
#endif
#ifndef VP_NX     // element: 0 everything may throw, 1 moves noexcept, 2 all noexcept
#define VP_NX 0
#endif
#ifndef VP_TRIV   // element: 1 trivially destructible
#define VP_TRIV 0
#endif
// element shape: 0 plain, 1 final with virtual destructor and large,
// 2 as small as possible (empty, final), 3 virtual destructor, not final,
// 4 explicit constructors and assignment operators returning void
#ifndef VP_EL
#define VP_EL 0
#endif
#if VP_EL == 1 || VP_EL == 2
#define VP_ELFINAL final
#else
#define VP_ELFINAL
#endif
#if VP_EL == 1 || VP_EL == 3
#define VP_VIRT virtual
#else
#define VP_VIRT
#endif
#if VP_EL == 1
#define VP_DATA(n) long payload_[700 + n];
#elif VP_EL == 2
#define VP_DATA(n)
#else
#define VP_DATA(n) long payload_[n];
#endif

extern "C" {
void vp_use(const void* allocator) noexcept;
void* vp_allocate(void* id, void* tag, std::size_t n, std::size_t size, std::size_t align);
void vp_deallocate(void* id, void* tag, void* p, std::size_t n) noexcept;
void vp_construct(void* id, void* tag, void* p) noexcept;
void vp_destroy(void* id, void* tag, void* p) noexcept;
bool vp_alloc_eq(void* a, void* b) noexcept;
void* vp_soccc(void* id) noexcept;
void* vp_default_id() noexcept;
}
template <class T> void vp_tag_fn();
template <class T> inline void* vp_tag() { return reinterpret_cast<void*>(&vp_tag_fn<T>); }

struct VpTraits {
  using propagate_on_container_copy_assignment = std::integral_constant<bool, VP_POCCA>;
  using propagate_on_container_move_assignment = std::integral_constant<bool, VP_POCMA>;
  using propagate_on_container_swap = std::integral_constant<bool, VP_POCS>;
  using is_always_equal = std::integral_constant<bool, VP_AE>;
};

#if VP_EMPTY == 3
template <class T> using Al = std::allocator<T>;
template <class A> inline void* vp_id(const A&) { return nullptr; }
#define VP_MK(T, id) (Al<T>())
#else
#if VP_EMPTY == 2
#define VP_FINAL final
#else
#define VP_FINAL
#endif
template <class T>
struct Al VP_FINAL {
  using value_type = T;
  using propagate_on_container_copy_assignment = VpTraits::propagate_on_container_copy_assignment;
  using propagate_on_container_move_assignment = VpTraits::propagate_on_container_move_assignment;
  using propagate_on_container_swap = VpTraits::propagate_on_container_swap;
  using is_always_equal = VpTraits::is_always_equal;
#if VP_EMPTY
  void* get_id() const noexcept { return nullptr; }
  Al() noexcept {}
  explicit Al(void*) noexcept {}
  template <class U> Al(const Al<U>&) noexcept {}
#else
  void* id;
  void* get_id() const noexcept { return id; }
  Al() noexcept : id(vp_default_id()) {}
  explicit Al(void* i) noexcept : id(i) {}
  template <class U> Al(const Al<U>& o) noexcept : id(o.id) {}
#endif
  T* allocate(std::size_t n) { vp_use(this); return static_cast<T*>(vp_allocate(get_id(), vp_tag<T>(), n, sizeof(T), alignof(T))); }
  void deallocate(T* p, std::size_t n) noexcept { vp_use(this); vp_deallocate(get_id(), vp_tag<T>(), p, n); }
#if VP_CONS
  template <class U, class... As> void construct(U* p, As&&... as) {
    vp_use(this); vp_construct(get_id(), vp_tag<U>(), const_cast<void*>(static_cast<const volatile void*>(p)));
    ::new (const_cast<void*>(static_cast<const volatile void*>(p))) U(std::forward<As>(as)...);
  }
  template <class U> void destroy(U* p) noexcept(noexcept(p->~U())) {
    vp_use(this); vp_destroy(get_id(), vp_tag<U>(), const_cast<void*>(static_cast<const volatile void*>(p)));
    p->~U();
  }
#endif
  Al select_on_container_copy_construction() const noexcept {
#if VP_EMPTY
    return Al();
#else
    return Al(vp_soccc(id));
#endif
  }
};
template <class T, class U> inline bool operator==(const Al<T>& a, const Al<U>& b) noexcept { return vp_alloc_eq(a.get_id(), b.get_id()); }
template <class T, class U> inline bool operator!=(const Al<T>& a, const Al<U>& b) noexcept { return !vp_alloc_eq(a.get_id(), b.get_id()); }
template <class A> inline void* vp_id(const A& a) { return a.get_id(); }
#define VP_MK(T, id) (Al<T>(id))
#endif

#if VP_NX >= 1
#define VP_NXM noexcept
#else
#define VP_NXM
#endif
#if VP_NX >= 2
#define VP_NXC noexcept
#else
#define VP_NXC
#endif

struct Arg { char c; Arg() = delete; Arg(const Arg&) = delete; Arg(Arg&&) = delete; };

// Element shape 4 offers nothing implicitly: every constructor is explicit and
// assignment gives nothing.
#if VP_EL == 4
#define VP_EXPL explicit
#define VP_ASG(C) void
#else
#define VP_EXPL
#define VP_ASG(C) C&
#endif
#define VP_CLASS_BODY(C)                                              \
  VP_EXPL C() VP_NXC;                                                 \
  VP_EXPL C(const C&) VP_NXC;                                         \
  VP_EXPL C(C&) VP_NXC;                                               \
  VP_EXPL C(C&&) VP_NXM;                                              \
  VP_EXPL C(const C&&) VP_NXC;                                        \
  VP_EXPL C(Arg&) VP_NXC;                                             \
  VP_EXPL C(const Arg&) VP_NXC;                                       \
  VP_EXPL C(Arg&&) VP_NXC;                                            \
  VP_EXPL C(const Arg&&) VP_NXC;                                      \
  VP_EXPL C(Arg&, const Arg&, Arg&&) VP_NXC;                          \
  VP_EXPL C(Arg&&, Arg&, const Arg&&) VP_NXC;                         \
  VP_EXPL C(std::initializer_list<int>) VP_NXC;                       \
  VP_EXPL C(std::initializer_list<int>, Arg&, Arg&&) VP_NXC;          \
  VP_EXPL C(std::initializer_list<int>, Arg&&, const Arg&) VP_NXC;    \
  VP_ASG(C) operator=(const C&) VP_NXC;                               \
  VP_ASG(C) operator=(C&) VP_NXC;                                     \
  VP_ASG(C) operator=(C&&) VP_NXM;                                    \
  VP_ASG(C) operator=(const C&&) VP_NXC;                              \
  VP_ASG(C) operator=(Arg&) VP_NXC;                                   \
  VP_ASG(C) operator=(const Arg&) VP_NXC;                             \
  VP_ASG(C) operator=(Arg&&) VP_NXC;                                  \
  VP_ASG(C) operator=(const Arg&&) VP_NXC;

#if VP_TRIV
#define VP_DTOR(C)
#else
#define VP_DTOR(C) VP_VIRT ~C() noexcept;
#endif
struct Obj VP_ELFINAL {
  VP_CLASS_BODY(Obj)
  VP_DTOR(Obj)
  VP_DATA(3)
};
struct Oth {  // second element type, for mixed comparisons
  Oth();
  Oth(const Oth&);
  ~Oth() noexcept;
  long payload[2];
};

#if VP_EL == 1 || VP_EL == 3
struct Pad { virtual void vp_pad(); long pad[2]; };
#elif VP_EL == 2
struct Pad {};
#else
struct Pad { long pad[2]; };
#endif
struct Base {
  VP_CLASS_BODY(Base)
  VP_DTOR(Base)
  VP_DATA(2)
};
struct alignas(32) Derived VP_ELFINAL : Pad, Base {  // Base is not at offset zero (unless empty)
  VP_CLASS_BODY(Derived)
  VP_DTOR(Derived)
  VP_DATA(2)
};
struct Derived1 VP_ELFINAL : Base {
  VP_CLASS_BODY(Derived1)
  VP_DTOR(Derived1)
  VP_DATA(1)
};

extern "C" {
extern const long vp_size_Obj; extern const long vp_size_Oth; extern const long vp_size_Base;
extern const long vp_size_Derived; extern const long vp_size_Derived1;
const long vp_size_Obj = sizeof(Obj), vp_size_Oth = sizeof(Oth), vp_size_Base = sizeof(Base);
const long vp_size_Derived = sizeof(Derived), vp_size_Derived1 = sizeof(Derived1);
extern const long vp_align_Obj; extern const long vp_align_Base; extern const long vp_align_Derived; extern const long vp_align_Derived1;
const long vp_align_Obj = alignof(Obj), vp_align_Base = alignof(Base), vp_align_Derived = alignof(Derived), vp_align_Derived1 = alignof(Derived1);
}

#define VP_OPS(T, U)                                \
  bool operator==(const T&, const U&);              \
  bool operator!=(const T&, const U&);              \
  bool operator<(const T&, const U&);               \
  bool operator>(const T&, const U&);               \
  bool operator<=(const T&, const U&);              \
  bool operator>=(const T&, const U&);

// Force instantiation / emission of the raw up-cast offsets as functions.
#define H extern "C" __attribute__((used))
H Base* h_up_Derived(Derived* d) { return d; }
H Base* h_up_Derived1(Derived1* d) { return d; }
H Base* h_up_Base(Base* d) { return d; }

namespace std {
template <> struct hash<Obj> { std::size_t operator()(const Obj&) const; };
}
#endif
