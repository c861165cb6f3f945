#ifdef VP_CXX14
#include "indirect_cxx14.h"
using VpInPlace = xyz::in_place_t;
#else
#include "indirect.h"
using VpInPlace = std::in_place_t;
#endif
#include "vp_model.h"
using E = Obj;
using A = Al<Obj>;
using X = xyz::indirect<Obj, A>;
using Y = xyz::indirect<Oth, std::allocator<Oth>>;
#define VP_RVALUE_DEREF 1
VP_OPS(Obj, Obj) VP_OPS(Obj, Oth) VP_OPS(Oth, Obj)
#include "drv_common.inc"

// value constructors
H void h_ctor_val_lv(void* m, Obj* o) { ::new (m) X(*o); }
H void h_ctor_val_clv(void* m, const Obj* o) { ::new (m) X(*o); }
H void h_ctor_val_rv(void* m, Obj* o) { ::new (m) X(std::move(*o)); }
H void h_ctor_val_crv(void* m, const Obj* o) { ::new (m) X(std::move(*o)); }
H void h_ctor_val_alloc_lv(void* m, void* id, Obj* o) { ::new (m) X(std::allocator_arg, AL(id), *o); }
H void h_ctor_val_alloc_clv(void* m, void* id, const Obj* o) { ::new (m) X(std::allocator_arg, AL(id), *o); }
H void h_ctor_val_alloc_rv(void* m, void* id, Obj* o) { ::new (m) X(std::allocator_arg, AL(id), std::move(*o)); }
H void h_ctor_val_alloc_crv(void* m, void* id, const Obj* o) { ::new (m) X(std::allocator_arg, AL(id), std::move(*o)); }
#ifndef VP_CXX14
H void h_ctor_arg_lv(void* m, Arg* o) { ::new (m) X(*o); }
H void h_ctor_arg_clv(void* m, const Arg* o) { ::new (m) X(*o); }
H void h_ctor_arg_rv(void* m, Arg* o) { ::new (m) X(std::move(*o)); }
H void h_ctor_arg_crv(void* m, const Arg* o) { ::new (m) X(std::move(*o)); }
H void h_ctor_arg_alloc_lv(void* m, void* id, Arg* o) { ::new (m) X(std::allocator_arg, AL(id), *o); }
H void h_ctor_arg_alloc_clv(void* m, void* id, const Arg* o) { ::new (m) X(std::allocator_arg, AL(id), *o); }
H void h_ctor_arg_alloc_rv(void* m, void* id, Arg* o) { ::new (m) X(std::allocator_arg, AL(id), std::move(*o)); }
H void h_ctor_arg_alloc_crv(void* m, void* id, const Arg* o) { ::new (m) X(std::allocator_arg, AL(id), std::move(*o)); }
#endif
// in-place constructors
H void h_ctor_ip0(void* m) { ::new (m) X(VpInPlace{}); }
H void h_ctor_ip_lv(void* m, Arg* a) { ::new (m) X(VpInPlace{}, *a); }
H void h_ctor_ip_clv(void* m, const Arg* a) { ::new (m) X(VpInPlace{}, *a); }
H void h_ctor_ip_rv(void* m, Arg* a) { ::new (m) X(VpInPlace{}, std::move(*a)); }
H void h_ctor_ip_crv(void* m, const Arg* a) { ::new (m) X(VpInPlace{}, std::move(*a)); }
H void h_ctor_ip3a(void* m, Arg* a, const Arg* b, Arg* c) { ::new (m) X(VpInPlace{}, *a, *b, std::move(*c)); }
H void h_ctor_ip3b(void* m, Arg* a, Arg* b, const Arg* c) { ::new (m) X(VpInPlace{}, std::move(*a), *b, std::move(*c)); }
H void h_ctor_ip_obj_clv(void* m, const Obj* a) { ::new (m) X(VpInPlace{}, *a); }
H void h_ctor_ip_obj_rv(void* m, Obj* a) { ::new (m) X(VpInPlace{}, std::move(*a)); }
H void h_ctor_il(void* m, std::initializer_list<int>* il) { ::new (m) X(VpInPlace{}, *il); }
H void h_ctor_il3a(void* m, std::initializer_list<int>* il, Arg* a, Arg* b) { ::new (m) X(VpInPlace{}, *il, *a, std::move(*b)); }
H void h_ctor_il3b(void* m, std::initializer_list<int>* il, Arg* a, const Arg* b) { ::new (m) X(VpInPlace{}, *il, std::move(*a), *b); }
H void h_ctor_alloc_ip0(void* m, void* id) { ::new (m) X(std::allocator_arg, AL(id), VpInPlace{}); }
H void h_ctor_alloc_ip_lv(void* m, void* id, Arg* a) { ::new (m) X(std::allocator_arg, AL(id), VpInPlace{}, *a); }
H void h_ctor_alloc_ip_clv(void* m, void* id, const Arg* a) { ::new (m) X(std::allocator_arg, AL(id), VpInPlace{}, *a); }
H void h_ctor_alloc_ip_rv(void* m, void* id, Arg* a) { ::new (m) X(std::allocator_arg, AL(id), VpInPlace{}, std::move(*a)); }
H void h_ctor_alloc_ip_crv(void* m, void* id, const Arg* a) { ::new (m) X(std::allocator_arg, AL(id), VpInPlace{}, std::move(*a)); }
H void h_ctor_alloc_ip3a(void* m, void* id, Arg* a, const Arg* b, Arg* c) { ::new (m) X(std::allocator_arg, AL(id), VpInPlace{}, *a, *b, std::move(*c)); }
H void h_ctor_alloc_ip3b(void* m, void* id, Arg* a, Arg* b, const Arg* c) { ::new (m) X(std::allocator_arg, AL(id), VpInPlace{}, std::move(*a), *b, std::move(*c)); }
H void h_ctor_alloc_ip_obj_clv(void* m, void* id, const Obj* a) { ::new (m) X(std::allocator_arg, AL(id), VpInPlace{}, *a); }
H void h_ctor_alloc_ip_obj_rv(void* m, void* id, Obj* a) { ::new (m) X(std::allocator_arg, AL(id), VpInPlace{}, std::move(*a)); }
H void h_ctor_alloc_il(void* m, void* id, std::initializer_list<int>* il) { ::new (m) X(std::allocator_arg, AL(id), VpInPlace{}, *il); }
H void h_ctor_alloc_il3a(void* m, void* id, std::initializer_list<int>* il, Arg* a, Arg* b) { ::new (m) X(std::allocator_arg, AL(id), VpInPlace{}, *il, *a, std::move(*b)); }
H void h_ctor_alloc_il3b(void* m, void* id, std::initializer_list<int>* il, Arg* a, const Arg* b) { ::new (m) X(std::allocator_arg, AL(id), VpInPlace{}, *il, std::move(*a), *b); }

// converting assignment
H X* h_assign_val_lv(X* x, Obj* o) { return std::addressof(*x = *o); }
H X* h_assign_val_clv(X* x, const Obj* o) { return std::addressof(*x = *o); }
H X* h_assign_val_rv(X* x, Obj* o) { return std::addressof(*x = std::move(*o)); }
H X* h_assign_val_crv(X* x, const Obj* o) { return std::addressof(*x = std::move(*o)); }
H X* h_assign_arg_lv(X* x, Arg* o) { return std::addressof(*x = *o); }
H X* h_assign_arg_clv(X* x, const Arg* o) { return std::addressof(*x = *o); }
H X* h_assign_arg_rv(X* x, Arg* o) { return std::addressof(*x = std::move(*o)); }
H X* h_assign_arg_crv(X* x, const Arg* o) { return std::addressof(*x = std::move(*o)); }

// comparisons: xx same type, xy other indirect type, xu / ux with plain value
#define CMP(name, op)                                                        \
  H bool h_cmp_xx_##name(const X* a, const X* b) { return *a op *b; }         \
  H bool h_cmp_xu_##name(const X* a, const Obj* b) { return *a op *b; }       \
  H bool h_cmp_ux_##name(const Obj* a, const X* b) { return *a op *b; }       \
  H bool h_cmp_xo_##name(const X* a, const Oth* b) { return *a op *b; }       \
  H bool h_cmp_ox_##name(const Oth* a, const X* b) { return *a op *b; }       \
  H bool h_cmp_xy_##name(const X* a, const Y* b) { return *a op *b; }         \
  H bool h_cmp_yx_##name(const Y* a, const X* b) { return *a op *b; }
CMP(eq, ==) CMP(ne, !=) CMP(lt, <) CMP(gt, >) CMP(le, <=) CMP(ge, >=)
H void h_y_ctor(void* m, const Oth* o) { ::new (m) Y(VpInPlace{}, *o); }
H void h_y_move(void* m, Y* o) { ::new (m) Y(std::move(*o)); }
H void h_y_dtor(Y* o) { o->~Y(); }
H long h_y_sizeof() { return sizeof(Y); }
H const void* h_y_deref(const Y* y) { return std::addressof(**y); }

#ifndef VP_CXX14
// element types with three-way comparison of each category
#define TW(C, CAT)                                                            \
  struct C { C(); C(const C&); ~C() noexcept; long payload[2]; };             \
  CAT operator<=>(const C&, const C&);                                        \
  bool operator==(const C&, const C&);                                        \
  using X_##C = xyz::indirect<C, Al<C>>;                                      \
  H void h_##C##_ctor(void* m, void* id, const C* o) { ::new (m) X_##C(std::allocator_arg, VP_MK(C, id), std::in_place, *o); } \
  H void h_##C##_move(void* m, X_##C* o) { ::new (m) X_##C(std::move(*o)); }  \
  H const void* h_##C##_deref(const X_##C* y) { return std::addressof(**y); } \
  static_assert(std::is_same_v<decltype(std::declval<const X_##C&>() <=> std::declval<const X_##C&>()), CAT>); \
  static_assert(std::is_same_v<decltype(std::declval<const X_##C&>() <=> std::declval<const C&>()), CAT>); \
  H CAT h_##C##_tw_xx(const X_##C* a, const X_##C* b) { return *a <=> *b; }   \
  H CAT h_##C##_tw_xu(const X_##C* a, const C* b) { return *a <=> *b; }       \
  H CAT h_##C##_tw_ux(const C* a, const X_##C* b) { return *a <=> *b; }       \
  TWC(C, eq, ==) TWC(C, ne, !=) TWC(C, lt, <) TWC(C, gt, >) TWC(C, le, <=) TWC(C, ge, >=)
#define TWC(C, name, op)                                                            \
  H bool h_##C##_xx_##name(const X_##C* a, const X_##C* b) { return *a op *b; }     \
  H bool h_##C##_xu_##name(const X_##C* a, const C* b) { return *a op *b; }         \
  H bool h_##C##_ux_##name(const C* a, const X_##C* b) { return *a op *b; }
TW(TwS, std::strong_ordering)
TW(TwW, std::weak_ordering)
TW(TwP, std::partial_ordering)
// element with nothing but < and ==
struct Lt { Lt(); Lt(const Lt&); ~Lt() noexcept; long payload[2]; };
bool operator<(const Lt&, const Lt&);
bool operator==(const Lt&, const Lt&);
using X_Lt = xyz::indirect<Lt, Al<Lt>>;
H void h_Lt_ctor(void* m, void* id, const Lt* o) { ::new (m) X_Lt(std::allocator_arg, VP_MK(Lt, id), std::in_place, *o); }
H void h_Lt_move(void* m, X_Lt* o) { ::new (m) X_Lt(std::move(*o)); }
H const void* h_Lt_deref(const X_Lt* y) { return std::addressof(**y); }
H std::weak_ordering h_Lt_tw_xx(const X_Lt* a, const X_Lt* b) { return *a <=> *b; }
H std::weak_ordering h_Lt_tw_xu(const X_Lt* a, const Lt* b) { return *a <=> *b; }
H std::weak_ordering h_Lt_tw_ux(const Lt* a, const X_Lt* b) { return *a <=> *b; }
TWC(Lt, eq, ==) TWC(Lt, ne, !=) TWC(Lt, lt, <) TWC(Lt, gt, >) TWC(Lt, le, <=) TWC(Lt, ge, >=)
static_assert(__builtin_bit_cast(signed char, std::strong_ordering::less) == -1);
static_assert(__builtin_bit_cast(signed char, std::strong_ordering::greater) == 1);
static_assert(__builtin_bit_cast(signed char, std::strong_ordering::equal) == 0);
static_assert(__builtin_bit_cast(signed char, std::partial_ordering::unordered) == 2);
static_assert(__builtin_bit_cast(signed char, std::partial_ordering::less) == -1);
static_assert(__builtin_bit_cast(signed char, std::partial_ordering::greater) == 1);
#endif

H std::size_t h_hash(const X* x) { return std::hash<X>{}(*x); }

#if !VP_CONS && !VP_TRIV
#define WRAP xyz::indirect
#define INPR VpInPlace{}
#include "drv_nested.inc"
#endif
