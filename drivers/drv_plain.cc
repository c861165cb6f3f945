// Elements whose operations are transparent (built-in types and trivially
// copyable classes): the analyser follows their bytes instead of typestates.
#ifdef VP_POLY
#ifdef VP_CXX14
#include "polymorphic_cxx14.h"
#define INPL(U) xyz::in_place_type_t<U>{}
#else
#include "polymorphic.h"
#define INPL(U) std::in_place_type<U>
#endif
#include "vp_model.h"
struct PB { long b; };
struct PO { long o; };
struct PD1 : PB { long d; };
struct PD final : PO, PB { long d[3]; };
using E = PB;
using A = Al<E>;
using X = xyz::polymorphic<E, A>;
#else
#ifdef VP_CXX14
#include "indirect_cxx14.h"
using VpInPlace = xyz::in_place_t;
#else
#include "indirect.h"
using VpInPlace = std::in_place_t;
#endif
#include "vp_model.h"
#if VP_SC == 1
using E = int; using E2 = long;
#elif VP_SC == 2
using E = double; using E2 = float;
#elif VP_SC == 3
using E = const void*; using E2 = char*;
#elif VP_SC == 4
enum class En : unsigned char {}; using E = En;
#elif VP_SC == 5
struct Tri { long a, b; };
using E = Tri;
namespace std { template <> struct hash<Tri> { std::size_t operator()(const Tri& t) const noexcept { return static_cast<std::size_t>(t.a); } }; }
#ifdef VP_CXX14
#define VP_T(op) inline bool operator op(const Tri& x, const Tri& y) noexcept { return x.a op y.a; }
VP_T(==) VP_T(!=) VP_T(<) VP_T(>) VP_T(<=) VP_T(>=)
#else
inline bool operator==(const Tri& x, const Tri& y) noexcept { return x.a == y.a; }
inline auto operator<=>(const Tri& x, const Tri& y) noexcept { return x.a <=> y.a; }
#endif
#elif VP_SC == 6
using E = unsigned char; using E2 = int;
#elif VP_SC == 7
using E = bool;
#elif VP_SC == 8
struct Mem { int a; long b; }; using E = long Mem::*;
#endif
using A = Al<E>;
using X = xyz::indirect<E, A>;
#define VP_RVALUE_DEREF 1
#endif
#include "drv_common.inc"

#ifdef VP_POLY
#define PFAM(U)                                                                                          \
  H void h_ctor_val_lv_##U(void* m, U* o) { ::new (m) X(*o); }                                             \
  H void h_ctor_val_clv_##U(void* m, const U* o) { ::new (m) X(*o); }                                      \
  H void h_ctor_val_rv_##U(void* m, U* o) { ::new (m) X(std::move(*o)); }                                  \
  H void h_ctor_val_crv_##U(void* m, const U* o) { ::new (m) X(std::move(*o)); }                           \
  H void h_ctor_val_alloc_lv_##U(void* m, void* id, U* o) { ::new (m) X(std::allocator_arg, AL(id), *o); } \
  H void h_ctor_val_alloc_clv_##U(void* m, void* id, const U* o) { ::new (m) X(std::allocator_arg, AL(id), *o); } \
  H void h_ctor_val_alloc_rv_##U(void* m, void* id, U* o) { ::new (m) X(std::allocator_arg, AL(id), std::move(*o)); } \
  H void h_ctor_val_alloc_crv_##U(void* m, void* id, const U* o) { ::new (m) X(std::allocator_arg, AL(id), std::move(*o)); } \
  H void h_ctor_ip0_##U(void* m) { ::new (m) X(INPL(U)); }                                                 \
  H void h_ctor_ip_obj_clv_##U(void* m, const U* a) { ::new (m) X(INPL(U), *a); }                          \
  H void h_ctor_ip_obj_rv_##U(void* m, U* a) { ::new (m) X(INPL(U), std::move(*a)); }                      \
  H void h_ctor_alloc_ip0_##U(void* m, void* id) { ::new (m) X(std::allocator_arg, AL(id), INPL(U)); }     \
  H void h_ctor_alloc_ip_obj_clv_##U(void* m, void* id, const U* a) { ::new (m) X(std::allocator_arg, AL(id), INPL(U), *a); } \
  H void h_ctor_alloc_ip_obj_rv_##U(void* m, void* id, U* a) { ::new (m) X(std::allocator_arg, AL(id), INPL(U), std::move(*a)); } \
  H E* h_pup_##U(U* d) { return d; }                                                                       \
  extern "C" const long vp_size_##U = sizeof(U);
PFAM(PB) PFAM(PD1) PFAM(PD)
#else
extern "C" const long vp_size_E = sizeof(E);
H void h_ctor_val_lv(void* m, E* o) { ::new (m) X(*o); }
H void h_ctor_val_clv(void* m, const E* o) { ::new (m) X(*o); }
H void h_ctor_val_rv(void* m, E* o) { ::new (m) X(std::move(*o)); }
H void h_ctor_val_crv(void* m, const E* o) { ::new (m) X(std::move(*o)); }
H void h_ctor_val_alloc_lv(void* m, void* id, E* o) { ::new (m) X(std::allocator_arg, AL(id), *o); }
H void h_ctor_val_alloc_clv(void* m, void* id, const E* o) { ::new (m) X(std::allocator_arg, AL(id), *o); }
H void h_ctor_val_alloc_rv(void* m, void* id, E* o) { ::new (m) X(std::allocator_arg, AL(id), std::move(*o)); }
H void h_ctor_val_alloc_crv(void* m, void* id, const E* o) { ::new (m) X(std::allocator_arg, AL(id), std::move(*o)); }
H void h_ctor_ip0(void* m) { ::new (m) X(VpInPlace{}); }
H void h_ctor_ip_obj_clv(void* m, const E* a) { ::new (m) X(VpInPlace{}, *a); }
H void h_ctor_ip_obj_rv(void* m, E* a) { ::new (m) X(VpInPlace{}, std::move(*a)); }
H void h_ctor_alloc_ip0(void* m, void* id) { ::new (m) X(std::allocator_arg, AL(id), VpInPlace{}); }
H void h_ctor_alloc_ip_obj_clv(void* m, void* id, const E* a) { ::new (m) X(std::allocator_arg, AL(id), VpInPlace{}, *a); }
H void h_ctor_alloc_ip_obj_rv(void* m, void* id, E* a) { ::new (m) X(std::allocator_arg, AL(id), VpInPlace{}, std::move(*a)); }
H X* h_assign_val_lv(X* x, E* o) { return std::addressof(*x = *o); }
H X* h_assign_val_clv(X* x, const E* o) { return std::addressof(*x = *o); }
H X* h_assign_val_rv(X* x, E* o) { return std::addressof(*x = std::move(*o)); }
H X* h_assign_val_crv(X* x, const E* o) { return std::addressof(*x = std::move(*o)); }
#if VP_SC != 8
#define CMP(name, op)                                                        \
  H bool h_cmp_xx_##name(const X* a, const X* b) { return *a op *b; }         \
  H bool h_cmp_xu_##name(const X* a, const E* b) { return *a op *b; }         \
  H bool h_cmp_ux_##name(const E* a, const X* b) { return *a op *b; }         \
  CMP2(name, op)
#if VP_SC == 1 || VP_SC == 2 || VP_SC == 3 || VP_SC == 6
#define CMP2(name, op)                                                        \
  H bool h_cmp_xo_##name(const X* a, const E2* b) { return *a op *b; }        \
  H bool h_cmp_ox_##name(const E2* a, const X* b) { return *a op *b; }        \
  H bool h_cmp_xy_##name(const X* a, const Y* b) { return *a op *b; }         \
  H bool h_cmp_yx_##name(const Y* a, const X* b) { return *a op *b; }
extern "C" const long vp_size_E2 = sizeof(E2);
using Y = xyz::indirect<E2, Al<E2>>;
H void h_y_ctor(void* m, void* id, const E2* o) { ::new (m) Y(std::allocator_arg, VP_MK(E2, id), VpInPlace{}, *o); }
H long h_y_sizeof() { return sizeof(Y); }
#else
#define CMP2(name, op)
#endif
CMP(lt, <) CMP(gt, >) CMP(le, <=) CMP(ge, >=)
#else
#define CMP(name, op)                                                        \
  H bool h_cmp_xx_##name(const X* a, const X* b) { return *a op *b; }         \
  H bool h_cmp_xu_##name(const X* a, const E* b) { return *a op *b; }         \
  H bool h_cmp_ux_##name(const E* a, const X* b) { return *a op *b; }
#endif
CMP(eq, ==) CMP(ne, !=)
#if !defined(VP_CXX14) && VP_SC != 8
H auto h_tw_xx(const X* a, const X* b) { return *a <=> *b; }
H auto h_tw_xu(const X* a, const E* b) { return *a <=> *b; }
H auto h_tw_ux(const E* a, const X* b) { return *a <=> *b; }
#endif
#if VP_SC != 8
H std::size_t h_hash(const X* x) { return std::hash<X>{}(*x); }
H std::size_t h_hash_elem(const E* x) { return std::hash<E>{}(*x); }
#endif
#endif
