#ifdef VP_CXX14
#include "polymorphic_cxx14.h"
#define INPL(U) xyz::in_place_type_t<U>{}
#else
#include "polymorphic.h"
#define INPL(U) std::in_place_type<U>
#endif
#include "vp_model.h"
using E = Base;
using A = Al<Base>;
using X = xyz::polymorphic<Base, A>;
#include "drv_common.inc"

#define PFAM(U)                                                                                          \
  H void h_ctor_val_lv_##U(void* m, U* o) { ::new (m) X(*o); }                                             \
  H void h_ctor_val_clv_##U(void* m, const U* o) { ::new (m) X(*o); }                                      \
  H void h_ctor_val_rv_##U(void* m, U* o) { ::new (m) X(std::move(*o)); }                                  \
  H void h_ctor_val_crv_##U(void* m, const U* o) { ::new (m) X(std::move(*o)); }                           \
  H void h_ctor_val_alloc_lv_##U(void* m, void* id, U* o) { ::new (m) X(std::allocator_arg, AL(id), *o); } \
  H void h_ctor_val_alloc_clv_##U(void* m, void* id, const U* o) { ::new (m) X(std::allocator_arg, AL(id), *o); } \
  H void h_ctor_val_alloc_rv_##U(void* m, void* id, U* o) { ::new (m) X(std::allocator_arg, AL(id), std::move(*o)); } \
  H void h_ctor_val_alloc_crv_##U(void* m, void* id, const U* o) { ::new (m) X(std::allocator_arg, AL(id), std::move(*o)); } \
  H void h_ctor_ip0_##U(void* m) { ::new (m) X(INPL(U)); }                                                 \
  H void h_ctor_ip_lv_##U(void* m, Arg* a) { ::new (m) X(INPL(U), *a); }                                   \
  H void h_ctor_ip_clv_##U(void* m, const Arg* a) { ::new (m) X(INPL(U), *a); }                            \
  H void h_ctor_ip_rv_##U(void* m, Arg* a) { ::new (m) X(INPL(U), std::move(*a)); }                        \
  H void h_ctor_ip_crv_##U(void* m, const Arg* a) { ::new (m) X(INPL(U), std::move(*a)); }                 \
  H void h_ctor_ip3a_##U(void* m, Arg* a, const Arg* b, Arg* c) { ::new (m) X(INPL(U), *a, *b, std::move(*c)); } \
  H void h_ctor_ip3b_##U(void* m, Arg* a, Arg* b, const Arg* c) { ::new (m) X(INPL(U), std::move(*a), *b, std::move(*c)); } \
  H void h_ctor_ip_obj_clv_##U(void* m, const U* a) { ::new (m) X(INPL(U), *a); }                          \
  H void h_ctor_ip_obj_rv_##U(void* m, U* a) { ::new (m) X(INPL(U), std::move(*a)); }                      \
  H void h_ctor_il_##U(void* m, std::initializer_list<int>* il) { ::new (m) X(INPL(U), *il); }             \
  H void h_ctor_il3a_##U(void* m, std::initializer_list<int>* il, Arg* a, Arg* b) { ::new (m) X(INPL(U), *il, *a, std::move(*b)); } \
  H void h_ctor_il3b_##U(void* m, std::initializer_list<int>* il, Arg* a, const Arg* b) { ::new (m) X(INPL(U), *il, std::move(*a), *b); } \
  H void h_ctor_alloc_ip0_##U(void* m, void* id) { ::new (m) X(std::allocator_arg, AL(id), INPL(U)); }     \
  H void h_ctor_alloc_ip_lv_##U(void* m, void* id, Arg* a) { ::new (m) X(std::allocator_arg, AL(id), INPL(U), *a); } \
  H void h_ctor_alloc_ip_clv_##U(void* m, void* id, const Arg* a) { ::new (m) X(std::allocator_arg, AL(id), INPL(U), *a); } \
  H void h_ctor_alloc_ip_rv_##U(void* m, void* id, Arg* a) { ::new (m) X(std::allocator_arg, AL(id), INPL(U), std::move(*a)); } \
  H void h_ctor_alloc_ip_crv_##U(void* m, void* id, const Arg* a) { ::new (m) X(std::allocator_arg, AL(id), INPL(U), std::move(*a)); } \
  H void h_ctor_alloc_ip3a_##U(void* m, void* id, Arg* a, const Arg* b, Arg* c) { ::new (m) X(std::allocator_arg, AL(id), INPL(U), *a, *b, std::move(*c)); } \
  H void h_ctor_alloc_ip3b_##U(void* m, void* id, Arg* a, Arg* b, const Arg* c) { ::new (m) X(std::allocator_arg, AL(id), INPL(U), std::move(*a), *b, std::move(*c)); } \
  H void h_ctor_alloc_ip_obj_clv_##U(void* m, void* id, const U* a) { ::new (m) X(std::allocator_arg, AL(id), INPL(U), *a); } \
  H void h_ctor_alloc_ip_obj_rv_##U(void* m, void* id, U* a) { ::new (m) X(std::allocator_arg, AL(id), INPL(U), std::move(*a)); } \
  H void h_ctor_alloc_il_##U(void* m, void* id, std::initializer_list<int>* il) { ::new (m) X(std::allocator_arg, AL(id), INPL(U), *il); } \
  H void h_ctor_alloc_il3a_##U(void* m, void* id, std::initializer_list<int>* il, Arg* a, Arg* b) { ::new (m) X(std::allocator_arg, AL(id), INPL(U), *il, *a, std::move(*b)); } \
  H void h_ctor_alloc_il3b_##U(void* m, void* id, std::initializer_list<int>* il, Arg* a, const Arg* b) { ::new (m) X(std::allocator_arg, AL(id), INPL(U), *il, std::move(*a), *b); }
PFAM(Base)
PFAM(Derived)
PFAM(Derived1)

#if !VP_CONS && !VP_TRIV
#define WRAP xyz::polymorphic
#define INPR INPL(Rec)
#include "drv_nested.inc"
#endif
