// Harness entry points common to indirect and polymorphic. X is the wrapper,
// E its element type; A its allocator.
#define AL(id) VP_MK(E, id)
H long h_sizeof() { return (long)sizeof(X); }
H void h_dtor(X* x) { x->~X(); }
H bool h_valueless(const X* x) { return x->valueless_after_move(); }
H void* h_get_allocator(const X* x) { return vp_id(x->get_allocator()); }
H const void* h_deref_c(const X* x) { const E& r = **x; return std::addressof(r); }
H void* h_deref(X* x) { E& r = **x; return std::addressof(r); }
H const void* h_arrow_c(const X* x) { return std::addressof(*x->operator->()); }
H void* h_arrow(X* x) { return std::addressof(*x->operator->()); }
#ifdef VP_RVALUE_DEREF
H void* h_deref_rv(X* x) { E&& r = *std::move(*x); return std::addressof(r); }
H const void* h_deref_crv(const X* x) { const E&& r = *std::move(*x); return std::addressof(r); }
#endif

H void h_ctor_default(void* m) { ::new (m) X(); }
H void h_ctor_alloc(void* m, void* id) { ::new (m) X(std::allocator_arg, AL(id)); }

H void h_copy(void* m, const X* o) { ::new (m) X(*o); }
H void h_copy_nc(void* m, X* o) { ::new (m) X(*o); }
H void h_copy_crv(void* m, const X* o) { ::new (m) X(std::move(*o)); }
H void h_copy_alloc(void* m, void* id, const X* o) { ::new (m) X(std::allocator_arg, AL(id), *o); }
H void h_copy_alloc_nc(void* m, void* id, X* o) { ::new (m) X(std::allocator_arg, AL(id), *o); }
H void h_move(void* m, X* o) { ::new (m) X(std::move(*o)); }
H void h_move_alloc(void* m, void* id, X* o) { ::new (m) X(std::allocator_arg, AL(id), std::move(*o)); }

H X* h_assign_copy(X* a, const X* b) { return std::addressof(*a = *b); }
H X* h_assign_copy_nc(X* a, X* b) { return std::addressof(*a = *b); }
H X* h_assign_copy_crv(X* a, const X* b) { return std::addressof(*a = std::move(*b)); }
H X* h_assign_move(X* a, X* b) { return std::addressof(*a = std::move(*b)); }
H void h_swap_member(X* a, X* b) { a->swap(*b); }
H void h_swap_free(X* a, X* b) { swap(*a, *b); }
