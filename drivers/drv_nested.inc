// A recursive element: the owned object itself holds a wrapper (optionally).
struct Rec;
using XR = WRAP<Rec, Al<Rec>>;
static_assert(sizeof(XR) <= 4 * sizeof(void*), "");
struct Rec {
  Obj o;
  bool has;
  alignas(void*) unsigned char buf[sizeof(XR)];
  XR* next() { return reinterpret_cast<XR*>(buf); }
  const XR* next() const { return reinterpret_cast<const XR*>(buf); }
  explicit Rec(const Obj& v) : o(v), has(false) {}
  Rec(const Obj& v, XR& n) : o(v), has(true) { ::new (static_cast<void*>(buf)) XR(std::move(n)); }
  Rec(const Rec& r) : o(r.o), has(r.has) { if (has) ::new (static_cast<void*>(buf)) XR(*r.next()); }
  Rec(Rec&& r) : o(std::move(r.o)), has(r.has) { if (has) ::new (static_cast<void*>(buf)) XR(std::move(*r.next())); }
  Rec& operator=(const Rec& r) { o = r.o; return *this; }
  ~Rec() { if (has) next()->~XR(); }
};
H long h_rec_sizeof() { return (long)sizeof(XR); }
H void h_rec_leaf(void* m, void* id, const Obj* v) { ::new (m) XR(std::allocator_arg, VP_MK(Rec, id), INPR, *v); }
H void h_rec_node(void* m, void* id, const Obj* v, XR* n) { ::new (m) XR(std::allocator_arg, VP_MK(Rec, id), INPR, *v, *n); }
H void h_rec_take(void* m, XR* x) { ::new (m) XR(std::move(*(*x)->next())); }
H void h_rec_dtor(XR* x) { x->~XR(); }
H bool h_rec_valueless(const XR* x) { return x->valueless_after_move(); }
H bool h_rec_has(const XR* x) { return (*x)->has; }
H void* h_rec_alloc(const XR* x) { return vp_id(x->get_allocator()); }
H const void* h_rec_obj(const XR* x) { return std::addressof((*x)->o); }
H XR* h_rec_move(XR* x) { return std::addressof(*x = std::move(*(*x)->next())); }
H XR* h_rec_copy(XR* x) { return std::addressof(*x = *(*x)->next()); }
H XR* h_rec_copyc(XR* x) { const Rec& r = **x; return std::addressof(*x = *r.next()); }
