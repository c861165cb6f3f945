// P23: everything in the C++20 headers works in constant evaluation.  The
// compiler's constant evaluator also rejects any undefined behaviour and any
// storage left allocated, so each witness decides those for its path as well.
#include "wit.h"
namespace vpw {
template <class T> constexpr T&& mv(T& t) { return static_cast<T&&>(t); }
template <class T, bool CA, bool MA, bool SW>
struct CAl {  // constexpr, stateful, never always-equal
  using value_type = T;
  using propagate_on_container_copy_assignment = Bool<CA>; using propagate_on_container_move_assignment = Bool<MA>; using propagate_on_container_swap = Bool<SW>;
  using is_always_equal = std::false_type;
  template <class U> struct rebind { using other = CAl<U, CA, MA, SW>; };
  int id = 0;
  constexpr CAl() = default; constexpr explicit CAl(int i) : id(i) {}
  template <class U> constexpr CAl(const CAl<U, CA, MA, SW>& o) : id(o.id) {}
  constexpr T* allocate(std::size_t n) { return std::allocator<T>().allocate(n); }
  constexpr void deallocate(T* p, std::size_t n) { std::allocator<T>().deallocate(p, n); }
  template <class U, class... As> constexpr void construct(U* p, As&&... as) { std::construct_at(p, std::forward<As>(as)...); }
  template <class U> constexpr void destroy(U* p) { std::destroy_at(p); }
  template <class U> constexpr bool operator==(const CAl<U, CA, MA, SW>& o) const { return id == o.id; }
  constexpr CAl select_on_container_copy_construction() const { return CAl(id + 100); }
};
struct V {
  int x = 7; int tag = 0;
  constexpr V() = default;
  constexpr V(int a) : x(a) {}
  constexpr V(int a, int b) : x(a * b) {}
  constexpr V(std::initializer_list<int> l, int b = 0) : x(b) { for (int i : l) x += i; }
  constexpr V(const V& o) : x(o.x), tag(1) {}
  constexpr V(V&& o) : x(o.x), tag(2) { o.x = -1; }
  constexpr V& operator=(const V& o) { x = o.x; tag = 3; return *this; }
  constexpr V& operator=(V&& o) { x = o.x; tag = 4; o.x = -1; return *this; }
  constexpr V& operator=(int i) { x = i; tag = 5; return *this; }
  constexpr ~V() {}
  friend constexpr bool operator==(const V& a, const V& b) { return a.x == b.x; }
  friend constexpr auto operator<=>(const V& a, const V& b) { return a.x <=> b.x; }
};
#if !VP_POLY
}  // namespace vpw
template <> struct std::hash<vpw::V> { constexpr std::size_t operator()(const vpw::V& v) const { return static_cast<std::size_t>(v.x) * 3; } };
namespace vpw {
using xyz::indirect;
using std::allocator_arg; using std::in_place;
template <class A> struct ce {
  using I = indirect<V, A>;
  static constexpr bool create() { I a; I b(V(3)); V v(4); I c(v); const V cv(5); I d(cv); I e(in_place, 2, 3); I f(in_place, {1, 2, 3}, 4); I g(in_place, {1, 2}); I h(in_place);
    return a->x == 7 && b->x == 3 && c->x == 4 && (*d).x == 5 && e->x == 6 && f->x == 10 && g->x == 3 && h->x == 7; }
  W("constructors are usable in constant evaluation", create());
  static constexpr bool create_alloc() { A al; I a(allocator_arg, al); I b(allocator_arg, al, V(3)); V v(4); I c(allocator_arg, al, v); I e(allocator_arg, al, in_place, 2, 3); I f(allocator_arg, al, in_place, {1, 2, 3}, 4); I g(allocator_arg, al, in_place, 9); I h(allocator_arg, al, in_place);
    return a->x == 7 && b->x == 3 && c->x == 4 && e->x == 6 && f->x == 10 && g->x == 9 && h->x == 7; }
  W("allocator-extended constructors are usable in constant evaluation", create_alloc());
  static constexpr bool copy() { I a(in_place, 3); I b(a); const I c(b); I d(c); A al; I e(allocator_arg, al, c); a->x = 9; return b->x == 3 && d->x == 3 && e->x == 3 && a->x == 9 && !a.valueless_after_move() && d->tag == 1; }
  W("copy construction is usable in constant evaluation", copy());
  static constexpr bool move() { I a(in_place, 3); I b(mv(a)); A al; I c(allocator_arg, al, mv(b)); bool v = a.valueless_after_move() && b.valueless_after_move(); return v && c->x == 3 && !c.valueless_after_move(); }
  W("move construction is usable in constant evaluation", move());
  static constexpr bool from_valueless() { I a(in_place, 3); I b(mv(a)); I c(a); I d(mv(a)); A al; I e(allocator_arg, al, a); I f(allocator_arg, al, mv(a)); return a.valueless_after_move() && c.valueless_after_move() && d.valueless_after_move() && e.valueless_after_move() && f.valueless_after_move(); }
  W("copying and moving a valueless wrapper is usable in constant evaluation", from_valueless());
  static constexpr bool assign() { I a(in_place, 3); const I b(in_place, 4); a = b; bool ok = a->x == 4 && b->x == 4; I c(in_place, 5); a = mv(c); ok = ok && a->x == 5 && c.valueless_after_move(); c = a; ok = ok && c->x == 5; I d(mv(c)); a = c; ok = ok && a.valueless_after_move(); d = mv(a); return ok && d.valueless_after_move(); }
  W("assignment is usable in constant evaluation", assign());
  static constexpr bool self() { I a(in_place, 3); I& r = a; a = r; bool ok = a->x == 3; a = mv(r); ok = ok && !a.valueless_after_move() && a->x == 3; swap(a, r); a.swap(r); ok = ok && a->x == 3; I b(mv(a)); a = r; a = mv(r); return ok && a.valueless_after_move(); }
  W("self-assignment is usable in constant evaluation", self());
  static constexpr bool value() { I a(in_place, 3); V v(8); a = v; bool ok = a->x == 8 && a->tag == 3; a = V(9); ok = ok && a->x == 9 && a->tag == 4; a = 10; ok = ok && a->x == 10 && a->tag == 5; I b(mv(a)); a = v; ok = ok && a->x == 8 && a->tag == 1; I c(mv(a)); a = 12; return ok && a->x == 12; }
  W("converting assignment is usable in constant evaluation", value());
  static constexpr bool access() { I a(in_place, 3); const I b(in_place, 4); (*a).x = 5; a->tag = 6; V m = *mv(a); V n = *static_cast<const I&&>(b); return m.x == 5 && m.tag == 2 && n.x == 4 && n.tag == 1 && (*b).x == 4 && b->x == 4 && a->x == -1 && !b.valueless_after_move() && b.get_allocator() == b.get_allocator(); }
  W("accessors are usable in constant evaluation", access());
  static constexpr bool swaps() { I a(in_place, 3); I b(in_place, 4); a.swap(b); bool ok = a->x == 4 && b->x == 3; swap(a, b); ok = ok && a->x == 3 && b->x == 4; I c(mv(a)); a.swap(b); ok = ok && b.valueless_after_move() && a->x == 4; swap(a, b); return ok && a.valueless_after_move() && b->x == 4; }
  W("swap is usable in constant evaluation", swaps());
  static constexpr bool compare() { I a(in_place, 3); I b(in_place, 4); I n(in_place, 0); I gone(mv(n)); const indirect<V> o(in_place, 3);
    return a == a && a != b && a < b && b > a && a <= b && b >= a && (a <=> b) < 0 && a == V(3) && V(3) == a && a < V(4) && V(4) > a && (a <=> V(2)) > 0 && n < a && n == n && n != a && (n <=> n) == 0 && (n <=> a) < 0 && n < V(0) && V(0) > n && !(n == V(0)) && a == o && o == a && (o <=> b) < 0; }
  W("comparisons are usable in constant evaluation", compare());
  static constexpr bool hashes() { I a(in_place, 3); std::hash<I> h; bool ok = h(a) == 9; I b(mv(a)); (void)h(a); return ok && h(b) == 9; }
  W("hash is usable in constant evaluation", hashes());
  static constexpr bool heap() { I* p = new I(in_place, 3); I* q = new I[2]{I(*p), I(mv(*p))}; bool ok = q[0]->x == 3 && q[1]->x == 3 && p->valueless_after_move(); delete p; delete[] q; return ok; }
  W("destruction is usable in constant evaluation", heap());
};
template struct ce<std::allocator<V>>;
template struct ce<CAl<V, false, false, false>>;
template struct ce<CAl<V, true, true, true>>;
template struct ce<CAl<V, true, false, false>>;
template struct ce<CAl<V, false, true, false>>;
template <bool CA, bool MA, bool SW> struct uneq {
  using A = CAl<V, CA, MA, SW>; using I = indirect<V, A>;
  static constexpr bool copy() { I a(allocator_arg, A(1), V(3)); I b(a); I c(allocator_arg, A(2), a); return b.get_allocator().id == 101 && c.get_allocator().id == 2 && b->x == 3 && c->x == 3; }
  W("copying with unequal allocators is usable in constant evaluation", copy());
  static constexpr bool move() { I a(allocator_arg, A(1), V(3)); I b(mv(a)); I c(allocator_arg, A(2), mv(b)); return b.get_allocator().id == 1 && c.get_allocator().id == 2 && c->x == 3 && c->tag == 2 && b->x == -1; }
  W("moving with unequal allocators is usable in constant evaluation", move());
  static constexpr bool assign() { I a(allocator_arg, A(1), V(3)); I b(allocator_arg, A(2), V(4)); a = b; bool ok = a->x == 4 && a.get_allocator().id == (CA ? 2 : 1); I c(allocator_arg, A(3), V(5)); a = mv(c); ok = ok && a->x == 5 && a.get_allocator().id == (MA ? 3 : CA ? 2 : 1); I d(allocator_arg, A(4), V(6)); I e(mv(d)); a = d; return ok && a.valueless_after_move(); }
  W("assignment with unequal allocators is usable in constant evaluation", assign());
};
template struct uneq<false, false, false>; template struct uneq<true, false, false>; template struct uneq<false, true, false>; template struct uneq<true, true, true>;
constexpr bool swap_propagates() { using A = CAl<V, false, false, true>; using I = indirect<V, A>; I a(allocator_arg, A(1), V(3)); I b(allocator_arg, A(2), V(4)); a.swap(b); bool ok = a->x == 4 && a.get_allocator().id == 2 && b.get_allocator().id == 1; swap(a, b); return ok && a->x == 3 && a.get_allocator().id == 1; }
W("swap with propagating unequal allocators is usable in constant evaluation", swap_propagates());
constexpr bool literal_members() { struct M { indirect<int> a{1}; indirect<V> b{V(2)}; }; M m; M n(m); M o(mv(n)); n = o; n = mv(m); *n.a = 5; return *o.a == 1 && *n.a == 5 && n.b->x == 2; }
W("classes with wrapper members are usable in constant evaluation", literal_members());
constexpr bool fundamental() { indirect<int> a(5); indirect<int*> p; indirect<double> d(2.5); *a += 1; a = 9; indirect b(a); indirect c(allocator_arg, std::allocator<int>(), 3); return *a == 9 && *b == 9 && *p == nullptr && *d == 2.5 && *c == 3 && a == 9 && a > 3 && 3 < a && a == b; }
W("fundamental element types are usable in constant evaluation", fundamental());
struct MO { int x; constexpr MO(int i) : x(i) {} constexpr MO(MO&& o) : x(o.x) { o.x = 0; } constexpr MO& operator=(MO&& o) { x = o.x; o.x = 0; return *this; } };
constexpr bool move_only() { indirect<MO> a(MO(3)); indirect<MO> b(mv(a)); a = mv(b); a = MO(4); indirect<MO> c(in_place, 5); swap(a, c); return a->x == 5 && c->x == 4 && b.valueless_after_move(); }
W("move-only element types are usable in constant evaluation", move_only());
#else
using xyz::polymorphic; using std::allocator_arg; using std::in_place_type;
struct B { int x = 1; constexpr B() = default; constexpr B(int i) : x(i) {} constexpr B(const B&) = default; constexpr virtual int f() const { return x; } constexpr virtual ~B() = default; };
struct Pad { int p = 5; constexpr virtual ~Pad() = default; };
struct D : Pad, B { int y; int how = 0; constexpr D(int a = 2) : B(a), y(a * 10) {} constexpr D(std::initializer_list<int> l, int z) : B(z), y(0) { for (int i : l) y += i; } constexpr D(const D& o) : Pad(o), B(o), y(o.y), how(1) {} constexpr D(D&& o) : Pad(o), B(o), y(o.y), how(2) { o.y = 0; } constexpr int f() const override { return y; } constexpr ~D() override {} };
struct Abs { constexpr virtual int g() const = 0; constexpr virtual ~Abs() = default; constexpr Abs() = default; constexpr Abs(const Abs&) = default; };
struct Con : Abs { int k; constexpr Con(int i) : k(i) {} constexpr int g() const override { return k; } };
template <class A> struct ce {
  using P = polymorphic<B, A>;
  static constexpr bool create() { P a; P b(D(3)); D v(4); P c(v); const D cv(5); P d(cv); P e(in_place_type<D>, 6); P f(in_place_type<D>, {1, 2, 3}, 4); P h(in_place_type<B>); P i(B(9)); return a->f() == 1 && b->f() == 30 && c->f() == 40 && (*d).f() == 50 && e->f() == 60 && f->f() == 6 && h->f() == 1 && i->f() == 9; }
  W("constructors are usable in constant evaluation", create());
  static constexpr bool create_alloc() { A al; P a(allocator_arg, al); P b(allocator_arg, al, D(3)); D v(4); P c(allocator_arg, al, v); P e(allocator_arg, al, in_place_type<D>, 6); P f(allocator_arg, al, in_place_type<D>, {1, 2, 3}, 4); return a->f() == 1 && b->f() == 30 && c->f() == 40 && e->f() == 60 && f->f() == 6; }
  W("allocator-extended constructors are usable in constant evaluation", create_alloc());
  static constexpr bool copy() { P a(in_place_type<D>, 3); P b(a); const P c(b); P d(c); A al; P e(allocator_arg, al, c); a->x = 9; return b->f() == 30 && d->f() == 30 && e->f() == 30 && b->x == 3 && e->x == 3 && a->x == 9; }
  W("copy construction is usable in constant evaluation", copy());
  static constexpr bool move() { P a(in_place_type<D>, 3); P b(mv(a)); A al; P c(allocator_arg, al, mv(b)); return a.valueless_after_move() && b.valueless_after_move() && c->f() == 30; }
  W("move construction is usable in constant evaluation", move());
  static constexpr bool from_valueless() { P a(in_place_type<D>, 3); P b(mv(a)); P c(a); P d(mv(a)); A al; P e(allocator_arg, al, a); P f(allocator_arg, al, mv(a)); return a.valueless_after_move() && c.valueless_after_move() && d.valueless_after_move() && e.valueless_after_move() && f.valueless_after_move(); }
  W("copying and moving a valueless wrapper is usable in constant evaluation", from_valueless());
  static constexpr bool assign() { P a(in_place_type<D>, 3); const P b(in_place_type<B>, 4); a = b; bool ok = a->f() == 4 && b->f() == 4; P c(in_place_type<D>, 5); a = mv(c); ok = ok && a->f() == 50 && c.valueless_after_move(); c = a; ok = ok && c->f() == 50; P d(mv(c)); a = c; ok = ok && a.valueless_after_move(); d = mv(a); return ok && d.valueless_after_move(); }
  W("assignment is usable in constant evaluation", assign());
  static constexpr bool self() { P a(in_place_type<D>, 3); P& r = a; a = r; bool ok = a->f() == 30; a = mv(r); ok = ok && a->f() == 30; swap(a, r); a.swap(r); ok = ok && a->f() == 30; P b(mv(a)); a = r; a = mv(r); return ok && a.valueless_after_move(); }
  W("self-assignment is usable in constant evaluation", self());
  static constexpr bool access() { P a(in_place_type<D>, 3); const P b(in_place_type<D>, 4); (*a).x = 5; a->x += 1; return a->x == 6 && (*b).x == 4 && b->f() == 40 && (*mv(a)).x == 6 && !b.valueless_after_move() && b.get_allocator() == b.get_allocator() && &*b == b.operator->() && &*a == a.operator->(); }
  W("accessors are usable in constant evaluation", access());
  static constexpr bool swaps() { P a(in_place_type<D>, 3); P b(in_place_type<B>, 4); a.swap(b); bool ok = a->f() == 4 && b->f() == 30; swap(a, b); ok = ok && a->f() == 30 && b->f() == 4; P c(mv(a)); a.swap(b); ok = ok && b.valueless_after_move() && a->f() == 4; swap(a, b); return ok && a.valueless_after_move() && b->f() == 4; }
  W("swap is usable in constant evaluation", swaps());
  static constexpr bool heap() { P* p = new P(in_place_type<D>, 3); P* q = new P[2]{P(*p), P(mv(*p))}; bool ok = q[0]->f() == 30 && q[1]->f() == 30 && p->valueless_after_move(); delete p; delete[] q; return ok; }
  W("destruction is usable in constant evaluation", heap());
};
template struct ce<std::allocator<B>>;
template struct ce<CAl<B, false, false, false>>;
template struct ce<CAl<B, true, true, true>>;
template struct ce<CAl<B, true, false, false>>;
template struct ce<CAl<B, false, true, false>>;
template <bool CA, bool MA, bool SW> struct uneq {
  using A = CAl<B, CA, MA, SW>; using P = polymorphic<B, A>;
  static constexpr bool copy() { P a(allocator_arg, A(1), in_place_type<D>, 3); P b(a); P c(allocator_arg, A(2), a); return b.get_allocator().id == 101 && c.get_allocator().id == 2 && b->f() == 30 && c->f() == 30; }
  W("copying with unequal allocators is usable in constant evaluation", copy());
  static constexpr bool move() { P a(allocator_arg, A(1), in_place_type<D>, 3); P b(mv(a)); P c(allocator_arg, A(2), mv(b)); return b.get_allocator().id == 1 && c.get_allocator().id == 2 && c->f() == 30 && b->f() == 0; }
  W("moving with unequal allocators is usable in constant evaluation", move());
  static constexpr bool assign() { P a(allocator_arg, A(1), in_place_type<D>, 3); P b(allocator_arg, A(2), in_place_type<B>, 4); a = b; bool ok = a->f() == 4 && a.get_allocator().id == (CA ? 2 : 1); P c(allocator_arg, A(3), in_place_type<D>, 5); a = mv(c); ok = ok && a->f() == 50 && a.get_allocator().id == (MA ? 3 : CA ? 2 : 1); P d(allocator_arg, A(4), in_place_type<D>, 6); P e(mv(d)); a = d; return ok && a.valueless_after_move(); }
  W("assignment with unequal allocators is usable in constant evaluation", assign());
};
template struct uneq<false, false, false>; template struct uneq<true, false, false>; template struct uneq<false, true, false>; template struct uneq<true, true, true>;
constexpr bool swap_propagates() { using A = CAl<B, false, false, true>; using P = polymorphic<B, A>; P a(allocator_arg, A(1), in_place_type<D>, 3); P b(allocator_arg, A(2), in_place_type<B>, 4); a.swap(b); bool ok = a->f() == 4 && a.get_allocator().id == 2 && b.get_allocator().id == 1; swap(a, b); return ok && a->f() == 30 && a.get_allocator().id == 1; }
W("swap with propagating unequal allocators is usable in constant evaluation", swap_propagates());
constexpr bool abstract_base() { polymorphic<Abs> a(Con(3)); polymorphic<Abs> b(in_place_type<Con>, 4); polymorphic<Abs> c(a); swap(a, b); c = a; b = mv(a); return c->g() == 4 && b->g() == 4 && a.valueless_after_move(); }
W("abstract base types are usable in constant evaluation", abstract_base());
constexpr bool literal_members() { struct M { polymorphic<B> a{in_place_type<D>, 1}; polymorphic<Abs> b{Con(2)}; }; M m; M n(m); M o(mv(n)); n = o; n = mv(m); n.a->x = 5; return o.a->x == 1 && n.a->x == 5 && n.b->g() == 2; }
W("classes with wrapper members are usable in constant evaluation", literal_members());
#endif
}  // namespace vpw
