// P20: only the documented element and allocator requirements are imposed.
// Every function below must type check; each uses one group of operations on
// an element or allocator that offers nothing beyond what is documented.
#include "wit.h"
namespace vpw {
template <class T> struct Tag {};
#if VP_POLY
#define IP(T) vp_ipt<T> {}
#else
#define IP(T) VP_IP {}
#endif
template <class T> T&& mv(T& t) { return static_cast<T&&>(t); }

// ------------------------------------------------------------ allocators
// Operations that never propagate the allocator, for any allocator.
template <class T, class A> struct uses {
  using Wr = VP_WR<T, A>;
  static void w_create(const A& a, T& v) { Wr x(std::allocator_arg, a, IP(T)); Wr y(std::allocator_arg, a, v); Wr z(std::allocator_arg, a, mv(v)); }
  static void w_default(const A& a) { Wr x(std::allocator_arg, a); }
  static void w_copy(const Wr& c, const A& a) { Wr x(c); Wr y(std::allocator_arg, a, c); }
  static void w_move(Wr& c, const A& a) { Wr x(mv(c)); Wr y(std::allocator_arg, a, mv(c)); }
  static void w_assign(Wr& l, const Wr& r, Wr& m) { l = r; l = mv(m); }
  static void w_swap(Wr& l, Wr& r) { l.swap(r); swap(l, r); }
  static void w_observe(Wr& l, const Wr& c) { (void)*l; (void)*c; l.operator->(); c.operator->(); (void)c.valueless_after_move(); A a(c.get_allocator()); (void)*mv(l); }
  static void w_destroy(Wr* p) { p->~Wr(); }
#if !VP_POLY
  static void w_assign_value(Wr& l, T& v) { l = v; l = mv(v); l = static_cast<const T&>(v); }
#endif
  static void all(const A& a, T& v, Wr& l, Wr& r, Wr* p) { w_create(a, v); w_default(a); w_copy(l, a); w_move(l, a); w_assign(l, r, r); w_swap(l, r); w_observe(l, r); w_destroy(p);
#if !VP_POLY
    w_assign_value(l, v);
#endif
  }
};
struct Plain { Plain(); Plain(const Plain&); Plain(Plain&&); Plain& operator=(const Plain&); Plain& operator=(Plain&&); ~Plain(); };
#define USES(name, T, A) inline void w_alloc_##name(const A& a, T& v, VP_WR<T, A>& l, VP_WR<T, A>& r) { uses<T, A>::all(a, v, l, r, &l); }
using Std = std::allocator<Plain>; using NoDef = AlNoDef<Plain>; using Rigid = AlRigid<Plain>; using Emp = AlEmpty<Plain>; using Fin = AlFinal<Plain>;
USES(standard, Plain, Std)
USES(not_default_constructible, Plain, NoDef)
USES(not_assignable_not_swappable, Plain, Rigid)
USES(empty, Plain, Emp)
USES(final, Plain, Fin)
#define UG(n, a, b, c, d) using Al##n = Al<Plain, a, b, c, d>; USES(traits##n, Plain, Al##n)
UG(0, false, false, false, false) UG(1, true, false, false, false) UG(2, false, true, false, false) UG(3, false, false, true, false) UG(4, false, false, false, true) UG(5, true, true, true, false) UG(6, true, true, true, true) UG(7, true, true, false, false) UG(8, false, true, true, true)
#if __cplusplus >= 201703L
using Pmr = std::pmr::polymorphic_allocator<Plain>;
USES(polymorphic_allocator, Plain, Pmr)
#endif

// allocator without rebind member, operator!= or any optional member; hostile &
template <class T> struct AlBare {
  using value_type = T;
  explicit AlBare(void*) noexcept;
  template <class U> AlBare(const AlBare<U>&) noexcept;
  T* allocate(std::size_t); void deallocate(T*, std::size_t);
  void operator&() const = delete;
  friend bool operator==(const AlBare&, const AlBare&) noexcept { return true; }
  friend bool operator!=(const AlBare&, const AlBare&) noexcept { return false; }
  void* state;
};
using Bare = AlBare<Plain>;
USES(bare, Plain, Bare)

// allocator whose select_on_container_copy_construction and construct exist
template <class T> struct AlOwn {
  using value_type = T;
  using propagate_on_container_copy_assignment = std::true_type; using propagate_on_container_move_assignment = std::true_type; using propagate_on_container_swap = std::true_type;
  int i;
  explicit AlOwn(int) noexcept; template <class U> AlOwn(const AlOwn<U>&) noexcept;
  T* allocate(std::size_t); void deallocate(T*, std::size_t);
  template <class U, class... As> void construct(U* p, As&&... as) { ::new ((void*)p) U(std::forward<As>(as)...); }
  template <class U> void destroy(U* p) { p->~U(); }
  AlOwn select_on_container_copy_construction() const;
};
template <class T, class U> bool operator==(const AlOwn<T>&, const AlOwn<U>&) noexcept;
template <class T, class U> bool operator!=(const AlOwn<T>&, const AlOwn<U>&) noexcept;
using Own = AlOwn<Plain>;
USES(construct_and_select, Plain, Own)

// an allocator needs only what its propagation traits call for: its own swap
// when it propagates on swap, move assignment on move, copy assignment on copy
#define AL_STATE(N, ...) template <class T> struct N { using value_type = T; int i; explicit N(int) noexcept; N(const N&) noexcept; template <class U> N(const N<U>&) noexcept; T* allocate(std::size_t); void deallocate(T*, std::size_t); __VA_ARGS__ }; \
  template <class T, class U> bool operator==(const N<T>&, const N<U>&) noexcept; template <class T, class U> bool operator!=(const N<T>&, const N<U>&) noexcept;
AL_STATE(AlSwaps, using propagate_on_container_swap = std::true_type; AlSwaps& operator=(const AlSwaps&) = delete; friend void swap(AlSwaps&, AlSwaps&) noexcept;)
AL_STATE(AlMoves, using propagate_on_container_move_assignment = std::true_type; AlMoves& operator=(const AlMoves&) = delete; AlMoves& operator=(AlMoves&&) noexcept;)
AL_STATE(AlCopies, using propagate_on_container_copy_assignment = std::true_type; AlCopies& operator=(const AlCopies&) noexcept;)
using Swaps = AlSwaps<Plain>; using Moves = AlMoves<Plain>; using Copies = AlCopies<Plain>;
USES(own_swap, Plain, Swaps)
USES(move_assignable, Plain, Moves)
USES(copy_assignable, Plain, Copies)

// an allocator whose rebinding conversion is explicit
template <class T> struct AlExplicit {
  using value_type = T; int i;
  explicit AlExplicit(int) noexcept; AlExplicit(const AlExplicit&) noexcept; template <class U> explicit AlExplicit(const AlExplicit<U>&) noexcept;
  T* allocate(std::size_t); void deallocate(T*, std::size_t);
  friend bool operator==(const AlExplicit&, const AlExplicit&) noexcept; friend bool operator!=(const AlExplicit&, const AlExplicit&) noexcept;
};
using Explicit = AlExplicit<Plain>;
USES(explicit_rebind, Plain, Explicit)

#if VP_MODERN && !VP_POLY
// class-type pointers
template <class T> struct Fancy {
  using element_type = T; using difference_type = std::ptrdiff_t; using value_type = std::remove_cv_t<T>; using pointer = Fancy; using reference = std::add_lvalue_reference_t<T>; using iterator_category = std::random_access_iterator_tag;
  template <class U> using rebind = Fancy<U>;
  Fancy() = default; Fancy(std::nullptr_t); Fancy(const Fancy&) = default; template <class U> requires std::is_convertible_v<U*, T*> Fancy(const Fancy<U>&);
  T& operator*() const; T* operator->() const; explicit operator bool() const; static Fancy pointer_to(T&);
  friend bool operator==(const Fancy&, const Fancy&); friend bool operator==(const Fancy&, std::nullptr_t);
  T* p;
};
template <class T> struct AlFancy {
  using value_type = T; using pointer = Fancy<T>; using const_pointer = Fancy<const T>; int i;
  explicit AlFancy(int) noexcept; AlFancy(const AlFancy&) noexcept; template <class U> AlFancy(const AlFancy<U>&) noexcept;
  pointer allocate(std::size_t); void deallocate(pointer, std::size_t);
  friend bool operator==(const AlFancy&, const AlFancy&) noexcept;
};
using WithFancy = AlFancy<Plain>;
USES(class_type_pointers, Plain, WithFancy)
inline bool w_fancy_compare(const VP_WR<int, AlFancy<int>>& l, const VP_WR<int>& r) { return l == r || l < r || l == 1 || (l <=> 2) < 0 || std::hash<VP_WR<int, AlFancy<int>>>{}(l) == 0; }
#endif

// ------------------------------------------------------------ elements
// functions of the user's namespace do not capture calls inside the library
namespace greedy {
struct El { El(); El(const El&); El(El&&); El& operator=(const El&); El& operator=(El&&); friend bool operator==(const El&, const El&); friend bool operator!=(const El&, const El&); friend bool operator<(const El&, const El&); friend bool operator>(const El&, const El&); friend bool operator<=(const El&, const El&); friend bool operator>=(const El&, const El&); };
template <class T> struct Alloc { using value_type = T; int i; explicit Alloc(int) noexcept; template <class U> Alloc(const Alloc<U>&) noexcept; T* allocate(std::size_t); void deallocate(T*, std::size_t); };
template <class T, class U> bool operator==(const Alloc<T>&, const Alloc<U>&) noexcept; template <class T, class U> bool operator!=(const Alloc<T>&, const Alloc<U>&) noexcept;
#define GREEDY(N) template <class... Ts> void N(Ts&&...) = delete;
GREEDY(move) GREEDY(forward) GREEDY(exchange) GREEDY(addressof) GREEDY(to_address) GREEDY(construct_at) GREEDY(destroy_at) GREEDY(as_const) GREEDY(declval) GREEDY(synth_three_way) GREEDY(unreachable) GREEDY(construct_from) GREEDY(destroy_with) GREEDY(create_control_block) GREEDY(reset) GREEDY(assign_allocator) GREEDY(swap_allocators) GREEDY(get) GREEDY(allocate) GREEDY(deallocate) GREEDY(construct) GREEDY(destroy) GREEDY(clone) GREEDY(move_if_noexcept) GREEDY(hash_value)
}
using GreedyAl = greedy::Alloc<greedy::El>;
USES(greedy_namespace, greedy::El, GreedyAl)
#if !VP_POLY
inline bool w_greedy_compare(const VP_WR<greedy::El>& l, const VP_WR<greedy::El>& r, const greedy::El& v) { return l == r || l != r || l < r || l > r || l <= r || l >= r || l == v || l < v || v == l || v < l; }
#endif
// no default constructor, no assignment, no comparison, overloaded operator&
struct Bleak {
  explicit Bleak(int); Bleak(const Bleak&); Bleak(Bleak&&);
  Bleak() = delete; Bleak& operator=(const Bleak&) = delete; Bleak& operator=(Bleak&&) = delete;
  void operator&() const = delete;
  template <class X> void operator,(X&&) const = delete;
  ~Bleak();
};
using WB = VP_WR<Bleak>;
inline void w_bleak_create(Bleak& b, const std::allocator<Bleak>& a) { WB x(IP(Bleak), 1); WB y(b); WB z(mv(b)); WB w(std::allocator_arg, a, b); WB v(std::allocator_arg, a, IP(Bleak), 2); }
inline void w_bleak_copy(const WB& c, const std::allocator<Bleak>& a) { WB x(c); WB y(std::allocator_arg, a, c); }
inline void w_bleak_move(WB& c, const std::allocator<Bleak>& a) { WB x(mv(c)); WB y(std::allocator_arg, a, mv(c)); }
inline void w_bleak_move_assign(WB& l, WB& r) { l = mv(r); }
#if VP_POLY
inline void w_bleak_copy_assign(WB& l, const WB& r) { l = r; }
#endif
inline void w_bleak_swap(WB& l, WB& r) { l.swap(r); swap(l, r); }
inline void w_bleak_observe(WB& l, const WB& c) { (void)*l; (void)*c; l.operator->(); c.operator->(); }

// unequal allocators: constructing is all that may be asked of the element
using AB = Al<Bleak, false, false, false, false>;
using WA = VP_WR<Bleak, AB>;
inline void w_bleak_stateful(WA& l, WA& r, const WA& c, const AB& a) { WA w(std::allocator_arg, a, IP(Bleak), 1); WA x(c); WA y(mv(r)); WA z(std::allocator_arg, a, mv(r)); l = mv(r); l.swap(r); WA v(std::allocator_arg, a, c); }

// copying and moving may be explicit; nothing is copied or moved implicitly
struct Formal { Formal(); explicit Formal(int); explicit Formal(const Formal&); explicit Formal(Formal&&); Formal& operator=(const Formal&); Formal& operator=(Formal&&); };
using FormalAl = Al<Formal, false, false, false, false>; using FormalStd = std::allocator<Formal>;
USES(explicit_copy, Formal, FormalStd)
USES(explicit_copy_stateful, Formal, FormalAl)
// assignment operators may return anything
struct Void { Void(); Void(const Void&); Void(Void&&); void operator=(const Void&); void operator=(Void&&); void operator=(int); explicit Void(int); };
using VoidAl = Al<Void, true, true, true, false>; using VoidStd = std::allocator<Void>;
USES(assignment_returns_void, Void, VoidStd)
USES(assignment_returns_void_stateful, Void, VoidAl)
#if !VP_POLY
inline void w_assign_explicit_conversion(VP_WR<Void>& l) { l = 1; }
// copying does not need a move constructor
struct CopyNotMove { CopyNotMove(); explicit CopyNotMove(int); CopyNotMove(const CopyNotMove&); CopyNotMove(CopyNotMove&&) = delete; CopyNotMove& operator=(const CopyNotMove&); CopyNotMove& operator=(CopyNotMove&&) = delete; };
inline void w_copy_not_move(CopyNotMove& v, const std::allocator<CopyNotMove>& a, VP_WR<CopyNotMove>& l, const VP_WR<CopyNotMove>& r) { VP_WR<CopyNotMove> x(v), y(IP(CopyNotMove), 1), z(r), w(std::allocator_arg, a, r); l = r; l = v; l.swap(x); }
#endif

// private operator new/delete in the class: storage comes from the allocator
struct NoNew { NoNew(); NoNew(const NoNew&); NoNew& operator=(const NoNew&); static void* operator new(std::size_t) = delete; static void operator delete(void*) = delete; static void* operator new[](std::size_t) = delete; };
using ANN = AlRigid<NoNew>;
inline void w_no_class_new(const VP_WR<NoNew>& c, VP_WR<NoNew>& m) { VP_WR<NoNew> d; VP_WR<NoNew> x(c); VP_WR<NoNew> y(mv(m)); m = x; m = mv(y); }

// explicit copy-unfriendly comparison: deleted comparison operators do not matter unless used
struct Incomparable { Incomparable(); Incomparable(const Incomparable&); Incomparable& operator=(const Incomparable&); bool operator==(const Incomparable&) const = delete; };
inline void w_incomparable(VP_WR<Incomparable>& l, const VP_WR<Incomparable>& r) { VP_WR<Incomparable> a(r); l = r; l = mv(a); l.swap(a); }

#if !VP_POLY
// move-only elements
struct MoveOnly { MoveOnly(); explicit MoveOnly(int); MoveOnly(MoveOnly&&); MoveOnly& operator=(MoveOnly&&); MoveOnly(const MoveOnly&) = delete; MoveOnly& operator=(const MoveOnly&) = delete; };
using WM = VP_WR<MoveOnly>;
inline void w_move_only_create(MoveOnly& v, const std::allocator<MoveOnly>& a) { WM x; WM y(IP(MoveOnly), 1); WM z(mv(v)); WM w(std::allocator_arg, a, mv(v)); WM u(std::allocator_arg, a); }
inline void w_move_only_move(WM& m, const std::allocator<MoveOnly>& a) { WM x(mv(m)); WM y(std::allocator_arg, a, mv(m)); }
inline void w_move_only_assign(WM& l, WM& r) { l = mv(r); }
inline void w_move_only_value(WM& l, MoveOnly& v) { l = mv(v); }
inline void w_move_only_swap(WM& l, WM& r) { l.swap(r); swap(l, r); }
inline void w_move_only_vector(std::vector<WM>& v, WM& m) { v.push_back(mv(m)); v.emplace_back(IP(MoveOnly), 1); v.erase(v.begin()); }
inline void w_move_only_stateful(VP_WR<MoveOnly, Al<MoveOnly, false, false, false, false>>& l, VP_WR<MoveOnly, Al<MoveOnly, false, false, false, false>>& r) { l = mv(r); auto x(mv(l)); x.swap(r); VP_WR<MoveOnly, Al<MoveOnly, false, false, false, false>> y(std::allocator_arg, r.get_allocator(), mv(r)); }

// neither copyable nor movable: can be created, accessed, swapped, destroyed
struct Pinned { Pinned(); explicit Pinned(int); Pinned(const Pinned&) = delete; Pinned& operator=(const Pinned&) = delete; };
using WP = VP_WR<Pinned>;
inline void w_pinned(WP& l, WP& r, const WP& c) { WP x; WP y(IP(Pinned), 1); l.swap(r); swap(l, r); (void)*c; (void)*l; l.operator->(); (void)l.valueless_after_move(); }
#if !VP_POLY
// moved: the object stays where it is, unless it has to change to an unequal allocator
inline void w_pinned_move(WP& m) { WP x(mv(m)); WP y(std::allocator_arg, m.get_allocator(), mv(m)); }
template <class A> inline void w_pinned_move_any(VP_WR<Pinned, A>& m) { VP_WR<Pinned, A> x(mv(m)); VP_WR<Pinned, A> y(static_cast<VP_WR<Pinned, A>&&>(x)); }
template <class A> inline void w_pinned_move_equal(VP_WR<Pinned, A>& m, const A& a) { VP_WR<Pinned, A> x(std::allocator_arg, a, mv(m)); }
using P0 = Al<Pinned, false, false, false, false>; using P1 = Al<Pinned, true, true, true, false>; using P2 = Al<Pinned, false, true, false, true>; using P3 = Al<Pinned, false, false, false, true>;
inline void w_pinned_moves(VP_WR<Pinned, P0>& a, VP_WR<Pinned, P1>& b, VP_WR<Pinned, P2>& c, VP_WR<Pinned, P3>& d, const P2& p, const P3& q) { w_pinned_move_any(a); w_pinned_move_any(b); w_pinned_move_any(c); w_pinned_move_any(d); w_pinned_move_equal(c, p); w_pinned_move_equal(d, q); }
#endif

// explicit conversions and one-way operators: only the one used is needed
struct OnlyEq { OnlyEq(); OnlyEq(const OnlyEq&); friend bool operator==(const OnlyEq&, const OnlyEq&); };
inline bool w_only_eq(const VP_WR<OnlyEq>& l, const VP_WR<OnlyEq>& r, const OnlyEq& v) { return l == r || l == v || v == l; }
struct OnlyLess { friend bool operator<(const OnlyLess&, const OnlyLess&); };
inline bool w_only_less(const VP_WR<OnlyLess>& l, const VP_WR<OnlyLess>& r, const OnlyLess& v) { return l < r || l < v || v < l; }
#if VP_MODERN
struct Three { friend std::partial_ordering operator<=>(const Three&, const Three&); friend bool operator==(const Three&, const Three&); };
inline bool w_three_way(const VP_WR<Three>& l, const VP_WR<Three>& r, const Three& v) { return (l <=> r) == 0 || (l <=> v) < 0 || (v <=> l) > 0 || l < r || l >= v || l != r; }
inline bool w_less_gives_all(const VP_WR<OnlyLess>& l, const VP_WR<OnlyLess>& r, const OnlyLess& v) { return (l <=> r) == 0 || l > r || l <= r || l >= r || l > v || l <= v || l >= v || v > l || v >= l || v <= l; }
#endif
struct L1 {}; struct R1 {};
bool operator==(const L1&, const R1&);
#if !VP_MODERN
bool operator!=(const L1&, const R1&); bool operator<(const L1&, const R1&); bool operator>(const L1&, const R1&); bool operator<=(const L1&, const R1&); bool operator>=(const L1&, const R1&);
inline bool w_mixed_all(const VP_WR<L1>& l, const VP_WR<R1>& r, const R1& v, const L1& u) { return l == r || l != r || l < r || l > r || l <= r || l >= r || l == v || l != v || l < v || l > v || l <= v || l >= v || u == r || u != r || u < r || u > r || u <= r || u >= r; }
#endif
inline bool w_mixed_eq(const VP_WR<L1>& l, const VP_WR<R1, AlRigid<R1>>& r, const R1& v) { return l == r || l == v; }
// hashing needs only std::hash
struct Hashed {};
}  // namespace vpw
template <> struct std::hash<vpw::Hashed> { std::size_t operator()(const vpw::Hashed&) const; };
namespace vpw {
inline std::size_t w_hash(const VP_WR<Hashed>& a, const VP_WR<Hashed, AlRigid<Hashed>>& b) { return std::hash<VP_WR<Hashed>>{}(a) + std::hash<VP_WR<Hashed, AlRigid<Hashed>>>{}(b); }
#else
// abstract base, no virtual destructor, derived found at a non-zero offset
struct Abs { virtual int f() const = 0; Abs(); Abs(const Abs&); protected: ~Abs(); };
struct Other { virtual void g(); long l; };
struct Conc final : Other, Abs { explicit Conc(int); Conc(const Conc&); int f() const override; Conc& operator=(const Conc&) = delete; void operator&() const = delete; };
using WAbs = VP_WR<Abs>;
inline void w_abstract_create(Conc& c, const std::allocator<Abs>& a) { WAbs x(IP(Conc), 1); WAbs y(c); WAbs z(mv(c)); WAbs w(std::allocator_arg, a, c); WAbs v(std::allocator_arg, a, IP(Conc), 1); }
inline void w_abstract_copy(const WAbs& c, const std::allocator<Abs>& a) { WAbs x(c); WAbs y(std::allocator_arg, a, c); }
inline void w_abstract_move(WAbs& c, const std::allocator<Abs>& a) { WAbs x(mv(c)); WAbs y(std::allocator_arg, a, mv(c)); }
inline void w_abstract_assign(WAbs& l, const WAbs& r, WAbs& m) { l = r; l = mv(m); }
inline void w_abstract_swap(WAbs& l, WAbs& r) { l.swap(r); swap(l, r); }
inline int w_abstract_use(const WAbs& l, WAbs& m) { (void)*m; return l->f() + (*l).f(); }
inline void w_abstract_vector(std::vector<WAbs>& v, const std::vector<WAbs>& o) { v.emplace_back(IP(Conc), 1); v = o; v.insert(v.begin(), o.begin(), o.end()); v.erase(v.begin()); }
// no virtual functions at all
struct NvBase { int i; NvBase(); NvBase(const NvBase&); protected: ~NvBase() = default; };
struct NvDer : NvBase { NvDer(); NvDer(const NvDer&); ~NvDer(); std::vector<int> v; };
inline void w_non_virtual(VP_WR<NvBase>& l, const VP_WR<NvBase>& r) { VP_WR<NvBase> x(IP(NvDer)); VP_WR<NvBase> y(r); l = r; l = mv(y); l.swap(x); NvDer d; VP_WR<NvBase> z(d); }
// an element copyable only: rvalues of it bind to the copy constructor
struct CopyOnly { CopyOnly(); CopyOnly(const CopyOnly&); };
inline void w_copy_only(VP_WR<CopyOnly, Al<CopyOnly, false, false, false, false>>& l, VP_WR<CopyOnly, Al<CopyOnly, false, false, false, false>>& r) { VP_WR<CopyOnly, Al<CopyOnly, false, false, false, false>> x(IP(CopyOnly)); l = mv(r); l = r; auto y(mv(l)); }
// virtual inheritance: T is a virtual base of the owned type
struct VB { int i; virtual ~VB(); VB(); VB(const VB&); };
struct VM1 : virtual VB { VM1(); VM1(const VM1&); }; struct VM2 : virtual VB { VM2(); VM2(const VM2&); }; struct VD : VM1, VM2 { VD(); VD(const VD&); };
inline void w_virtual_base(VP_WR<VB>& l, const VP_WR<VB>& r) { VP_WR<VB> x(IP(VD)); VP_WR<VB> y(r); l = r; l = mv(y); VD d; VP_WR<VB> z(d); (void)*l; }
// different types may share a wrapper
inline void w_no_assignment_between_types(VP_WR<VB>& l) { VM1 a; VM2 b; VP_WR<VB> x(a), y(b); l = x; l = y; x = mv(y); swap(l, x); }
#endif
}  // namespace vpw
