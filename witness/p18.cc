// P18: constructors and assignments participate exactly when they should.
#include "wit.h"
namespace vpw {
using AA = std::allocator_arg_t;
struct NoCommon {};
struct Inner { Inner(int); Inner(int, char*); Inner(std::initializer_list<int>); Inner(std::initializer_list<int>, char*); };
struct ExplicitOnly { explicit ExplicitOnly(int); };
struct FromNothing { FromNothing() = delete; FromNothing(const FromNothing&); };
struct MoveOnly { MoveOnly(); MoveOnly(MoveOnly&&); MoveOnly& operator=(MoveOnly&&); };
struct LvOnly { LvOnly(NoCommon&); LvOnly& operator=(NoCommon&); };
struct RvOnly { RvOnly(NoCommon&&); RvOnly& operator=(NoCommon&&); };
struct RvLike { RvLike(const NoCommon&); RvLike& operator=(NoCommon&&); RvLike& operator=(const NoCommon&) = delete; RvLike& operator=(NoCommon&) = delete; };
struct AssignNotCtor { AssignNotCtor(); AssignNotCtor& operator=(NoCommon); };
struct CtorNotAssign { CtorNotAssign(NoCommon); CtorNotAssign& operator=(NoCommon) = delete; CtorNotAssign(const CtorNotAssign&); CtorNotAssign& operator=(const CtorNotAssign&) = delete; };

#if VP_MODERN
// Braced arguments build the element type itself (the documented template <class U = T>).
template <class V, class WR, class... Us> struct brace_ctor_ : std::false_type {};
template <class WR, class... Us> struct brace_ctor_<void_v<decltype(WR({dv<Us>()...}))>, WR, Us...> : std::true_type {};
template <class V, class WR, class... Us> struct brace_ext_ : std::false_type {};
template <class WR, class... Us> struct brace_ext_<void_v<decltype(WR(std::allocator_arg, dv<const typename WR::allocator_type&>(), {dv<Us>()...}))>, WR, Us...> : std::true_type {};
template <class V, class WR, class... Us> struct brace_set_ : std::false_type {};
template <class WR, class... Us> struct brace_set_<void_v<decltype(dv<WR&>() = {dv<Us>()...})>, WR, Us...> : std::true_type {};
#endif
#if !VP_POLY
template <class T, class A = std::allocator<T>> using I = xyz::indirect<T, A>;

// A type constructible and assignable from anything: instantiating either
// template with a wrapper means a converting operation was selected.
struct Any {
  Any();
  Any(const Any&); Any(Any&&); Any& operator=(const Any&); Any& operator=(Any&&);
  template <class U, class = std::enable_if_t<!same<rcvr<U>, Any>>> Any(U&&) { static_assert(!same<rcvr<U>, I<Any>> && sizeof(U), "WITNESS a same-type wrapper was taken by a converting constructor"); }
  template <class U, class = std::enable_if_t<!same<rcvr<U>, Any>>> Any& operator=(U&&) { static_assert(!same<rcvr<U>, I<Any>> && sizeof(U), "WITNESS a same-type wrapper was taken by a converting assignment"); return *this; }
};
inline void same_type_never_converts(I<Any>& l, const I<Any>& c, const I<Any>&& cr) {
  std::allocator<Any> a;
  I<Any> a1(l); I<Any> a2(c); I<Any> a3(static_cast<I<Any>&&>(l)); I<Any> a4(static_cast<const I<Any>&&>(cr));
  I<Any> b1(std::allocator_arg, a, l); I<Any> b2(std::allocator_arg, a, c); I<Any> b3(std::allocator_arg, a, static_cast<I<Any>&&>(l)); I<Any> b4(std::allocator_arg, a, static_cast<const I<Any>&&>(cr));
  I<Any> e1 = l; I<Any> e2 = c; I<Any> e3 = static_cast<I<Any>&&>(l);
  l = a1; l = c; l = static_cast<I<Any>&&>(a1); l = static_cast<const I<Any>&&>(cr);
  I<Any> g1{l}; I<Any> g2{c}; I<Any> g3{static_cast<I<Any>&&>(l)};
}
W("copy construction is implicit", implicit<I<Any>, const I<Any>&>);
W("copy construction from a non-const lvalue is implicit", implicit<I<Any>, I<Any>&>);
W("move construction is implicit", implicit<I<Any>, I<Any>>);

// Nothing the element cannot be built from.
template <class T, class U, bool Val> struct value_like {
  W("the value constructor takes part exactly when the element can be built from the argument", ctor<I<T>, U> == Val);
  W("the allocator-extended value constructor takes part exactly when the element can be built from the argument", ctor<I<T>, AA, std::allocator<T>, U> == Val && ctor<I<T>, const AA&, const std::allocator<T>&, U> == Val && ctor<I<T>, AA, std::allocator<char>, U> == Val);
  W("the value constructor needs a default constructible allocator", !ctor<I<T, AlNoDef<T>>, U>);
  W("the allocator-extended value constructor does not need a default constructible allocator", ctor<I<T, AlNoDef<T>>, AA, AlNoDef<T>, U> == Val);
  W("the value constructor is explicit", !implicit<I<T>, U> && !std::is_convertible<U, I<T>>::value);
  W("the allocator-extended value constructor is explicit", !implicit<I<T>, AA, std::allocator<T>, U>);
};
template <class T, bool Val, class... Us> struct in_place_like {
  W("the in-place constructor takes part exactly when the element can be built from the arguments", ctor<I<T>, VP_IP, Us...> == Val);
  W("the allocator-extended in-place constructor takes part exactly when the element can be built from the arguments", ctor<I<T>, AA, std::allocator<T>, VP_IP, Us...> == Val && ctor<I<T>, const AA&, const std::allocator<T>&, const VP_IP&, Us...> == Val && ctor<I<T>, AA, std::allocator<char>, VP_IP&, Us...> == Val);
  W("the in-place constructor needs a default constructible allocator", !ctor<I<T, AlNoDef<T>>, VP_IP, Us...>);
  W("the allocator-extended in-place constructor does not need a default constructible allocator", ctor<I<T, AlNoDef<T>>, AA, AlNoDef<T>, VP_IP, Us...> == Val);
#if VP_MODERN
  W("in-place constructors are explicit", !implicit<I<T>, VP_IP, Us...>);
  W("allocator-extended in-place constructors are explicit", !implicit<I<T>, AA, std::allocator<T>, VP_IP, Us...>);
#endif
};
#define V(T, U, B) template struct value_like<T, U, B>;
#if VP_MODERN
#define VC(T, U) V(T, U, (std::is_constructible<T, U>::value))
VC(int, int) VC(int, int&) VC(int, const int&) VC(int, double) VC(int, char*) VC(int, NoCommon) VC(int, ExplicitOnly)
VC(ExplicitOnly, int) VC(ExplicitOnly, NoCommon) VC(ExplicitOnly, ExplicitOnly&)
VC(LvOnly, NoCommon&) VC(LvOnly, NoCommon) VC(LvOnly, const NoCommon&)
VC(RvOnly, NoCommon) VC(RvOnly, NoCommon&) VC(RvOnly, const NoCommon&)
VC(MoveOnly, MoveOnly) VC(MoveOnly, MoveOnly&) VC(MoveOnly, const MoveOnly&)
VC(AssignNotCtor, NoCommon) VC(CtorNotAssign, NoCommon) VC(Inner, std::initializer_list<int>)
V(int, I<int>*, false) V(int, I<char*>, false) V(NoCommon, I<int>&, false)
W("another wrapper is an ordinary value when the element can be built from it", ctor<I<Any>, I<int>> && ctor<I<Any>, I<int>&>);
W("the element may itself be a wrapper", ctor<I<I<int>>, I<int>> && ctor<I<I<int>>, const I<int>&> && ctor<I<I<int>>, int>);
#else
V(int, int, true) V(int, int&, true) V(int, const int&, true) V(int, char*, false) V(int, NoCommon, false)
V(ExplicitOnly, ExplicitOnly, true) V(ExplicitOnly, NoCommon, false) V(NoCommon, I<int>&, false) V(int, I<char*>, false)
V(Inner, Inner, true) V(Inner, const Inner&, true)
#endif
template struct in_place_like<int, true>;
template struct in_place_like<int, true, int>;
template struct in_place_like<int, true, const double&>;
template struct in_place_like<int, false, NoCommon>;
template struct in_place_like<int, false, int, int>;
template struct in_place_like<Inner, true, int>;
template struct in_place_like<Inner, true, int&, char*>;
template struct in_place_like<Inner, false, int, int>;
template struct in_place_like<Inner, true, std::initializer_list<int>>;
template struct in_place_like<Inner, true, std::initializer_list<int>, char*>;
template struct in_place_like<Inner, true, std::initializer_list<int>&, char*>;
template struct in_place_like<Inner, false, std::initializer_list<int>, NoCommon>;
template struct in_place_like<Inner, false, std::initializer_list<char*>>;
template struct in_place_like<LvOnly, true, NoCommon&>;
template struct in_place_like<LvOnly, false, NoCommon>;
template struct in_place_like<LvOnly, false, const NoCommon&>;
template struct in_place_like<RvOnly, true, NoCommon>;
template struct in_place_like<RvOnly, false, NoCommon&>;
template struct in_place_like<MoveOnly, true, MoveOnly>;
template struct in_place_like<MoveOnly, false, MoveOnly&>;
template struct in_place_like<FromNothing, false>;
template struct in_place_like<ExplicitOnly, true, int>;

// in_place_t is a tag, never a value, however greedy the element is.
struct AnyTag {
  AnyTag(); AnyTag(const AnyTag&); AnyTag& operator=(const AnyTag&);
  template <class U, class = std::enable_if_t<!same<rcvr<U>, AnyTag>>> AnyTag(U&&) { static_assert(!same<rcvr<U>, VP_IP> && sizeof(U), "WITNESS the in-place tag was taken as a value for the element"); }
};
inline void w_tag_is_not_a_value(const VP_IP& c, VP_IP& l) {
  std::allocator<AnyTag> a;
  I<AnyTag> a1(VP_IP{}); I<AnyTag> a2(c); I<AnyTag> a3(l); I<AnyTag> b1(std::allocator_arg, a, VP_IP{}); I<AnyTag> b2(std::allocator_arg, a, c); I<AnyTag> b3(std::allocator_arg, a, l);
}
struct AnyNoDef {
  AnyNoDef(const AnyNoDef&); AnyNoDef& operator=(const AnyNoDef&);
  template <class U, class = std::enable_if_t<!same<rcvr<U>, AnyNoDef>>> AnyNoDef(U&&);
};
W("the in-place tag alone asks for default construction, not for a value", !ctor<I<AnyNoDef>, VP_IP> && !ctor<I<AnyNoDef>, VP_IP&> && !ctor<I<AnyNoDef>, const VP_IP&> && !ctor<I<AnyNoDef>, const VP_IP> && ctor<I<AnyNoDef>, VP_IP, int> && ctor<I<AnyNoDef>, VP_IP, VP_IP>);
W("the in-place tag alone asks for default construction, not for a value (extended)", !ctor<I<AnyNoDef>, AA, std::allocator<AnyNoDef>, VP_IP> && !ctor<I<AnyNoDef>, AA, std::allocator<AnyNoDef>, VP_IP&> && !ctor<I<AnyNoDef>, AA, std::allocator<AnyNoDef>, const VP_IP&> && ctor<I<AnyNoDef>, AA, std::allocator<AnyNoDef>, VP_IP, int>);
#if !VP_MODERN
W("in-place constructors are explicit", !implicit<I<int>, VP_IP> && !implicit<I<int>, VP_IP, int> && !implicit<I<Inner>, VP_IP, int, char*>);
#endif
#if VP_MODERN
struct Two { Two(int, char*); Two(const Two&); Two& operator=(const Two&); };
struct TwoNoAssign { TwoNoAssign(int, char*); TwoNoAssign(const TwoNoAssign&); TwoNoAssign& operator=(const TwoNoAssign&) = delete; };
W("braced arguments build the element", brace_ctor_<void, I<Two>, int, char*>::value && brace_ctor_<void, I<std::vector<int>>, int, int, int>::value && brace_ctor_<void, I<int>, int>::value && !brace_ctor_<void, I<Two>, char*, int>::value && !brace_ctor_<void, I<Two, AlNoDef<Two>>, int, char*>::value);
W("braced arguments build the element (extended)", brace_ext_<void, I<Two>, int, char*>::value && brace_ext_<void, I<Two, AlNoDef<Two>>, int, char*>::value && brace_ext_<void, I<std::vector<int>>, int, int, int>::value && !brace_ext_<void, I<Two>, char*, int>::value);
W("braced arguments assign to the element", brace_set_<void, I<Two>, int, char*>::value && brace_set_<void, I<Two, AlNoDef<Two>>, int, char*>::value && brace_set_<void, I<std::vector<int>>, int, int, int>::value && brace_set_<void, I<int>, int>::value && !brace_set_<void, I<Two>, char*, int>::value && !brace_set_<void, I<TwoNoAssign>, int, char*>::value);
#endif
// A braced list, which only the constructors naming an initializer_list take.
template <class V, class T, class A, class... Us> struct braced_ : std::false_type {};
template <class T, class A, class... Us> struct braced_<void_v<decltype(I<T, A>(dv<const VP_IP&>(), {dv<int>(), dv<int>()}, dv<Us>()...))>, T, A, Us...> : std::true_type {};
template <class V, class T, class A, class Aarg, class... Us> struct braced_ext_ : std::false_type {};
template <class T, class A, class Aarg, class... Us> struct braced_ext_<void_v<decltype(I<T, A>(std::allocator_arg, dv<Aarg>(), dv<const VP_IP&>(), {dv<int>(), dv<int>()}, dv<Us>()...))>, T, A, Aarg, Us...> : std::true_type {};
template <class T, bool Val, class... Us> struct braced_like {
  W("a braced list reaches the in-place constructor exactly when the element can be built from it", braced_<void, T, std::allocator<T>, Us...>::value == Val);
  W("a braced list reaches the allocator-extended in-place constructor exactly when the element can be built from it", braced_ext_<void, T, std::allocator<T>, std::allocator<T>, Us...>::value == Val && braced_ext_<void, T, std::allocator<T>, std::allocator<T>&, Us...>::value == Val && braced_ext_<void, T, std::allocator<T>, const std::allocator<T>&, Us...>::value == Val && braced_ext_<void, T, std::allocator<T>, std::allocator<char>, Us...>::value == Val);
  W("in-place construction from a braced list needs a default constructible allocator", !braced_<void, T, AlNoDef<T>, Us...>::value);
  W("allocator-extended in-place construction from a braced list does not need a default constructible allocator", braced_ext_<void, T, AlNoDef<T>, const AlNoDef<T>&, Us...>::value == Val);
};
template struct braced_like<Inner, true>; template struct braced_like<Inner, true, char*>; template struct braced_like<Inner, false, NoCommon>; template struct braced_like<Inner, false, char*, int>; template struct braced_like<int, false>; template struct braced_like<NoCommon, false>;
struct ListLv { ListLv(std::initializer_list<int>&); ListLv(std::initializer_list<int>&, char*); ListLv(const ListLv&); };
struct ListRv { ListRv(std::initializer_list<int>&&); ListRv(std::initializer_list<int>&&, char*); ListRv(const ListRv&); };
template struct braced_like<ListLv, true>; template struct braced_like<ListLv, true, char*>;
W("a list is passed on as an lvalue", !braced_<void, ListRv, std::allocator<ListRv>>::value && !braced_<void, ListRv, std::allocator<ListRv>, char*>::value && !braced_ext_<void, ListRv, std::allocator<ListRv>, std::allocator<ListRv>, char*>::value);
template struct braced_like<std::vector<int>, true>; template struct braced_like<std::vector<int>, true, std::allocator<int>>; template struct braced_like<std::vector<char*>, false>;
// An initializer_list argument is passed on as an lvalue or by value, with the
// other arguments keeping their category.
struct IlRv { IlRv(); IlRv(std::initializer_list<int>, NoCommon&&); IlRv(const IlRv&); };
struct IlLv { IlLv(); IlLv(std::initializer_list<int>, NoCommon&); IlLv(const IlLv&); };
template struct in_place_like<IlRv, true, std::initializer_list<int>, NoCommon>;
template struct in_place_like<IlRv, false, std::initializer_list<int>, NoCommon&>;
template struct in_place_like<IlRv, false, std::initializer_list<int>, const NoCommon&>;
template struct in_place_like<IlLv, true, std::initializer_list<int>, NoCommon&>;
template struct in_place_like<IlLv, false, std::initializer_list<int>, NoCommon>;
template struct in_place_like<IlLv, false, std::initializer_list<int>, const NoCommon&>;
template struct in_place_like<int, false, std::initializer_list<int>, int>;
template struct in_place_like<NoCommon, false, std::initializer_list<int>>;
template struct in_place_like<ExplicitOnly, false, NoCommon>;
template struct in_place_like<ExplicitOnly, false, char*>;
template struct in_place_like<RvOnly, false, const NoCommon&>;
template struct in_place_like<MoveOnly, false, const MoveOnly&>;
template struct in_place_like<MoveOnly, true>;
template struct in_place_like<I<int>, true, const I<int>&>;
template struct in_place_like<I<int>, true, VP_IP, int>;

W("default construction needs a default constructible allocator", !ctor<I<int, AlNoDef<int>>> && ctor<I<int>>);
W("allocator-only construction does not need a default constructible allocator", ctor<I<int, AlNoDef<int>>, AA, AlNoDef<int>>);
W("an allocator is not a value", !ctor<I<NoCommon>, std::allocator<NoCommon>>);
W("copy and move do not need a default constructible allocator", ctor<I<int, AlNoDef<int>>, const I<int, AlNoDef<int>>&> && ctor<I<int, AlNoDef<int>>, I<int, AlNoDef<int>>>);
W("wrappers with another allocator type are not converted implicitly", !std::is_convertible<I<int, AlNoDef<int>>, I<int>>::value && !ctor<I<int>, I<int, AlNoDef<int>>>);
W("wrappers with another allocator type are not assigned", !std::is_assignable<I<int>&, I<int, AlNoDef<int>>>::value);
#if VP_MODERN
W("default construction is explicit", !implicit<I<int>>);
W("allocator-only construction is explicit", !implicit<I<int>, AA, std::allocator<int>>);
W("allocator-extended value construction is explicit", !implicit<I<int>, AA, std::allocator<int>, int>);
W("a rebindable allocator of another type does not deduce as a value", !ctor<I<int>, AA, NoCommon>);
#endif
W("copy and move with an allocator are available", ctor<I<int>, AA, std::allocator<int>, const I<int>&> && ctor<I<int>, AA, std::allocator<int>, I<int>&> && ctor<I<int>, AA, std::allocator<int>, I<int>>);
W("copy and move with an allocator are implicit", implicit<I<int>, AA, std::allocator<int>, const I<int>&> && implicit<I<int>, AA, std::allocator<int>, I<int>>);

template <class T, class U> struct assign_like {
  static constexpr bool want = std::is_constructible<T, U>::value && std::is_assignable<T&, U>::value;
  W("converting assignment takes part exactly when the element can be both built and assigned from the argument", std::is_assignable<I<T>&, U>::value == want);
  W("converting assignment does not depend on the allocator", std::is_assignable<I<T, AlNoDef<T>>&, U>::value == want);
};
#define AS(T, U) template struct assign_like<T, U>;
AS(int, int) AS(int, int&) AS(int, const int&) AS(int, double) AS(int, NoCommon) AS(int, char*) AS(int, I<int>*) AS(LvOnly, NoCommon) AS(LvOnly, const NoCommon&) AS(RvOnly, NoCommon&) AS(RvOnly, const NoCommon&) AS(RvLike, NoCommon) AS(RvLike, NoCommon&) AS(RvLike, const NoCommon&)
AS(AssignNotCtor, NoCommon) AS(CtorNotAssign, NoCommon) AS(MoveOnly, MoveOnly) AS(MoveOnly, MoveOnly&) AS(Any, int) AS(Any, I<int>) AS(Any, I<int>&) AS(int, I<char*>) AS(NoCommon, int)
struct Loose { Loose(); explicit Loose(int); void operator=(int); void operator=(const NoCommon&); explicit Loose(const NoCommon&); Loose(const Loose&); void operator=(const Loose&); };
AS(Loose, int) AS(Loose, const NoCommon&) AS(Loose, NoCommon) AS(Loose, Loose) AS(Loose, const Loose&) AS(Loose, char*) AS(Loose, Loose&)
#if VP_MODERN
VC(Loose, int) VC(Loose, const NoCommon&) VC(Loose, Loose&) VC(Loose, char*)
#endif
template <class T> struct assign_result { W("assignment gives a reference to the assigned wrapper", same<decltype(dv<I<T>&>() = dv<T>()), I<T>&> && same<decltype(dv<I<T>&>() = dv<const I<T>&>()), I<T>&> && same<decltype(dv<I<T>&>() = dv<I<T>>()), I<T>&>); };
template struct assign_result<int>; template struct assign_result<Any>; template struct assign_result<Inner>;

#if VP_MODERN || __cplusplus >= 201703L
W("deduction from a value gives that type", same<decltype(xyz::indirect(1)), I<int>>);
W("deduction from an lvalue drops the reference", same<decltype(xyz::indirect(dv<long&>())), I<long>>);
W("deduction from a const lvalue drops const", same<decltype(xyz::indirect(dv<const NoCommon&>())), I<NoCommon>>);
#if VP_MODERN
W("deduction from an array decays", same<decltype(xyz::indirect(dv<char(&)[3]>())), I<char*>>);
#endif
W("deduction with an allocator rebinds it", same<decltype(xyz::indirect(std::allocator_arg, dv<Al<char, true, false, true, false>>(), 1)), I<int, Al<int, true, false, true, false>>>);
W("deduction with an allocator of the same type keeps it", same<decltype(xyz::indirect(std::allocator_arg, dv<Al<int, true, false, true, false>&>(), dv<const int&>())), I<int, Al<int, true, false, true, false>>>);
W("deduction with std::allocator", same<decltype(xyz::indirect(std::allocator_arg, std::allocator<void*>(), 2.0)), I<double>>);
template <template <class> class L, class Other, class Val> struct ctad_row {
  using D = rcvr<Val>;
  using R = typename std::allocator_traits<L<Other>>::template rebind_alloc<D>;
  W("deduction with an allocator rebinds that allocator", same<decltype(xyz::indirect(std::allocator_arg, dv<L<Other>>(), dv<Val>())), I<D, R>>);
  W("deduction with an allocator lvalue rebinds that allocator", same<decltype(xyz::indirect(std::allocator_arg, dv<const L<Other>&>(), dv<Val>())), I<D, R>>);
};
template <class Other, class Val> struct ctad_rows { ctad_row<std::allocator, Other, Val> a; ctad_row<AlNoDef, Other, Val> b; ctad_row<AlEmpty, Other, Val> c; ctad_row<AlFinal, Other, Val> d; ctad_row<AlRigid, Other, Val> f; };
#define CT(O, V) template struct ctad_rows<O, V>;
CT(int, int) CT(int, int&) CT(int, const int&) CT(char, int) CT(void*, NoCommon) CT(NoCommon, NoCommon&) CT(NoCommon, const NoCommon) CT(long, Any&) CT(Inner, const Inner&) CT(int, double (*)(int)) CT(char, Any)
W("deduction from a wrapper copies it", same<decltype(xyz::indirect(dv<const I<int, AlNoDef<int>>&>())), I<int, AlNoDef<int>>> && same<decltype(xyz::indirect(dv<I<int>>())), I<int>>);
#endif
#if VP_MODERN
template <class T> struct HashOn { template <class U> static auto t(int) -> decltype(std::hash<U>{}(dv<const U&>()), Bool<true>{}); template <class U> static Bool<false> t(...); static constexpr bool value = decltype(t<T>(0))::value; };
W("hash is enabled for hashable elements only", HashOn<I<int>>::value && !HashOn<I<NoCommon>>::value && HashOn<I<int, AlNoDef<int>>>::value);
#endif

#else  // ------------------------------------------------------------ polymorphic
struct B { B(); B(int); B(const B&); virtual ~B(); };
struct D : B { D(); D(int, char*); D(std::initializer_list<int>, char*); };
struct DMoveOnly : B { DMoveOnly(DMoveOnly&&); };
struct DPrivate : private B {};
struct Stranger { operator B() const; Stranger(const Stranger&); };
struct MD : NoCommon, D {};
struct B2 : B {};
template <class T, class A = std::allocator<T>> using P = xyz::polymorphic<T, A>;

template <class T, class U, bool Val> struct value_like {
  W("the value constructor takes part exactly for copyable types derived from T", ctor<P<T>, U> == Val);
  W("the allocator-extended value constructor takes part exactly for copyable types derived from T", ctor<P<T>, AA, std::allocator<T>, U> == Val && ctor<P<T>, const AA&, const std::allocator<T>&, U> == Val && ctor<P<T>, AA, std::allocator<char>, U> == Val);
  W("the value constructor needs a default constructible allocator", !ctor<P<T, AlNoDef<T>>, U>);
  W("the allocator-extended value constructor does not need a default constructible allocator", ctor<P<T, AlNoDef<T>>, AA, AlNoDef<T>, U> == Val);
  W("the value constructor is explicit", !implicit<P<T>, U> && !std::is_convertible<U, P<T>>::value);
  W("the allocator-extended value constructor is explicit", !implicit<P<T>, AA, std::allocator<T>, U>);
  W("values are not assigned directly", !std::is_assignable<P<T>&, U>::value);
};
#define V(T, U, B) template struct value_like<T, U, B>;
V(B, B, true) V(B, B&, true) V(B, const B&, true) V(B, D, true) V(B, D&, true) V(B, const D&, true) V(B, const D&&, true) V(B, MD, true) V(B, MD&, true)
V(B, int, false) V(B, Stranger, false) V(B, const Stranger&, false) V(B, NoCommon, false) V(B, NoCommon&, false) V(B, DMoveOnly, false) V(B, DMoveOnly&, false)
V(D, B, false) V(D, B&, false) V(D, D, true) V(B, P<D>, false) V(B, P<D>&, false) V(B, P<B>*, false) V(B, std::unique_ptr<B>, false)
#if VP_MODERN
V(B, DPrivate, false) V(B, DPrivate&, false)
#endif
template <class T, class U, bool Val, class... Us> struct in_place_like {
  W("the in-place constructor takes part exactly for copyable derived types constructible from the arguments", ctor<P<T>, vp_ipt<U>, Us...> == Val);
  W("the allocator-extended in-place constructor takes part exactly for copyable derived types constructible from the arguments", ctor<P<T>, AA, std::allocator<T>, vp_ipt<U>, Us...> == Val && ctor<P<T>, const AA&, const std::allocator<T>&, const vp_ipt<U>&, Us...> == Val && ctor<P<T>, AA, std::allocator<char>, vp_ipt<U>&, Us...> == Val);
  W("the in-place constructor needs a default constructible allocator", !ctor<P<T, AlNoDef<T>>, vp_ipt<U>, Us...>);
  W("the allocator-extended in-place constructor does not need a default constructible allocator", ctor<P<T, AlNoDef<T>>, AA, AlNoDef<T>, vp_ipt<U>, Us...> == Val);
#if VP_MODERN
  W("in-place constructors are explicit", !implicit<P<T>, vp_ipt<U>, Us...>);
  W("allocator-extended in-place constructors are explicit", !implicit<P<T>, AA, std::allocator<T>, vp_ipt<U>, Us...>);
#endif
};
template struct in_place_like<B, B, true>;
template struct in_place_like<B, B, true, int>;
template struct in_place_like<B, B, false, char*>;
template struct in_place_like<B, D, true>;
template struct in_place_like<B, D, true, int, char*>;
template struct in_place_like<B, D, true, int&, char*&>;
template struct in_place_like<B, D, false, int>;
template struct in_place_like<B, D, false, char*, int>;
template struct in_place_like<B, D, true, std::initializer_list<int>, char*>;
template struct in_place_like<B, D, false, std::initializer_list<int>>;
template struct in_place_like<B, D, false, std::initializer_list<char>, char*>;
template struct in_place_like<B, D, true, const D&>;
template struct in_place_like<B, D, true, D>;
template struct in_place_like<B, MD, true, const MD&>;
template struct in_place_like<B, DMoveOnly, false, DMoveOnly>;
template struct in_place_like<B, Stranger, false, const Stranger&>;
#if !VP_MODERN
W("in-place constructors are explicit", !implicit<P<B>, vp_ipt<D>> && !implicit<P<B>, vp_ipt<B>, int>);
struct NoDefault { NoDefault(int); NoDefault(const NoDefault&); virtual ~NoDefault(); };
struct Abstract { Abstract(); Abstract(const Abstract&); virtual ~Abstract(); virtual void f() = 0; };
struct Hidden { Hidden(const Hidden&); virtual ~Hidden(); protected: Hidden(); };
W("default construction takes part exactly when T can be default constructed", ctor<P<B>> && ctor<P<D>> && !ctor<P<NoDefault>> && !ctor<P<Abstract>> && !ctor<P<Hidden>>);
W("allocator-only construction takes part exactly when T can be default constructed", ctor<P<B>, AA, std::allocator<B>> && !ctor<P<NoDefault>, AA, std::allocator<NoDefault>> && !ctor<P<Abstract>, AA, std::allocator<Abstract>> && !ctor<P<Hidden>, AA, std::allocator<Hidden>>);
#endif
// A braced list, which only the constructors naming an initializer_list take.
template <class V, class T, class U, class A, class... Us> struct braced_ : std::false_type {};
template <class T, class U, class A, class... Us> struct braced_<void_v<decltype(P<T, A>(dv<const vp_ipt<U>&>(), {dv<int>(), dv<int>()}, dv<Us>()...))>, T, U, A, Us...> : std::true_type {};
template <class V, class T, class U, class A, class Aarg, class... Us> struct braced_ext_ : std::false_type {};
template <class T, class U, class A, class Aarg, class... Us> struct braced_ext_<void_v<decltype(P<T, A>(std::allocator_arg, dv<Aarg>(), dv<const vp_ipt<U>&>(), {dv<int>(), dv<int>()}, dv<Us>()...))>, T, U, A, Aarg, Us...> : std::true_type {};
template <class T, class U, bool Val, class... Us> struct braced_like {
  W("a braced list reaches the in-place constructor exactly for copyable derived types constructible from it", braced_<void, T, U, std::allocator<T>, Us...>::value == Val);
  W("a braced list reaches the allocator-extended in-place constructor exactly for copyable derived types constructible from it", braced_ext_<void, T, U, std::allocator<T>, std::allocator<T>, Us...>::value == Val && braced_ext_<void, T, U, std::allocator<T>, std::allocator<T>&, Us...>::value == Val && braced_ext_<void, T, U, std::allocator<T>, const std::allocator<T>&, Us...>::value == Val && braced_ext_<void, T, U, std::allocator<T>, std::allocator<char>, Us...>::value == Val);
  W("in-place construction from a braced list needs a default constructible allocator", !braced_<void, T, U, AlNoDef<T>, Us...>::value);
  W("allocator-extended in-place construction from a braced list does not need a default constructible allocator", braced_ext_<void, T, U, AlNoDef<T>, const AlNoDef<T>&, Us...>::value == Val);
};
template <class V, class To, class Tag, class... Us> struct braced_implicit_ : std::false_type {};
template <class To, class Tag, class... Us> struct braced_implicit_<void_v<decltype(sink<To>({dv<const Tag&>(), {dv<int>(), dv<int>()}, dv<Us>()...}))>, To, Tag, Us...> : std::true_type {};
W("in-place construction from a braced list is explicit", !braced_implicit_<void, P<B>, vp_ipt<D>, char*>::value);
struct ListLv : B { ListLv(std::initializer_list<int>&); ListLv(std::initializer_list<int>&, char*); ListLv(const ListLv&); };
struct ListRv : B { ListRv(std::initializer_list<int>&&); ListRv(std::initializer_list<int>&&, char*); ListRv(const ListRv&); };
template struct braced_like<B, ListLv, true>; template struct braced_like<B, ListLv, true, char*>; template struct braced_like<B, ListRv, false>; template struct braced_like<B, ListRv, false, char*>;
template struct braced_like<B, D, true, char*>; template struct braced_like<B, D, false>; template struct braced_like<B, D, false, int>; template struct braced_like<B, B, false>;
// Each clause on its own: everything holds but one condition.
template <class Base> struct Full : Base { Full(); Full(int); Full(std::initializer_list<int>); Full(std::initializer_list<int>, char*); Full(const Full&); };
template <class Base> struct NoCopy : Base { NoCopy(); NoCopy(int); NoCopy(std::initializer_list<int>); NoCopy(std::initializer_list<int>, char*); NoCopy(const NoCopy&) = delete; };
template <class Base> struct OnlyMove : Base { OnlyMove(); OnlyMove(int); OnlyMove(std::initializer_list<int>); OnlyMove(std::initializer_list<int>, char*); OnlyMove(OnlyMove&&); };
template <class Base> struct LvCopy : Base { LvCopy(); LvCopy(int); LvCopy(std::initializer_list<int>); LvCopy(std::initializer_list<int>, char*); LvCopy(LvCopy&); };
template <class Base> struct IlOnly : Base { IlOnly(std::initializer_list<int>); IlOnly(std::initializer_list<int>, char*); IlOnly(const IlOnly&); };
template <class U, bool V> struct all_forms {
  static constexpr bool ok = (in_place_like<B, U, V>{}, in_place_like<B, U, V, int>{}, in_place_like<B, U, V, std::initializer_list<int>>{}, in_place_like<B, U, V, std::initializer_list<int>, char*>{}, in_place_like<B, U, V, std::initializer_list<int>&, char*&>{}, true);
};
template <class U, bool V> struct all_braced { static constexpr bool ok = (braced_like<B, U, V>{}, braced_like<B, U, V, char*>{}, braced_like<B, U, V, char*&>{}, braced_like<B, U, false, int>{}, true); };
template <class Base> struct Formal : Base { Formal(); explicit Formal(int); explicit Formal(std::initializer_list<int>); explicit Formal(std::initializer_list<int>, char*); explicit Formal(const Formal&); };
template <class Base> struct CopyNotMove : Base { CopyNotMove(); CopyNotMove(int); CopyNotMove(std::initializer_list<int>); CopyNotMove(std::initializer_list<int>, char*); CopyNotMove(const CopyNotMove&); CopyNotMove(CopyNotMove&&) = delete; };
template struct all_forms<Formal<B>, true>; template struct all_forms<Formal<D>, true>; template struct all_forms<CopyNotMove<D>, true>; template struct all_braced<Formal<D>, true>; template struct all_braced<CopyNotMove<B>, true>;
V(B, Formal<B>, true) V(B, Formal<D>&, true) V(B, const Formal<D>&, true) V(B, CopyNotMove<B>&, true) V(B, const CopyNotMove<D>&, true)
#if VP_MODERN
V(B, CopyNotMove<B>, false)
#endif
template struct all_braced<Full<B>, true>; template struct all_braced<Full<D>, true>; template struct all_braced<IlOnly<B>, true>; template struct all_braced<NoCopy<B>, false>; template struct all_braced<NoCopy<D>, false>; template struct all_braced<OnlyMove<B>, false>; template struct all_braced<LvCopy<B>, false>; template struct all_braced<Full<NoCommon>, false>;
template struct all_forms<Full<B>, true>;
template struct all_forms<Full<D>, true>;
template struct all_forms<NoCopy<B>, false>;
template struct all_forms<NoCopy<D>, false>;
template struct all_forms<OnlyMove<B>, false>;
template struct all_forms<LvCopy<B>, false>;
template struct all_forms<Full<NoCommon>, false>;
template struct all_forms<NoCopy<NoCommon>, false>;
template struct in_place_like<B, IlOnly<B>, true, std::initializer_list<int>>;
template struct in_place_like<B, IlOnly<B>, true, std::initializer_list<int>, char*>;
template struct in_place_like<B, IlOnly<B>, false>;
template struct in_place_like<B, IlOnly<B>, false, int>;
template struct in_place_like<B, IlOnly<B>, false, std::initializer_list<int>, int>;
template struct in_place_like<B, IlOnly<B>, false, std::initializer_list<char>>;
template struct in_place_like<B, IlOnly<B>, false, std::initializer_list<int>, char*, char*>;
V(B, Full<B>, true) V(B, const Full<D>&, true) V(B, Full<D>&, true) V(B, NoCopy<B>, false) V(B, NoCopy<B>&, false) V(B, const NoCopy<D>&, false) V(B, OnlyMove<B>, false) V(B, OnlyMove<B>&, false) V(B, LvCopy<B>&, false) V(B, LvCopy<B>, false) V(B, Full<NoCommon>, false) V(B, const Full<NoCommon>&, false)
#if VP_MODERN
template struct in_place_like<B, const Full<B>, false, int>;
template struct in_place_like<B, const Full<B>, false, std::initializer_list<int>>;
template struct in_place_like<B, volatile Full<B>, false>;
template struct in_place_like<B, Full<B>&, false, Full<B>&>;
struct FullPrivate : private B { FullPrivate(); FullPrivate(int); FullPrivate(std::initializer_list<int>); FullPrivate(std::initializer_list<int>, char*); FullPrivate(const FullPrivate&); };
struct FullTwice : D, B2 { FullTwice(); FullTwice(int); FullTwice(std::initializer_list<int>); FullTwice(std::initializer_list<int>, char*); FullTwice(const FullTwice&); };
template struct all_forms<FullPrivate, false>;
template struct all_forms<FullTwice, false>;
V(B, FullPrivate, false) V(B, FullTwice, false) V(B, const FullTwice&, false)
#endif
template struct in_place_like<B, NoCommon, false>;
template struct in_place_like<B, int, false, int>;
template struct in_place_like<D, B, false>;
template struct in_place_like<D, B, false, int>;
#if VP_MODERN
template struct in_place_like<B, const D, false>;
struct PTwo : B { PTwo(int, char*); PTwo(const PTwo&); };
struct PTwoNoCopy : B { PTwoNoCopy(int, char*); PTwoNoCopy(const PTwoNoCopy&) = delete; };
W("braced arguments build an object of the element type itself", brace_ctor_<void, P<PTwo>, int, char*>::value && !brace_ctor_<void, P<PTwo>, char*, int>::value && !brace_ctor_<void, P<B>, int, char*>::value && !brace_ctor_<void, P<PTwo, AlNoDef<PTwo>>, int, char*>::value && !brace_ctor_<void, P<PTwoNoCopy>, int, char*>::value);
W("braced arguments build an object of the element type itself (extended)", brace_ext_<void, P<PTwo>, int, char*>::value && brace_ext_<void, P<PTwo, AlNoDef<PTwo>>, int, char*>::value && !brace_ext_<void, P<PTwo>, char*, int>::value && !brace_ext_<void, P<PTwoNoCopy>, int, char*>::value);
template struct in_place_like<B, D&, false, D&>;
template struct in_place_like<B, const D&, false, D&>;
template struct in_place_like<B, DPrivate, false>;
#endif
W("default construction needs a default constructible allocator", !ctor<P<B, AlNoDef<B>>> && ctor<P<B>>);
W("allocator-only construction does not need a default constructible allocator", ctor<P<B, AlNoDef<B>>, AA, AlNoDef<B>>);
W("copy and move do not need a default constructible allocator", ctor<P<B, AlNoDef<B>>, const P<B, AlNoDef<B>>&> && ctor<P<B, AlNoDef<B>>, P<B, AlNoDef<B>>>);
W("wrappers with another allocator type are not converted", !ctor<P<B>, P<B, AlNoDef<B>>> && !std::is_assignable<P<B>&, P<B, AlNoDef<B>>>::value);
W("wrappers of a derived type are not converted", !ctor<P<B>, P<D>> && !ctor<P<B>, const P<D>&> && !std::is_assignable<P<B>&, P<D>>::value);
W("an allocator is not a value", !ctor<P<B>, std::allocator<B>>);
#if VP_MODERN
W("default construction is explicit", !implicit<P<B>>);
W("allocator-only construction is explicit", !implicit<P<B>, AA, std::allocator<B>>);
#endif
W("copy and move construction are implicit", implicit<P<B>, const P<B>&> && implicit<P<B>, P<B>&> && implicit<P<B>, P<B>>);
W("copy and move with an allocator are available", ctor<P<B>, AA, std::allocator<B>, const P<B>&> && ctor<P<B>, AA, std::allocator<B>, P<B>&> && ctor<P<B>, AA, std::allocator<B>, P<B>>);
W("copy and move with an allocator are implicit", implicit<P<B>, AA, std::allocator<B>, const P<B>&> && implicit<P<B>, AA, std::allocator<B>, P<B>>);
W("assignment gives a reference to the assigned wrapper", same<decltype(dv<P<B>&>() = dv<const P<B>&>()), P<B>&> && same<decltype(dv<P<B>&>() = dv<P<B>>()), P<B>&>);

// A wrapper of the same type must be copied or moved even where T is a base
// of the wrapper and so the wrapper would qualify as a value.
struct Probe {
  Probe(); Probe(const Probe&); Probe(Probe&&);
  template <class U, class = std::enable_if_t<!std::is_base_of<Probe, rcvr<U>>::value>> Probe(U&&) { static_assert(!same<rcvr<U>, P<Probe>> && sizeof(U), "WITNESS a same-type wrapper was taken by a converting constructor"); }
};
inline void same_type_never_converts(P<Probe>& l, const P<Probe>& c, const P<Probe>&& cr) {
  std::allocator<Probe> a;
  P<Probe> a1(l); P<Probe> a2(c); P<Probe> a3(static_cast<P<Probe>&&>(l)); P<Probe> a4(static_cast<const P<Probe>&&>(cr));
  P<Probe> b1(std::allocator_arg, a, l); P<Probe> b2(std::allocator_arg, a, c); P<Probe> b3(std::allocator_arg, a, static_cast<P<Probe>&&>(l)); P<Probe> b4(std::allocator_arg, a, static_cast<const P<Probe>&&>(cr));
  l = a1; l = c; l = static_cast<P<Probe>&&>(a1); l = static_cast<const P<Probe>&&>(cr);
}
#endif
}  // namespace vpw
