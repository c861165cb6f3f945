// P12: constness and value category propagate to the owned object.
#include "wit.h"
namespace vpw {
struct El { int m; void mut(); };
struct Abs { virtual void f() = 0; virtual ~Abs(); Abs(); };

template <class T, class A>
struct access_of {
  using Wr = VP_WR<T, A>;
  using tr = std::allocator_traits<A>;
  W("operator* on a non-const lvalue gives T&", same<decltype(*dv<Wr&>()), T&>);
  W("operator* on a const lvalue gives const T&", same<decltype(*dv<const Wr&>()), const T&>);
#if VP_POLY
  W("operator* on a non-const rvalue gives mutable access to T", same<std::remove_reference_t<decltype(*dv<Wr&&>())>, T>);
  W("operator* on a const rvalue gives const access", same<std::remove_reference_t<decltype(*dv<const Wr&&>())>, const T>);
#else
  W("operator* on a non-const rvalue gives T&&", same<decltype(*dv<Wr&&>()), T&&>);
  W("operator* on a const rvalue gives const T&&", same<decltype(*dv<const Wr&&>()), const T&&>);
#endif
  W("operator-> on a non-const lvalue gives the allocator's pointer", same<decltype(dv<Wr&>().operator->()), typename tr::pointer>);
  W("operator-> on a const lvalue gives the allocator's const_pointer", same<decltype(dv<const Wr&>().operator->()), typename tr::const_pointer>);
  W("operator-> on a const rvalue gives the allocator's const_pointer", same<decltype(dv<const Wr&&>().operator->()), typename tr::const_pointer>);
  W("operator-> on a non-const rvalue gives the allocator's pointer", same<decltype(dv<Wr&&>().operator->()), typename tr::pointer>);
  W("pointer is T*", same<typename Wr::pointer, T*>);
  W("const_pointer is const T*", same<typename Wr::const_pointer, const T*>);
  W("value_type is T", same<typename Wr::value_type, T>);
  W("allocator_type is A", same<typename Wr::allocator_type, A>);
  W("valueless_after_move gives bool", same<decltype(dv<const Wr&>().valueless_after_move()), bool>);
  W("get_allocator gives an allocator by value", same<decltype(dv<const Wr&>().get_allocator()), A>);
  W("a wrapper does not convert to its element's mutable reference", !std::is_convertible<const Wr&, T&>::value && !std::is_convertible<const Wr&, T*>::value);
  struct Member { Wr w; };
  W("a const owner of a wrapper member gives const access", same<decltype((*dv<const Member&>().w)), const T&> && same<decltype(dv<const Member&>().w.operator->()), const T*>);
  W("a mutable owner of a wrapper member gives mutable access", same<decltype((*dv<Member&>().w)), T&>);
};
template struct access_of<El, std::allocator<El>>;
template struct access_of<El, Al<El, false, false, false, false>>;
template struct access_of<El, Al<El, true, true, true, true>>;
template struct access_of<El, AlFinal<El>>;
#if VP_POLY
template struct access_of<Abs, std::allocator<Abs>>;
#else
template struct access_of<int, std::allocator<int>>;
template struct access_of<int*, AlNoDef<int*>>;
#endif
#if !VP_POLY
// swap and assignment never accept a const left operand
W("a const wrapper cannot be assigned", !std::is_assignable<const VP_WR<El>&, const El&>::value && !std::is_assignable<const VP_WR<El>&, VP_WR<El>>::value);
#endif
template <class V, class Wr> struct can_swap_ : std::false_type {};
template <class Wr> struct can_swap_<void_v<decltype(dv<Wr>().swap(dv<rcvr<Wr>&>()))>, Wr> : std::true_type {};
W("a const wrapper cannot be swapped", !can_swap_<void, const VP_WR<El>&>::value && can_swap_<void, VP_WR<El>&>::value);
}  // namespace vpw
