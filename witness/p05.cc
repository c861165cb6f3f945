// P05: noexcept specifications are exactly the documented ones.
#include "wit.h"
namespace vpw {
struct Throwing {  // nothing noexcept
  Throwing() noexcept(false); Throwing(const Throwing&) noexcept(false); Throwing(Throwing&&) noexcept(false);
  Throwing(int) noexcept(false);
  Throwing& operator=(const Throwing&) noexcept(false); Throwing& operator=(Throwing&&) noexcept(false);
  Throwing& operator=(int) noexcept(false);
  ~Throwing();
};
struct Calm {  // everything noexcept
  Calm() noexcept; Calm(const Calm&) noexcept; Calm(Calm&&) noexcept; Calm(int) noexcept;
  Calm& operator=(const Calm&) noexcept; Calm& operator=(Calm&&) noexcept; Calm& operator=(int) noexcept;
  ~Calm();
};
struct AngryDtor {
  AngryDtor(); AngryDtor(const AngryDtor&); AngryDtor& operator=(const AngryDtor&);
  ~AngryDtor() noexcept(false);
};

template <class T, class A>
struct noexcept_of {
  using Wr = VP_WR<T, A>;
  using tr = std::allocator_traits<A>;
  static constexpr bool MA = tr::propagate_on_container_move_assignment::value, SW = tr::propagate_on_container_swap::value, AE = tr::is_always_equal::value;
  W("operator* (lvalue) is noexcept", noexcept(*dv<Wr&>()));
  W("operator* (const lvalue) is noexcept", noexcept(*dv<const Wr&>()));
  W("operator* (rvalue) is noexcept", noexcept(*dv<Wr&&>()));
  W("operator* (const rvalue) is noexcept", noexcept(*dv<const Wr&&>()));
  W("operator-> is noexcept", noexcept(dv<Wr&>().operator->()));
  W("operator-> const is noexcept", noexcept(dv<const Wr&>().operator->()));
  W("valueless_after_move is noexcept", noexcept(dv<const Wr&>().valueless_after_move()));
  W("get_allocator is noexcept", noexcept(dv<const Wr&>().get_allocator()));
  W("destructor is noexcept", noexcept(dv<Wr&>().~Wr()));
  W("move assignment is noexcept exactly when the allocator propagates on move assignment or is always equal", noexcept(dv<Wr&>() = dv<Wr&&>()) == (MA || AE));
  W("swap member is noexcept exactly when the allocator propagates on swap or is always equal", noexcept(dv<Wr&>().swap(dv<Wr&>())) == (SW || AE));
  W("free swap is noexcept exactly when the allocator propagates on swap or is always equal", noexcept(swap(dv<Wr&>(), dv<Wr&>())) == (SW || AE));
  W("allocator-extended move construction is noexcept exactly when the allocator is always equal", noexcept(Wr(std::allocator_arg, dv<const A&>(), dv<Wr&&>())) == AE);
  W("move construction is noexcept", noexcept(Wr(dv<Wr&&>())) && std::is_nothrow_move_constructible<Wr>::value);
  W("copy assignment is not noexcept", !noexcept(dv<Wr&>() = dv<const Wr&>()));
  W("copy construction is not noexcept", !noexcept(Wr(dv<const Wr&>())));
  W("allocator-extended copy construction is not noexcept", !noexcept(Wr(std::allocator_arg, dv<const A&>(), dv<const Wr&>())));
#if !VP_POLY
  W("converting assignment is not noexcept", !noexcept(dv<Wr&>() = dv<T&&>()));
  W("converting assignment from an lvalue is not noexcept", !noexcept(dv<Wr&>() = dv<const T&>()));
#endif
  W("value construction is not noexcept", !noexcept(Wr(std::allocator_arg, dv<const A&>(), dv<T&&>())));
};
template <class T, class A> struct default_noexcept {
  using Wr = VP_WR<T, A>;
  W("default construction is not noexcept", !noexcept(Wr()));
  W("construction from a value is not noexcept", !noexcept(Wr(dv<const T&>())));
};
#define G(T, a, b, c, d) template struct noexcept_of<T, Al<T, a, b, c, d>>; template struct default_noexcept<T, Al<T, a, b, c, d>>;
#define G2(T, a, b) G(T, a, b, false, false) G(T, a, b, false, true) G(T, a, b, true, false) G(T, a, b, true, true)
#define GA(T) G2(T, false, false) G2(T, false, true) G2(T, true, false) G2(T, true, true)
GA(Throwing)
GA(Calm)
template <class T, class A> struct dtor_noexcept {
  using Wr = VP_WR<T, A>;
  W("destructor is noexcept whatever the element's destructor says", noexcept(dv<Wr&>().~Wr()) && std::is_nothrow_destructible<Wr>::value);
};
template struct dtor_noexcept<AngryDtor, std::allocator<AngryDtor>>;
template struct dtor_noexcept<AngryDtor, Al<AngryDtor, false, false, false, false>>;
template struct dtor_noexcept<AngryDtor, Al<AngryDtor, true, true, true, true>>;
#if !VP_POLY
GA(int)
#endif
template struct noexcept_of<Throwing, std::allocator<Throwing>>;
template struct noexcept_of<Calm, std::allocator<Calm>>;
template struct noexcept_of<Throwing, AlEmpty<Throwing>>;
template struct noexcept_of<Calm, AlNoDef<Calm>>;
#if __cplusplus >= 201703L
template struct noexcept_of<Throwing, std::pmr::polymorphic_allocator<Throwing>>;
template struct noexcept_of<Calm, std::pmr::polymorphic_allocator<Calm>>;
#endif
}  // namespace vpw
