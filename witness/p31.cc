// P31: an operation the element cannot support is rejected while compiling.
// Each case is compiled twice: with VP_OK the element supports the operation
// and the unit must be accepted, without it the unit must be rejected.
#include "wit.h"
namespace vpw {
template <class T> T&& mv(T& t) { return static_cast<T&&>(t); }
#if VP_POLY
#define IP(T) vp_ipt<T> {}
#else
#define IP(T) VP_IP {}
#endif
struct Full { Full(); explicit Full(int); Full(const Full&); Full(Full&&); Full& operator=(const Full&); Full& operator=(Full&&); friend bool operator==(const Full&, const Full&); friend bool operator!=(const Full&, const Full&); friend bool operator<(const Full&, const Full&); friend bool operator>(const Full&, const Full&); friend bool operator<=(const Full&, const Full&); friend bool operator>=(const Full&, const Full&); virtual ~Full(); };
struct MoveOnly { MoveOnly(); MoveOnly(MoveOnly&&); MoveOnly& operator=(MoveOnly&&); MoveOnly(const MoveOnly&) = delete; MoveOnly& operator=(const MoveOnly&) = delete; };
struct NoDefault { explicit NoDefault(int); NoDefault(const NoDefault&); NoDefault& operator=(const NoDefault&); };
struct Bare { Bare(); Bare(const Bare&); Bare& operator=(const Bare&); };
struct Abs { Abs(); Abs(const Abs&); virtual void f() = 0; virtual ~Abs(); };
struct Prot { Prot(); Prot(const Prot&); protected: ~Prot(); };
#ifdef VP_OK
#define PICK(good, bad) good
#else
#define PICK(good, bad) bad
#endif
template <class T> using Al0 = Al<T, false, false, false, false>;
// Two stateful allocators that convert to each other.
template <class T, int N> struct AlAny { using value_type = T; template <class U> struct rebind { using other = AlAny<U, N>; }; AlAny(); AlAny(const AlAny&) = default; AlAny& operator=(const AlAny&) = default; template <class U, int M> AlAny(const AlAny<U, M>&); template <class U> AlAny(const std::allocator<U>&); T* allocate(std::size_t); void deallocate(T*, std::size_t); friend bool operator==(const AlAny&, const AlAny&); friend bool operator!=(const AlAny&, const AlAny&); };
// Its construct accepts any arguments: only the element's own traits say what it supports.
template <class T, bool E = false> struct AlLax { using value_type = T; using is_always_equal = Bool<E>; template <class U> struct rebind { using other = AlLax<U, E>; }; AlLax(); template <class U> AlLax(const AlLax<U, E>&); T* allocate(std::size_t); void deallocate(T*, std::size_t); template <class U, class... As> void construct(U*, As&&...); friend bool operator==(const AlLax&, const AlLax&) { return false; } friend bool operator!=(const AlLax&, const AlLax&) { return true; } };
struct Fixed { Fixed(); Fixed(const Fixed&) = delete; Fixed& operator=(const Fixed&) = delete; };
#if VP_CASE == 1 && !VP_POLY   // copying a move-only element
using Wr = VP_WR<PICK(Full, MoveOnly)>; void w_copy(const Wr& c) { Wr x(c); }
#elif VP_CASE == 2 && !VP_POLY // copying a move-only element with an allocator
using Wr = VP_WR<PICK(Full, MoveOnly)>; void w_copy_alloc(const Wr& c, const Wr::allocator_type& a) { Wr x(std::allocator_arg, a, c); }
#elif VP_CASE == 3 && !VP_POLY // copy-assigning a move-only element
using Wr = VP_WR<PICK(Full, MoveOnly)>; void w_copy_assign(Wr& l, const Wr& c) { l = c; }
#elif VP_CASE == 4             // default construction without a default constructor
using Wr = VP_WR<PICK(Full, NoDefault)>; void w_default() { Wr x; }
#elif VP_CASE == 5             // the same with an allocator
using Wr = VP_WR<PICK(Full, NoDefault)>; void w_default_alloc(const Wr::allocator_type& a) { Wr x(std::allocator_arg, a); }
#elif VP_CASE == 6 && !VP_POLY // in-place construction from unsuitable arguments
using Wr = VP_WR<PICK(Full, Bare)>; void w_in_place() { Wr x(VP_IP{}, 1); }
#elif VP_CASE == 7 && !VP_POLY // comparing elements without comparison
using Wr = VP_WR<PICK(Full, Bare)>; bool w_equal(const Wr& l, const Wr& r) { return l == r; }
#elif VP_CASE == 8 && !VP_POLY // ordering elements without order
using Wr = VP_WR<PICK(Full, Bare)>; bool w_less(const Wr& l, const Wr& r) { return l < r; }
#elif VP_CASE == 9 && !VP_POLY // comparing with a value the element is not comparable to
using Wr = VP_WR<PICK(Full, Bare)>; bool w_equal_value(const Wr& l, const PICK(Full, Bare) & r) { return l == r; }
#elif VP_CASE == 10 && !VP_POLY // hashing elements without hash
using Wr = VP_WR<PICK(int, Bare)>; std::size_t w_hash(const Wr& x) { return std::hash<Wr>{}(x); }
#elif VP_CASE == 11 && VP_POLY // default construction of an abstract element
using Wr = VP_WR<PICK(Full, Abs)>; void w_abstract() { Wr x; }
#elif VP_CASE == 12 && VP_POLY // owning a type that is not derived from the element
using Wr = VP_WR<Full>; void w_unrelated(const PICK(Full, Bare) & b) { Wr x(b); }
#elif VP_CASE == 13 && VP_POLY // the same in place
using Wr = VP_WR<Full>; void w_unrelated_in_place() { Wr x(IP(PICK(Full, Bare))); }
#elif VP_CASE == 14 && VP_POLY // owning a derived type that cannot be copied
struct D1 : Full { D1(); D1(const D1&); }; struct D2 : Full { D2(); D2(const D2&) = delete; D2(D2&&); };
using Wr = VP_WR<Full>; void w_uncopyable() { Wr x(IP(PICK(D1, D2))); }
#elif VP_CASE == 15 && VP_POLY // converting between polymorphics
struct D1 : Full { D1(); D1(const D1&); };
using Wr = VP_WR<Full>; void w_convert(const VP_WR<PICK(Full, D1)>& o) { Wr x(o); }
#elif VP_CASE == 16            // swapping wrappers with different allocator types
using Wr = VP_WR<Full>; void w_swap(Wr& l, VP_WR<Full, PICK(std::allocator<Full>, AlEmpty<Full>)>& r) { l.swap(r); }
#elif VP_CASE == 17            // assigning from a wrapper with a different allocator type
using Wr = VP_WR<Full>; void w_assign(Wr& l, const VP_WR<Full, PICK(std::allocator<Full>, AlEmpty<Full>)>& r) { l = r; }
#elif VP_CASE == 18            // modifying a const wrapper
using Wr = VP_WR<Full>; void w_const(PICK(, const) Wr& l, const Wr& r) { l = r; }
#elif VP_CASE == 19            // moving from and swapping a const wrapper
using Wr = VP_WR<Full>; void w_swap_const(PICK(, const) Wr& l, Wr& r) { swap(l, r); }
#elif VP_CASE == 20            // copy assignment that must propagate an allocator which cannot be assigned
template <class T, bool P> struct AlStuck { using value_type = T; using propagate_on_container_copy_assignment = Bool<P>; template <class U> struct rebind { using other = AlStuck<U, P>; }; int i; explicit AlStuck(int); AlStuck(const AlStuck&) = default; template <class U> AlStuck(const AlStuck<U, P>&); AlStuck& operator=(const AlStuck&) = delete; T* allocate(std::size_t); void deallocate(T*, std::size_t); friend bool operator==(const AlStuck&, const AlStuck&); friend bool operator!=(const AlStuck&, const AlStuck&); };
using Wr = VP_WR<Full, AlStuck<Full, PICK(false, true)>>; void w_stuck(Wr& l, const Wr& r) { l = r; }
#elif VP_CASE == 21 && !VP_POLY // moving to another allocator an element that cannot be moved
struct Pinned { Pinned(); Pinned(const Pinned&) = delete; Pinned& operator=(const Pinned&) = delete; };
using Wr = VP_WR<PICK(Full, Pinned), Al0<PICK(Full, Pinned)>>; void w_pinned(Wr& m, const Wr::allocator_type& a) { Wr x(std::allocator_arg, a, mv(m)); }
#elif VP_CASE == 22 && !VP_POLY
struct Pinned { Pinned(); Pinned(const Pinned&) = delete; Pinned& operator=(const Pinned&) = delete; };
using Wr = VP_WR<PICK(Full, Pinned), Al0<PICK(Full, Pinned)>>; void w_pinned_assign(Wr& l, Wr& m) { l = mv(m); }
#elif VP_CASE == 23 && VP_POLY // comparing polymorphics
using Wr = VP_WR<Full>; bool w_compare(const Wr& l, const Wr& r) { return PICK(&l == &r, l == r); }
#elif VP_CASE == 24 && VP_POLY // initializer list for a derived type without such a constructor
struct D1 : Full { D1(std::initializer_list<int>); D1(const D1&); }; struct D2 : Full { D2(); D2(const D2&); };
using Wr = VP_WR<Full>; void w_ilist(std::initializer_list<int> l) { Wr x(IP(PICK(D1, D2)), l); }
#elif VP_CASE == 25 && !VP_POLY
struct D1 { D1(std::initializer_list<int>); D1(const D1&); };
using Wr = VP_WR<PICK(D1, Bare)>; void w_ilist(std::initializer_list<int> l) { Wr x(VP_IP{}, l); }
#elif VP_CASE == 26            // building from a wrapper with a different allocator type
using Wr = VP_WR<Full>; void w_construct(const VP_WR<Full, PICK(std::allocator<Full>, AlEmpty<Full>)>& r) { Wr x(r); }
#elif VP_CASE == 27            // moving from a wrapper with a different allocator type
using Wr = VP_WR<Full>; void w_move(VP_WR<Full, PICK(std::allocator<Full>, AlEmpty<Full>)>& r) { Wr x(mv(r)); }
#elif VP_CASE == 28            // the same with an allocator given
using Wr = VP_WR<Full, AlEmpty<Full>>; void w_move_alloc(const Wr::allocator_type& a, VP_WR<Full, PICK(AlEmpty<Full>, std::allocator<Full>)>& r) { Wr x(std::allocator_arg, a, mv(r)); }
#elif VP_CASE == 29            // giving an allocator of an unrelated type
using Wr = VP_WR<Full, AlEmpty<Full>>; void w_alloc_type(const PICK(AlEmpty, std::allocator)<Full>& a) { Wr x(std::allocator_arg, a); }
#elif VP_CASE == 30            // swapping through the member of a const wrapper
using Wr = VP_WR<Full>; void w_swap_member(PICK(, const) Wr& l, Wr& r) { l.swap(r); }
#elif VP_CASE == 31            // adopting a raw pointer
using Wr = VP_WR<Full>; void w_adopt(Full* p) { Wr x(PICK(*p, p)); }
#elif VP_CASE == 32            // assigning a null pointer
using Wr = VP_WR<Full>; void w_null(Wr& l, Wr& r) { l = PICK(r, nullptr); }
#elif VP_CASE == 33            // testing a wrapper like a pointer
using Wr = VP_WR<Full>; bool w_test(const Wr& r) { if (PICK(r.valueless_after_move(), r)) return true; return false; }
#elif VP_CASE == 34 && !VP_POLY // assigning a value the element cannot be assigned from
using Wr = VP_WR<Full>; void w_assign_value(Wr& l, const PICK(Full, Bare)& v) { l = v; }
#elif VP_CASE == 35 && !VP_POLY // converting between indirects of different elements
using Wr = VP_WR<PICK(int, Full)>; void w_convert_indirect(const VP_WR<int>& o) { Wr x(o); }
#elif VP_CASE == 36 && VP_POLY // owning a derived type of a private base
struct D1 : public Full { D1(); D1(const D1&); }; struct D2 : private Full { D2(); D2(const D2&); };
using Wr = VP_WR<Full>; void w_private(const PICK(D1, D2)& d) { Wr x(d); }
#elif VP_CASE == 37 && VP_POLY // owning a derived type of an ambiguous base
struct D1 : Full { D1(); D1(const D1&); }; struct L : Full {}; struct R : Full {}; struct D2 : L, R { D2(); D2(const D2&); };
using Wr = VP_WR<Full>; void w_ambiguous() { Wr x(IP(PICK(D1, D2))); }
#elif VP_CASE == 38 && VP_POLY // building a derived type from arguments it does not take
struct D1 : Full { D1(int, const char*); D1(const D1&); }; struct D2 : Full { D2(int); D2(const D2&); };
using Wr = VP_WR<Full>; void w_arguments() { Wr x(IP(PICK(D1, D2)), 1, "x"); }
#elif VP_CASE == 39 && !VP_POLY // three-way or relational comparison with a mixed type without order
struct Eq { friend bool operator==(const Eq&, const Eq&); friend bool operator!=(const Eq&, const Eq&); };
bool w_ge(const VP_WR<PICK(Full, Eq)>& l, const PICK(Full, Eq)& r) { return l >= r; }
#elif VP_CASE == 40            // copying from a wrapper whose allocator type converts to this one's
using Wr = VP_WR<Full, AlAny<Full, 1>>; void w_conv_copy(const VP_WR<Full, AlAny<Full, PICK(1, 2)>>& r) { Wr x(r); }
#elif VP_CASE == 41            // moving from a wrapper whose allocator type converts
using Wr = VP_WR<Full, AlAny<Full, 1>>; void w_conv_move(VP_WR<Full, AlAny<Full, PICK(1, 2)>>& r) { Wr x(mv(r)); }
#elif VP_CASE == 42            // copying with an allocator from a wrapper whose allocator type converts
using Wr = VP_WR<Full, AlAny<Full, 1>>; void w_conv_copy_alloc(const Wr::allocator_type& a, const VP_WR<Full, AlAny<Full, PICK(1, 2)>>& r) { Wr x(std::allocator_arg, a, r); }
#elif VP_CASE == 43            // moving with an allocator from a wrapper whose allocator type converts
using Wr = VP_WR<Full, AlAny<Full, 1>>; void w_conv_move_alloc(const Wr::allocator_type& a, VP_WR<Full, AlAny<Full, PICK(1, 2)>>& r) { Wr x(std::allocator_arg, a, mv(r)); }
#elif VP_CASE == 44            // assigning from a wrapper whose allocator type converts
using Wr = VP_WR<Full, AlAny<Full, 1>>; void w_conv_assign(Wr& l, const VP_WR<Full, AlAny<Full, PICK(1, 2)>>& r) { l = r; }
#elif VP_CASE == 45            // moving into one whose allocator type converts
using Wr = VP_WR<Full, AlAny<Full, 1>>; void w_conv_assign_move(Wr& l, VP_WR<Full, AlAny<Full, PICK(1, 2)>>& r) { l = mv(r); }
#elif VP_CASE == 46            // copying from a wrapper with the default allocator when it converts
using Wr = VP_WR<Full, AlAny<Full, 1>>; void w_conv_std(const VP_WR<Full, PICK(Wr::allocator_type, std::allocator<Full>)>& r) { Wr x(r); }
#elif VP_CASE == 47            // swapping wrappers whose allocator types convert
using Wr = VP_WR<Full, AlAny<Full, 1>>; void w_conv_swap(Wr& l, VP_WR<Full, AlAny<Full, PICK(1, 2)>>& r) { using std::swap; swap(l, r); }
#elif VP_CASE == 48 && !VP_POLY && VP_MODERN // default construction of an element without default constructor, whatever the allocator can do
using El = PICK(Full, NoDefault); using Wr = VP_WR<El, AlLax<El>>; void w_lax_default() { Wr x; }
#elif VP_CASE == 49 && !VP_POLY && VP_MODERN // copying an uncopyable element, whatever the allocator can do
using El = PICK(Full, MoveOnly); using Wr = VP_WR<El, AlLax<El>>; void w_lax_copy(const Wr& c) { Wr x(c); }
#elif VP_CASE == 50 && !VP_POLY && VP_MODERN // the same with an allocator
using El = PICK(Full, MoveOnly); using Wr = VP_WR<El, AlLax<El>>; void w_lax_copy_alloc(const Wr& c, const AlLax<El>& a) { Wr x(std::allocator_arg, a, c); }
#elif VP_CASE == 51 && !VP_POLY && VP_MODERN // copy-assigning an uncopyable element, whatever the allocator can do
struct Uncopied { Uncopied(); Uncopied(const Uncopied&) = delete; Uncopied& operator=(const Uncopied&); }; using El = PICK(Full, Uncopied); using Wr = VP_WR<El, AlLax<El>>; void w_lax_copy_assign(Wr& l, const Wr& c) { l = c; }
#elif VP_CASE == 52 && !VP_POLY && VP_MODERN // moving an immovable element to an unequal allocator, whatever the allocator can do
using El = PICK(Full, Fixed); using Wr = VP_WR<El, AlLax<El>>; void w_lax_move(Wr& m, const AlLax<El>& a) { Wr x(std::allocator_arg, a, mv(m)); }
#elif VP_CASE == 53 && !VP_POLY && VP_MODERN // move-assigning an immovable element, whatever the allocator can do
using El = PICK(Full, Fixed); using Wr = VP_WR<El, AlLax<El>>; void w_lax_move_assign(Wr& l, Wr& m) { l = mv(m); }
#endif
}  // namespace vpw
