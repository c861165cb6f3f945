// P32: element types and allocators the specification prohibits are rejected.
// Each case is compiled twice: with VP_OK the class definition is instantiated
// with a permitted type and must be accepted, without it it must be rejected.
// Cases are written against the class definition alone (no operation is used).
#include "wit.h"
namespace vpw {
struct Full { Full(); Full(const Full&); Full& operator=(const Full&); virtual ~Full(); };
struct Later;
#ifdef VP_OK
#define PICK(good, bad) good
#else
#define PICK(good, bad) bad
#endif
// an allocator whose members never mention its value type
template <class T> struct Blind { using value_type = T; using pointer = void*; using const_pointer = const void*; using void_pointer = void*; using const_void_pointer = const void*; using difference_type = std::ptrdiff_t; using size_type = std::size_t; template <class U> struct rebind { using other = Blind<U>; }; pointer allocate(size_type); void deallocate(pointer, size_type); friend bool operator==(const Blind&, const Blind&); friend bool operator!=(const Blind&, const Blind&); };
template <class T> struct Holds { VP_WR<T, Blind<T>> w; };
template <class T, class A> struct HoldsA { VP_WR<T, A> w; };
#define DEFINE(T) std::size_t w_size() { return sizeof(Holds<T>); }
#define DEFINE_A(T, ...) std::size_t w_size() { return sizeof(HoldsA<T, __VA_ARGS__>); }
#if VP_CASE == 1              // a const element type
DEFINE(PICK(Full, const Full))
#elif VP_CASE == 2            // a const element type of a fundamental type
DEFINE(PICK(int, const int))
#elif VP_CASE == 3            // a volatile element type
DEFINE(PICK(Full, volatile Full))
#elif VP_CASE == 4            // a const volatile element type
DEFINE(PICK(Full, const volatile Full))
#elif VP_CASE == 5            // an array element type
using A1 = int[3]; DEFINE(PICK(int, A1))
#elif VP_CASE == 6            // an array element type of unknown bound
using A1 = Full[]; DEFINE(PICK(Full, A1))
#elif VP_CASE == 7            // a reference element type
DEFINE(PICK(Full, Full&))
#elif VP_CASE == 8            // an rvalue reference element type
DEFINE(PICK(Full, Full&&))
#elif VP_CASE == 9            // a function element type
using Fn = void(); DEFINE(PICK(Full, Fn))
#elif VP_CASE == 10           // void as element type
DEFINE(PICK(Full, void))
#elif VP_CASE == 11 && !VP_POLY // the in-place tag as element type
DEFINE(PICK(Full, VP_IP))
#elif VP_CASE == 12           // an allocator for another type
DEFINE_A(Full, Blind<PICK(Full, char)>)
#elif VP_CASE == 13           // a standard allocator for another type
DEFINE_A(int, std::allocator<PICK(int, char)>)
#elif VP_CASE == 14           // an allocator for a base type
struct D1 : Full {}; DEFINE_A(PICK(Full, D1), std::allocator<Full>)
#elif VP_CASE == 15           // an allocator for another type and an incomplete element
DEFINE_A(Later, std::allocator<PICK(Later, Full)>)
#elif VP_CASE == 16           // a const incomplete element type
DEFINE(PICK(Later, const Later))
#elif VP_CASE == 17           // an allocator for void
DEFINE_A(Full, Blind<PICK(Full, void)>)
#elif VP_CASE == 18           // an allocator that differs only in constness of its value type
DEFINE_A(Full, Blind<PICK(Full, const Full)>)
#elif VP_CASE == 19 && VP_POLY // the in-place tag as element type of a polymorphic (C++20 header)
#if VP_MODERN
DEFINE(PICK(Full, std::in_place_t))
#else
DEFINE(PICK(Full, const Full))
#endif
#endif
}  // namespace vpw
