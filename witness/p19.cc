// P19: the wrappers work as members while the element type is incomplete.
#include "wit.h"
// Overload resolution over the constrained constructors of the C++14 headers
// evaluates their constraints on the element; clang does so even for arguments
// that could never match, so asking type traits about a wrapper of a still
// incomplete element is not something those headers support there.
#if VP_MODERN || !defined(__clang__)
#define VP_TRAITS 1
#else
#define VP_TRAITS 0
#endif
#if VP_MODERN || __cplusplus >= 201703L
#include <optional>
#include <variant>
#endif
#include <list>
#include <map>
#include <string>
#include <tuple>
namespace vpw {
template <class T> using Wr = VP_WR<T>;

// --- never completed: naming, members, declarations
struct Never;
using Named = Wr<Never>;
struct HoldsNever {
  Wr<Never> a;
  VP_WR<Never, Al<Never, true, false, true, false>> b;
  HoldsNever(); HoldsNever(const HoldsNever&); HoldsNever(HoldsNever&&) noexcept;
  HoldsNever& operator=(const HoldsNever&); HoldsNever& operator=(HoldsNever&&) noexcept;
  ~HoldsNever();
  void take(Wr<Never>); Wr<Never> give() const; Wr<Never>& ref(); 
};
W("a wrapper of an incomplete type is complete", sizeof(Wr<Never>) == sizeof(void*));
W("a class with wrapper members of incomplete type is complete", sizeof(HoldsNever) > sizeof(void*));
inline const Wr<Never>& observe(const Wr<Never>& w) { return w; }
inline bool w_observe_valueless(const HoldsNever& h) { return h.a.valueless_after_move() || h.b.valueless_after_move(); }
inline Wr<Never>& w_access_reference(HoldsNever& h) { return h.ref(); }
inline const Never& w_deref(const Wr<Never>& w) { return *w; }
inline Never* w_arrow(Wr<Never>& w) { return w.operator->(); }
inline std::allocator<Never> w_get_allocator(const Wr<Never>& w) { return w.get_allocator(); }
inline void w_swap(Wr<Never>& a, Wr<Never>& b) {
  a.swap(b);
#if VP_TRAITS
  swap(a, b);
#endif
}
#if VP_POLY
inline void w_move_assign_shell(HoldsNever& a, HoldsNever& b) { a = static_cast<HoldsNever&&>(b); }
#endif
W("wrapper traits that need no element are usable while it is incomplete", std::is_class<Wr<Never>>::value && noexcept(dv<Wr<Never>&>().swap(dv<Wr<Never>&>())) && noexcept(*dv<Wr<Never>&>()));
W("destruction is known to be possible while the element is incomplete", std::is_nothrow_destructible<Wr<Never>>::value);

// --- completed later: implementation pointer idiom
struct Impl;
class Pimpl {
 public:
  Pimpl(); explicit Pimpl(int); Pimpl(const Pimpl&); Pimpl(Pimpl&&) noexcept; Pimpl& operator=(const Pimpl&); Pimpl& operator=(Pimpl&&) noexcept; ~Pimpl();
  int get() const; void set(int);
 private:
  Wr<Impl> impl_;
};
inline void w_pimpl_user() { Pimpl a; Pimpl b(a); Pimpl c(static_cast<Pimpl&&>(a)); b = c; b = static_cast<Pimpl&&>(c); b.set(b.get()); std::vector<Pimpl> v(3); v.push_back(b); }
struct Impl { int v = 0; Impl() = default; explicit Impl(int x) : v(x) {} Impl(const Impl&) = default; virtual ~Impl() = default; virtual int get() const { return v; } };
Pimpl::Pimpl() = default;
#if VP_POLY
Pimpl::Pimpl(int x) : impl_(vp_ipt<Impl>{}, x) {}
#else
Pimpl::Pimpl(int x) : impl_(VP_IP{}, x) {}
#endif
Pimpl::Pimpl(const Pimpl&) = default;
Pimpl::Pimpl(Pimpl&&) noexcept = default;
Pimpl& Pimpl::operator=(const Pimpl&) = default;
Pimpl& Pimpl::operator=(Pimpl&&) noexcept = default;
Pimpl::~Pimpl() = default;
int Pimpl::get() const { return impl_->get(); }
void Pimpl::set(int x) { impl_->v = x; (*impl_).v = x; }

// --- recursive
struct Tree {
  std::string name;
  std::vector<Wr<Tree>> kids;
  std::map<int, Wr<Tree>> index;
#if __cplusplus >= 201703L && VP_TRAITS
  std::optional<Wr<Tree>> next;
  std::variant<int, Wr<Tree>> alt;
#endif
  std::pair<int, std::vector<Wr<Tree>>> more;
};
inline void w_tree(Tree& a, const Tree& b) {
  Tree t; Tree u(b); Tree v(static_cast<Tree&&>(a)); u = b; u = static_cast<Tree&&>(t); using std::swap; swap(u, v);
  u.kids.emplace_back(b); u.kids[0]->kids.emplace_back(b); (*u.kids[0]).name = "x";
#if __cplusplus >= 201703L && VP_TRAITS
  u.next.emplace(b); u.alt = v.kids[0];
#endif
}
struct Even; struct Odd;
struct Even { std::vector<Wr<Odd>> n; Even(); Even(const Even&); ~Even(); };
struct Odd { std::vector<Wr<Even>> n; };
inline void w_mutual(const Even& a) { Even b(a); Odd c; c.n.emplace_back(b); Odd d(c); b.n.emplace_back(d); d = c; }

// an allocator-aware recursive element
template <class A> struct Rose {
  using RA = typename std::allocator_traits<A>::template rebind_alloc<Rose>;
  std::vector<VP_WR<Rose, RA>> kids;
};
using RoseS = Rose<Al<char, true, true, false, false>>;
inline void w_rose(const RoseS& r, const RoseS::RA& a) {
  RoseS q(r);
#if VP_POLY
  VP_WR<RoseS, RoseS::RA> first(std::allocator_arg, a, vp_ipt<RoseS>{});  // clang 18 needs the block type completed first
#endif
  q.kids.push_back(VP_WR<RoseS, RoseS::RA>(std::allocator_arg, a, r)); q = r;
}

// declared as a member of a template before the element is known
template <class T> struct Lazy { Wr<T> w; struct Node; Wr<Node> head() const; struct Node { Wr<T> v; std::vector<Wr<Node>> n; }; };
inline void w_lazy(const Lazy<Impl>& l) { Lazy<Impl> m(l); Lazy<Impl>::Node n{m.w, {}}; n.n.emplace_back(n); }

// deferred special members in a class that names its own wrapper
struct Self { Self(); Self(const Self&); Self& operator=(const Self&); std::vector<Wr<Self>> v; const Wr<Self>& first() const { return v[0]; } const Self& firstv() const { return *v.front(); } virtual ~Self(); };
inline void w_self(const Self& s) { Self t(s); t.v.emplace_back(s); t = s; }

// traits, decided before the element is complete
#if VP_MODERN || VP_POLY
// never completed: moving takes the object over and needs nothing of the element
struct Never;
inline void w_never_move(Wr<Never>& a, void* m) { ::new (m) Wr<Never>(static_cast<Wr<Never>&&>(a)); }
inline void w_never_move_alloc(Wr<Never>& a, void* m) { ::new (m) Wr<Never>(std::allocator_arg, a.get_allocator(), static_cast<Wr<Never>&&>(a)); }
inline void w_never_swap(Wr<Never>& a, Wr<Never>& b) { a.swap(b); swap(a, b); }
inline bool w_never_valueless(const Wr<Never>& a) { return a.valueless_after_move(); }
#endif
struct Early;
#if VP_TRAITS
W("copyability traits of a wrapper are usable while the element is incomplete", std::is_copy_constructible<Wr<Early>>::value);
W("movability traits of a wrapper are usable while the element is incomplete", std::is_move_constructible<Wr<Early>>::value);
W("assignability traits of a wrapper are usable while the element is incomplete", std::is_copy_assignable<Wr<Early>>::value && std::is_move_assignable<Wr<Early>>::value);
#endif
struct Early { int x; };
}  // namespace vpw
