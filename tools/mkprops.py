#!/usr/bin/env python3
"""Single source of the property texts: rewrites /verif/properties.jsonl."""
import json, os
I20, P20, I14, P14 = "indirect.h", "polymorphic.h", "indirect_cxx14.h", "polymorphic_cxx14.h"
ALL = [I20, P20, I14, P14]
IND = [I20, I14]
POL = [P20, P14]
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

OWN = [("owned-object pointer", "the single owner of the heap object, null iff valueless", "indirect*.h p_, polymorphic*.h cb_"),
       ("allocator member", "allocator used for every allocation until replaced", "*.h alloc_ / empty_base_optimization<A>")]

prop("P01", "Every owned object is destroyed once and its storage freed once",
 "For every sequence of operations on indirect and polymorphic objects, whether each one returns or is left by an exception, each owned object that was constructed is destroyed exactly once and each block of storage that was allocated is released exactly once, after its object has been destroyed. Nothing is leaked, nothing is destroyed or freed twice, and no object or storage is touched before it is constructed or after it is gone. At any time an owned object belongs to exactly one wrapper.",
 ["histories", "fault_sequences", "inputs", "configurations"],
 "all finite histories of constructors, assignments (also from a wrapper nested in the owned object), swaps, observers and destructors, over valued and valueless operands, aliasing, any allocator trait combination, with an exception at any allocation or element operation",
 "The tests run a few dozen fixed histories, never inject an exception into an element's constructor after allocation in most operations, and count allocations only in some of them.",
 ALL, [("construct_from / create_control_block: allocate, construct, deallocate on exception", "indirect*.h, polymorphic*.h"), ("reset / destroy_with / control_block::destroy", "indirect*.h, polymorphic*.h"), ("clone / move of direct_control_block", "polymorphic*.h")],
 ["calls to allocate/deallocate", "element constructors and destructors"], OWN)

prop("P02", "All storage and element lifetimes go through the supplied allocator",
 "Storage for an owned object is obtained only from the wrapper's own allocator (rebound where needed) and is given back only through an allocator equal to the one it came from, with the same element type and count. Owned objects are constructed and destroyed only through allocator_traits construct and destroy of that allocator, so an allocator's own construct/destroy are honoured. No other source of memory is ever used.",
 ["histories", "configurations", "fault_sequences"],
 "every operation and exit, for every allocator propagation/equality combination, with and without user-provided construct/destroy",
 "Tests use a counting allocator that ignores which instance frees what; none records the identity or count passed to deallocate for every operation.",
 ALL, [("allocator_traits::allocate/deallocate/construct/destroy", "indirect*.h construct_from, destroy_with"), ("rebound cb_alloc_traits", "polymorphic*.h direct_control_block")],
 ["allocate/deallocate/construct/destroy calls and the allocator identity they are made on"], OWN)

prop("P03", "Operations left by an exception leave operands as they were",
 "If allocation or an element's constructor throws during any constructor or assignment, that very exception reaches the caller and every wrapper that existed before keeps the same owned object, the same valueless state and the same allocator it had. If instead the element's own assignment operator throws, the wrapper still owns that same element and its allocator and valueless state are unchanged. No exception is swallowed or replaced.",
 ["fault_sequences", "inputs", "configurations"],
 "an exception at every potentially throwing call of every operation, over operand states, allocator relations and propagation traits",
 "Tests throw from a handful of constructors and check few post-states; they never throw at each possible point of each assignment.",
 ALL, [("build-new-then-reset ordering in assignment", "operator= in all four headers"), ("catch, deallocate, rethrow", "construct_from, clone, move, create_control_block")],
 ["state of all operands after unwinding"], OWN)

prop("P04", "Operations declared noexcept never terminate the program",
 "No operation of indirect or polymorphic that is declared noexcept for a given allocator reaches std::terminate because an allocation or an element operation throws inside it. Operations that cannot promise this are not declared noexcept.",
 ["fault_sequences", "configurations"],
 "every noexcept operation, every allocator trait combination, an exception at every potentially throwing call inside",
 "A unit test cannot observe std::terminate on every configuration, and tests only assert noexcept() results for a few allocators.",
 ALL, [("noexcept specifications", "move constructors, move assignment, swap, observers, destructor, reset")],
 ["terminate handlers reachable from public operations"])

prop("P05", "noexcept specifications are exactly the documented ones",
 "Dereference, arrow, valueless_after_move, get_allocator and destruction are always noexcept; move assignment is noexcept exactly when the allocator propagates on move assignment or is always equal, member and free swap exactly when it propagates on swap or is always equal, and allocator-extended move construction exactly when it is always equal. Move construction is noexcept at least when the allocator is always equal. Copying, value construction and converting assignment are not noexcept.",
 ["configurations", "programs"],
 "all element types and all combinations of allocator propagation and equality traits",
 "Tests check the noexcept operator for a couple of allocators only.",
 ALL, [("noexcept specifications", "class bodies in all four headers")], ["noexcept operator"])

prop("P06", "Copies are deep, independent, type-preserving and leave the source alone",
 "Copy construction, allocator-extended copy construction and copy assignment from a wrapper that owns an object give the destination a distinct object of the source object's own dynamic type, produced by copying the source object as const (exactly once). The source wrapper, the object it owns and its allocator are left unmodified, and no state is shared between the two wrappers. Copy assignment between valued indirects with equal allocators assigns to the existing object in place, without allocating.",
 ["inputs", "configurations", "histories"],
 "all element types including those with non-const or greedy template constructors, all dynamic types, operand states and allocator relations",
 "Tests copy a few well-behaved types; sharing, slicing or mutation through a non-const copy path for other types is not sampled.",
 ALL, [("copy constructors, copy assignment", "all four headers"), ("clone", "polymorphic*.h direct_control_block")],
 ["element copy constructor/assignment calls and operand states after return"], OWN)

prop("P07", "Moves transfer the very same object when allocators allow it",
 "Move construction, and allocator-extended move construction or move assignment with equal allocators, hand the source's owned object over unchanged: same address, no allocation and no operation on that element, and the source becomes valueless. With unequal allocators the destination instead gets a new object of the same dynamic type constructed from the source object as an rvalue (exactly once), and the source still owns its moved-from object. The destination's previous object is destroyed only after that.",
 ["inputs", "configurations", "histories"],
 "all operand states, allocator relations and propagation traits, element and dynamic types",
 "Tests compare addresses for a few types and allocators, not for every trait/equality/state combination.",
 ALL, [("move constructors and move assignment", "all four headers"), ("direct_control_block::move", "polymorphic*.h")],
 ["owned object address, element operations, allocation calls"], OWN)

prop("P08", "Allocator selection and propagation follow the allocator's traits",
 "A copy-constructed wrapper uses select_on_container_copy_construction of the source's allocator, a move-constructed one the source's allocator, an allocator-extended one the given allocator, and one built without an allocator a default-constructed allocator. Copy assignment, move assignment and swap replace the allocator with the other operand's exactly when the corresponding propagation trait says so, and no other operation ever changes it. get_allocator reports the allocator currently in use, and new owned objects are allocated with the allocator the wrapper holds once the operation completes.",
 ["configurations", "histories", "inputs"],
 "all trait combinations, equal/unequal/identical allocators, operand states and exits",
 "There are 16 trait combinations times operand states times allocator relations for each operation; tests cover about ten of them.",
 ALL, [("propagate_on_* checks, deferred allocator update", "operator=, swap, constructors"), ("select_on_container_copy_construction", "copy constructors")],
 ["get_allocator, allocator identity of allocate calls"], OWN)

prop("P09", "The valueless state arises only from moves and spreads only by transfer",
 "Freshly constructed wrappers hold an object; a wrapper becomes valueless only by being moved from or by being assigned from or swapped with a valueless wrapper, and copying or moving a valueless wrapper yields a valueless one. Operations whose source is valueless perform no allocation and no element construction, and a valueless destination can be destroyed, assigned, swapped, moved and copied without error. Assigning a value to a valueless wrapper makes it hold one again.",
 ["histories", "inputs", "configurations"],
 "all histories reaching a valueless operand in any role of any operation",
 "Tests exercise valueless operands in some operations with std::allocator only.",
 ALL, [("valueless_after_move guards", "all constructors, assignments, swap, comparison, hash")],
 ["valueless_after_move after each operation"], OWN)

prop("P10", "Self-assignment, self-move and self-swap change nothing",
 "Assigning a wrapper to itself by copy or by move, or swapping it with itself, in any state, leaves its owned object (same address, no element operation), its valueless state and its allocator unchanged, allocates nothing and does not throw.",
 ["inputs", "configurations"],
 "valued and valueless wrappers, all allocator trait combinations",
 "Tests cover self-assignment of valued wrappers with few allocators.",
 ALL, [("this == &other guard", "operator= in all four headers"), ("swap", "all four headers")],
 ["element operations and state after the operation"])

prop("P11", "swap exchanges ownership without touching the owned objects",
 "Member and free swap exchange the two wrappers' owned objects or valueless states by transferring ownership: addresses travel with the objects, nothing is allocated, constructed, assigned, moved or destroyed, and nothing throws. The allocators are exchanged exactly when the allocator propagates on swap and otherwise stay where they were. This holds whenever the allocator propagates on swap or the two allocators are equal.",
 ["inputs", "configurations"],
 "valued/valueless operand combinations, allocator relations and all trait combinations",
 "Tests swap a few valued/valueless pairs with two allocators.",
 ALL, [("swap", "all four headers")], ["addresses, allocators, element operations"])

prop("P12", "Constness and value category propagate to the owned object",
 "Access through a const wrapper gives only const access to the owned object, through a non-const lvalue gives mutable access, and for indirect dereferencing an rvalue wrapper gives an rvalue; arrow gives pointer-to-const from a const wrapper. No public interface yields mutable access to the owned object from a const wrapper.",
 ["programs", "inputs"],
 "all element types, allocators, and all public accessors",
 "Tests check a few expressions at run time; a lost const still compiles and passes.",
 ALL, [("operator* and operator-> overload sets", "all four headers")], ["types of accessor expressions"])

prop("P13", "indirect comparisons equal the element comparisons, valueless first",
 "Comparing two indirects, or an indirect with a plain value in either order, gives exactly what the same comparison of the owned objects gives (elements need not be totally ordered, nor equal to themselves; only a > b meaning b < a and a != b meaning not a == b are taken for granted), for ==, !=, <, <=, >, >= and, in C++20, <=> (where relational results come from the element's three-way comparison, or one synthesised from its < when it has none). A valueless indirect compares equal to another valueless one and less than any indirect or plain value that is present. Comparisons do not modify their operands, allocate, or look at the allocators.",
 ["inputs", "configurations"],
 "every operator, operand states, all possible outcomes of element comparison including unordered, and element types with three-way, weak or only less-than ordering",
 "Tests compare small integers; unordered results, mixed types and each valueless combination of each operator are not sampled.",
 IND, [("comparison operator friends, synth_three_way", "indirect.h, indirect_cxx14.h")], ["boolean / ordering results"])

prop("P14", "hash of an indirect is the hash of its value",
 "std::hash of an indirect that owns an object equals std::hash of that object, and hashing a valueless indirect returns a fixed value without accessing any object. Hashing modifies nothing and does not depend on address or allocator, so equal indirects hash equally.",
 ["inputs", "configurations"],
 "all element types with a hash, operand states and allocators",
 "Tests compare the hash of one or two values.",
 IND, [("std::hash specialisation", "indirect.h, indirect_cxx14.h")], ["std::hash call operator result"])

prop("P15", "Constructors build the requested object from the forwarded arguments",
 "Every value-taking constructor allocates once and constructs exactly one owned object, of exactly the requested type (T, the decayed argument type, or the named in-place type), directly from the caller's arguments forwarded in order with their value categories and constness intact, including initializer lists, with no temporaries or copies of the element. Default and allocator-only constructors construct it from no arguments.",
 ["inputs", "programs", "configurations"],
 "all argument lists, value categories, requested types (base or derived at any offset), with and without allocator",
 "Tests construct from a few argument lists; a lost forward, an extra copy or a wrong type in one overload goes unnoticed for most types.",
 ALL, [("constructor overload sets, construct_from, create_control_block, direct_control_block constructor", "all four headers")],
 ["element constructor selected, argument addresses, event trace"])

prop("P16", "Assigning a value to an indirect assigns in place or creates",
 "Assigning something other than an indirect to an indirect that owns an object forwards it, value category intact, to that object's assignment operator and neither allocates nor replaces the object; assigning to a valueless indirect constructs the owned object from the forwarded argument with the indirect's allocator. The allocator is unchanged and the result refers to the assigned-to indirect.",
 ["inputs", "configurations", "histories"],
 "all assignable argument types and value categories, both destination states",
 "Tests assign one int-like value in each state.",
 IND, [("operator=(U&&)", "indirect.h, indirect_cxx14.h")], ["element operations, address, allocator"])

prop("P17", "Operations on const wrappers write nothing shared, so reads may race",
 "No operation taking a wrapper as const (observers, const accessors, comparisons, hashing, being the source of a copy) writes to the wrapper, to the object it owns or to any static or global state, and the library keeps no mutable global, static or thread-local state. Hence concurrent const use of one object and concurrent use of distinct objects are free of data races introduced by the library.",
 ["schedules", "histories", "configurations"],
 "all interleavings of const operations on shared objects and of any operations on distinct objects",
 "The test suite is single threaded.",
 ALL, [("const member functions, control_block::clone", "all four headers")], ["stores executed by const operations", "global variables"])

prop("P18", "Constructors and assignments participate exactly when they should",
 "Constructors and converting assignment take part in overload resolution only when documented: not for types from which the owned object cannot be built, in polymorphic only for copy-constructible types that are or derive from T, and the allocator-less ones only when the allocator is default constructible. Passing a wrapper of the same type in any constness or value category always selects its copy or move operation, never a converting one. In the C++20 headers every constructor other than copy and move (with or without allocator) is explicit; in the C++14 headers those from a value and the in-place ones given plain arguments without an allocator are, and polymorphic is default constructible only when T is. Class template argument deduction yields the argument's type and rebinds a given allocator.",
 ["programs", "inputs"],
 "all argument types, element types and allocators",
 "Tests assert a few traits; a wrongly widened or narrowed overload only shows for types not sampled.",
 ALL, [("requires clauses / enable_if constraints, explicit specifiers, deduction guides", "all four headers")], ["is_constructible, is_convertible, is_assignable, deduced types"])

prop("P19", "The wrappers work as members with an incomplete element type",
 "indirect<T, A> and polymorphic<T, A> can be named, declared as members and used in declarations of special members while T is still incomplete, including recursively inside T and for the pointer-to-implementation idiom. Completeness is needed only where a member that needs it, or a query about one, is used.",
 ["programs"],
 "all classes holding wrappers of incomplete, recursive or later-completed types, for any allocator",
 "Tests contain two such classes; a constraint or noexcept that instantiates T too early breaks other user programs at compile time.",
 ALL, [("no class-level use of T's completeness; static_asserts inside bodies", "all four headers")], ["translation units that must compile"])

prop("P20", "Only the documented element and allocator requirements are imposed",
 "An operation demands of the element type only what it semantically needs (no default constructor, assignment, comparison, virtual or public-base destructor, or ordinary address-of operator otherwise), and of the allocator only the standard allocator requirements. Move-only elements can be held, moved and swapped by indirect, and where moving only takes over the owned object (plain move construction, or allocators that always compare equal) immovable ones too; abstract bases by polymorphic, and allocators that cannot be assigned, swapped or default constructed (such as polymorphic_allocator) work in every operation that does not propagate them.",
 ["programs", "configurations"],
 "all element archetypes and allocator archetypes meeting the requirements of the operation",
 "Tests use ordinary copyable types and allocators; over-requirement shows only as a compile error for other users.",
 ALL, [("static_asserts and requires clauses local to members; addressof; allocator_traits", "all four headers")], ["translation units that must compile"])

prop("P21", "Headers are self-contained, co-includable and agree on shared definitions",
 "Each public header compiles on its own in every language mode it supports, repeated and in any order with the header of the other wrapper for the same mode, in several translation units of one program. Definitions that the headers repeat under a common guard are equivalent, so the program's meaning does not depend on which was included first, and no header defines a function or variable with external linkage that is not inline.",
 ["programs", "configurations"],
 "all include orders, language modes and translation-unit splits",
 "Each test binary includes one order in one mode.",
 ALL, [("include guards, XYZ_*_DEFINED guards, duplicated empty_base_optimization/unreachable", "all four headers")], ["compilation and resolved definitions"])

prop("P22", "A wrapper with an empty allocator is the size of one pointer",
 "With an empty allocator type (including std::allocator) a wrapper occupies exactly one pointer, and with a stateful allocator no more than one pointer plus the allocator with alignment padding; in the C++20 headers this includes empty allocators marked final. Size does not depend on the element type.",
 ["configurations"],
 "all element types and allocators",
 "Tests check the size for std::allocator.",
 ALL, [("[[no_unique_address]] / empty_base_optimization", "all four headers")], ["sizeof"])

prop("P23", "Everything in the C++20 headers works in constant evaluation",
 "Every public operation of indirect and polymorphic in the C++20 headers, including destruction, swap, comparison, hashing, allocator-extended construction and virtual dispatch through polymorphic, is usable in a constant expression whenever the element's and allocator's operations are.",
 ["programs", "configurations"],
 "all public operations over literal element types and constexpr allocators",
 "The consteval tests exercise part of the interface.",
 [I20, P20], [("constexpr on members and control blocks, construct_at-based allocation", "indirect.h, polymorphic.h")], ["constant evaluation accepted by the compilers"])

prop("P24", "C++14 and C++20 implementations behave identically",
 "For every operation that both implementations of a wrapper offer, the C++14/17 header and the C++20 header perform the same allocations, element constructions, assignments and destructions in the same order, leave the same states behind on normal and exceptional exit, and return the same results, for the same operands and allocator (elements whose values are not ordered at all aside). Code can move between language modes without a change in behaviour.",
 ["configurations", "inputs", "fault_sequences"],
 "all common operations, operand states, allocator traits and exits",
 "The same tests run against both, but only at the inputs they sample.",
 ALL, [("parallel implementations", "indirect.h vs indirect_cxx14.h, polymorphic.h vs polymorphic_cxx14.h")], ["sets of abstract behaviours per operation"])

prop("P25", "Dereferencing a valueless wrapper is caught when assertions are on",
 "With assertions enabled, every dereference or arrow access to a valueless wrapper stops at an assertion before any memory is accessed, and no operation whose preconditions hold ever trips an assertion. With assertions disabled the accessors add no other effect.",
 ["inputs", "configurations"],
 "all accessors, const and value-category variants, and all other operations on valid operands",
 "A death test per accessor and build mode is not in the suite.",
 ALL, [("assert(!valueless_after_move())", "accessors in all four headers")], ["assertion failures reachable"])

prop("P26", "Accessors always designate the one object the wrapper owns",
 "Every dereference and arrow overload on a wrapper that owns an object designates exactly that object (for polymorphic its T subobject, also when T is not the first base), the same one each time, until the next modifying operation. valueless_after_move is true exactly when nothing is owned. The address of the owned object does not change when the wrapper itself is moved with equal allocators or swapped.",
 ["inputs", "histories", "configurations"],
 "all accessors, histories, element layouts",
 "Tests use single-inheritance types and sampled histories.",
 ALL, [("operator*, operator->, valueless_after_move", "all four headers"), ("control block pointer to the T subobject", "polymorphic*.h")], ["returned addresses"])

prop("P27", "Nested and container use keeps the wrappers' value semantics end to end",
 "Standard containers, variants, optionals and user classes composed of these wrappers behave as if the owned values were stored directly, for any program. Copying or comparing such an aggregate copies or compares every owned value.",
 ["programs"], "all programs composing the wrappers with the standard library",
 "Only a few compositions are instantiated in tests.",
 ALL, [("value semantics of the wrappers", "all four headers")])

prop("P28", "Indirection costs no more than a hand-written owning pointer",
 "Copying, moving, swapping and dereferencing a wrapper takes no more time than the equivalent hand-written code with an owning raw pointer.",
 ["programs"], "all programs and optimisation levels",
 "Timing is not asserted anywhere.",
 ALL + ["benchmarks"], [("inline templates without extra indirection", "all four headers")])

prop("P29", "Feature macros are defined exactly when the facility is available",
 "After including the feature header in any language mode, each feature macro it documents is defined exactly when the corresponding language or library facility can be used in that mode, and including the header repeatedly changes nothing. Code selecting between the standard facility and the library's own replacement therefore always finds the one it selects.",
 ["configurations"], "all language modes from C++14 on, both compilers",
 "Each test binary is built in one mode with one compiler and never compares a macro with what is actually usable.",
 ["feature_check.h"], [("XYZ_HAS_* conditionals", "feature_check.h")], ["macros defined after preprocessing"])

prop("P30", "Associated types, result types and hash enablement are as documented",
 "value_type and allocator_type name the element and allocator types, pointer and const_pointer are the allocator's, and std::uses_allocator holds for the wrapper's allocator. Assignments return the assigned-to wrapper, comparisons return bool, and in C++20 three-way comparison has the comparison category of the elements (weak when synthesised from <), so that wrappers model the comparison and object concepts their elements do. In C++20 std::hash of an indirect is enabled exactly when the element's is; polymorphic has neither comparison nor hash, and no wrapper converts to its element, to a pointer or to bool.",
 ["programs", "configurations"],
 "all element types and allocators",
 "Tests never name most of these types; generic code in other programs selects overloads by them.",
 ALL, [("member typedefs, operator result types, std::hash specialisation", "all four headers")], ["types of expressions and traits"])

prop("P31", "Operations the element cannot support are rejected at compile time",
 "A program that asks a wrapper for something its element or allocator cannot do is ill-formed instead of compiling to something else: copying a move-only element, default construction without a default constructor, comparing or hashing elements that have no such operation, moving an immovable element to another allocator, owning a type that is unrelated or not copyable in polymorphic, modifying or swapping a const wrapper, mixing wrappers of different allocator types, and propagating an allocator that cannot be assigned. The same use with an element that supports it is accepted.",
 ["programs", "configurations"],
 "all elements and allocators lacking an operation, for every operation",
 "A test suite only contains programs that compile.",
 ALL, [("static_asserts, constraints and bodies", "all four headers")], ["programs that must not compile"])

prop("P32", "Element types and allocators the specification prohibits are rejected",
 "Instantiating indirect or polymorphic is ill-formed when the element type is not an unqualified object type (a reference, function, void, array or cv-qualified type), is the in-place tag, or is not the value type of the allocator. This is decided by naming the types alone, before any operation is used and also while the element is incomplete, so that no such program compiles to something that mistreats the element's storage.",
 ["programs", "configurations"],
 "all element types and allocators",
 "A test suite only contains programs that compile.",
 ALL, [("static_asserts of the class definitions", "all four headers")], ["programs that must not compile"])

prop("P33", "Including a header leaves nothing behind outside the library",
 "Including any public header, in any mode and order, declares entities only in namespace xyz, apart from specialisations of standard templates for the library's own types, and leaves defined only macros whose names begin with XYZ_. It does not remove or replace a macro defined elsewhere, change diagnostic, packing, visibility or code generation state for the code after it, make another namespace's names visible by a using-directive, open an unnamed namespace, or initialise anything dynamically. The meaning of the rest of the including unit is therefore the same with and without the include.",
 ["programs", "configurations"],
 "all units that include a header, and all code that follows the include",
 "A test unit only contains the names its author chose, none of which collides.",
 ALL + ["feature_check.h"], [("namespace-scope declarations, preprocessor directives", "all headers")], ["declarations, macros and compiler state after the include"])

prop("P34", "What is installed, exported and packaged is complete and usable",
 "Every set of files the project hands out is complete. The headers that are installed compile in a unit of their own, in any order, without the rest of the repository, in every language mode the installed target allows, and mean there exactly what they mean in the repository. Every CMake target compiles with the language standard and definitions the target asks for, and every Bazel library contains, or depends on libraries that contain, every repository file its headers and sources include. The installed package configuration is found by name and version and includes only files that are installed beside it.",
 ["programs", "configurations"],
 "all consumers of the installed package, the CMake targets and the Bazel libraries, in all language modes",
 "The tests are compiled inside the source tree, where every header of the repository can be found; nothing installs the package or includes a header without its neighbours.",
 ALL + ["feature_check.h", "CMakeLists.txt", "xyz_value_types-config.cmake.in", "BUILD.bazel"], [("install(...), export sets, package configuration", "CMakeLists.txt, xyz_value_types-config.cmake.in"), ("cc_library hdrs and deps", "BUILD.bazel"), ("includes of the public headers", "all headers")], ["files read by a unit that includes an installed header", "find_package"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
