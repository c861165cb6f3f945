A = 'Each operation of the instantiated wrapper is compiled to LLVM IR by clang from the current headers and interpreted abstractly, path by path, from every abstract entry state; '
RULE = {
 'P01': A + 'typestate of every element (constructed/destroyed) and every block (allocated/freed) is tracked; an obligation fails on double destroy/free, use before construction or after destruction, free of a live object, or storage/object owned by no live wrapper at any normal or exceptional exit.',
 'P02': A + 'every block must come from and go back to an allocator of equal identity with the same type tag and count, and every element of an allocator with construct/destroy members must be constructed and destroyed under such a call made with an equal allocator; operator new, malloc and other sources are violations.',
 'P03': A + 'every allocation and element operation forks a throwing path; at each exceptional exit each pre-existing wrapper must observe the same owned object, value, valueless state and allocator, and the exception must be the one thrown.',
 'P04': A + 'a path on which a thrown exception meets a noexcept boundary (terminate landing pad, nounwind call or __clang_call_terminate) is a violation, reported at the call that throws.',
 'P05': 'noexcept(expr) and the nothrow type traits of each operation are compared with the documented condition for every combination of allocator traits, by static_assert in a translation unit both compilers must accept.',
 'P06': A + 'at each normal exit of a copy the destination owns a fresh object of the source object\'s dynamic type whose value was produced by one const copy, source memory is write-protected, and in-place assignment performs no allocation.',
 'P07': A + 'at each normal exit of a move the destination owns the very block the source owned (or, for unequal allocators, one object built from the source as rvalue), events are exactly those, and the old object is destroyed after that.',
 'P08': A + 'the allocator identity each wrapper holds afterwards is compared with the one the propagation traits, select_on_container_copy_construction or the argument determine, as is the identity used by each allocation.',
 'P09': A + 'valueless states are tracked through each operation: which wrappers own something at exit must follow from the entry state, and paths with a valueless source must contain no allocation or element event.',
 'P10': A + 'both operands are the same wrapper; exits must leave owner, value, allocator and event trace untouched.',
 'P11': A + 'after member and free swap owned blocks are exchanged, event trace is empty, allocators are exchanged iff the trait says so.',
 'P12': 'Types of every access expression are asserted per constness and value category; additionally every public const member, static member, friend or free function of the instantiated wrapper that takes it as const is enumerated from the type-checked program and may not return or expose the element as non-const.',
 'P13': A + 'for every ordering outcome of the elements (including unordered) and every valueless combination, the returned value must equal the element operation in operand order, with no write, allocation or allocator comparison.',
 'P14': A + 'std::hash of a valued indirect must be the symbolic hash of the element and of a valueless one a constant with no access.',
 'P15': A + 'the trace of each constructor must be one allocation followed by one construction of the requested type with exactly the caller\'s arguments in order, category and constness.',
 'P16': A + 'converting assignment must be one element assignment of the forwarded argument in place, or one allocation and construction when valueless.',
 'P17': A + 'memory of const operands and their objects is write-protected, modifying allocator members may not be called on the allocator inside a const operand, and every variable of static storage the headers define must be immutable.',
 'P18': 'is_constructible / is_assignable / detection facts are asserted for a matrix of argument types, and every public constructor of the instantiated C++20 wrappers other than copy and move is enumerated from the type-checked program and must be explicit.',
 'P19': 'Translation units that name, declare, nest and use the wrappers while the element is incomplete must type check, with the definitions where completeness is reached also instantiated.',
 'P20': 'Translation units that perform every operation with archetype elements and allocators offering only what the operation may need must type check (members that must not be used are deleted or absent).',
 'P21': 'Header units (alone, repeated, both orders, with feature_check.h) must type check; every function and variable definition in the headers is enumerated and may not be a strong symbol; type facts and the abstract behaviour of every operation must be the same whether or not the counterpart header came first.',
 'P22': 'sizeof and alignof relations are asserted for a matrix of element and allocator types.',
 'P23': 'Translation units with constant expressions that exercise each operation must be accepted; the compiler\'s constant evaluator is the type checker\'s, no program is run.',
 'P24': A + 'for every operation and entry state both implementations have, the sets of (exit kind, ordered allocation and element events, post-state, result) must be equal.',
 'P25': A + 'with assertions compiled in, every path from an access to a valueless wrapper must end in the assertion before any memory access and no path from a state satisfying the preconditions may reach an assertion; without, accessors have no events.',
 'P26': A + 'each accessor must return the address of the block\'s T subobject that the wrapper owns, the same through every overload and unchanged across transfers; valueless_after_move must be true exactly when nothing is owned.',
 'P30': 'Member types, types of expressions, categories and traits are asserted for a matrix of element and allocator types in translation units both compilers must accept.',
 'P31': 'Each unsupported use is a translation unit the compiler must reject, paired with a twin in which the element supports the operation and which it must accept.',
 'P32': 'Each prohibited element type or allocator instantiates the class definition in a translation unit the compiler must reject, paired with a twin with a permitted type which it must accept.',
 'P33': 'Every declaration the headers make at namespace scope must be in namespace xyz or specialise a standard template for a library type, be no using-directive or unnamed namespace and need no dynamic initialisation; the history of every macro the headers touch must end undefined, as it was before, or in an XYZ_ name; pragmas that change state must be enclosed by a matching save and restore.',
 'P34': 'The sets of files each target distributes are read from the build descriptions; each installed header alone, and each target\'s headers with its standard and definitions, must type check with both compilers; every file they read must be in the set; the preprocessed tokens must be the repository\'s; files the package configuration includes must be installed beside it and its version file must have the name find_package looks for.',
 'P29': 'For each language mode the set of feature macros feature_check.h defines is read from the preprocessor and must be exactly those whose facility a probe unit in the same mode can use.',
}
EXPLAIN = {
 '*': 'Deduced from the source without running it. Quantification: operations x abstract entry states x exceptional exits x allocator-trait instantiations, listed in the counts; element and allocator operations are opaque (any behaviour within their contract), values are symbolic, so a verdict covers every input that abstracts to the state.',
}
W = 'Decided by the type checker: each listed assertion is a static_assert or a use in a translation unit that includes the current header; a program that breaks the property does not compile. Counts are taken from the parsed translation units.'
for p in ('P05', 'P12', 'P18', 'P19', 'P20', 'P22', 'P23', 'P29', 'P33', 'P34'): EXPLAIN[p] = W
EXPLAIN['P21'] = 'Header units, definitions and agreement across inclusion orders, decided from the type-checked program and from the abstract behaviour of the compiled operations.'
EXPLAIN['P24'] = 'Sibling comparison of the two implementations\' abstract behaviours; see the counts for what was compared.'
ASSUME = [
 'clang 18 (and g++ 13 for witnesses) parse and lower C++ correctly; libstdc++ 13 as installed is part of the analysed program where inlined',
 'element and allocator operations follow their requirements (destructors, deallocate and allocator copies do not throw; equal allocators are interchangeable)',
 'IR is analysed at -O0, one instantiation per allocator-trait combination stands for all allocators with those traits, opaque elements for all elements',
]
