#!/usr/bin/env python3
"""Rewrites /verif/MANIFEST.json from the table of claimed properties."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IR = 'path-sensitive ownership/typestate dataflow analysis of the compiled headers (LLVM IR), exceptional paths included'
WT = 'compile-time witnesses: static_assert matrix over the type-checked headers (clang and gcc)'
UT = 'compile-time witnesses: archetype translation units that must type check (clang and gcc)'
T = {p: IR for p in 'P01 P02 P03 P04 P06 P07 P08 P09 P10 P11 P13 P14 P15 P16 P25 P26'.split()}
T.update({'P05': WT, 'P12': WT + ' and a declaration query over every const-callable member', 'P17': IR + '; static-state query over the AST',
  'P18': WT + ' and an explicit-constructor query over the AST', 'P19': UT, 'P20': UT, 'P21': 'header-unit type checking, definition-linkage query, and order-agreement of facts and abstract behaviour',
  'P22': WT, 'P23': 'compile-time witnesses: constant expressions the type checker must accept', 'P24': 'sibling cross-check: abstract behaviour of both implementations compared per operation and entry state',
  'P30': WT, 'P31': 'compile-fail witnesses: each unsupported use must be rejected and its supported twin accepted (clang and gcc)',
  'P32': 'compile-fail witnesses: the class definition must be rejected for each prohibited type and accepted for its permitted twin (clang and gcc)',
  'P33': 'declaration-scope query over the AST, macro-history query over the preprocessor, and pragma balance analysis of every header in every mode',
  'P34': 'include-closure and type checking of each distributed set of files against the parsed build descriptions',
  'P29': 'preprocessor query against feature probe units'})
NOTE_IR = 'Sound over-approximation of all histories by per-operation analysis from every abstract entry state (representations closed under the operations), for the finite set of allocator-trait instantiations listed in the evidence; trusts clang\'s lowering, libstdc++ as installed, and that elements/allocators obey their contracts.'
NOTE_W = 'Exact for the listed instantiations and language modes; a violating header does not compile. Trusts the two compilers\' type checkers; types outside the matrix are covered only by the generic text of the templates.'
NOTES = {'P04': NOTE_IR + ' Eight known findings (move assignment with POCMA and unequal allocators) are recorded in known_findings.json.',
         'P19': NOTE_W + ' One known finding (clang, indirect_cxx14.h) is recorded in known_findings.json.',
         'P34': 'Exact for the listed files, modes and both compilers; the CMake and Bazel files are parsed for the commands and rules they use today, others are reported as not modelled. One known finding (name of the version file) is recorded in known_findings.json.',
         'P24': 'Equality of abstract behaviour on every operation and entry state both implementations have, for matching allocator-trait instantiations; comparisons of unordered elements are excluded (C++20 synthesises three-way comparison).',
         'P21': 'Exact for the listed modes and both compilers; agreement across orders is decided on the type facts and abstract behaviours the other checks use.'}
NA = {'P27': 'Quantifies over arbitrary programs built from standard containers; what the wrappers contribute is decided by P01-P11, P18 and P19, the rest is the behaviour of the standard library and of user code, which is not in this repository and has no structural form here.',
      'P28': 'Execution time is a runtime quantity; instruction counts of one compiler at one optimisation level are not the property, and a rule on them would raise alarms on behaviour-preserving edits.'}
checks = []
for p in sorted(T):
    checks.append({'property': p, 'quick_cmd': 'python3 checks/run.py %s' % p, 'thorough_cmd': 'VERIF_TIER=thorough python3 checks/run.py %s' % p, 'evidence_file': 'evidence/%s.json' % p,
                   'technique': T[p], 'level': 'other', 'level_note': NOTES.get(p, NOTE_IR if T[p].startswith(IR) else NOTE_W)})
m = {'version': 1, 'setup_cmd': 'python3 tools/setup.py', 'checks': checks, 'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NA.items())],
     'notes': 'Static analysis only: nothing in /repo is executed by any check. No hooks in /repo. Known and fixed findings: known_findings.json; design: DESIGN.md.'}
with open(os.path.join(V, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
ids = [json.loads(l)['id'] for l in open(os.path.join(V, 'properties.jsonl'))]
assert set(ids) == set(T) | set(NA), (set(ids) ^ (set(T) | set(NA)))
