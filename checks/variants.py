"""Source variants: a header whose own tokens change with the way it is
compiled (optimisation, sanitizers, debug macros, compiler) is analysed in
each of the resulting forms, not only the one the checks compile by default."""
import os, re, subprocess
from concurrent.futures import ThreadPoolExecutor
REPO = os.environ.get('VP_REPO', '/repo')
# (what a user does, compiler and flags that show the form, flags that give the same form to clang's IR)
WAYS = [('optimised', ('clang++', '-O2'), ('-D__OPTIMIZE__=1',)), ('optimised for size', ('clang++', '-Os'), ('-D__OPTIMIZE__=1', '-D__OPTIMIZE_SIZE__=1')),
        ('g++', ('g++',), ('-U__clang__',)), ('g++ optimised', ('g++', '-O2'), ('-U__clang__', '-D__OPTIMIZE__=1')),
        ('without RTTI', ('clang++', '-fno-rtti'), ('-fno-rtti',)), ('_DEBUG defined', ('clang++', '-D_DEBUG'), ('-D_DEBUG',)), ('DEBUG defined', ('clang++', '-DDEBUG'), ('-DDEBUG',)),
        ('library assertions', ('clang++', '-D_GLIBCXX_ASSERTIONS', '-D_GLIBCXX_DEBUG'), ('-D_GLIBCXX_ASSERTIONS',)), ('address sanitizer', ('g++', '-fsanitize=address'), ('-U__clang__', '-D__SANITIZE_ADDRESS__=1')),
        ('the standard library included before', ('clang++', '-include', 'bits/stdc++.h'), ('-include', 'bits/stdc++.h')),
        ('address sanitizer, clang', ('clang++', '-fsanitize=address'), None), ('thread sanitizer', ('g++', '-fsanitize=thread'), ('-U__clang__', '-D__SANITIZE_THREAD__=1'))]

def form(header, std, cmd):
    """{(file, line): text} of the tokens the header contributes."""
    p = subprocess.run([*cmd, '-std=c++%s' % ('2c' if std == 26 else std), '-w', '-E', '-I' + REPO, '-x', 'c++', '-'], input='#include "%s"\n' % header, capture_output=True, text=True)
    if p.returncode: return None
    out = {}; f = None; n = 0
    for l in p.stdout.splitlines():
        m = re.match(r'# (\d+) "([^"]*)"', l)
        if m: f = m.group(2); n = int(m.group(1)); continue
        if f and f.startswith(REPO + '/') and l.strip() and not l.lstrip().startswith('#pragma'):
            k = (os.path.relpath(f, REPO), n); out[k] = (out.get(k, '') + ' ' + re.sub(r'\s+', ' ', l.strip())).strip()
        n += 1
    return out

_lines = {}
def is_assert(k):
    f = _lines.setdefault(k[0], open(os.path.join(REPO, k[0])).read().splitlines())
    return 'assert' in f[k[1] - 1] if k[1] <= len(f) else False

def differ(a, b):
    ks = set(a) ^ set(b) | {k for k in set(a) & set(b) if a[k].replace(' ', '') != b[k].replace(' ', '') and not is_assert(k)}
    return sorted(ks)

# implementation names whose value is the same in all the ways above
NEUTRAL = {'__cpp_lib_unreachable', '_MSC_VER', '__assume', '__builtin_unreachable', '__cplusplus', '_MSVC_LANG', '__has_include', '__cpp_lib_memory_resource'}
def mentions(header):
    """Could the header's tokens depend on how it is compiled at all?"""
    t = re.sub(r'/\*.*?\*/|//[^\n]*', ' ', open(os.path.join(REPO, header)).read(), flags=re.S)
    if any(mentions(h) for h in re.findall(r'#\s*include\s*"([\w./]+)"', t) if os.path.exists(os.path.join(REPO, h)) and h != header): return True
    return bool({x for x in re.findall(r'\b(_[_A-Z]\w*|N?DEBUG|_?_OPTIM\w*)\b', t)} - NEUTRAL)

_cache = {}
def of(header, std):
    if not mentions(header): return []
    """[(name, command-line form, IR flags or None, first differing place, NDEBUG)] the default form does not cover."""
    if (header, std) in _cache: return _cache[(header, std)]
    with ThreadPoolExecutor(8) as ex:
        base = list(ex.map(lambda n: form(header, std, ('clang++',) + n), [('-DNDEBUG',), ()]))
        fs = list(ex.map(lambda w: form(header, std, w[1] + ('-DNDEBUG',)), WAYS)) + list(ex.map(lambda w: form(header, std, w[1]), WAYS))
    out = []; seen = []
    if base[0] is not None and base[1] is not None:
        if differ(base[0], base[1]): out.append(('assertions on', ('clang++',), (), differ(base[0], base[1])[0], 0)); seen.append(base[1])
        for i, f in enumerate(fs):
            w = WAYS[i % len(WAYS)]; nd = 1 if i < len(WAYS) else 0
            if f is None or not differ(base[1 - nd], f) or any(not differ(f, s) for s in seen + [base[0]]): continue
            seen.append(f); ir = w[2]
            if ir is not None:
                g = form(header, std, ('clang++',) + ir + (('-DNDEBUG',) if nd else ()))
                if g is None or differ(g, f): ir = None
            out.append((w[0] + ('' if nd else ', assertions on'), w[1], ir, differ(base[1 - nd], f)[0], nd))
    _cache[(header, std)] = out
    return out

STDS = {True: (14, 17, 20, 23, 26), False: (20, 23, 26)}
UNREACHABLE = re.compile(r'^(std::unreachable\(\);|__builtin_unreachable\(\);|__assume\(false\);)$')
_stds = {}
def extra_stds(header, have):
    """Language standards in which the header's tokens differ from those of every standard in have."""
    k = (header, tuple(sorted(have)))
    if k in _stds: return _stds[k]
    todo = [s for s in STDS['cxx14' in header] if s not in have]
    with ThreadPoolExecutor(8) as ex: fs = dict(zip([*have, *todo], ex.map(lambda s: form(header, s, ('clang++', '-DNDEBUG')), [*have, *todo])))
    def same(a, b): return not [k for k in differ(a, b) if not all(UNREACHABLE.match(x[k].strip()) for x in (a, b) if k in x)]
    seen = [fs[s] for s in have if fs[s] is not None]; out = []
    for s in todo:
        if fs[s] is None or any(same(fs[s], x) for x in seen): continue
        seen.append(fs[s]); out.append(s)
    _stds[k] = out
    return out
