"""Properties decided by queries over the type-checked program: declarations
of the instantiated wrappers, definitions the headers make, and agreement
between implementations and inclusion orders."""
import collections, copy, json, os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, os.path.join(VERIF, 'engine'))
from engine_a import Finding
import engine_a, witness, runner

# ------------------------------------------------------------------ the plugin
def plugin():
    src = os.path.join(VERIF, 'engine', 'astq.cpp'); out = os.path.join(VERIF, 'build', 'astq.so')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src): return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cfg = 'llvm-config-18' if shutil.which('llvm-config-18') else 'llvm-config'
    cxx = [f for f in subprocess.check_output([cfg, '--cxxflags'], text=True).split() if not f.startswith('-std=')]
    tmp = out + '.%d' % os.getpid()
    subprocess.check_call(['clang++', '-std=c++17', '-O1', '-fno-rtti', '-shared', '-fPIC', src, '-o', tmp, *cxx])
    os.rename(tmp, out)
    return out

def declarations(header, std, text, extra=()):
    """Declarations made under /repo in a unit that includes header, then text."""
    so = plugin()
    with tempfile.TemporaryDirectory(prefix='vp_') as d:
        out = os.path.join(d, 'o.json')
        p = subprocess.run(['clang++', witness.std_flag(std), '-w', '-fsyntax-only', '-fplugin=' + so, '-fplugin-arg-astq-out=' + out, '-fplugin-arg-astq-root=' + REPO + '/', *witness.defs(header), *extra, '-I' + REPO, '-I' + witness.WIT, '-x', 'c++', '-'],
                           input='#include "%s"\n%s\n' % (header, text), capture_output=True, text=True)
        if p.returncode or not os.path.exists(out): return None, p.stderr
        with open(out) as f: return json.load(f), p.stderr

def kind(h): return 'polymorphic' if 'poly' in h else 'indirect'
def at(o): return '%s:%s' % (os.path.relpath(o.get('file', '?'), REPO), o.get('line', '?'))

# element and allocator used to instantiate the class the queries look at
INST = '''
#include <functional>
namespace vpq {
struct El { El(); El(const El&); El(El&&); El& operator=(const El&); El& operator=(El&&); virtual ~El(); bool operator==(const El&) const; bool operator<(const El&) const; };
template <class T> struct Al { using value_type = T; int s; Al(); template <class U> Al(const Al<U>&) noexcept; T* allocate(std::size_t); void deallocate(T*, std::size_t) noexcept; friend bool operator==(const Al&, const Al&) { return true; } friend bool operator!=(const Al&, const Al&) { return false; } };
}
namespace xyz { static_assert(sizeof(%(k)s<vpq::El, vpq::Al<vpq::El>>) != 0, ""); static_assert(sizeof(%(k)s<vpq::El>) != 0, ""); }
'''
WRAP = 'xyz::%s<vpq::El, vpq::Al<vpq::El>>'

def builds(tier, only=None):
    return [b for b in witness.BUILDS['thorough' if tier == 'thorough' else 'quick'] if not only or only(b[0])]

def each(tier, fn, only=None):
    """fn(header, std, decls) -> findings, count; over all builds."""
    import variants
    bs = builds(tier, only); bs = bs + [(h, s) for h in sorted({b[0] for b in bs}) for s in variants.extra_stds(h, [b[1] for b in bs if b[0] == h])]; bs = [(h, s, ()) for h, s in bs] + [(h, s, ir + (('-DNDEBUG',) if nd else ())) for h, s in bs for _, _, ir, _, nd in variants.of(h, s) if ir is not None]; errors = []; found = collections.OrderedDict(); n = 0; mine = []
    plugin()
    with ThreadPoolExecutor(8) as ex: ds = list(ex.map(lambda b: declarations(b[0], b[1], INST % dict(k=kind(b[0])), b[2]), bs))
    for (h, s, _), (d, err) in zip(bs, ds):
        if d is None:
            l = next((x for x in err.splitlines() if 'error' in x), err[-200:])
            found.setdefault(('include', h), Finding(dict(kind='include', header=h), '%s with a plain element and allocator does not type check as C++%d: %s' % (h, s, l.strip()), err[:3000])); continue
        fs, c, names = fn(h, s, d); n += c; mine += names
        if not c: errors.append('%s as C++%d: the query matched nothing' % (h, s))
        for f in fs: found.setdefault(f.text, f)
    return list(found.values()), errors, {'declaration_queries': len(bs), 'declarations_judged': n, 'samples': mine[:8]}

def bare(t): return re.sub(r'\b(xyz|std|vpq)::', '', t)

# ------------------------------------------------------------------ P12: who can hand out the object
def mutable_el(t):
    """Type through which the owned element could be modified."""
    return bool(re.search(r'(?<!const )\bvpq::El\b(?! const)\s*(\*|&)', t)) or bool(re.search(r'(?<!const )\bvpq::El\s*\*\s*(const)?\s*[&*]?', t))

def q12(h, s, d):
    w = WRAP % kind(h); out = []; n = 0; names = []
    const_w = re.compile(r'const %s\s*&' % re.escape(w))
    for f in d['functions'] + [x for r in d['records'] for x in r['friends'] if r['type'] == w]:
        inclass = f.get('class_type') == w
        if f['dependent']: continue
        if inclass and not (f['access'] == 'public' and (f.get('const') or f.get('static_member'))): continue
        if not inclass and not any(const_w.search(p) for p in f['params']): continue
        if inclass and f.get('static_member') and not any(const_w.search(p) for p in f['params']): continue
        n += 1; names.append('%s %s' % (f['qual'], at(f)))
        if mutable_el(f['ret']) or any(mutable_el(p) for p in f['params'] if inclass and f.get('const')  and '&&' not in p and p.endswith('*')):
            out.append(Finding(dict(kind='query', header=h, what=f['name']), '%s: %s takes the wrapper as const but returns %s' % (at(f), f['qual'], f['ret']), ''))
    for r in d['records']:
        if r['type'] != w: continue
        for x in r['fields']:
            n += 1
            if x['access'] == 'public': out.append(Finding(dict(kind='query', header=h, what='field'), '%s: data member %s of %s is public' % (at(x), x['name'], r['qual']), ''))
        for b in r['bases']:
            n += 1
            if b['access'] == 'public' and 'vpq' in b['type']: out.append(Finding(dict(kind='query', header=h, what='base'), '%s: %s exposes its storage through public base %s' % (at(r), r['qual'], b['type']), ''))
    return out, n, names

# ------------------------------------------------------------------ P18: explicit constructors
def q18(h, s, d):
    k = kind(h); out = []; n = 0; names = []
    for f in d['functions']:
        # patterns of the class template itself: every constructor, template or not
        if f['kind'] != 'ctor' or f.get('class') != 'xyz::' + k or f.get('implicit') or f['deleted'] or f['access'] != 'public': continue
        if f.get('class_type') == WRAP % k or not f.get('instantiation'):
            self_ = [p for p in f['params'] if re.search(r'\b%s(<|$| |&)' % k, bare(p))]
            if f.get('copymove') or self_: continue
            n += 1; names.append('%s(%s) %s' % (f['name'], ', '.join(f['params']), at(f)))
            if not f['explicit'] and not f.get('explicit_unresolved'):
                out.append(Finding(dict(kind='query', header=h, what='explicit'), '%s: constructor %s(%s) is not explicit' % (at(f), f['name'], ', '.join(f['params'])), ''))
    return out, n, names

# ------------------------------------------------------------------ P17: no mutable state outside the operands
def q17(h, s, d):
    out = []; n = 0; names = []
    for v in d['variables']:
        n += 1; names.append('%s %s' % (v['qual'], at(v)))
        if not v['const']: out.append(Finding(dict(kind='query', header=h, what='static'), '%s: %s is a mutable variable of %s storage duration' % (at(v), v['qual'], 'thread' if v['tls'] else 'static'), ''))
    for r in d['records']:
        for x in r['fields']:
            n += 1; names.append('%s::%s %s' % (r['qual'], x['name'], at(x)))
    return out, n, names

# ------------------------------------------------------------------ P21: headers as units
def strong(h, s, d):
    out = []; n = 0; names = []
    for f in d['functions']:
        if not f['body']: continue
        n += 1
        if f['dependent'] or f['instantiation'] or f['template']: continue
        names.append('%s %s' % (f['qual'], at(f)))
        if not f['inline'] and f['linkage'] in ('external', 'module'):
            out.append(Finding(dict(kind='query', header=h, what=f['qual']), '%s: %s is a non-inline function defined in a header' % (at(f), f['qual']), ''))
    for v in d['variables']:
        if v['template'] or v['local_static']: continue
        n += 1; names.append('%s %s' % (v['qual'], at(v)))
        if v['definition'] and not v['inline'] and v['linkage'] in ('external', 'module'):
            out.append(Finding(dict(kind='query', header=h, what=v['qual']), '%s: %s is a non-inline variable defined in a header' % (at(v), v['qual']), ''))
    return out, n, names

OTHER = {'indirect.h': 'polymorphic.h', 'polymorphic.h': 'indirect.h', 'indirect_cxx14.h': 'polymorphic_cxx14.h', 'polymorphic_cxx14.h': 'indirect_cxx14.h'}
USE = {'indirect': 'xyz::indirect<int> vp_i(int x) { xyz::indirect<int> a; xyz::indirect<int> b(a); b = a; *b = x; return b; }\n',
       'polymorphic': 'struct VpB { virtual ~VpB() {} int v = 0; };\nxyz::polymorphic<VpB> vp_p(const xyz::polymorphic<VpB>& o) { xyz::polymorphic<VpB> b(o); b = o; return b; }\n'}

def header_units(tier):
    """(name, text, std) of the units that must compile for P21."""
    us = []
    for h, s in builds('thorough'):
        o = OTHER[h]; u = USE[kind(h)]; v = USE[kind(o)]
        inc = lambda *hs: ''.join('#include "%s"\n' % x for x in hs)
        us.append((h, s, 'alone', inc(h) + u))
        us.append((h, s, 'twice', inc(h, h) + u))
        us.append((h, s, 'before ' + o, inc(h, o) + u + v))
        us.append((h, s, 'before and after ' + o, inc(h, o, h, o) + v + u))
        if s in (14, 17): us.append((h, s, 'after feature_check.h', inc('feature_check.h', h, 'feature_check.h') + u))
    for s in (14, 17, 20, 23): us.append(('feature_check.h', s, 'twice', '#include "feature_check.h"\n#include "feature_check.h"\n'))
    return us

def p21(tier):
    errors = []; found = collections.OrderedDict()
    us = header_units(tier); jobs = [(c, u) for u in us for c in witness.COMPILERS if witness.supports(c, u[1])]
    def comp(j):
        c, (h, s, how, text) = j
        return subprocess.run([c, witness.std_flag(s), '-w', '-fsyntax-only', '-I' + REPO, '-x', 'c++', '-'], input=text, capture_output=True, text=True)
    with ThreadPoolExecutor(8) as ex: ps = list(ex.map(comp, jobs))
    for (c, (h, s, how, _)), p in zip(jobs, ps):
        if p.returncode:
            l = next((x for x in p.stderr.splitlines() if 'error' in x), p.stderr[-200:])
            found.setdefault(('unit', h, how), Finding(dict(kind='unit', header=h, how=how, msg=l), '%s included %s does not compile as C++%d with %s: %s' % (h, how, s, c, l.strip()), p.stderr[:3000]))
    # two units of one program: no strong definitions
    f2, e2, c2 = each('thorough', strong)
    for f in f2: found.setdefault(f.text, f)
    errors += [e for e in e2]
    # inclusion order changes nothing: type-level facts and abstract behaviour
    cov = {'header_units': len(jobs), **c2}
    wb = builds(tier); pairs = []
    for h, s in wb:
        for pid in ('P05', 'P12', 'P18', 'P20', 'P22') + (('P23',) if 'cxx14' not in h else ()):
            for f in witness.FILES[pid][0]: pairs.append(('clang++', s, h, f))
    if tier == 'thorough': pairs += [('g++',) + p[1:] for p in pairs if witness.supports('g++', p[1])]
    # facts both before and after the counterpart
    def facts(j, pre): return witness.compile_tu(j[0], j[1], j[2], j[3], ['-include', os.path.join(REPO, OTHER[j[2]])] if pre else [])
    with ThreadPoolExecutor(8) as ex:
        a = list(ex.map(lambda j: facts(j, False), pairs)); b = list(ex.map(lambda j: facts(j, True), pairs))
    def first(p): return {x[0].splitlines()[0].split('error: ')[-1] for x in witness.blocks(p.stderr)}
    for j, x, y in zip(pairs, a, b):
        if x.returncode == y.returncode == 0: continue
        diff = first(x) ^ first(y)
        if diff: found.setdefault(('order', j[2]), Finding(dict(kind='order', header=j[2], msg=sorted(diff)[0]), '%s means something else when %s is included first (C++%d, %s): %s' % (j[2], OTHER[j[2]], j[1], j[3], sorted(diff)[0][:300]), y.stderr[:3000]))
    cov['order_fact_units'] = len(pairs)
    profs = [dict(pocca=0, pocma=0, pocs=0, ae=0), dict(pocca=1, pocma=1, pocs=1, ae=0, cons=0), dict(pocca=0, pocma=1, pocs=0, ae=1, empty=1), dict(empty=3)]
    if tier == 'thorough': profs = runner.profiles('quick')
    P = lambda p: dict(p, ndebug=1)
    cs = []
    for h, s in wb:
        if (s, 'cxx14' in h) not in ((20, False), (14, True)) and tier != 'thorough': continue
        for p in profs:
            if p.get('empty') in (1, 2) and p.get('ae') == 0: pass
            cs.append(runner.Config(h, s, **P(p))); cs.append(runner.Config(h, s, pre=OTHER[h], **P(p)))
    cs = list(collections.OrderedDict((c.key(), c) for c in cs).values())
    res = {r['cfg'].key(): r for r in runner.analyse(cs, engine_a.ALLG)}
    n = 0
    for c in cs:
        if not c.pre: continue
        b0 = copy.copy(c); b0.pre = None; base = res[b0.key()]; other = res[c.key()]
        for r in (base, other):
            if r['error']: errors.append('%s: %s' % (r['cfg'].text(), r['error']))
        if base['error'] or other['error']: continue
        n += compare(base, other, found, lambda op, scen: 'order', lambda ra, rb: '%s behaves differently when %s is included first' % (c.header, c.pre))
    cov['order_behaviours_compared'] = n
    if not n and not found: errors.append('no behaviour compared')
    return list(found.values()), errors, cov

# ------------------------------------------------------------------ sibling comparison
# where an operation is written: (pattern of the demangled name, excluded pattern)
SELF = r'::(indirect|polymorphic)'
RX = {'copy': SELF + r'\((?!std::allocator_arg).*const&\)', 'copy_alloc': SELF + r'\(std::allocator_arg_t, .*(indirect|polymorphic)<.*const&\)', 'assign_copy': r'::operator=\(.*const&\)', 'assign_move': r'::operator=\(.*&&\)$', 'assign_val': r'operator=<', 'assign_arg': r'operator=<',
      'swap_member': r'(indirect|polymorphic)<.*>::swap\(', 'swap_free': r'\bswap\(xyz::', 'dtor': r'::~(indirect|polymorphic)\(',
      'cmp': r'operator(==|<=>|!=|<|>|<=|>=)', 'hash': r'hash<', 'access': r'operator(\*|->)\(', 'valueless_access': r'operator(\*|->)\(', 'get_allocator': r'get_allocator\(', 'valueless_after_move': r'valueless_after_move\(',
      'move': SELF + r'\((?!std::allocator_arg).*&&\)', 'move_alloc': SELF + r'\(std::allocator_arg_t, .*(indirect|polymorphic)<.*&&\)'}
def ctor_rx(f):
    """Pattern of the constructor a ctor:* operation uses."""
    al = r'std::allocator_arg_t, [^,]*(, )?' if 'alloc' in f else ''
    if f in ('default', 'alloc'): return SELF + r'(<[^()]*>)?\(' + (r'std::allocator_arg_t, [^,]*' if al else '') + r'\)'
    f = f.replace('alloc_', '').replace('_alloc', '')
    if f.startswith('il'): return SELF + r'<.*>\(' + al + r'[\w:]*in_place\w*(<.*>)?, std::initializer_list'
    if f.startswith('ip') or f.startswith('dip'): return SELF + r'<.*>\(' + al + r'[\w:]*in_place\w*(<.*>)?(, (?!std::initializer_list)|\))'
    return SELF + r'<.*>\(' + al + r'(?!std::allocator_arg|[\w:]*in_place|\))'
def place(r, op):
    o = op.split(':')[0].replace('self_', '').replace('nested_', '')
    o = {'swap': 'swap_member'}.get(o, o)
    rxs = [ctor_rx(op.split(':')[1])] if o == 'ctor' and ':' in op else [RX[o]] if o in RX else []
    for rx in rxs + [SELF + r'(<.*>)?\(']:
        for dem, (f, l) in sorted(r['fns'].items(), key=lambda x: x[1]):
            if 'control_block' not in dem.split('(')[0] and re.search(rx, dem): return '%s:%d' % (os.path.relpath(f, REPO), l)
    return r['cfg'].header

def show(x):
    kind_, ev, post, val = x
    e = ', '.join('%s%s' % (v[0], '(' + ', '.join(str(y) for y in v[1:]) + ')' if len(v) > 1 else '') for v in ev) or 'nothing'
    p = '; '.join('%s: %s' % (w[0], 'valueless' if w[1] else 'owns %s %s %s' % (w[2], w[3], w[5])) + ', allocator %s' % (w[4],) for w in post) if post else '-'
    return '%s exit; events: %s; afterwards: %s%s' % (kind_, e, p, '' if val is None else '; result %s' % (val,))

def compare(ra, rb, found, keyof, headline):
    """Same exits with the same events, post-states and results, for every
    operation and entry state both have; one finding per operation."""
    A, B = ra['summaries'], rb['summaries']; n = 0
    for k in sorted(set(A) & set(B)):
        op, scen = k
        if op == 'cmp' and ('unordered' in scen or 'not equal to itself' in scen) and ra['cfg'].cxx14 != rb['cfg'].cxx14: continue   # C++20 synthesises an ordering
        n += 1
        if A[k] == B[k]: continue
        da = sorted(A[k] - B[k], key=str); db = sorted(B[k] - A[k], key=str)
        key = ('behaviour', keyof(op, scen), ra['cfg'].header, op)
        if key in found: continue
        found[key] = Finding(dict(kind='behaviour', header=ra['cfg'].header, op=op, scens=[scen]),
            '%s / %s: %s: operation %s, entry state: %s; %s; only there: %s; only the other: %s' % (place(ra, op), place(rb, op), headline(ra, rb), op, scen, ra['cfg'].text(), '; '.join(show(x) for x in da[:1]) or '-', '; '.join(show(x) for x in db[:1]) or '-'),
            '\n'.join([ra['cfg'].text() + ' only:'] + ['  ' + show(x) for x in da[:6]] + [rb['cfg'].text() + ' only:'] + ['  ' + show(x) for x in db[:6]]))
    return n

def p24(tier):
    errors = []; found = collections.OrderedDict(); n = 0
    sides = {'indirect': [('indirect.h', 20), ('indirect_cxx14.h', 14), ('indirect_cxx14.h', 17)], 'polymorphic': [('polymorphic.h', 20), ('polymorphic_cxx14.h', 14), ('polymorphic_cxx14.h', 17)]}
    profs = runner.profiles(tier) + runner.plain_profiles(tier)
    cs = []
    for k, bs in sides.items():
        for i, (h, s) in enumerate(bs):
            for j, p in enumerate(profs):
                if tier != 'thorough' and s == 17 and j % 6: continue
                if k == 'polymorphic' and p.get('sc', 5) != 5: continue
                cs.append((k, j, i, runner.Config(h, s, **p)))
        if tier == 'thorough': cs += [(k, j, 9, runner.Config(bs[0][0], 23, **p)) for j, p in enumerate(profs) if k != 'polymorphic' or p.get('sc', 5) == 5]
    import variants; forms = 0   # forms a header takes in other standards or ways of compiling it
    for k, bs in sides.items():
        for h in sorted({h for h, _ in bs}):
            more = [(s, None, 1) for s in variants.extra_stds(h, sorted({s for h2, s in bs if h2 == h} | ({23} if tier == 'thorough' and 'cxx14' not in h else set())))]
            more += [(s, (name, ir), nd) for h2, s in bs if h2 == h for name, _, ir, _, nd in variants.of(h, s) if ir is not None and nd]
            for s, way, nd in more:
                forms += 1
                cs += [(k, j, 8, runner.Config(h, s, way=way, **p)) for j, p in enumerate(profs) if j % 5 == 0 and (k != 'polymorphic' or p.get('sc', 5) == 5)]
    res = runner.analyse([c for *_, c in cs], engine_a.ALLG)
    base = {(k, j): r for (k, j, i, _), r in zip(cs, res) if i == 0}
    for (k, j, i, c), r in zip(cs, res):
        if r['error']: errors.append('%s: %s' % (c.text(), r['error'])); continue
        b = base[(k, j)]
        if i == 0 or b['error']: continue
        n += compare(b, r, found, lambda op, scen: c.header, lambda ra, rb: '%s and %s (C++%d) behave differently' % (ra['cfg'].header, rb['cfg'].header, rb['cfg'].std))
    cov = engine_a.coverage([r for r in res if not r['error']])
    cov['further_forms_compared'] = forms; cov['behaviours_compared'] = n; cov['pairs_of_instantiations'] = sum(1 for _, _, i, _ in cs if i)
    cov.pop('obligations', None)
    if n < 5000 and not found: errors.append('only %d behaviours compared' % n)
    return list(found.values()), errors, cov

# ------------------------------------------------------------------ P29: feature macros
PROBES = {'XYZ_HAS_STD_OPTIONAL': '#include <optional>\nstd::optional<int> vp_o;',
          'XYZ_HAS_STD_IN_PLACE_TYPE_T': '#include <utility>\nstd::in_place_type_t<int> vp_t;',
          'XYZ_HAS_STD_IN_PLACE_T': '#include <utility>\nstd::in_place_t vp_p;',
          'XYZ_HAS_TEMPLATE_ARGUMENT_DEDUCTION': 'template <class T> struct VpS { VpS(T); };\nVpS vp_s(1);',
          'XYZ_HAS_STD_MEMORY_RESOURCE': '#include <memory_resource>\nstd::pmr::polymorphic_allocator<int> vp_a; std::pmr::memory_resource* vp_r;',
          'XYZ_HAS_STD_THREE_WAY_COMPARISON': '#include <compare>\nstd::strong_ordering vp_c = 1 <=> 2;'}
def p29(tier):
    stds = (14, 17, 20, 23) + ((26,) if tier == 'thorough' else ())
    jobs = [(c, s, n) for s in stds for c in witness.COMPILERS if witness.supports(c, s) for n in (1, 2)]
    def macros(j):
        c, s, n = j
        return subprocess.run([c, witness.std_flag(s), '-dM', '-E', '-I' + REPO, '-x', 'c++', '-'], input='#include "feature_check.h"\n' * n, capture_output=True, text=True)
    def probe(j):
        c, s, m = j
        return subprocess.run([c, witness.std_flag(s), '-w', '-fsyntax-only', '-x', 'c++', '-'], input=PROBES[m], capture_output=True, text=True).returncode == 0
    pj = [(c, s, m) for c, s, n in jobs if n == 1 for m in PROBES]
    with ThreadPoolExecutor(8) as ex: ms = dict(zip(jobs, ex.map(macros, jobs))); ok = dict(zip(pj, ex.map(probe, pj)))
    found = collections.OrderedDict(); n = 0; samples = []; errors = []
    if len({v for v in ok.values()}) != 2: errors.append('probe units do not distinguish any mode')
    try: lines = open(os.path.join(REPO, 'feature_check.h')).read().splitlines()
    except OSError: lines = []
    for (c, s, k), p in ms.items():
        if p.returncode:
            l = next((x for x in p.stderr.splitlines() if 'error' in x), p.stderr[-200:])
            found.setdefault(('pp', k), Finding(dict(kind='feature', macro='-', std=s), 'feature_check.h included %s does not preprocess as C++%d with %s: %s' % ('once' if k == 1 else 'twice', s, c, l.strip()), p.stderr[:2000])); continue
        have = set(re.findall(r'^#define (XYZ_HAS_\w+)', p.stdout, re.M))
        for m in PROBES:
            n += 1; want = ok[(c, s, m)]; samples.append('%s C++%d %s: %s' % (c, s, m, 'defined' if m in have else 'not defined'))
            if (m in have) != want:
                ln = next((i for i, x in enumerate(lines, 1) if re.match(r'\s*#\s*define\s+%s\b' % m, x)), 0)
                found.setdefault((m, want), Finding(dict(kind='feature', macro=m), 'feature_check.h:%d: %s is %s in C++%d (%s) although the facility %s' % (ln, m, 'defined' if m in have else 'not defined', s, c, 'is available' if want else 'cannot be used'), ''))
    return list(found.values()), errors, {'modes_preprocessed': len(jobs), 'probe_units': len(pj), 'macro_states_judged': n, 'samples': samples[::7][:10]}

# ------------------------------------------------------------------ P33: what including a header leaves behind
STACKS = {'diagnostic': 'diagnostic state', 'visibility': 'visibility', 'pack': 'structure packing', 'options': 'code generation options', 'attribute': 'attributes', 'float_control': 'floating point mode', 'warning': 'diagnostic state', 'macro': None}
def pragmas(header, s, pre, c='clang++'):
    """Pragmas written in the headers, in order: (file, line, text)."""
    p = subprocess.run([c, witness.std_flag(s), '-w', '-E', *pre, '-I' + REPO, '-x', 'c++', '-'], input='#include "%s"\n' % header, capture_output=True, text=True)
    out = []; f = ''; ln = 0
    for l in p.stdout.splitlines():
        m = re.match(r'#(?:line)? (\d+) "([^"]*)"', l)
        if m: ln = int(m[1]); f = m[2]; continue
        m = re.match(r'\s*#\s*pragma\s+(.*)', l)
        if m and f.startswith(REPO + '/'): out.append((f, ln, m[1].strip()))
        ln += 1
    return out

def judge_pragmas(ps):
    """(index, complaint) for pragmas whose effect outlives the header."""
    out = []; open_ = collections.defaultdict(list)
    for i, (f, l, t) in enumerate(ps):
        w = re.findall(r'\w+|\(|\)', t)
        if w[:1] and w[0] in ('GCC', 'clang', 'STDC'): w = w[1:]
        if not w: continue
        k = w[0]; rest = w[1:]
        if k in ('push_options', 'pop_options'): k, rest = 'options', [k.split('_')[0]]
        if k in ('optimize', 'target', 'reset_options'): k, rest = 'options', ['set']
        if k in ('FP_CONTRACT', 'FENV_ACCESS', 'CX_LIMITED_RANGE', 'fp'): out.append((i, 'changes the floating point mode for the rest of the unit')); continue
        if k in ('poison',): out.append((i, 'poisons an identifier for the rest of the unit')); continue
        if k not in STACKS or STACKS[k] is None: continue
        if 'push' in rest: open_[k].append(i)
        elif 'pop' in rest:
            if open_[k]: open_[k].pop()
            else: out.append((i, 'restores %s it did not save' % STACKS[k]))
        elif not open_[k]: out.append((i, 'changes %s for the rest of the unit' % STACKS[k]))
    for k, v in open_.items(): out += [(i, 'saves %s and never restores it' % STACKS[k]) for i in v]
    return out

def p33(tier):
    errors = []; found = collections.OrderedDict(); n = 0; names = []
    us = [(h, s, d) for h, s in builds('thorough') for d in ((), ('-DNDEBUG',))] + [('feature_check.h', s, ()) for s in (14, 17, 20, 23)]
    # NDEBUG only matters to assert, but a header may look at it
    us += [(h, s, ('-include', os.path.join(REPO, OTHER[h]))) for h, s in builds(tier)]
    import variants
    us += [(h, s, ir + (('-DNDEBUG',) if nd else ())) for h, s in builds(tier) for _, _, ir, _, nd in variants.of(h, s) if ir is not None]
    plugin()
    with ThreadPoolExecutor(8) as ex:
        ds = list(ex.map(lambda u: declarations(u[0], u[1], '', u[2]), us)); ps = list(ex.map(lambda u: pragmas(*u), us))
    def put(key, text, detail=''): found.setdefault(key, Finding(dict(kind='footprint', header=key[0], what=str(key[-1])), text, detail))
    for h in sorted({u[0] for u in us}):   # removing a macro of the program needs no declaration to be seen
        text = open(os.path.join(REPO, h)).read()
        for m in re.finditer(r'^[ \t]*#[ \t]*(undef|define)[ \t]+(\w+)', text, re.M):
            n += 1
            own = re.search(r'^[ \t]*#[ \t]*define[ \t]+%s\b' % m[2], text, re.M) or re.search(r'pop_macro\("%s"\)' % m[2], text)
            if m[1] == 'undef' and not m[2].startswith('XYZ_') and not own: put((h, 'undef ' + m[2]), '%s:%d: %s removes the definition a program may have given macro %s' % (h, text.count('\n', 0, m.start()) + 1, h, m[2]))
    for (h, s, pre), (d, err), pr in zip(us, ds, ps):
        if d is None: errors.append('%s as C++%d does not type check: %s' % (h, s, err[:300])); continue
        for x in d['scopes']:
            n += 1; w = x['scope']; nm = x['name'] or x['kind']; names.append('%s: %s in %s' % (at(x), nm, w))
            if x['kind'] == 'OpensNamespace' or w == 'specialization': continue
            if x['kind'] == 'UsingDirective': put((h, 'using', w), '%s: a using-directive outside any function makes the names of another namespace visible to including code' % at(x))
            elif w == 'global': put((h, nm), '%s: %s is declared outside namespace xyz' % (at(x), nm))
            elif w == 'std': put((h, nm), '%s: %s is added to namespace std, which is not a specialisation for a type of the library' % (at(x), nm))
            elif w == 'dynamic': put((h, nm), '%s: %s is initialised dynamically by every unit that includes %s' % (at(x), nm, h))
            elif nm == '(anonymous namespace)': put((h, nm), '%s: an unnamed namespace gives every including unit its own copy of the entities' % at(x))
        for m in d['macros']:
            n += 1; names.append('%s: macro %s' % (at(m), m['name']))
            if m['by_header'] and not m['name'].startswith('XYZ_'): put((h, 'macro ' + m['name']), '%s: macro %s, outside the library\'s XYZ_ names, remains defined after %s was included' % (at(m), m['name'], h))
            if m['before'] and not m['defined']: put((h, 'undef ' + m['name']), '%s: %s removes the definition of macro %s' % (at(m), h, m['name']))
        for i, why in judge_pragmas(pr): put((h, pr[i][2]), '%s:%d: #pragma %s %s' % (os.path.relpath(pr[i][0], REPO), pr[i][1], pr[i][2], why))
        n += len(pr)
        if not any(x['name'].startswith('XYZ_') for x in d['macros']): errors.append('%s as C++%d: no include guard seen' % (h, s))
        if h != 'feature_check.h' and not any(x['scope'] == 'xyz' for x in d['scopes']): errors.append('%s as C++%d: no declaration seen in namespace xyz' % (h, s))
    return list(found.values()), errors, {'units': len(us), 'declarations_macros_pragmas_judged': n, 'samples': names[::max(1, len(names) // 12)][:12]}

MODERN = lambda h: 'cxx14' not in h
TABLE = {
 'P12': lambda tier: each(tier, q12),
 'P17': lambda tier: each(tier, q17),
 'P18': lambda tier: each(tier, q18, MODERN),
 'P21': p21,
 'P24': p24,
 'P29': p29,
 'P33': p33,
}
