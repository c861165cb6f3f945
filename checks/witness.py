"""Type-level witnesses: translation units the type checker must accept."""
import os, re, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VP_REPO', '/repo')
WIT = os.path.join(VERIF, 'witness')
from engine_a import Finding

BUILDS = {'quick': [('indirect.h', 20), ('indirect_cxx14.h', 14), ('indirect_cxx14.h', 17), ('polymorphic.h', 20), ('polymorphic_cxx14.h', 14), ('polymorphic_cxx14.h', 17)],
          'thorough': [('indirect.h', 20), ('indirect.h', 23), ('indirect.h', 26), ('indirect_cxx14.h', 14), ('indirect_cxx14.h', 17), ('indirect_cxx14.h', 20), ('indirect_cxx14.h', 23),
                       ('polymorphic.h', 20), ('polymorphic.h', 23), ('polymorphic.h', 26), ('polymorphic_cxx14.h', 14), ('polymorphic_cxx14.h', 17), ('polymorphic_cxx14.h', 20), ('polymorphic_cxx14.h', 23)]}
# property -> (witness files, builds wanted, thorough builds)
FILES = {'P05': (['p05.cc'], None), 'P12': (['p12.cc'], None), 'P18': (['p18.cc'], None), 'P19': (['p19.cc', 'p19_holder.cc'], None),
         'P20': (['p20.cc'], None), 'P22': (['p22.cc'], None), 'P23': (['p23.cc'], 'modern'), 'P30': (['p30.cc'], None)}
COMPILERS = ('clang++', 'g++')

def supports(comp, std): return comp == 'clang++' or std < 26

def std_flag(std): return {26: '-std=c++2c'}.get(std, '-std=c++%d' % std)
def defs(header):
    return ['-DVP_HEADER="%s"' % header, '-DVP_MODERN=%d' % (0 if 'cxx14' in header else 1), '-DVP_POLY=%d' % (1 if 'poly' in header else 0)]

def compile_tu(comp, std, header, path, extra=(), debug=''):
    lim = ['-ferror-limit=0'] if comp == 'clang++' else ['-fmax-errors=0']
    p = subprocess.run([comp, std_flag(std), '-w', '-fsyntax-only', *lim, *defs(header), *extra, '-I' + REPO, '-I' + WIT, path], capture_output=True, text=True, cwd=WIT)
    return p

def blocks(stderr):
    """Split a diagnostic stream into one block per error, each with the
    context lines a compiler prints before (gcc) or after (clang) it."""
    out = []; pre = []; cur = None
    for l in stderr.splitlines():
        if re.search(r': (fatal )?error: ', l):
            cur = [l]; out.append((cur, pre)); pre = []
        elif re.search(r'(In instantiation of|In file included|required from|required by|In substitution|In member function|In function|At global scope|from /)', l) and not re.search(r': note: ', l):
            pre.append(l)
            cur = None
        elif cur is not None: cur.append(l)
    return [('\n'.join(c), '\n'.join(p)) for c, p in out]

def anchor(header, text):
    """Line of the declaration a witness text names, for the report."""
    pats = [('move assignment', r'operator=\((indirect|polymorphic)&& other'), ('copy assignment', r'operator=\(const (indirect|polymorphic)&'), ('onverting assignment', r'operator=\(U&&'), ('same-type wrapper was taken by a converting assignment', r'operator=\(U&&'),
            ('free swap', r'friend .*void swap'), ('swap', r'void swap\('), ('operator->', r'operator->\('), ('operator*', r'operator\*\('), ('valueless_after_move', r'valueless_after_move\('), ('get_allocator', r'get_allocator\('),
            ('estruct', r'~(indirect|polymorphic)\('), ('allocator-extended move', r'(indirect|polymorphic)&& other'), ('move construction', r'(indirect|polymorphic)\((indirect|polymorphic)&& other'), ('allocator-extended copy', r'(indirect|polymorphic)&? ?other\)$'),
            ('copy construction', r'(indirect|polymorphic)\(const (indirect|polymorphic)& other'), ('initializer', r'initializer_list'), ('in-place', r'in_place'), ('alue constructor', r'(indirect|polymorphic)\(U&& u\)'), ('value construction', r'(indirect|polymorphic)\(U&& u\)'), ('rom a value', r'(indirect|polymorphic)\(U&& u\)'),
            ('deduction', r'^indirect\(|-> indirect'), ('hash', r'struct std::hash'), ('ompar', r'operator(==|<=>|<)'), ('default construction', r'(indirect|polymorphic)\(\)'), ('pointer', r'pointer p_|cb_;|alloc_;')]
    try: lines = open(os.path.join(REPO, header)).read().splitlines()
    except OSError: return None
    for k, rx in pats:
        if k in text:
            for n, l in enumerate(lines, 1):
                if re.search(rx, l): return n
    return None

def fn_at(path, line):
    """Name of the witness function a line belongs to."""
    try: ls = open(path).read().splitlines()
    except OSError: return None
    for i in range(min(line, len(ls)) - 1, -1, -1):
        m = re.search(r'\bw_\w+', ls[i])
        if m: return m.group(0)
        if line - i > 12: break
    return None

def judge(pid, comp, std, header, f, p):
    out = []
    where = '%s (C++%d, %s)' % (header, std, comp)
    bs = blocks(p.stderr)
    if not bs and p.returncode != 0:
        return None, 'no diagnosis from %s for %s: %s' % (comp, f, p.stderr.strip()[-200:])
    for b, pre in bs:
        first = b.splitlines()[0]
        if 'WITNESS ' in first:
            text = re.search(r'WITNESS (.*)', first).group(1).strip().rstrip('"')
            n = anchor(header, text)
            ctx = re.findall(r"(?:instantiation of [^']*['‘]|In instantiation of [^'‘]*['‘])([^'’]{0,200})", b + pre)
            out.append(Finding(dict(kind='witness', file=f, header=header, compiler=comp, std=std, msg=text),
                               '%s%s: violated: %s%s' % (header, ':%d' % n if n else '', text, ' [with %s]' % ctx[0] if ctx else ''), where + '\n' + pre + '\n' + b))
        else:
            locs = re.findall(r'%s/([\w./]+):(\d+)' % re.escape(REPO), b + '\n' + pre)
            wl = re.findall(r'(?:^|[ /])%s:(\d+)' % re.escape(f), b + '\n' + pre, re.M)
            fn = fn_at(os.path.join(WIT, f), int(wl[-1] if comp == 'clang++' else wl[0])) if wl else None
            msg = re.search(r'error: (.*)', first).group(1)
            out.append(Finding(dict(kind='hard', file=f, header=header, compiler=comp, std=std, msg=msg, fn=fn),
                               '%s: a use that must type check does not (%s%s): %s' % ('%s:%s' % locs[0] if locs else header, f, ' ' + fn if fn else '', msg[:240]), where + '\n' + pre + '\n' + b))
    return out, None

def control(header, std, comp):
    """The header by itself; when this fails no witness means anything."""
    p = subprocess.run([comp, std_flag(std), '-w', '-fsyntax-only', '-I' + REPO, '-x', 'c++', '-'], input='#include "%s"\n' % header, capture_output=True, text=True)
    return p

def count(header, std, f):
    p = subprocess.run(['clang++', std_flag(std), '-w', '-fsyntax-only', *defs(header), '-I' + REPO, '-I' + WIT, f, '-Xclang', '-ast-dump', '-Xclang', '-ast-dump-filter=vpw'], capture_output=True, text=True, cwd=WIT)
    t = p.stdout
    return len(re.findall(r'StaticAssertDecl', t)), len(re.findall(r'(?:FunctionDecl|CXXMethodDecl)[^\n]* w_\w+', t))

def run(pid, tier):
    files, want = FILES[pid]
    builds = [b for b in BUILDS['thorough' if tier == 'thorough' else 'quick'] if want != 'modern' or 'cxx14' not in b[0]]
    errors = []; found = {}
    import variants
    builds = builds + [(h, s) for h in sorted({b[0] for b in builds}) for s in variants.extra_stds(h, [b[1] for b in builds if b[0] == h])]
    jobs = [(c, s, h, f) for h, s in builds for f in files for c in COMPILERS if supports(c, s)]
    import variants
    forms = [(cmd[0], s, h, f, tuple(cmd[1:]) + (('-DNDEBUG',) if nd else ())) for h, s in builds for name, cmd, ir, place, nd in variants.of(h, s) for f in files]
    with ThreadPoolExecutor(8) as ex:
        cont = list(ex.map(lambda b: control(b[0], b[1], b[2]), [(h, s, c) for h, s in builds for c in COMPILERS if supports(c, s)]))
        jobs += forms
        res = list(ex.map(lambda j: compile_tu(j[0], j[1], j[2], j[3], j[4] if len(j) > 4 else ()), jobs))
        cnt = list(ex.map(lambda j: count(*j), [(h, s, f) for h, s in builds for f in files]))
    for (h, s, c), p in zip([(h, s, c) for h, s in builds for c in COMPILERS if supports(c, s)], cont):
        if p.returncode:
            l = next((x for x in p.stderr.splitlines() if 'error' in x), p.stderr[:200])
            k = ('include', h, s, c)
            found[k] = Finding(dict(kind='include', header=h, std=s, compiler=c), '%s does not compile by itself as C++%d with %s: %s' % (h, s, c, l.strip()), p.stderr[:2000])
    ok = 0
    for j, p in zip(jobs, res):
        c, s, h, f = j[:4]
        if ('include', h, s, c) in found: continue
        r, e = judge(pid, c, s, h, f, p)
        if e: errors.append(e); continue
        if not r: ok += 1
        for x in r:
            k = (x.key['kind'], h, x.key['file'], x.key['msg'])
            if k in found and found[k].key['compiler'] != c and x.key['compiler'] not in found[k].key['compiler'].split('+'): found[k].key['compiler'] += '+' + c
            else: found.setdefault(k, x)
    cov = {'translation_units': len(jobs), 'translation_units_accepted': ok, 'compilers': list(COMPILERS), 'modes': sorted({'%s as C++%d' % b for b in builds}),
           'assertions': sum(a for a, _ in cnt), 'uses_type_checked': sum(b for _, b in cnt),
           'witness_files': files, 'samples': samples(files)}
    if not found and min(a + b for a, b in cnt) == 0: errors.append('a witness file produced no obligations')
    return list(found.values()), errors, cov

def samples(files):
    out = []
    for f in files:
        t = open(os.path.join(WIT, f)).read()
        out += re.findall(r'W\("([^"]*)"', t)[:5] + re.findall(r'\bw_\w+', t)[:5]
    return out[:12]
