"""Compile the drivers against /repo's headers, analyse them in parallel."""
import os, re, subprocess, sys, tempfile, shutil, traceback, time
from concurrent.futures import ProcessPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from lab import Config, make_lab, SetupError
from absint import Module, AnalysisError, Loc
import ops

REPO = os.environ.get('VP_REPO', '/repo')
CLANG = 'clang++'

def irdump_path():
    """Builds the IR reader when it is missing."""
    src = os.path.join(HERE, 'irdump.cpp')
    out = os.path.join(VERIF, 'build', 'irdump')
    if os.path.exists(out) and os.path.getmtime(out) >= os.path.getmtime(src): return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    cfg = lambda *a: subprocess.check_output(['llvm-config-18' if shutil.which('llvm-config-18') else 'llvm-config', *a], text=True).split()
    cxx = [f for f in cfg('--cxxflags') if not f.startswith('-std=')]
    tmp = out + '.%d' % os.getpid()
    subprocess.check_call(['clang++', '-std=c++17', '-O1', src, '-o', tmp, *cxx, *cfg('--ldflags', '--libs', 'core', 'irreader'), '-Wl,-rpath,' + cfg('--libdir')[0]])
    os.rename(tmp, out)
    return out

def fix_lines(diag, names):
    """Driver lines an error is attributed to."""
    bad = set()
    cur = None
    for l in diag.splitlines():
        m = re.match(r'^(.*?):(\d+):(\d+): (error|fatal error|note|warning):(.*)', l)
        if m:
            if m.group(4) in ('error', 'fatal error'): cur = True
            elif m.group(4) == 'warning': cur = False
            if cur and os.path.basename(m.group(1)) in names and ('requested here' in m.group(5) or 'expanded from' in m.group(5) or 'error' in m.group(4) or 'required' in m.group(5)):
                bad.add((os.path.basename(m.group(1)), int(m.group(2))))
    return bad

NAMES = ('drv_common.inc', 'drv_nested.inc', 'drv_indirect.cc', 'drv_polymorphic.cc', 'drv_plain.cc')

def compile_driver(cfg, work):
    """-> (json path, [(harness, reason)] that do not compile)."""
    d = tempfile.mkdtemp(prefix=cfg.key() + '_', dir=work)
    for n in NAMES + ('vp_model.h',): shutil.copy(os.path.join(VERIF, 'drivers', n), d)
    dropped = []
    bc = os.path.join(d, 'x.bc')
    for attempt in range(12):
        p = subprocess.run([CLANG, '-w', '-ferror-limit=0', '-O0', '-g', '-emit-llvm', '-c', '-I' + REPO, '-I' + d, *cfg.flags(), 'drv_plain.cc' if cfg.sc else 'drv_%s.cc' % cfg.kind, '-o', bc], cwd=d, capture_output=True, text=True)
        if p.returncode == 0: break
        if p.returncode < 0 or 'PLEASE submit a bug report' in p.stderr: raise AnalysisError('compiler crashed: ' + p.stderr[-300:])
        lines = fix_lines(p.stderr, NAMES)
        lines = {x for x in lines if droppable(d, *x)}
        if not lines: raise AnalysisError('driver does not compile: ' + first_error(p.stderr))
        for f, n in lines:
            text = open(os.path.join(d, f)).read().split('\n')
            m = re.search(r'\b(h_\w+)', text[n - 1])
            dropped.append((m.group(1) if m else f, first_error(p.stderr)))
            text[n - 1] = '\\' if text[n - 1].rstrip().endswith('\\') else ''
            open(os.path.join(d, f), 'w').write('\n'.join(text))
    else: raise AnalysisError('driver does not compile: ' + first_error(p.stderr))
    js = os.path.join(d, 'x.json')
    subprocess.check_call([irdump_path(), bc, js])
    return js, dropped

def droppable(d, f, n):
    text = open(os.path.join(d, f)).read().split('\n')
    return n <= len(text) and re.search(r'^\s*H .*\bh_\w+', text[n - 1]) is not None

def first_error(diag):
    for l in diag.splitlines():
        if ' error: ' in l: return l.strip()
    return diag.strip()[:300]

def one(job):
    cfg, groups, work = job
    t = time.time()
    try:
        js, dropped = compile_driver(cfg, work)
        if cfg.el == 4 and dropped:   # needs more of the element than documented, which is P20's matter
            return {'cfg': cfg, 'viols': [], 'summaries': {}, 'by_op': {}, 'obl': 0, 'exits': 0, 'stats': {'states': 0, 'insns': 0}, 'sites': set(), 'fns': {}, 'dropped': [], 'reps': 0, 'closure': 0,
                    'globals': [], 'notes': ['rejected: %s (%s)' % d for d in dropped], 'wall': time.time() - t, 'error': None, 'skipped': True}
        m = Module(js, REPO)
        lab = make_lab(cfg, m)
        ops.run_groups(lab, groups)
        glob = mutable_globals(m)
        lines = {}
        for f in lab.ip.fn_seen:
            fn = m.functions[f]
            if fn.get('file', '').startswith(REPO): lines[fn['dem']] = (fn['file'], fn['line'])
        shutil.rmtree(os.path.dirname(js), ignore_errors=True)
        return {'cfg': cfg, 'viols': lab.viols, 'summaries': lab.summaries, 'by_op': lab.by_op, 'obl': lab.obl, 'exits': lab.exits,
                'stats': lab.ip.stats, 'sites': lab.ip.sites, 'fns': lines, 'dropped': dropped, 'reps': len(lab.reps), 'closure': getattr(lab, 'closure_done', 0),
                'globals': glob, 'notes': sorted(lab.notes), 'wall': time.time() - t, 'error': None}
    except AnalysisError as e:
        return {'cfg': cfg, 'error': str(e)}
    except Exception:
        return {'cfg': cfg, 'error': traceback.format_exc()}

def mutable_globals(m):
    """Mutable variables the headers define (name, file, line)."""
    out = []
    for n, g in m.globals.items():
        if g['decl'] or g['const'] or g.get('cq') or g['dem'].startswith('guard variable for'): continue   # constants initialised once
        if g.get('file', '').startswith(REPO) or 'xyz::' in g['dem']: out.append((g['dem'], g.get('file', '?'), g.get('line', 0)))
    return out

def analyse(cfgs, groups, workers=8):
    irdump_path()
    work = tempfile.mkdtemp(prefix='vp_')
    try:
        with ProcessPoolExecutor(workers) as ex:
            return list(ex.map(one, [(c, groups, work) for c in cfgs]))
    finally:
        shutil.rmtree(work, ignore_errors=True)

# ---------------------------------------------------------------- configurations
QUICK_BUILDS = [('indirect.h', 20), ('indirect_cxx14.h', 14), ('polymorphic.h', 20), ('polymorphic_cxx14.h', 14)]
MORE_BUILDS = [('indirect.h', 23), ('indirect_cxx14.h', 17), ('polymorphic.h', 23), ('polymorphic_cxx14.h', 17)]
MORE_PROFILES = [dict(pocca=0, pocma=0, pocs=0, ae=0), dict(pocca=1, pocma=1, pocs=1, ae=0, cons=0), dict(empty=3)]
ALL_TRAITS = [dict(pocca=a, pocma=b, pocs=c, ae=d) for a in (0, 1) for b in (0, 1) for c in (0, 1) for d in (0, 1)]

def profiles(tier, ndebug=1):
    out = []
    for t in ALL_TRAITS:
        par = sum(t.values()) & 1
        out.append(dict(t, cons=1 - par))
        if tier == 'thorough': out.append(dict(t, cons=par))
    p0 = dict(pocca=0, pocma=0, pocs=0, ae=0); p1 = dict(pocca=1, pocma=1, pocs=1, ae=0)
    out += [dict(p0, empty=1), dict(p1, empty=1, cons=0), dict(p1, empty=2), dict(empty=3), dict(p0, nx=1, cons=0), dict(p1, nx=2), dict(p0, triv=1), dict(p1, triv=1)]
    out += [dict(p0, el=1), dict(p1, el=2), dict(p0, el=3, cons=0), dict(p0, el=4), dict(empty=3, el=4)]
    if tier == 'thorough':
        out += [dict(t, el=e, cons=sum(t.values()) & 1) for t in ALL_TRAITS for e in (1, 2, 3, 4) if sum(t.values()) % 3 == e % 3]
        out += [dict(p1, empty=1, el=2), dict(p0, empty=1, el=3), dict(empty=3, el=3), dict(empty=3, el=1), dict(p1, el=3, nx=1)]
        out += [dict(t, empty=1) for t in ALL_TRAITS if t != dict(p0)] + [dict(t, nx=n) for t in ALL_TRAITS for n in (1, 2) if sum(t.values()) % 2 == n % 2 and not (n == 2 and t == p1)]
    seen = set(); res = []
    for o in out:
        k = tuple(sorted(o.items()))
        if k not in seen: seen.add(k); res.append(dict(o, ndebug=ndebug))
    return res

def plain_profiles(tier, ndebug=1, scs=None):
    """Instantiations whose elements are scalars or trivially copyable structs, handled by plain stores and loads."""
    p0 = dict(pocca=0, pocma=0, pocs=0, ae=0); p1 = dict(pocca=1, pocma=1, pocs=1, ae=0); p2 = dict(pocca=0, pocma=1, pocs=0, ae=1)
    out = [dict(p0, sc=1), dict(p1, sc=5), dict(p0, sc=5, cons=0), dict(empty=3, sc=1), dict(p1, sc=2, cons=0), dict(p0, sc=3, empty=1), dict(p2, sc=7, empty=1)]
    if tier == 'thorough':
        out += [dict(p, sc=n, cons=n & 1) for p in (p0, p1, p2) for n in range(1, 9)] + [dict(t, sc=5, cons=sum(t.values()) & 1) for t in ALL_TRAITS] + [dict(empty=3, sc=5), dict(empty=3, sc=7)]
    if scs: out = [dict(p, sc=n) for n, p in zip(scs, [p0, dict(p1, cons=0), dict(empty=3), dict(p2, empty=1)] * len(scs))] + (out if tier == 'thorough' else [])
    uniq = []
    for p in out:
        if p not in uniq: uniq.append(p)
    return [dict(p, ndebug=ndebug) for p in uniq]

def configs(tier, kinds=('indirect', 'polymorphic'), ndebug=1, profs=None):
    out = {}
    if tier != 'thorough' and not profs:
        for h, s in MORE_BUILDS:
            if ('indirect' if 'indirect' in h else 'polymorphic') not in kinds: continue
            for p in MORE_PROFILES:
                c = Config(h, s, ndebug=ndebug, **p); out[c.key()] = c
    for h, s in QUICK_BUILDS + (MORE_BUILDS if tier == 'thorough' else []):
        if ('indirect' if 'indirect' in h else 'polymorphic') not in kinds: continue
        for p in (profs or profiles(tier, ndebug) + plain_profiles(tier, ndebug)):
            if p.get('sc', 5) != 5 and 'polymorphic' in h: continue
            c = Config(h, s, **p)
            out[c.key()] = c
    return list(out.values())
