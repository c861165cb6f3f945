"""P34: what the project hands out is complete. The build descriptions
(CMakeLists.txt, the package configuration template, BUILD.bazel) are parsed,
not executed: from them come the sets of files each distributed target
carries; the headers of each set, alone in a directory, are then type checked
in the language the target asks for."""
import ast, collections, os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor
from engine_a import Finding
REPO = os.environ.get('VP_REPO', '/repo')

# ------------------------------------------------------------------ CMake
def commands(text):
    """(name, arguments, line) of every command invocation."""
    out = []; i = 0; n = len(text)
    def comment(i):
        m = re.compile(r'#\[(=*)\[').match(text, i)
        if m: return text.index(']' + m[1] + ']', i) + len(m[1]) + 2
        j = text.find('\n', i); return n if j < 0 else j
    while i < n:
        c = text[i]
        if c == '#': i = comment(i); continue
        m = re.compile(r'([A-Za-z_]\w*)[ \t]*\(').match(text, i)
        if not m: i += 1; continue
        line = text.count('\n', 0, i) + 1; i = m.end(); depth = 1; args = []
        while depth:
            c = text[i]
            if c == '#': i = comment(i)
            elif c == '(': depth += 1; i += 1; args.append('(')
            elif c == ')': depth -= 1; i += 1; args += [')'] if depth else []
            elif c.isspace(): i += 1
            elif c == '"':
                a = re.compile(r'"((?:[^"\\]|\\.)*)"', re.S).match(text, i); args.append(a[1]); i = a.end()
            elif c == '[' and re.compile(r'\[(=*)\[').match(text, i):
                a = re.compile(r'\[(=*)\[').match(text, i); j = text.index(']' + a[1] + ']', i); args.append(text[a.end():j]); i = j + len(a[1]) + 2
            else:
                a = re.compile(r'[^\s()"#]+').match(text, i); args.append(a[0]); i = a.end()
        out.append((m[1].lower(), args, line))
    return out

def sections(args, keys):
    out = collections.defaultdict(list); k = None
    for a in args:
        if a in keys: k = a; out[k]
        else: out[k].append(a)
    return out

VARS = {'CMAKE_INSTALL_INCLUDEDIR': 'include', 'CMAKE_INSTALL_LIBDIR': 'lib', 'CMAKE_INSTALL_BINDIR': 'bin', 'CMAKE_INSTALL_DATAROOTDIR': 'share',
        'CMAKE_CURRENT_SOURCE_DIR': '@S', 'CMAKE_CURRENT_LIST_DIR': '@S', 'PROJECT_SOURCE_DIR': '@S', 'CMAKE_SOURCE_DIR': '@S', 'CMAKE_CURRENT_BINARY_DIR': '@B', 'PROJECT_BINARY_DIR': '@B', 'CMAKE_BINARY_DIR': '@B'}
INSTALL = {'FILES', 'TARGETS', 'EXPORT', 'DIRECTORY', 'DESTINATION', 'FILE', 'NAMESPACE', 'LIBRARY', 'ARCHIVE', 'RUNTIME', 'RENAME', 'COMPONENT', 'INCLUDES', 'FILE_SET', 'CONFIGURATIONS', 'PERMISSIONS', 'PUBLIC_HEADER', 'TYPE', 'PATTERN', 'FILES_MATCHING'}

class Project:
    def __init__(self):
        self.files = []      # (source, destination path, line)
        self.exports = {}    # set -> dict(file, namespace, dest, line)
        self.members = collections.defaultdict(list)   # export set -> targets
        self.libs = {}       # target -> dict(std, defs, headers, line)
        self.generated = {}  # @B file -> ('config', template) | ('version', None)
        self.errors = []
        v = dict(VARS)
        def ex(s):
            for _ in range(5):
                t = re.sub(r'\$\{(\w+)\}', lambda m: v.get(m[1], '${%s}' % m[1]), s)
                if t == s: break
                s = t
            return s
        for name, args, line in commands(open(os.path.join(REPO, 'CMakeLists.txt')).read()):
            args = [ex(a) for a in args]
            args = [x for a in args for x in a.split(';')] if name != 'set' else args
            if name == 'set' and args: v[args[0]] = ';'.join(args[1:])
            elif name == 'xyz_add_library':
                s = sections(args, {'NAME', 'ALIAS', 'VERSION', 'DEFINITIONS'})
                self.libs[s['NAME'][0]] = dict(std=int((s['VERSION'] or ['20'])[0]), defs=s['DEFINITIONS'], files=[], line=line)
            elif name == 'target_sources' and args and args[0] in self.libs:
                for a in args[1:]:
                    m = re.match(r'\$<BUILD_INTERFACE:(.*)>$', a)
                    a = m[1] if m else a
                    if '/' in a or '.' in a: self.libs[args[0]]['files'].append((a, line))
            elif name == 'configure_package_config_file': self.generated[args[1]] = ('config', args[0])
            elif name == 'write_basic_package_version_file': self.generated[args[0]] = ('version', None)
            elif name == 'install':
                s = sections(args, INSTALL)
                if args[0] == 'FILES':
                    d = (s['DESTINATION'] or [{'HEADERS': 'include'}.get((s['TYPE'] or [''])[0], '?')])[0]
                    for f in s['FILES']:
                        self.files.append((f if f.startswith('@') else '@S/' + f, d + '/' + (s['RENAME'] or [os.path.basename(f)])[0], line))
                elif args[0] == 'TARGETS' and s['EXPORT']: self.members[s['EXPORT'][0]] += s['TARGETS']
                elif args[0] == 'EXPORT':
                    e = s['EXPORT'][0]
                    self.exports[e] = dict(file=(s['FILE'] or [e + '.cmake'])[0], ns=(s['NAMESPACE'] or [''])[0], dest=s['DESTINATION'][0], line=line)
                elif args[0] not in ('TARGETS',): self.errors.append('CMakeLists.txt:%d: install(%s) is not modelled' % (line, args[0]))

def real(f): return f.replace('@S', REPO, 1) if f.startswith('@S') else f

# ------------------------------------------------------------------ type checking a set of files alone
PROBE = '''#include <string>
namespace vpi { struct Base { virtual ~Base(); }; struct D : Base {}; }
'''
USE = {'indirect': 'void vpi_use_i() { xyz::indirect<std::string> a, b(a), c(std::move(b)); a = c; swap(a, c); (void)(a == c); (void)a->size(); }\n',
       'polymorphic': 'void vpi_use_p() { xyz::polymorphic<vpi::Base> a{vpi::D()}, b(a), c(std::move(b)); a = c; swap(a, c); vpi::Base& r = *a; (void)r; }\n'}

def unit(heads): 
    k = lambda h: 'polymorphic' if 'polymorphic' in h else 'indirect' if 'indirect' in h else None
    return PROBE + ''.join('#include "%s"\n' % h for h in heads) + ''.join(USE[x] for x in dict.fromkeys(filter(None, map(k, heads))))

def check_alone(cxx, std, d, heads, defs=()):
    p = subprocess.run([cxx, '-std=c++%d' % std, '-w', '-fsyntax-only', *['-D' + x for x in defs], '-I' + d, '-x', 'c++', '-'], input=unit(heads), capture_output=True, text=True)
    return p.returncode == 0, p.stderr

def tokens(cxx, std, d, head, defs=(), flags=()):
    """The header's tokens after preprocessing, places left out."""
    p = subprocess.run([cxx, '-std=c++%d' % std, '-w', '-E', '-P', *flags, *['-D' + x for x in defs], '-I' + d, '-x', 'c++', '-'], input='#include "%s"\n' % head, capture_output=True, text=True)
    if p.returncode: return None
    return re.sub(r'\s+', ' ', p.stdout.replace(d + '/', ''))

def stage(d, files):
    for f in files: shutil.copy(f, os.path.join(d, os.path.basename(f)))

STDS = {'quick': (20, 23), 'thorough': (20, 23, 26)}
def usable(c, s): return subprocess.run([c, '-std=c++%d' % s, '-fsyntax-only', '-x', 'c++', '-'], input='', capture_output=True, text=True).returncode == 0

# ------------------------------------------------------------------ Bazel
def bazel(path):
    """Targets of a BUILD file: rule calls whose arguments are literals."""
    out = {}
    for st in ast.parse(open(path).read()).body:
        c = getattr(st, 'value', None)
        if not isinstance(c, ast.Call) or not isinstance(c.func, ast.Name): continue
        a = {}
        for k in c.keywords:
            try: a[k.arg] = ast.literal_eval(k.value)
            except ValueError: a[k.arg] = None
        if 'name' in a: out[a['name']] = dict(a, rule=c.func.id, line=st.lineno)
    return out

def closure(ts, n, seen=None):
    seen = seen if seen is not None else set()
    for d in ts[n].get('deps') or []:
        d = d.lstrip(':').replace('//:', '')
        if d in ts and d not in seen: seen.add(d); closure(ts, d, seen)
    return seen

def reads(f, defs=()):
    """Files of the repository a header or source reads, over the language modes that accept it."""
    out = {}
    for c, s, fl in [(c, s, fl) for c in ('clang++', 'g++') for s in (14, 17, 20, 23) for fl in ((), ('-DNDEBUG',))]:
        p = subprocess.run([c, '-std=c++%d' % s, '-w', '-E', '-o', '/dev/null', '-H', *fl, *['-D' + x for x in defs], '-I' + REPO, '-x', 'c++', os.path.join(REPO, f)], capture_output=True, text=True)
        if p.returncode: continue
        for m in re.finditer(r'^\.+ (.*)$', p.stderr, re.M):
            q = os.path.normpath(m[1])
            if q.startswith(REPO + '/'): out.setdefault(os.path.relpath(q, REPO), s)
    return out

# ------------------------------------------------------------------ the property
def run(tier):
    found = collections.OrderedDict(); n = collections.Counter(); names = []
    def put(what, text, detail=''): found.setdefault(what, Finding(dict(kind='package', what=what), text, detail))
    P = Project(); errors = list(P.errors)
    # 1. the installed headers, alone
    inst = [(real(s), d, l) for s, d, l in P.files if d.endswith('.h')]
    if not inst: errors.append('CMakeLists.txt: no installed header recognised')
    for s, d, l in P.files:
        n['installed_files'] += 1
        if s.startswith('@S') and not os.path.exists(real(s)): put('missing ' + s, 'CMakeLists.txt:%d: installs %s, which does not exist' % (l, s[3:]))
        if s.startswith('@B') and s not in P.generated: put('ungenerated ' + s, 'CMakeLists.txt:%d: installs %s, which nothing generates' % (l, s[3:]))
    have = {os.path.basename(d) for _, d, _ in inst}
    with ThreadPoolExecutor(8) as ex:
        ok_ = [s for s, d, l in inst if os.path.exists(s)]
        for s, r in zip(ok_, ex.map(lambda s: reads(os.path.relpath(s, REPO)), ok_)):
            f = os.path.relpath(s, REPO); names.append('installed %s reads %s' % (f, ', '.join(sorted(r)) or 'no other file of the repository'))
            for g in r:
                if os.path.basename(g) not in have: put('install %s %s' % (f, g), 'installed header %s includes %s, which install(FILES ...) leaves out' % (f, g))
    std = P.libs.get('xyz_value_types', {}).get('std', 20)
    with tempfile.TemporaryDirectory(prefix='vp_') as d:
        stage(d, [s for s, _, _ in inst if os.path.exists(s)])
        hs = sorted(have); jobs = []
        for c in ('clang++', 'g++'):
            for s in STDS[tier if tier in STDS else 'quick']:
                if s < std or not usable(c, s): continue
                jobs += [(c, s, [h]) for h in hs] + [(c, s, hs), (c, s, hs[::-1])]
        with ThreadPoolExecutor(8) as ex:
            for (c, s, h), (ok, err) in zip(jobs, ex.map(lambda j: check_alone(j[0], j[1], d, j[2]), jobs)):
                n['units'] += 1
                if not ok:
                    l = next((x for x in err.splitlines() if 'error' in x), err[-200:]).replace(d + '/', '')
                    put('alone ' + ' '.join(h), 'the installed headers %s, without the rest of the repository, do not compile as C++%d with %s: %s' % (', '.join(h), s, c, l.strip()), err[:3000])
            forms = [(c, s, h, fl) for c, s, hh in jobs if len(hh) == 1 for h in hh for fl in ((), ('-DNDEBUG',), ('-O2',))]
            for (c, s, h, fl), (a, b) in zip(forms, ex.map(lambda j: (tokens(j[0], j[1], d, j[2], (), j[3]), tokens(j[0], j[1], REPO, j[2], (), j[3])), forms)):
                n['token_comparisons'] += 1
                if a is not None and b is not None and a != b:
                    i = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
                    put('differs ' + h, '%s means something else when installed: after preprocessing as C++%d it reads "%s" where the repository\'s reads "%s"' % (h, s, a[max(0, i - 30):i + 60], b[max(0, i - 30):i + 60]))
    # 2. the package configuration finds what is installed beside it
    placed = {d: s for s, d, _ in P.files}
    for e in P.exports.values(): placed[e['dest'] + '/' + e['file']] = 'export'
    exported = {e['ns'] + t for k, e in P.exports.items() for t in P.members[k]}
    confs = [(s, d, l) for s, d, l in P.files if s.startswith('@B') and P.generated.get(s, ('',))[0] == 'config']
    if not confs: errors.append('CMakeLists.txt: no installed package configuration recognised')
    for s, d, l in confs:
        here = os.path.dirname(d); t = real(P.generated[s][1]); rel = os.path.relpath(t, REPO); base = os.path.basename(d)
        m = re.match(r'(.*?)(-config|Config)\.cmake$', base)
        if not m: put('config name', 'CMakeLists.txt:%d: find_package does not look for %s' % (l, base)); continue
        got = 0
        for name, args, ln in commands(open(t).read()):
            n['config_commands'] += 1
            if name == 'include' and args:
                p = re.sub(r'\$\{CMAKE_CURRENT_LIST_DIR\}', here, args[0])
                if '${' in p or not p.endswith('.cmake'): continue
                got += 1; names.append('%s:%d includes %s' % (rel, ln, os.path.basename(p)))
                if p not in placed: put('include ' + os.path.basename(p), '%s:%d: find_package(%s) includes %s, which is not installed there' % (rel, ln, m[1], os.path.basename(p)))
            if name == 'if' and 'TARGET' in args:
                tg = args[args.index('TARGET') + 1]
                if tg not in exported: put('target ' + tg, '%s:%d: tests for target %s, which no export defines' % (rel, ln, tg))
        if not got: put('exports', '%s: find_package(%s) defines no target' % (rel, m[1]))
        want = m[1] + ('-config-version' if m[2] == '-config' else 'ConfigVersion') + '.cmake'
        vs = [(os.path.basename(x), y) for sx, x, y in P.files if sx.startswith('@B') and P.generated.get(sx, ('',))[0] == 'version' and os.path.dirname(x) == here]
        n['version_files'] += len(vs)
        for v, y in vs:
            if v != want: put('version file', 'CMakeLists.txt:%d: the version file is installed as %s, where find_package looks for %s: a request for any version of %s is refused' % (y, v, want, m[1]))
    # 3. the CMake targets of the build tree
    jobs = []
    for t, lib in P.libs.items():
        n['cmake_targets'] += 1; hs = []
        for f, l in lib['files']:
            if not os.path.exists(real(f)): put('source ' + f, 'CMakeLists.txt:%d: target %s lists %s, which does not exist' % (l, t, os.path.basename(f)))
            elif f.endswith('.h'): hs.append(os.path.basename(f))
        if not hs: put('headers ' + t, 'CMakeLists.txt:%d: target %s carries no header' % (lib['line'], t)); continue
        jobs += [(c, lib['std'], hs, lib['defs'], t) for c in ('clang++', 'g++')]
    with ThreadPoolExecutor(8) as ex:
        for (c, s, h, df, t), (ok, err) in zip(jobs, ex.map(lambda j: check_alone(j[0], j[1], REPO, j[2], j[3]), jobs)):
            n['units'] += 1; names.append('cmake %s: %s as C++%d' % (t, ', '.join(h), s))
            if not ok: put('target ' + t, 'target %s: %s does not compile in the C++%d the target asks for with %s: %s' % (t, ', '.join(h), s, c, next((x for x in err.splitlines() if 'error' in x), '')), err[:3000])
    # 4. the Bazel targets
    ts = bazel(os.path.join(REPO, 'BUILD.bazel')); libs = {k: v for k, v in ts.items() if v['rule'] == 'cc_library'}
    if not libs: errors.append('BUILD.bazel: no library recognised')
    for k, v in libs.items():
        n['bazel_targets'] += 1
        hv = set(v.get('hdrs') or []) | set(v.get('srcs') or [])
        for dep in closure(ts, k): hv |= set(ts[dep].get('hdrs') or [])
        fs = (v.get('hdrs') or []) + (v.get('srcs') or [])
        for f in fs:
            if not os.path.exists(os.path.join(REPO, f)): put('bazel file ' + f, 'BUILD.bazel:%d: library %s lists %s, which does not exist' % (v['line'], k, f))
        fs = [f for f in fs if os.path.exists(os.path.join(REPO, f))]
        with ThreadPoolExecutor(8) as ex: rs = list(ex.map(lambda f: reads(f, v.get('defines') or []), fs))
        for f, r in zip(fs, rs):
            names.append('bazel %s: %s reads %s' % (k, f, ', '.join(sorted(r)) or 'nothing else'))
            for g in r:
                if g not in hv: put('bazel %s %s %s' % (k, f, g), 'BUILD.bazel:%d: %s of library %s includes %s, which neither the library nor its dependencies provide' % (v['line'], f, k, g))
    return list(found.values()), errors, dict(n, samples=names[:14])
