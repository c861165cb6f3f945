"""Scenario layer: entry states, operations, and the oracle of each operation."""
import itertools, re
from absint import *
from model import Model, pid, cmp_result

A1, A2, A3 = sym('a1'), sym('a2'), sym('a3')

class SetupError(Exception):
    def __init__(self, msg, viols=()):
        Exception.__init__(self, msg); self.viols = viols

EL_TEXT = {0: '', 1: ', large final element with a virtual destructor', 2: ', empty final element', 3: ', element with a virtual destructor', 4: ', element with explicit constructors and assignment returning void'}

SC_TEXT = {0: '', 1: ', elements int', 2: ', elements double', 3: ', elements const void*', 4: ', elements of enumeration type', 5: ', trivially copyable elements',
           6: ', elements unsigned char', 7: ', elements bool', 8: ', elements pointers to members'}

class Config:
    """One instantiation of one header."""
    def __init__(self, header, std, pocca=0, pocma=0, pocs=0, ae=0, cons=1, empty=0, nx=0, triv=0, ndebug=1, pre=None, el=0, sc=0, way=None):
        self.way = way   # (name, flags) of a form the header takes when compiled differently
        self.pre = pre; self.el = el; self.sc = sc; self.header = header; self.std = std; self.pocca = pocca; self.pocma = pocma; self.pocs = pocs; self.ae = ae
        self.cons = cons; self.empty = empty; self.nx = nx; self.triv = triv; self.ndebug = ndebug
        self.kind = 'indirect' if 'indirect' in header else 'polymorphic'
        self.cxx14 = 'cxx14' in header
        if empty == 3: self.pocca, self.pocma, self.pocs, self.ae, self.cons = 0, 1, 0, 1, 0
    def flags(self):
        f = ['-std=c++%d' % self.std, '-DVP_POCCA=%d' % self.pocca, '-DVP_POCMA=%d' % self.pocma, '-DVP_POCS=%d' % self.pocs,
             '-DVP_AE=%d' % self.ae, '-DVP_CONS=%d' % self.cons, '-DVP_EMPTY=%d' % self.empty, '-DVP_NX=%d' % self.nx, '-DVP_TRIV=%d' % self.triv, '-DVP_EL=%d' % self.el]
        if self.sc: f += ['-DVP_SC=%d' % self.sc] + (['-DVP_POLY'] if self.kind == 'polymorphic' else [])
        if self.cxx14: f.append('-DVP_CXX14')
        if self.ndebug: f.append('-DNDEBUG')
        if self.pre: f += ['-include', self.pre]
        if self.way: f += list(self.way[1])
        return f
    def key(self):
        return '%s_%d_%d%d%d%d_c%d_e%d_n%d_t%d_d%d' % (self.header.replace('.h', ''), self.std, self.pocca, self.pocma, self.pocs, self.ae, self.cons, self.empty, self.nx, self.triv, self.ndebug) + ('_el%s' % self.el if self.el else '') + ('_sc%s' % self.sc if self.sc else '') + ('_' + self.pre.replace('.h', '') if self.pre else '') + ('_' + re.sub(r'\W+', '', self.way[0]) if self.way else '')
    def text(self):
        a = {0: 'stateful allocator', 1: 'empty allocator', 2: 'empty final allocator', 3: 'std::allocator'}[self.empty]
        return '%s C++%d, %s POCCA=%d POCMA=%d POCS=%d always_equal=%d%s%s%s' % (
            self.header, self.std, a, self.pocca, self.pocma, self.pocs, self.ae, '' if self.cons else ', no construct/destroy members',
            {0: '', 1: ', element moves noexcept', 2: ', element noexcept'}[self.nx], ', trivially destructible element' if self.triv else '') + EL_TEXT[self.el] + SC_TEXT[self.sc] + ('' if self.ndebug else ', assertions on') + (', %s included first' % self.pre if self.pre else '') + (', form compiled with ' + self.way[0] if self.way else '')

W = namedtuple('W', 'valueless loc typ val alloc')     # observed wrapper state

class Viol(namedtuple('Viol', 'aspect op scen msg loc cfg exit')):
    pass

NOEVENT = ()

class Lab:
    def __init__(self, cfg, module):
        self.cfg = cfg; self.m = module
        self.model = Model(cons=bool(cfg.cons), triv=bool(cfg.triv), std_alloc=cfg.empty == 3, virt=cfg.el in (1, 3), plain=bool(cfg.sc))
        self.model.aligned_new = cfg.std >= 17
        self.ip = Interp(module, self.model)
        self.poly = cfg.kind == 'polymorphic'
        self.elems = ['Base', 'Derived', 'Derived1'] if self.poly else ['Obj']
        self.T = 'Base' if self.poly else 'Obj'
        self.pairs = [('Derived', 'Derived1'), ('Base', 'Derived'), ('Derived', 'Derived')]
        self.viols = []; self.obl = 0; self.exits = 0; self.by_op = {}
        self.summaries = {}
        self.reps = {}; self.newreps = []
        self.accessors = [f for f in ('h_deref_c', 'h_deref', 'h_arrow_c', 'h_arrow') if self.has(f)]
        self.size = self.const_call('h_sizeof')
        self.notes = set()

    def has(self, fn): 
        f = self.m.functions.get(fn)
        return f is not None and not f['decl']

    def const_call(self, fn, st=None):
        ex = self.ip.run(st or State(), fn, [])
        return ex[0].value

    def set_rel(self, rel):
        ae = self.cfg.ae
        def eq(a, b):
            if ae or a == b: return True
            return rel == 'equal' and {a, b} == {A1, A2}
        self.model.equal_ids = eq

    # ---- building abstract entry states ---------------------------------
    def alloc_of(self, ident): return 0 if self.cfg.empty else ident

    def ext_elem(self, st, typ, val):
        rid = st.new_region('ext', self.model.sizeof(self.ip, st, typ), 'arg')
        st.wreg(rid).objs[0] = (typ, val)
        return ptr(rid, 0)

    def ext_arg(self, st):
        return ptr(st.new_region('ext', 1, 'arg'), 0)

    def clean(self, exits, what):
        """The unique normal exit of a setup step."""
        rets = [e for e in exits if e.kind == 'ret']
        bad = [e for e in exits if e.kind not in ('ret', 'throw')]
        if len(rets) != 1 or bad or rets[0].state.viol:
            v = [x for e in exits for x in e.state.viol]
            raise SetupError('%s has no unique clean return' % what, v)
        return rets[0]

    def wrapper(self, st):
        return ptr(st.new_region('wrapper', self.size, 'wrapper'), 0)

    def builders(self, typ):
        sfx = '_' + typ if self.poly else ''
        return [('h_ctor_alloc_ip_obj_clv' + sfx, 'o'), ('h_ctor_val_alloc_clv' + sfx, 'o'), ('h_ctor_val_alloc_rv' + sfx, 'o'), ('h_ctor_alloc_ip_obj_rv' + sfx, 'o')]

    def build(self, st, x, ident, role, typ):
        """Make x own a typ whose value is ('v', role)."""
        err = None
        for fn, how in self.builders(typ):
            s = st.clone()
            o = self.ext_elem(s, typ, ('v', role))
            try:
                e = self.clean(self.ip.run(s, fn, [x, ident, o]), fn)
                s = e.state
                del s.mem[o[1]]
                w = self.observe(s, x)
                if w.valueless or w.val != ('v', role) or w.typ != typ: raise SetupError('constructor builds the wrong object')
                return s
            except SetupError as ex: err = err or ex
        raise err

    def make(self, st, ident, role, kind, typ=None):
        typ = typ or self.elems[-1 if not self.poly else 1]
        x = self.wrapper(st)
        st = self.build(st, x, ident, role, typ)
        if kind == 'valueless':
            err = None
            for fn in ('h_move', 'h_move_alloc', 'h_assign_move', 'h_swap_member'):
                s = st.clone()
                try:
                    t = self.wrapper(s)
                    if fn == 'h_move': e = self.clean(self.ip.run(s, fn, [t, x]), fn)
                    elif fn == 'h_move_alloc': e = self.clean(self.ip.run(s, fn, [t, ident, x]), fn)
                    else: raise SetupError('no way to make a valueless wrapper') if err is None else err
                    s = e.state
                    if not self.observe(s, x).valueless: raise SetupError('%s leaves the source with an object' % fn)
                    e = self.clean(self.ip.run(s, 'h_dtor', [t]), 'h_dtor'); s = e.state
                    s.mem.pop(t[1])
                    return s, x
                except SetupError as ex: err = err or ex
            raise err
        return st, x

    # ---- observing ---------------------------------------------------------
    def owner_of(self, st, p):
        """(loc, typ, val) of the live element containing address p."""
        if p in (0, UNDEF, TOP) or p[0] != 'p': return None
        r = st.mem.get(p[1])
        if r is None or not r.alive: return None
        for off, (t, v) in r.objs.items():
            want = self.model.subobject(self.ip, st, t, self.T)
            if want is not None and off + want == p[2]: return ((p[1], off), t, v)
        return None

    def objval(self, st, p):
        r = st.mem.get(p[1]) if isinstance(p, tuple) and p[0] == 'p' else None
        o = r.objs.get(p[2]) if r is not None and r.alive else None
        return o[1] if o else None

    def obs1(self, st, fn, args):
        s = st.clone(); s.consts = ()
        ex = self.ip.run(s, fn, args)
        if len(ex) != 1 or ex[0].kind != 'ret' or ex[0].state.viol:
            raise SetupError('observer %s fails' % fn, [x for e in ex for x in e.state.viol])
        return ex[0].value

    def observe(self, st, x):
        vl = self.obs1(st, 'h_valueless', [x])
        if vl not in (0, 1): raise SetupError('valueless_after_move gives %r' % (vl,))
        al = self.obs1(st, 'h_get_allocator', [x])
        if vl: return W(True, None, None, None, al)
        o = None; viols = []
        for fn in self.accessors:          # any accessor that works will do here
            try: o = self.owner_of(st, self.obs1(st, fn, [x]))
            except SetupError as e: viols += e.viols
            if o is not None: break
        if o is None:
            raise SetupError('no accessor of a wrapper that is not valueless designates a live %s' % self.T, viols)
        return W(False, o[0], o[1], o[2], al)

    def canon(self, st, x):
        """Representation of wrapper x up to renaming (for history closure)."""
        names = {}
        def cv(v, depth):
            if isinstance(v, tuple) and v and v[0] == 'p':
                if depth > 3: return 'deep'
                r = st.mem.get(v[1])
                if r is None: return 'dangling'
                if r.rid == x[1]: return ('self', v[2])
                if not r.alive: return 'dangling'
                if r.kind == 'global': return ('glob', r.name, v[2])
                if r.kind == 'heap':
                    if r.rid in names: return ('ref', names[r.rid], v[2])
                    names[r.rid] = len(names)
                    return ('heap', v[2], region(r, depth + 1))
                return (r.kind, v[2])
            if isinstance(v, tuple) and v and v[0] == 's': return 'sym'
            return v
        def region(r, depth):
            return (tuple((o, s, cv(v, depth)) for o, (s, v) in sorted(r.cells.items())), tuple((o, t) for o, (t, _) in sorted(r.objs.items())))
        return region(st.mem[x[1]], 0)

    def unmarked(self, st, live): return []

    # ---- reporting -----------------------------------------------------------
    def report(self, aspect, op, scen, msg, loc=None, exit=None):
        self.viols.append(Viol(aspect, op, scen, msg, loc, self.cfg, exit))

    def heap_leaks(self, st):
        out = []
        for r in st.mem.values():
            if r.kind == 'heap':
                if r.alive: out.append('storage %s never released' % (r.meta,))
                elif r.objs: out.append('%s never destroyed' % list(r.objs.values())[0][0])
        return out

    def live_heap(self, st): return {r.rid for r in st.mem.values() if r.kind == 'heap' and r.alive}

    def teardown(self, st, wrappers, op, scen, exitk):
        """Destroy all wrappers; nothing may remain."""
        for x in wrappers:
            s = st.clone(); s.consts = ()
            ex = self.ip.run(s, 'h_dtor', [x])
            for e in ex:
                for v in e.state.viol: self.report(v[0], op, scen, 'later destruction: ' + v[1], v[2], exitk)
            ok = [e for e in ex if e.kind == 'ret']
            if not ok: return
            st = ok[0].state
            if st.viol: return
        for l in self.heap_leaks(st):
            self.report('leak', op, scen, l, None, exitk)

    # ---- the generic driver of one operation in one entry state ---------------
    def elem_events(self, st):
        return [e for e in st.trace if e[0] in ('ctor', 'dtor', 'assign', 'assign-throw', 'temp', 'cmp', 'hash')]
    def alloc_events(self, st):
        return [e for e in st.trace if e[0] == 'alloc']

    def aname(self, i):
        """Allocator identity up to equality (equal allocators are interchangeable)."""
        if self.model.equal_ids(i, A1): return A1
        return i

    def summary(self, op, scen, st, kind, post, value=None):
        """Renamed abstract behaviour of one exit, for sibling comparison."""
        ev = []
        for e in st.trace:
            if e[0] in ('alloc', 'free'): ev.append((e[0], self.aname(e[2][1]) if e[2][0] == 'al' else e[2][0]))
            elif e[0] in ('ctor', 'assign', 'assign-throw'): ev.append((e[0], e[1], e[2]))
            elif e[0] == 'dtor': ev.append(('dtor', e[1]))
            elif e[0] == 'throw': ev.append(('throw', 'comparison' if e[1].startswith('operator') and e[1] != 'operator new' else e[1]))
            elif e[0] in ('hash', 'temp'): ev.append((e[0],))
        if not isinstance(value, int): value = value if isinstance(value, tuple) and value and value[0] == 's' else None
        self.summaries.setdefault((op, scen), set()).add((kind, tuple(ev), post, value))

    def check_op(self, op, fn, st, args, scen, oracle, wrappers, made=(), consts=(), killed=()):
        """Analyse one operation from one entry state and judge each exit.
        wrappers: existing wrappers {name: ptr}; made: wrappers the operation
        constructs; consts: names whose memory must not be written."""
        if not self.has(fn):
            self.notes.add('missing ' + fn); return
        pre = {}
        try:
            for n, x in wrappers.items(): pre[n] = self.observe(st, x)
        except SetupError as e:
            self.report('observer', op, scen, 'entry state: ' + str(e), e.viols[0][2] if e.viols else None, 'setup'); return
        s = st.clone()
        cr = set()
        for n in consts:
            cr.add(wrappers[n][1] if n in wrappers else args_region(n))
            if n in pre and pre[n].loc: cr.add(pre[n].loc[0])
        s.consts = frozenset(cr)
        before_heap = self.live_heap(s)
        exits = self.ip.run(s, fn, args)
        self.by_op[op] = self.by_op.get(op, 0) + 1
        for e in exits:
            self.exits += 1
            self.obl += 1
            t = e.state
            for v in t.viol: self.report(v[0], op, scen, v[1] + self.throw_source(t, v[0]), v[2], e.kind)
            if e.kind in ('abort', 'unreachable', 'terminate', 'trap'):
                if e.kind == 'trap': self.report('terminate', op, scen, 'program aborts', None, e.kind)
                self.summary(op, scen, t, e.kind, None); continue
            if e.kind == 'assert':
                self.report('assert', op, scen, 'assertion at %s:%s can fail' % (e.value.file, e.value.line), e.value, e.kind); continue
            fatal = any(v[0] in FATAL for v in t.viol)
            if fatal: continue
            throws = [x for x in t.trace if x[0] == 'throw']
            if e.kind == 'ret' and throws:
                self.report('swallow', op, scen, 'exception from %s does not reach the caller' % throws[0][1], throws[0][-1], e.kind)
            if e.kind == 'throw' and (len(throws) != 1 or throws[0][1] == 'library'):
                self.report('replace-exn', op, scen, 'a different exception from the one thrown reaches the caller', throws[-1][-1] if throws else None, e.kind)
            for x in t.trace:
                if x[0] == 'alloc' and x[2][0] != 'al' and not self.cfg.empty == 3:
                    self.report('foreign-alloc', op, scen, 'storage taken from %s instead of the allocator' % x[2][0], x[-1], e.kind)
            live = dict(wrappers)
            if e.kind == 'ret':
                live.update(made)
                for k in killed: live.pop(k)
            post = {}
            ok = True
            for n, x in live.items():
                try: post[n] = self.observe(t, x)
                except SetupError as er:
                    self.report('observer', op, scen, 'after the operation: ' + str(er), er.viols[0][2] if er.viols else self.last_loc(t), e.kind); ok = False
            for n in self.unmarked(t, live): self.report('no-construct', op, scen, 'object owned by %s not constructed through allocator_traits::construct' % n, self.last_loc(t), e.kind)
            if ok:
                oracle(self, Ctx(self, op, scen, e, pre, post, before_heap))
                self.summary(op, scen, t, e.kind, tuple(sorted((n, w.valueless, w.typ, simp(w.val), w.alloc, self.whence(w, pre, before_heap)) for n, w in post.items())), e.value if op in ('cmp', 'hash', 'valueless_after_move', 'get_allocator') else None)
                for n, x in live.items():
                    c = self.canon(t, x)
                    if c not in self.reps:
                        self.reps[c] = (op, scen)
                        self.newreps.append((t, n, dict(live), (op, scen)))
            self.teardown(t, list(live.values()), op, scen, e.kind)

    def whence(self, w, pre, before):
        if w.valueless: return 'none'
        for n, p in pre.items():
            if p.loc == w.loc: return 'of ' + n
        return 'new' if w.loc[0] not in before else 'other'

    def throw_source(self, st, aspect):
        if aspect != 'terminate': return ''
        t = [x for x in st.trace if x[0] == 'throw']
        return ' [thrown by %s]' % t[-1][1] if t else ''

    def last_loc(self, st):
        return st.trace[-1][-1] if st.trace else None

def simp(v):
    if isinstance(v, tuple) and v and v[0] == 'args': return ('args',) + tuple(t[0] for t in v[1:])
    if isinstance(v, tuple) and v and v[0] in ('moved', 'touched', 'slice', 'sub'): return (v[0], simp(v[1]))
    return v

class Ctx:
    """One exit of one operation, with expectation helpers."""
    def __init__(self, lab, op, scen, ex, pre, post, before):
        self.lab = lab; self.op = op; self.scen = scen; self.ex = ex; self.pre = pre; self.post = post; self.before = before
        self.st = ex.state; self.kind = ex.kind
        self.loc = lab.last_loc(self.st)
    def bad(self, aspect, msg, loc=None): self.lab.report(aspect, self.op, self.scen, msg, loc or self.loc, self.kind)
    def need(self, cond, aspect, msg, loc=None):
        self.lab.obl += 1
        if not cond: self.bad(aspect, msg, loc)
        return cond
    def same(self, n, aspect='own', val=True, alloc=True):
        """wrapper n is exactly as before"""
        a, b = self.pre[n], self.post[n]
        self.need(a.valueless == b.valueless, aspect, '%s %s' % (n, 'became valueless' if b.valueless else 'acquired an object'))
        if not a.valueless and not b.valueless:
            self.need(a.loc == b.loc, aspect, '%s no longer owns the same object' % n)
            if val and a.loc == b.loc: self.need(a.val == b.val, 'val', 'object owned by %s was modified (%s)' % (n, descr(b.val)))
        if alloc: self.need(a.alloc == b.alloc, 'alloc', 'allocator of %s changed from %s to %s' % (n, pid(a.alloc), pid(b.alloc)))
    def valueless(self, n): self.need(self.post[n].valueless, 'own', '%s should be valueless but owns an object' % n)
    def valued(self, n): return self.need(not self.post[n].valueless, 'own', '%s should own an object but is valueless' % n)
    def owns(self, n, loc, what):
        if self.valued(n): self.need(self.post[n].loc == loc, 'own', '%s does not own %s' % (n, what))
    def owns_new(self, n, typ, val):
        if self.valued(n):
            w = self.post[n]
            self.need(w.loc[0] not in self.before, 'own', '%s should own a new object' % n)
            self.need(w.typ == typ, 'type', '%s owns a %s where a %s was expected' % (n, w.typ, typ))
            self.need(w.val == val, 'val', '%s owns an object built from %s instead of %s' % (n, descr(w.val), descr(val)))
    def alloc_is(self, n, a): self.need(self.post[n].alloc == a, 'alloc', 'get_allocator of %s is %s where %s was expected' % (n, pid(self.post[n].alloc), pid(a)))
    def events(self, *want):
        """Element operations are exactly the given (order-insensitive across
        different objects is not needed: the lists are short and ordered)."""
        if self.lab.cfg.sc: return
        got = []
        for e in self.lab.elem_events(self.st):
            if e[0] == 'ctor': got.append(('ctor', e[1], e[2], e[4][0] if e[4] else None))
            elif e[0] == 'assign': got.append(('assign', e[1], e[2], e[3], e[4]))
            elif e[0] == 'dtor': got.append(('dtor', e[1], (e[2][1], e[2][2])))
            else: got.append((e[0],))
        for e in self.lab.elem_events(self.st):
            if e[0] == 'temp': self.bad('temp', 'a temporary %s is created' % e[1], e[-1])
        got = [g for g in got if g[0] != 'temp']
        w = list(want)
        self.lab.obl += 1
        if got != w:
            self.bad('events', 'element operations are [%s], expected [%s]' % (', '.join(map(evd, got)), ', '.join(map(evd, w))))
    def allocs(self, *ids):
        evs = self.lab.alloc_events(self.st)
        self.need(len(evs) == len(ids), 'nalloc', '%d allocation(s) made, expected %d' % (len(evs), len(ids)), evs[0][-1] if evs else None)
        if len(evs) == len(ids):
            for e, i in zip(evs, ids):
                if e[2][0] == 'al':
                    self.need(self.lab.model.equal_ids(e[2][1], i), 'alloc-id', 'storage taken from allocator %s, expected %s' % (pid(e[2][1]), pid(i)), e[-1])

def evd(g):
    if g[0] == 'ctor': return '%s %s-construct' % (g[1], g[2])
    if g[0] == 'assign': return '%s %s-assign' % (g[1], g[2])
    if g[0] == 'dtor': return '%s destroy' % g[1]
    return str(g[0])
def descr(v):
    if isinstance(v, tuple) and v:
        if v[0] == 'v': return "%s's value" % v[1]
        if v[0] == 'moved': return 'moved-from ' + descr(v[1])
        if v[0] == 'touched': return 'mutably-copied ' + descr(v[1])
        if v[0] == 'args': return '(%s)' % ', '.join(t[0] for t in v[1:])
        return str(v[0])
    return str(v)

def _missing(self, name):
    # single-argument constructors of the C++14 indirect take T only
    return self.cfg.cxx14 and not self.poly and name.startswith('h_ctor_arg_')
Lab.cxx14_missing = _missing

# ---- transparent elements: followed byte by byte
class PlainLab(Lab):
    def __init__(self, cfg, module):
        Lab.__init__(self, cfg, module)
        self.elems = ['PB', 'PD1', 'PD'] if self.poly else ['E']
        self.T = self.elems[0]
        self.pairs = [('PD', 'PD1'), ('PB', 'PD'), ('PD', 'PD')]
    def cells(self, typ, role):
        n = self.model.sizeof(self.ip, None, typ)
        return {0: (n, sym('val', role, typ, 0))} if n <= 8 else {o: (8, sym('val', role, typ, o)) for o in range(0, n, 8)}
    def ext_elem(self, st, typ, val):
        rid = st.new_region('ext', self.model.sizeof(self.ip, st, typ), 'arg')
        st.wreg(rid).cells.update(self.cells(typ, val[1]))
        return ptr(rid, 0)
    def owner_of(self, st, p):
        if p in (0, UNDEF, TOP) or p[0] != 'p': return None
        r = st.mem.get(p[1])
        if r is None or not r.alive: return None
        c = r.cells.get(p[2])
        if c is None: return None
        v = c[1]
        if isinstance(v, tuple) and v[:2] == ('s', 'val'):
            typ = v[3]; base = p[2] - v[4]
            sub = self.model.subobject(self.ip, st, typ, self.T)
            if sub is None or base + sub != p[2]: return ((p[1], p[2]), self.T, ('misplaced',))
            want = self.cells(typ, v[2])
            got = {o - base: cc for o, cc in r.cells.items() if base <= o < base + self.model.sizeof(self.ip, st, typ)}
            return ((p[1], base), typ, ('v', v[2]) if got == want else ('partial', v[2]))
        # value-initialised: all bytes are zero
        null = -1 if self.cfg.sc == 8 else 0
        for typ in self.elems[::-1]:
            base = p[2] - self.model.subobject(self.ip, st, typ, self.T); n = self.model.sizeof(self.ip, st, typ)
            if not self.poly or (('live', p[1], base) in st.pend and st.pend[('live', p[1], base)] == typ) or not self.cfg.cons:
                zero = [o for o, cc in r.cells.items() if base <= o < base + n and cc[1] != null]
                have = sum(cc[0] for o, cc in r.cells.items() if base <= o < base + n)
                if not zero and have >= n: return ((p[1], base), typ, ('default',))
        return ((p[1], p[2]), self.T, ('bytes', v))
    def objval(self, st, p):
        o = self.owner_of(st, p)
        return o[2] if o else None
    def unmarked(self, st, live):
        if not self.cfg.cons: return []
        out = []
        for n, x in live.items():
            try: w = self.observe(st, x)
            except SetupError: continue
            if not w.valueless and st.mem[w.loc[0]].kind == 'heap' and ('live',) + w.loc not in st.pend: out.append(n)
        return out
    def elem_events(self, st): return [e for e in st.trace if e[0] == 'temp']

def make_lab(cfg, module): return (PlainLab if cfg.sc else Lab)(cfg, module)
