"""Path-sensitive ownership / typestate dataflow analysis over LLVM IR.

The analysis propagates sets of abstract states through the control-flow graph
of the library functions instantiated by the driver translation units (calls
to functions with a body are analysed in their calling context).  Element
types and allocators are opaque: their operations have no body, only a
typestate transfer function (construct, destroy, assign, allocate, free), and
each of them has a normal and - unless it is nounwind - an exceptional
successor.  Abstract values are null, pointer to (region, offset), function,
distinct symbolic constants (allocator identities, hash results), small
integers, undefined and unknown.  A branch on an unknown value goes both ways,
a branch on an undefined value is reported.  Nothing is executed and no
constraint solver is involved.
"""
import json, re, sys
from collections import namedtuple

class AnalysisError(Exception):
    pass

UNDEF = ('u',)
TOP = ('t',)

def ptr(r, o): return ('p', r, o)
def sym(*a): return ('s',) + a

def opaque_int(v):
    """A number the analysis knows nothing about (a hash, or computed from one)."""
    return isinstance(v, tuple) and v[0] == 's' and (v[1] in ('hash', 'val', 'bytes') or v[1] == 'expr' and any(opaque_int(x) for x in v[3:]))

def cmp_of(op, rel):
    return int({'==': rel == 'equal', '!=': rel != 'equal', '<': rel == 'less', '>': rel == 'greater',
                '<=': rel in ('less', 'equal'), '>=': rel in ('greater', 'equal')}[op])

class Region:
    __slots__ = ('rid', 'kind', 'size', 'cells', 'alive', 'meta', 'objs', 'owner', 'name', 'ro')
    def __init__(self, rid, kind, size, owner, name='', ro=False):
        self.rid = rid; self.kind = kind; self.size = size; self.cells = {}
        self.alive = True; self.meta = None; self.objs = {}; self.owner = owner; self.name = name; self.ro = ro
    def copy(self, owner):
        r = Region(self.rid, self.kind, self.size, owner, self.name, self.ro)
        r.cells = dict(self.cells); r.alive = self.alive; r.meta = self.meta; r.objs = dict(self.objs)
        return r

class Frame:
    __slots__ = ('fn', 'bb', 'ip', 'env', 'prev', 'allocas', 'ret', 'visits')
    def __init__(self, fn):
        self.fn = fn; self.bb = 0; self.ip = 0; self.env = {}; self.prev = None
        self.allocas = []; self.ret = None; self.visits = {}
    def copy(self):
        f = Frame(self.fn); f.bb = self.bb; f.ip = self.ip; f.env = dict(self.env); f.prev = self.prev
        f.allocas = list(self.allocas); f.ret = self.ret; f.visits = dict(self.visits)
        return f

class State:
    """One abstract state (frames + abstract heap + typestates + event trace)."""
    _tok = 0
    def __init__(self):
        State._tok += 1
        self.tok = State._tok
        self.frames = []; self.mem = {}; self.trace = (); self.viol = ()
        self.next_rid = 1; self.next_exn = 1; self.caught = (); self.pend = {}; self.globals = {}
        self.nthrow = 0; self.inflight = 0; self.consts = (); self.initing = 0; self.facts = ()
    def clone(self):
        s = State.__new__(State)
        State._tok += 1
        s.tok = State._tok
        State._tok += 1
        self.tok = State._tok          # both sides must copy on write from now on
        s.frames = [f.copy() for f in self.frames]; s.mem = dict(self.mem); s.trace = self.trace; s.viol = self.viol
        s.next_rid = self.next_rid; s.next_exn = self.next_exn; s.caught = self.caught; s.pend = dict(self.pend)
        s.globals = dict(self.globals); s.nthrow = self.nthrow; s.inflight = self.inflight; s.initing = self.initing; s.consts = self.consts; s.facts = self.facts
        return s
    def reg(self, rid):
        return self.mem[rid]
    def wreg(self, rid):
        r = self.mem[rid]
        if r.owner != self.tok:
            r = r.copy(self.tok); self.mem[rid] = r
        return r
    def new_region(self, kind, size, name='', ro=False):
        rid = self.next_rid; self.next_rid += 1
        self.mem[rid] = Region(rid, kind, size, self.tok, name, ro)
        return rid

Exit = namedtuple('Exit', 'kind value state')   # kind: ret throw terminate assert unreachable trap
Loc = namedtuple('Loc', 'file line fn chain')

class Module:
    def __init__(self, path, repo='/repo'):
        with open(path) as f: j = json.load(f)
        self.repo = repo
        self.functions = {}
        self.globals = j['globals']; self.aliases = j['aliases']
        for name, f in j['functions'].items():
            if not f['decl']:
                blocks = []
                for b in f['blocks']:
                    blocks.append(b)
                    for i in b:
                        for k in ('p', 'v', 'a', 'b', 'c', 'callee'):
                            if k in i and isinstance(i[k], list): i[k] = tuple(i[k]) if not (i[k][0] == 'a') else ('a', tuple(tuple(x) for x in i[k][1]))
                        if 'args' in i: i['args'] = [tuple(a) if a[0] != 'a' else ('a', tuple(tuple(x) for x in a[1])) for a in i['args']]
            f['name'] = name
            self.functions[name] = f
        for n, a in self.aliases.items():
            if a[0] == 'f' and a[1] in self.functions: self.functions[n] = self.functions[a[1]]

IPRED = {'eq': lambda a, b: a == b, 'ne': lambda a, b: a != b,
         'slt': lambda a, b: a < b, 'sle': lambda a, b: a <= b, 'sgt': lambda a, b: a > b, 'sge': lambda a, b: a >= b}
def _u(x, bits): return x & ((1 << bits) - 1)
def _s(x, bits):
    x &= (1 << bits) - 1
    return x - (1 << bits) if x >> (bits - 1) else x
UPRED = {'ult': lambda a, b: a < b, 'ule': lambda a, b: a <= b, 'ugt': lambda a, b: a > b, 'uge': lambda a, b: a >= b}

class Interp:
    MAX_STATES = 400000
    def __init__(self, module, model):
        self.m = module; self.model = model   # model: transfer functions of opaque externals
        self.stats = {'states': 0, 'insns': 0, 'calls': 0}
        self.fn_seen = set(); self.lines_seen = set(); self.sites = set()

    # ---- locations -----------------------------------------------------
    def loc(self, st, ins=None):
        chain = []
        best = None
        for f in reversed(st.frames):
            blk = f.fn['blocks'][f.bb]
            i = blk[min(f.ip, len(blk) - 1)]
            if f is st.frames[-1] and ins is not None: i = ins
            fl, ln = i.get('f', f.fn.get('file', '?')), i.get('ln', 0)
            dem = f.fn['dem']
            chain.append('%s:%s %s' % (fl, ln, short(dem)))
            if best is None and fl.startswith(self.m.repo + '/'): best = (fl, ln, short(dem))
        if best is None: 
            f = st.frames[0] if st.frames else None
            best = ('?', 0, short(f.fn['dem']) if f else '?')
        return Loc(best[0], best[1], best[2], tuple(chain))

    def flag(self, st, aspect, msg, ins=None):
        st.viol = st.viol + ((aspect, msg, self.loc(st, ins)),)

    def event(self, st, *ev):
        st.trace = st.trace + (ev + (self.loc(st),),)

    # ---- values --------------------------------------------------------
    def val(self, st, fr, o):
        k = o[0]
        if k == 'l': return fr.env.get(o[1], UNDEF)
        if k == 'i': return o[1]
        if k == 'n': return 0
        if k == 'u': return UNDEF
        if k == 'f': return ('f', o[1])
        if k == 'g': return ptr(self.global_region(st, o[1]), o[2])
        if k == 'a': return ('a', tuple(self.val(st, fr, x) for x in o[1]))
        return TOP

    def global_region(self, st, name):
        if name in st.globals: return st.globals[name]
        g = self.m.globals.get(name)
        if g is None:
            al = self.m.aliases.get(name)
            if al and al[0] == 'g': return self.global_region(st, al[1])
            raise AnalysisError('unknown global ' + name)
        rid = st.new_region('global', g['size'], name, ro=g['const'])
        st.globals[name] = rid
        r = st.wreg(rid)
        for off, size, v in g.get('init', []):
            r.cells[off] = (size, self.val(st, None, tuple(v)))
        return rid

    # ---- memory --------------------------------------------------------
    def access(self, st, p, size, write, ins, what=''):
        """Check an access; returns the region or None when it cannot be done."""
        verb = 'write' if write else 'read'
        if p == 0:
            self.flag(st, 'null', 'null pointer %s' % verb, ins); return None
        if p == UNDEF:
            self.flag(st, 'uninit', '%s through an uninitialised pointer' % verb, ins); return None
        if p[0] == 'p':
            r = st.mem.get(p[1])
            if r is None:
                self.flag(st, 'uaf', '%s of a local object after its lifetime' % verb, ins); return None
            if not r.alive:
                self.flag(st, 'uaf', '%s of %s after its storage was released' % (verb, self.rname(r)), ins); return None
            if r.size is not None and (p[2] < 0 or p[2] + size > r.size):
                self.flag(st, 'oob', '%s of %d bytes at offset %d outside %s of %d bytes' % (verb, size, p[2], self.rname(r), r.size), ins); return None
            if r.objs:
                for off, (typ, v) in r.objs.items():
                    sz = self.model.sizeof(self, st, typ)
                    if off < p[2] + size and p[2] < off + sz:
                        self.flag(st, 'raw', 'raw %s of the representation of a live %s' % (verb, typ), ins); break
            if write: self.model.on_write(self, st, r, p[2], size, ins)
            return r
        if p[0] in ('f', 's', 'x'):
            self.flag(st, 'badptr', '%s through a value that is not a data pointer' % verb, ins); return None
        raise AnalysisError('%s through unknown pointer %r at %s' % (verb, p, self.loc(st, ins)))

    def rname(self, r):
        return {'heap': 'heap block', 'stack': 'local object', 'wrapper': 'wrapper object', 'ext': 'external object', 'global': 'global ' + r.name}.get(r.kind, r.kind)

    def load1(self, st, p, size, ins):
        if isinstance(p, tuple):
            if p[0] == 'vt': return ('vf',) + p[1:]
            v = self.model.vptr(self, st, p, size)
            if v is not None: return v
        r = self.access(st, p, size, False, ins)
        if r is None: return None
        off = p[2]
        c = r.cells.get(off)
        if c is not None and c[0] == size: return c[1]
        if c is not None and isinstance(c[1], int) and c[0] > size: return _s(c[1], 8 * size)
        # composite / partial
        got = [(o, s, v) for o, (s, v) in r.cells.items() if o < off + size and off < o + s]
        if not got:
            return self.model.default_value(self, st, r, off, size)
        if all(isinstance(v, int) for _, _, v in got):
            acc = 0; ok = True
            for k in range(size):
                b = None
                for o, s, v in got:
                    if o <= off + k < o + s: b = (v >> (8 * (off + k - o))) & 255
                if b is None: ok = False; break
                acc |= b << (8 * k)
            return _s(acc, 8 * size) if ok else UNDEF
        return TOP

    def store1(self, st, p, size, v, ins):
        r = self.access(st, p, size, True, ins)
        if r is None: return False
        r = st.wreg(p[1])
        off = p[2]
        self.clear_range(r, off, size)
        r.cells[off] = (size, v)
        return True

    @staticmethod
    def clear_range(r, off, size):
        if off in r.cells and r.cells[off][0] == size: return
        for o in [o for o, (s, _) in r.cells.items() if o < off + size and off < o + s]:
            s, v = r.cells.pop(o)
            if isinstance(v, int):     # keep the bytes that are not overwritten
                for k in range(s):
                    if not (off <= o + k < off + size): r.cells[o + k] = (1, (v >> (8 * k)) & 255)

    def memcpy(self, st, d, s, n, ins):
        if not isinstance(n, int): raise AnalysisError('memcpy of unknown size at %s' % (self.loc(st, ins),))
        if n == 0: return True
        rs = self.access(st, s, n, False, ins)
        if rs is None: return False
        rd = self.access(st, d, n, True, ins)
        if rd is None: return False
        items = [(o - s[2], sz, v) for o, (sz, v) in rs.cells.items() if s[2] <= o and o + sz <= s[2] + n]
        rd = st.wreg(d[1])
        self.clear_range(rd, d[2], n); 
        for o in [o for o in rd.cells if d[2] <= o < d[2] + n]: del rd.cells[o]
        for o, sz, v in items: rd.cells[d[2] + o] = (sz, v)
        return True

    # ---- running -------------------------------------------------------
    def run(self, st, fname, args):
        """Analyse fname from abstract state st (consumed); returns exits."""
        fn = self.m.functions.get(fname)
        if fn is None or fn['decl']: raise AnalysisError('no body for harness %s' % fname)
        st = st.clone()
        assert not st.frames
        st.viol = ()
        st.trace = ()
        st.nthrow = 0; st.inflight = 0
        self.push(st, fn, args)
        work = [st]; exits = []
        while work:
            s = work.pop()
            self.stats['states'] += 1
            if self.stats['states'] > self.MAX_STATES: raise AnalysisError('state budget exceeded in ' + fname)
            self.exec_state(s, work, exits)
        return exits

    def push(self, st, fn, args):
        fr = Frame(fn)
        for p, a in zip(fn['params'], args):
            if 'byval' in p:
                rid = st.new_region('stack', p['byval'], 'byval'); fr.allocas.append(rid)
                self.memcpy(st, ptr(rid, 0), a, p['byval'], None)
                a = ptr(rid, 0)
            fr.env[p['id']] = a
        st.frames.append(fr)
        self.fn_seen.add(fn['name'])
        self.stats['calls'] += 1

    def pop_frame(self, st):
        fr = st.frames.pop()
        for rid in fr.allocas:
            r = st.reg(rid)
            if r.objs:
                self.flag(st, 'stack-leak', 'local %s never destroyed' % list(r.objs.values())[0][0])
            st.mem.pop(rid)
        return fr

    def goto(self, st, fr, bb):
        n = fr.visits.get(bb, 0) + 1
        fr.visits[bb] = n
        if n > 64:
            raise AnalysisError('no fixpoint after 64 visits of block %d of %s' % (bb, fr.fn['dem']))
        fr.prev = fr.bb; fr.bb = bb; fr.ip = 0
        # phis evaluate in parallel
        blk = fr.fn['blocks'][bb]
        upd = {}
        k = 0
        while k < len(blk) and blk[k]['op'] == 'phi':
            for (src, v) in blk[k]['in']:
                if src == fr.prev:
                    upd[blk[k]['d']] = self.val(st, fr, tuple(v)); break
            k += 1
        fr.env.update(upd)
        fr.ip = k

    def do_return(self, st, v, exits):
        fr = self.pop_frame(st)
        if not st.frames:
            exits.append(Exit('ret', v, st)); return False
        caller = st.frames[-1]
        ins = caller.fn['blocks'][caller.bb][caller.ip]
        self.finish_call(st, caller, ins, v)
        return True

    def finish_call(self, st, fr, ins, v):
        if 'd' in ins: fr.env[ins['d']] = v
        if ins['op'] == 'invoke': self.goto(st, fr, ins['normal'])
        else: fr.ip += 1

    def unwind(self, st, exn, work, exits, fresh=True):
        """Propagate exn from the current call instruction of the top frame.
        Returns True if st continues, False if it left."""
        if fresh: st.nthrow += 1; st.inflight += 1
        while st.frames:
            fr = st.frames[-1]
            ins = fr.fn['blocks'][fr.bb][fr.ip]
            if ins['op'] == 'invoke':
                fr.env['exn'] = exn
                self.goto(st, fr, ins['unwind'])
                lp = fr.fn['blocks'][fr.bb][fr.ip]
                if lp['op'] != 'landingpad': raise AnalysisError('unwind to a block without landingpad')
                res = self.landing(st, fr, lp, exn, work)
                if res: return True
                # not handled here: continue outward; fr.ip stays on landingpad
            elif ins['op'] in ('call',) and ins.get('nounwind'):
                self.flag(st, 'terminate', 'exception leaves a call that must not throw (undefined behaviour)', ins)
                exits.append(Exit('terminate', exn, st)); return False
            if fr.fn['nounwind']:
                self.flag(st, 'terminate', 'exception escapes noexcept function', ins)
                exits.append(Exit('terminate', exn, st)); return False
            self.pop_frame(st)
        exits.append(Exit('throw', exn, st)); return False

    def landing(self, st, fr, lp, exn, work):
        for kind, *rest in lp['clauses']:
            if kind == 'catch':
                c = rest[0]
                if c[0] == 'n':
                    fr.env[lp['d']] = ('a', (exn, 1)); fr.ip += 1; return True
                # typed handler: may or may not match
                alt = st.clone(); af = alt.frames[-1]
                af.env[lp['d']] = ('a', (exn, sym('type', c[1]))); af.ip += 1
                work.append(alt)
            else:      # exception specification
                fr.env[lp['d']] = ('a', (exn, -1)); fr.ip += 1; return True
        if lp['cleanup']:
            fr.env[lp['d']] = ('a', (exn, 0)); fr.ip += 1; return True
        return False

    def branch_val(self, st, v, ins):
        if v == UNDEF:
            self.flag(st, 'uninit', 'branch on an uninitialised value', ins); return None
        if isinstance(v, int): return bool(v & 1)
        return 'both'

    def exec_state(self, st, work, exits):
        """Run st until it exits; further successors are put on work."""
        while True:
            if not st.frames: return
            fr = st.frames[-1]
            ins = fr.fn['blocks'][fr.bb][fr.ip]
            self.stats['insns'] += 1
            op = ins['op']
            if st.viol and st.viol[-1][0] in FATAL:
                exits.append(Exit('abort', None, st)); return
            if op == 'load':
                p = self.val(st, fr, ins['p'])
                if ins.get('agg'):
                    vs = []
                    for off, sz in ins['lay']:
                        q = ptr(p[1], p[2] + off) if isinstance(p, tuple) and p[0] == 'p' else p
                        vs.append(self.load1(st, q, sz, ins))
                    v = ('a', tuple(vs))
                else:
                    v = self.load1(st, p, ins['lay'][0][1], ins)
                if v is None: v = TOP
                fr.env[ins['d']] = v; fr.ip += 1
            elif op == 'store':
                p = self.val(st, fr, ins['p']); v = self.val(st, fr, ins['v'])
                if ins.get('agg'):
                    for (off, sz), x in zip(ins['lay'], v[1]):
                        q = ptr(p[1], p[2] + off) if isinstance(p, tuple) and p[0] == 'p' else p
                        self.store1(st, q, sz, x, ins)
                else:
                    self.store1(st, p, ins['lay'][0][1], v, ins)
                fr.ip += 1
            elif op == 'alloca':
                n = 1
                if 'n' in ins:
                    n = self.val(st, fr, tuple(ins['n']))
                    if not isinstance(n, int): raise AnalysisError('variable alloca')
                rid = st.new_region('stack', ins['size'] * n, 'local')
                fr.allocas.append(rid); fr.env[ins['d']] = ptr(rid, 0); fr.ip += 1
            elif op == 'gep':
                p = self.val(st, fr, ins['p']); off = ins['off']; ok = True
                for v, scale in ins['var']:
                    x = self.val(st, fr, tuple(v))
                    if isinstance(x, int): off += x * scale
                    else: ok = False
                if not ok: r = TOP
                elif isinstance(p, tuple) and p[0] == 'p': r = ptr(p[1], p[2] + off)
                elif isinstance(p, tuple) and p[0] == 'vt': r = p[:4] + (p[4] + off,)
                elif isinstance(p, int): r = 0 if (p == 0 and off == 0) else (0 if p == 0 else p + off)
                elif off == 0: r = p
                else: r = UNDEF if p == UNDEF else TOP
                fr.env[ins['d']] = r; fr.ip += 1
            elif op in ('call', 'invoke'):
                if not self.call(st, fr, ins, work, exits): return
            elif op == 'ret':
                v = self.val(st, fr, ins['v']) if 'v' in ins else None
                if not self.do_return(st, v, exits): return
            elif op == 'jmp':
                self.goto(st, fr, ins['t'])
            elif op == 'br':
                c = self.branch_val(st, self.val(st, fr, ins['c']), ins)
                if c is None: exits.append(Exit('abort', None, st)); return
                if c == 'both':
                    alt = st.clone(); self.goto(alt, alt.frames[-1], ins['e']); work.append(alt)
                    c = True
                self.goto(st, fr, ins['t'] if c else ins['e'])
            elif op == 'switch':
                v = self.val(st, fr, ins['v'])
                if v == UNDEF:
                    self.flag(st, 'uninit', 'switch on an uninitialised value', ins); exits.append(Exit('abort', None, st)); return
                if isinstance(v, int):
                    tgt = ins['def']
                    for c, t in ins['cases']:
                        if c == v: tgt = t
                    self.goto(st, fr, tgt)
                else:
                    for c, t in ins['cases']:
                        alt = st.clone(); self.goto(alt, alt.frames[-1], t); work.append(alt)
                    self.goto(st, fr, ins['def'])
            elif op == 'icmp':
                a, b = self.resolve(st, self.val(st, fr, ins['a'])), self.resolve(st, self.val(st, fr, ins['b']))
                if opaque_int(b) and not opaque_int(a) and ins['pred'] in ('eq', 'ne'): a, b = b, a
                if opaque_int(a) and isinstance(b, int) and ins['pred'] in ('eq', 'ne') and (a, b) not in [f[1:] for f in st.facts if f[0] == 'ne']:
                    # an arbitrary integer against a constant: both outcomes
                    alt = st.clone(); af = alt.frames[-1]
                    alt.facts += (('eq', a, b),); af.env[ins['d']] = int(ins['pred'] == 'eq'); af.ip += 1; work.append(alt)
                    st.facts += (('ne', a, b),); fr.env[ins['d']] = int(ins['pred'] == 'ne')
                else: fr.env[ins['d']] = self.icmp(st, ins, a, b)
                fr.ip += 1
            elif op == 'fcmp':
                a, b = self.val(st, fr, ins['a']), self.val(st, fr, ins['b'])
                rel = self.model.value_rel(a, b)
                if a == UNDEF or b == UNDEF: v = UNDEF
                elif rel is None: v = TOP
                else:
                    k = ins['pred']; un = rel == 'unordered'
                    if k in ('ord', 'uno'): v = int(un == (k == 'uno'))
                    else: v = int(k[0] == 'u') if un else int({'eq': rel == 'equal', 'ne': rel != 'equal', 'lt': rel == 'less', 'gt': rel == 'greater', 'le': rel != 'greater', 'ge': rel != 'less'}[k[1:]])
                fr.env[ins['d']] = v; fr.ip += 1
            elif op == 'cast':
                v = self.val(st, fr, ins['v']); k = ins['kind']
                if isinstance(v, int):
                    if k == 'trunc': v = _s(v, ins['tb']) if ins['tb'] > 1 else v & 1
                    elif k == 'zext': v = _u(v, ins['fb'])
                    elif k == 'sext': v = _s(v, ins['fb'])
                elif k == 'trunc' and ins['tb'] == 1 and isinstance(v, tuple) and v[:2] == ('s', 'val'): pass   # a bool element
                elif k in ('trunc', 'fptrunc', 'fptosi', 'fptoui') and isinstance(v, tuple) and v[0] in ('p', 's'): v = TOP
                fr.env[ins['d']] = v; fr.ip += 1
            elif op == 'bin':
                fr.env[ins['d']] = self.binop(ins, self.val(st, fr, ins['a']), self.val(st, fr, ins['b'])); fr.ip += 1
            elif op == 'select':
                c = self.val(st, fr, ins['c'])
                if c == UNDEF:
                    self.flag(st, 'uninit', 'selection by an uninitialised value', ins); exits.append(Exit('abort', None, st)); return
                if not isinstance(c, int):
                    alt = st.clone(); af = alt.frames[-1]
                    af.env[ins['d']] = self.val(alt, af, ins['b']); af.ip += 1; work.append(alt)
                    c = 1
                fr.env[ins['d']] = self.val(st, fr, ins['a'] if c & 1 else ins['b']); fr.ip += 1
            elif op == 'extractvalue':
                v = self.val(st, fr, ins['v'])
                if v[0] == 'a':
                    part = v[1][ins['idx']:ins['idx'] + ins['n']]
                    v = ('a', part) if ins['agg'] else part[0]
                else: v = TOP if v != UNDEF else UNDEF
                fr.env[ins['d']] = v; fr.ip += 1
            elif op == 'insertvalue':
                a = self.val(st, fr, ins['a']); v = self.val(st, fr, ins['v'])
                if a[0] != 'a': raise AnalysisError('insertvalue into non-aggregate')
                l = list(a[1]); l[ins['idx']:ins['idx'] + ins['n']] = list(v[1]) if isinstance(v, tuple) and v[0] == 'a' else [v]
                fr.env[ins['d']] = ('a', tuple(l)); fr.ip += 1
            elif op == 'landingpad':
                raise AnalysisError('fell into landingpad')
            elif op == 'resume':
                v = self.val(st, fr, ins['v'])
                exn = v[1][0]
                if fr.fn['nounwind']:
                    self.flag(st, 'terminate', 'exception escapes noexcept function', ins)
                    exits.append(Exit('terminate', exn, st)); return
                self.pop_frame(st)
                if not self.unwind(st, exn, work, exits, fresh=False): return
            elif op == 'unreachable':
                self.flag(st, 'unreachable', 'reaches code marked unreachable (undefined behaviour)', ins)
                exits.append(Exit('unreachable', None, st)); return
            elif op == 'opaque':
                fr.env[ins['d']] = TOP; fr.ip += 1
            elif op in ('rmw', 'cmpxchg'):
                self.atomic(st, fr, ins)
            else:
                raise AnalysisError('unsupported instruction %s/%s at %s' % (op, ins.get('kind'), self.loc(st, ins)))

    @staticmethod
    def resolve(st, v):
        """Replace an arbitrary integer by the constant this path compared it equal to."""
        for k, a, b in st.facts:
            if k == 'eq' and a == v: return b
        return v

    def atomic(self, st, fr, ins):
        p = self.val(st, fr, ins['p'])
        old = self.load1(st, p, ins['size'], ins)
        if ins['op'] == 'rmw':
            v = self.val(st, fr, ins['v'])
            new = v if ins['kind'] == 0 else (old + v if ins['kind'] == 1 and isinstance(old, int) and isinstance(v, int) else
                                              (old - v if ins['kind'] == 2 and isinstance(old, int) and isinstance(v, int) else TOP))
            self.store1(st, p, ins['size'], new, ins)
            fr.env[ins['d']] = old
        else:
            c = self.val(st, fr, ins['c']); n = self.val(st, fr, ins['v'])
            eq = self.cmp_eq(old, c)
            if eq is None: raise AnalysisError('cmpxchg on unknown value')
            if eq: self.store1(st, p, ins['size'], n, ins)
            fr.env[ins['d']] = ('a', (old, 1 if eq else 0))
        fr.ip += 1

    @staticmethod
    def cmp_eq(a, b):
        if a == TOP or b == TOP: return None
        if a == UNDEF or b == UNDEF: return 'undef'
        if a == b: return True
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'p' and b[0] == 'p' : return False
        return False

    def icmp(self, st, ins, a, b):
        pred = ins['pred']
        if isinstance(a, int) and isinstance(b, int):
            bits = ins['bits']
            if pred in UPRED: return int(UPRED[pred](_u(a, bits), _u(b, bits)))
            return int(IPRED[pred](_s(a, bits) if bits > 1 else a & 1, _s(b, bits) if bits > 1 else b & 1))
        if a == UNDEF or b == UNDEF: return UNDEF
        rel = self.model.value_rel(a, b)
        if rel is not None:
            return cmp_of({'eq': '==', 'ne': '!=', 'lt': '<', 'le': '<=', 'gt': '>', 'ge': '>='}[pred[-2:]], rel)
        if (opaque_int(a) or opaque_int(b)) and a != b and pred not in ('eq', 'ne'): return TOP
        if (opaque_int(a) and opaque_int(b)) and a != b: return TOP
        if pred in ('eq', 'ne'):
            e = self.cmp_eq(a, b)
            if e is None: return TOP
            return int(e == (pred == 'eq'))
        if isinstance(a, tuple) and isinstance(b, tuple) and a[0] == 'p' and b[0] == 'p' and a[1] == b[1]:
            p = pred[1:]
            return int({'lt': a[2] < b[2], 'le': a[2] <= b[2], 'gt': a[2] > b[2], 'ge': a[2] >= b[2]}[p])
        return TOP

    def binop(self, ins, a, b):
        k = ins['kind']; bits = ins['bits']
        if isinstance(a, int) and isinstance(b, int):
            try:
                r = {'add': lambda: a + b, 'sub': lambda: a - b, 'mul': lambda: a * b, 'and': lambda: a & b, 'or': lambda: a | b,
                     'xor': lambda: a ^ b, 'shl': lambda: a << (b & 63), 'lshr': lambda: _u(a, bits) >> (b & 63), 'ashr': lambda: a >> (b & 63),
                     'udiv': lambda: _u(a, bits) // _u(b, bits), 'urem': lambda: _u(a, bits) % _u(b, bits),
                     'sdiv': lambda: int(a / b), 'srem': lambda: a - b * int(a / b)}[k]()
            except (KeyError, ZeroDivisionError): return TOP
            return _s(r, bits) if bits > 1 else r & 1
        if a == UNDEF or b == UNDEF: return UNDEF
        if isinstance(a, tuple) and a[0] == 'p':
            if isinstance(b, int):
                if k == 'add': return ptr(a[1], a[2] + b)
                if k == 'sub': return ptr(a[1], a[2] - b)
                if k in ('and', 'or', 'xor') and b == (0 if k != 'and' else -1): return a
                if k == 'and' and 0 < b < 16 and a[2] % (b + 1) == 0: return 0   # alignment test
                if k in ('urem', 'srem') and b > 0 and b <= 16 and a[2] % b == 0: return 0
            elif isinstance(b, tuple) and b[0] == 'p' and a[1] == b[1] and k == 'sub': return a[2] - b[2]
        if isinstance(b, tuple) and b[0] == 'p' and isinstance(a, int) and k == 'add': return ptr(b[1], b[2] + a)
        if a == b and k in ('xor', 'sub'): return 0
        if a == b and k in ('and', 'or'): return a
        for x, y in ((a, b), (b, a)):
            if isinstance(y, int):
                if k == 'and' and y == 0: return 0
                if k in ('or', 'xor', 'add') and y == 0: return x
                if k == 'mul' and y == 0: return 0
                if k == 'mul' and y == 1: return x
                if k in ('shl', 'lshr', 'ashr', 'sub') and y == 0 and x is a: return x
        if isinstance(a, tuple) and a[0] == 's' or isinstance(b, tuple) and b[0] == 's':
            return sym('expr', k, a, b)
        return TOP

    # ---- calls ---------------------------------------------------------
    def call(self, st, fr, ins, work, exits):
        c = ins['callee']
        callee = self.val(st, fr, c)
        if callee == 0 or callee == UNDEF:
            self.flag(st, 'null' if callee == 0 else 'uninit', 'call through an invalid function pointer', ins)
            exits.append(Exit('abort', None, st)); return False
        if isinstance(callee, tuple) and callee[0] == 'vf':
            return self.outcomes(st, ins, self.model.virtual_call(self, st, ins, callee), ins.get('nounwind'), work, exits)
        if not (isinstance(callee, tuple) and callee[0] == 'f'):
            raise AnalysisError('call of unknown function %r at %s' % (callee, self.loc(st, ins)))
        name = callee[1]
        fn = self.m.functions.get(name)
        if fn is None: raise AnalysisError('missing function ' + name)
        args = [self.val(st, fr, a) for a in ins['args']]
        if not fn['decl'] and not self.model.intercept(fn):
            if len(st.frames) > 200: raise AnalysisError('recursion too deep at %s' % (self.loc(st, ins),))
            self.push(st, fn, args)
            return True
        # external or intrinsic
        fl = ins.get('f', '')
        if fl.startswith(self.m.repo): self.sites.add((fl, ins['ln'], fn['dem'][:60]))
        res = self.builtin(st, fr, ins, fn, args, work, exits)
        if res is not None: return res
        return self.outcomes(st, ins, self.model.external(self, st, ins, fn, args), ins.get('nounwind') or fn['nounwind'], work, exits)

    def outcomes(self, st, ins, outs, nounwind, work, exits):
        # outs: list of (kind, value, mutator) where mutator(state) applies effects
        may_throw = not nounwind
        todo = []
        for kind, value, mut in outs:
            if kind == 'throw' and not may_throw: continue
            todo.append((kind, value, mut))
        for idx, (kind, value, mut) in enumerate(todo):
            s = st.clone() if idx < len(todo) - 1 else st
            f = s.frames[-1]
            if mut: mut(s)
            if kind == 'ret':
                self.finish_call(s, f, ins, value)
                if s is st: return True
                work.append(s)
            elif kind == 'throw':
                if self.unwind(s, value, work, exits):
                    if s is st: return True
                    work.append(s)
                elif s is st: return False
            else:
                exits.append(Exit(kind, value, s))
                if s is st: return False
        return False

    def builtin(self, st, fr, ins, fn, args, work, exits):
        n = fn['name']
        def done(v=None):
            self.finish_call(st, fr, ins, v); return True
        if n.startswith('llvm.'):
            if n.startswith(('llvm.memcpy', 'llvm.memmove')):
                if not self.memcpy(st, args[0], args[1], args[2], ins) and not st.viol: raise AnalysisError('memcpy')
                return done()
            if n.startswith('llvm.memset'):
                if not (isinstance(args[1], int) and isinstance(args[2], int)): raise AnalysisError('memset')
                if args[2]:
                    r = self.access(st, args[0], args[2], True, ins)
                    if r is not None:
                        r = st.wreg(args[0][1]); off = args[0][2]; self.clear_range(r, off, args[2])
                        for o in [o for o in r.cells if off <= o < off + args[2]]: del r.cells[o]
                        b = args[1] & 255
                        k = 0
                        while k < args[2]:
                            w = 8 if k % 8 == 0 and args[2] - k >= 8 else 1
                            r.cells[off + k] = (w, _s(int.from_bytes(bytes([b]) * w, 'little'), 8 * w)); k += w
                return done()
            if n.startswith('llvm.eh.typeid.for'):
                a = ins['args'][0]
                return done(sym('type', a[1] if a[0] == 'g' else 'null'))
            if n in ('llvm.trap', 'llvm.ubsantrap'):
                exits.append(Exit('trap', None, st)); return False
            if n.startswith('llvm.assume'):
                if args[0] == 0: self.flag(st, 'unreachable', 'assumption known to be false', ins)
                return done()
            if n.startswith(('llvm.lifetime', 'llvm.dbg', 'llvm.invariant', 'llvm.experimental.noalias', 'llvm.prefetch', 'llvm.donothing')): return done(TOP if 'd' in ins else None)
            if n.startswith(('llvm.expect', 'llvm.launder', 'llvm.strip.invariant', 'llvm.ptr.annotation', 'llvm.threadlocal.address', 'llvm.ptrmask', 'llvm.ssa.copy')): return done(args[0])
            if n.startswith('llvm.is.constant'): return done(0)
            if n.startswith('llvm.objectsize'): return done(-1)
            if re.match(r'llvm\.[us](add|sub|mul)\.with\.overflow', n):
                if isinstance(args[0], int) and isinstance(args[1], int):
                    o = n.split('.')[1][1:]; r = {'add': args[0] + args[1], 'sub': args[0] - args[1], 'mul': args[0] * args[1]}[o]
                    return done(('a', (_s(r, 64), int(not (0 <= r < 1 << 63)))))
                return done(('a', (TOP, TOP)))
            raise AnalysisError('intrinsic ' + n)
        if n == '__cxa_begin_catch':
            st.caught = st.caught + (args[0],); st.inflight -= 1; return done(args[0])
        if n == '__cxa_get_exception_ptr': return done(args[0])
        if n == '__cxa_end_catch':
            st.caught = st.caught[:-1]; return done()
        if n == '__cxa_rethrow':
            if not st.caught:
                self.flag(st, 'terminate', 'rethrow without a current exception', ins)
                exits.append(Exit('terminate', None, st)); return False
            st.inflight += 1
            return self.unwind(st, st.caught[-1], work, exits, fresh=False)
        if n == '__cxa_allocate_exception':
            rid = st.new_region('exc', None, 'exception'); return done(ptr(rid, 0))
        if n == '__cxa_free_exception': return done()
        if n == '__cxa_throw':
            k = st.next_exn; st.next_exn += 1
            self.event(st, 'throw', 'library')
            return self.unwind(st, ('x', k, 'library'), work, exits)
        if n in ('__clang_call_terminate', '_ZSt9terminatev', 'abort', '__cxa_pure_virtual', '__cxa_bad_cast', '__cxa_throw_bad_array_new_length'):
            if n == '__cxa_pure_virtual': self.flag(st, 'uaf', 'call of a pure virtual function', ins)
            else: self.flag(st, 'terminate', 'reaches %s' % ('std::terminate because an exception leaves a noexcept function' if 'terminate' in n else n), ins)
            exits.append(Exit('terminate', None, st)); return False
        if n == '__assert_fail':
            exits.append(Exit('assert', self.loc(st, ins), st)); return False
        if n == '__gxx_personality_v0': return done()
        if n in ('_ZSt19uncaught_exceptionsv', '_ZSt18uncaught_exceptionv'):
            return done(st.inflight if n.endswith('sv') else int(st.inflight > 0))
        if n == '__cxa_guard_acquire':
            v = self.load1(st, args[0], 1, ins)
            if v != 1: st.initing += 1
            return done(0 if v == 1 else 1)
        if n == '__cxa_guard_release':
            self.store1(st, args[0], 1, 1, ins); st.initing -= 1; return done()
        if n in ('__cxa_guard_abort', '__cxa_atexit', '__cxa_thread_atexit'): return done(0)
        if n in ('memcpy', 'memmove'):
            self.memcpy(st, args[0], args[1], args[2], ins); return done(args[0])
        return None

FATAL = {'null', 'uninit', 'uaf', 'oob', 'badptr', 'double-free', 'bad-free', 'destroy-dead', 'construct-live', 'use-dead'}

def short(d):
    d = re.sub(r'std::__cxx11::', 'std::', d)
    return d if len(d) < 160 else d[:157] + '...'
