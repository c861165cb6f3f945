"""Typestate transfer functions of the opaque element types and allocators."""
import re
from absint import cmp_of, AnalysisError, UNDEF, TOP, ptr, sym, Region

CLS = r'(Obj|Oth|Base|Derived1|Derived|TwS|TwW|TwP|Lt)'
RE_CTOR = re.compile(r'^%s::\1\((.*)\)$' % CLS)
RE_DTOR = re.compile(r'^%s::~\1\(\)$' % CLS)
RE_ASSIGN = re.compile(r'^%s::operator=\((.*)\)$' % CLS)
RE_CMP = re.compile(r'^operator(==|!=|<=>|<=|>=|<|>)\((\w+) const&, (\w+) const&\)$')
RE_HASH = re.compile(r'^std::hash<(\w+)>::operator\(\)\(\1 const&\) const$')
RE_TAG = re.compile(r'^void vp_tag_fn<(.*)>\(\)$')

def split_args(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '<(': d += 1
        if c in '>)': d -= 1
        if c == ',' and d == 0: out.append(cur.strip()); cur = ''
        else: cur += c
    if cur.strip(): out.append(cur.strip())
    return out

class Model:
    """relation: dict (role,role)->'less'|'equal'|'greater'|'unordered';
    alloc_rel: 'same'|'equal'|'unequal' between distinct allocator identities."""
    def __init__(self, cons=True, triv=False, std_alloc=False, virt=False, plain=False):
        self.plain = plain      # elements are followed as bytes
        self.cons = cons; self.triv = triv; self.std_alloc = std_alloc; self.virt = virt
        self.equal_ids = lambda a, b: a == b
        self.relation = {}; self.aligned_new = True
        self.sizes = {}

    def intercept(self, fn): return False

    def sizeof(self, ip, st, typ):
        if typ not in self.sizes:
            g = ip.m.globals.get('vp_size_' + typ)
            if g is None: self.sizes[typ] = 16
            else: self.sizes[typ] = g['init'][0][2][1]
        return self.sizes[typ]

    def default_value(self, ip, st, r, off, size):
        if r.kind == 'ext': return sym('ext', r.rid, off)
        return UNDEF

    def on_write(self, ip, st, r, off, size, ins):
        if r.rid in st.consts:
            ip.flag(st, 'const-write', 'writes to %s while operating on it as const' % ip.rname(r), ins)
        elif r.kind == 'global' and not st.initing:
            ip.flag(st, 'global-write', 'writes to %s' % ip.rname(r), ins)

    # ---- helpers
    def tag(self, ip, v):
        if isinstance(v, tuple) and v[0] == 'f':
            m = RE_TAG.match(ip.m.functions[v[1]]['dem'])
            if m: return m.group(1)
        raise AnalysisError('bad type tag %r' % (v,))

    def find(self, ip, st, p, what, typ, ins):
        """The live element of type typ designated by p (flags otherwise)."""
        if p == 0: ip.flag(st, 'null', '%s applied to a null pointer' % what, ins); return False
        if p == UNDEF: ip.flag(st, 'uninit', '%s applied to an uninitialised pointer' % what, ins); return False
        if p == TOP or p[0] != 'p': raise AnalysisError('%s of unknown object %r at %s' % (what, p, ip.loc(st, ins)))
        r = st.mem.get(p[1])
        if r is None or not r.alive:
            ip.flag(st, 'uaf', '%s of an object whose storage is gone' % what, ins); return False
        o = r.objs.get(p[2])
        if o is None:
            for off, (t, _) in r.objs.items():
                if off <= p[2] < off + self.sizeof(ip, st, t):
                    if typ is not None and self.subobject(ip, st, t, typ) == p[2] - off: return 'sub'
            ip.flag(st, 'use-dead', '%s where no live %s exists (not constructed, or already destroyed)' % (what, typ or 'object'), ins); return False
        if typ is not None and o[0] != typ:
            if self.subobject(ip, st, o[0], typ) == 0: return 'sub'
            ip.flag(st, 'use-dead', '%s of type %s on a live object of type %s' % (what, typ, o[0]), ins); return False
        return True

    def subobject(self, ip, st, derived, base):
        """Offset of base within derived, or None."""
        if derived == base: return 0
        fn = ip.m.functions.get(('h_pup_' if self.plain else 'h_up_') + derived)
        if (base == 'Base' and derived in ('Derived', 'Derived1')) or (base == 'PB' and derived in ('PD', 'PD1')):
            k = ('up', derived)
            if k not in self.sizes:
                off = 0
                for b in fn['blocks']:
                    for i in b:
                        if i['op'] == 'gep': off = i['off']
                self.sizes[k] = off
            return self.sizes[k]
        return None

    def objval(self, ip, st, p):
        r = st.mem[p[1]]
        if p[2] in r.objs: return r.objs[p[2]][1]
        for off, (t, v) in r.objs.items():
            if off <= p[2] < off + self.sizeof(ip, st, t): return ('slice', v)
        return TOP

    def throw_out(self, ip, st, what, extra=None):
        k = st.next_exn
        exn = ('x', k, what)
        def mut(s):
            s.next_exn = k + 1
            ip.event(s, 'throw', what)
            if extra: extra(s)
        return ('throw', exn, mut)

    # ---- virtual destructors
    def vptr(self, ip, st, p, size):
        """The virtual table pointer read at p, when p is one of a live element."""
        if not self.virt or size != 8 or not isinstance(p, tuple) or p[0] != 'p': return None
        r = st.mem.get(p[1])
        if r is None or not r.alive: return None
        for off, (t, _) in r.objs.items():
            if t not in ('Obj', 'Base', 'Derived', 'Derived1'): continue
            if p[2] == off: return ('vt', p[1], off, 'pad' if t == 'Derived' else 'main', 0)
            if t == 'Derived' and p[2] - off == self.subobject(ip, st, t, 'Base'): return ('vt', p[1], off, 'main', 0)
        return None

    def virtual_call(self, ip, st, ins, v):
        _, rid, off, which, slot = v
        slot -= 8 if which == 'pad' else 0
        o = st.mem[rid].objs.get(off) if rid in st.mem and st.mem[rid].alive else None
        if o is None:
            ip.flag(st, 'uaf', 'virtual call on an object that is gone', ins); return [('abort', None, None)]
        if slot == 0: return self.dtor(ip, st, ins, o[0], ptr(rid, off))
        if slot == 8:
            ip.flag(st, 'dealloc-mismatch', 'owned %s deleted by a delete expression' % o[0], ins); return [('abort', None, None)]
        raise AnalysisError('virtual call of an unknown slot at %s' % (ip.loc(st, ins),))

    # ---- dispatch
    def external(self, ip, st, ins, fn, args):
        n, d = fn['name'], fn['dem']
        if n.startswith('vp_'):
            return getattr(self, n)(ip, st, ins, args)
        m = RE_CTOR.match(d)
        if m: return self.ctor(ip, st, ins, m.group(1), split_args(m.group(2)), args)
        m = RE_DTOR.match(d)
        if m: return self.dtor(ip, st, ins, m.group(1), args[0])
        m = RE_ASSIGN.match(d)
        if m: return self.assign(ip, st, ins, m.group(1), m.group(2), args)
        m = RE_CMP.match(d)
        if m: return self.cmp(ip, st, ins, m.group(1), m.group(2), m.group(3), args)
        m = RE_HASH.match(d)
        if m:
            if not self.find(ip, st, args[1], 'hash', m.group(1), ins): return [('abort', None, None)]
            v = self.objval(ip, st, args[1])
            return [('ret', sym('hash', v), lambda s: ip.event(s, 'hash', args[1])), self.throw_out(ip, st, 'hash')]
        if re.match(r'^operator new(\[\])?\(', d):
            return self.op_new(ip, st, ins, args)
        if re.match(r'^operator delete(\[\])?\(', d):
            return self.op_delete(ip, st, ins, args, types=split_args(d[d.index('(') + 1:-1]))
        if n in ('_ZSt17__throw_bad_allocv', '_ZSt28__throw_bad_array_new_lengthv') or d.startswith('std::__throw_'):
            return [self.throw_out(ip, st, d)]
        if n == '_ZSt11_Hash_bytesPKvmm' and isinstance(args[0], tuple) and args[0][0] == 'p':
            r = ip.access(st, args[0], args[1], False, ins)
            if r is None: return [('abort', None, None)]
            return [('ret', sym('bytes', tuple((o - args[0][2], c) for o, c in sorted(r.cells.items()) if args[0][2] <= o < args[0][2] + args[1])), None)]
        if n in ('malloc', 'calloc', 'aligned_alloc'):
            return self.op_new(ip, st, ins, args if n == 'malloc' else args[1:], src='malloc')
        if n == 'free': return self.op_delete(ip, st, ins, args, src='malloc')
        raise AnalysisError('call of an unmodelled external function %s at %s' % (d, ip.loc(st, ins)))

    # ---- allocator
    def alloc(self, ip, st, meta, size, what):
        rid = st.next_rid
        def mut(s):
            r = s.new_region('heap', size, 'heap')
            assert r == rid
            s.mem[rid].meta = meta
            ip.event(s, 'alloc', rid, meta)
        return [('ret', ptr(rid, 0), mut), self.throw_out(ip, st, what)]

    def vp_use(self, ip, st, ins, a):
        p = a[0]
        if isinstance(p, tuple) and p[0] == 'p' and p[1] in st.consts and not self.std_alloc:
            ip.flag(st, 'const-write', 'calls a modifying operation of the allocator inside a const operand', ins)
        return [('ret', None, lambda s: None)]

    def vp_allocate(self, ip, st, ins, a):
        ident, tag, n, size, align = a[0], self.tag(ip, a[1]), a[2], a[3], a[4]
        if ident == UNDEF: ip.flag(st, 'uninit', 'allocation with an uninitialised allocator', ins)
        if not isinstance(n, int) or not isinstance(size, int): raise AnalysisError('allocation of unknown size')
        return self.alloc(ip, st, ('al', ident, tag, n, align), n * size, 'allocate')

    def vp_deallocate(self, ip, st, ins, a):
        ident, tag, p, n = a[0], self.tag(ip, a[1]), a[2], a[3]
        return self.free(ip, st, ins, p, ('al', ident, tag, n))

    def free(self, ip, st, ins, p, meta):
        if ident_undef(meta): ip.flag(st, 'uninit', 'deallocation with an uninitialised allocator', ins)
        if p == 0:
            ip.flag(st, 'bad-free', 'deallocation of a null pointer', ins); return [('abort', None, None)]
        if p in (UNDEF, TOP) or p[0] != 'p':
            ip.flag(st, 'bad-free', 'deallocation of an invalid pointer', ins); return [('abort', None, None)]
        r = st.mem.get(p[1])
        if r is None or r.kind != 'heap' or p[2] != 0:
            ip.flag(st, 'bad-free', 'deallocation of a pointer that was not allocated', ins); return [('abort', None, None)]
        if not r.alive:
            ip.flag(st, 'double-free', 'storage released twice', ins); return [('abort', None, None)]
        if r.objs:
            ip.flag(st, 'free-live', 'storage released while its %s is still alive (element never destroyed)' % list(r.objs.values())[0][0], ins)
            if self.triv and self.cons: ip.flag(st, 'no-destroy', 'owned %s not destroyed through allocator_traits::destroy' % list(r.objs.values())[0][0], ins)
        if self.plain:
            left = [k for k in st.pend if k[0] == 'live' and k[1] == p[1]]
            if left: ip.flag(st, 'no-destroy', 'owned %s not destroyed through allocator_traits::destroy' % st.pend[left[0]], ins)
        m = r.meta
        if m[0] != meta[0]:
            ip.flag(st, 'dealloc-mismatch', 'storage from %s released through %s' % (m[0], meta[0]), ins)
        elif m[0] == 'al':
            if not self.equal_ids(m[1], meta[1]):
                ip.flag(st, 'dealloc-alloc', 'storage obtained from allocator %s released through unequal allocator %s' % (pid(m[1]), pid(meta[1])), ins)
            if m[2] != meta[2]: ip.flag(st, 'dealloc-mismatch', 'storage allocated as %s released as %s' % (m[2], meta[2]), ins)
            if m[3] != meta[3]: ip.flag(st, 'dealloc-mismatch', 'storage of %s element(s) released with count %s' % (m[3], meta[3]), ins)
        else:
            if (m[4] or 16) != (meta[4] or 16): ip.flag(st, 'dealloc-mismatch', 'operator delete with alignment %s for storage of alignment %s' % (meta[4], m[4]), ins)
            if meta[1] is not None and m[1] != meta[1]: ip.flag(st, 'dealloc-mismatch', 'operator delete with size %s for storage of size %s' % (meta[1], m[1]), ins)
        def mut(s):
            s.wreg(p[1]).alive = False
            ip.event(s, 'free', p[1], meta)
        return [('ret', None, mut)]

    def op_new(self, ip, st, ins, a, src='new'):
        n = a[0]
        if not isinstance(n, int): raise AnalysisError('operator new of unknown size')
        align = a[1] if len(a) > 1 and isinstance(a[1], int) else 16
        return self.alloc(ip, st, (src, n, None, None, align), n, 'operator new')

    def op_delete(self, ip, st, ins, a, src='new', types=()):
        if a[0] == 0: return [('ret', None, None)]
        sz = al = None
        for t, v in zip(types[1:], a[1:]):
            if t.startswith('unsigned'): sz = v
            elif t.startswith('std::align_val_t'): al = v
        return self.free(ip, st, ins, a[0], (src, sz, None, None, al or 16))

    def vp_construct(self, ip, st, ins, a):
        ident, tag, p = a[0], self.tag(ip, a[1]), a[2]
        return self.mark(ip, st, ins, ident, tag, p, 'construct')

    def vp_destroy(self, ip, st, ins, a):
        ident, tag, p = a[0], self.tag(ip, a[1]), a[2]
        if self.triv and self.is_elem(tag):
            # trivially destructible: the destroy call itself ends the lifetime
            r = self.mark(ip, st, ins, ident, tag, p, 'destroy')
            return r if r[0][0] == 'abort' else self.dtor(ip, st, ins, tag, p)
        return self.mark(ip, st, ins, ident, tag, p, 'destroy')

    @staticmethod
    def plain_size(ip, st, tag):
        g = ip.m.globals.get('vp_size_' + tag) or ip.m.globals.get('vp_size_E')
        return g['init'][0][2][1]

    @staticmethod
    def is_elem(tag): return re.match('^' + CLS + '$', tag) is not None

    def mark(self, ip, st, ins, ident, tag, p, what):
        if p == 0: ip.flag(st, 'null', 'allocator_traits::%s of a null pointer' % what, ins); return [('abort', None, None)]
        if p in (UNDEF, TOP): ip.flag(st, 'uninit', 'allocator_traits::%s of an invalid pointer' % what, ins); return [('abort', None, None)]
        r = st.mem.get(p[1])
        if r is None or not r.alive:
            ip.flag(st, 'uaf', 'allocator_traits::%s in released storage' % what, ins); return [('abort', None, None)]
        if r.kind == 'heap' and r.meta[0] == 'al' and not self.equal_ids(r.meta[1], ident):
            ip.flag(st, 'construct-alloc', '%s through allocator %s in storage of unequal allocator %s' % (what, pid(ident), pid(r.meta[1])), ins)
        plain = self.plain and not tag.startswith('xyz::') and r.kind == 'heap'
        if plain:
            k = ('live', p[1], p[2])
            if what == 'construct' and k in st.pend:
                ip.flag(st, 'construct-live', 'construct over a live %s' % tag, ins); return [('abort', None, None)]
            if what == 'destroy' and st.pend.get(k) != tag:
                ip.flag(st, 'destroy-dead', 'destroy of a %s where the live object is %s' % (tag, st.pend.get(k, 'none')), ins); return [('abort', None, None)]
        def mut(s):
            if plain:
                if what == 'construct': s.pend[k] = tag
                else:
                    del s.pend[k]
                    rr = s.wreg(p[1]); sz = self.plain_size(ip, s, tag)
                    Interp_clear(rr, p[2], sz)
            else: s.pend[(what, p[1], p[2])] = (ident, tag)
            ip.event(s, 'mark-' + what, p, tag, ident)
        return [('ret', None, mut)]

    # ---- elements
    def ctor(self, ip, st, ins, typ, ptypes, args):
        this, rest = args[0], args[1:]
        if this == 0: ip.flag(st, 'null', 'construction at a null pointer', ins); return [('abort', None, None)]
        if this in (UNDEF, TOP) or this[0] != 'p': raise AnalysisError('construction at unknown address %r at %s' % (this, ip.loc(st, ins)))
        r = st.mem.get(this[1])
        if r is None or not r.alive:
            ip.flag(st, 'uaf', 'construction in released storage', ins); return [('abort', None, None)]
        sz = self.sizeof(ip, st, typ)
        if r.size is not None and (this[2] < 0 or this[2] + sz > r.size):
            ip.flag(st, 'oob', '%s (%d bytes) constructed in storage too small for it' % (typ, sz), ins); return [('abort', None, None)]
        if r.kind == 'heap' and (r.meta[0] == 'al' or self.aligned_new) and typ in ('Obj', 'Base', 'Derived', 'Derived1'):
            need = ip.m.globals['vp_align_' + typ]['init'][0][2][1]
            have = r.meta[4]
            while this[2] % have: have //= 2
            if have < need: ip.flag(st, 'align', '%s needs alignment %d but is constructed at offset %d of storage aligned to %d' % (typ, need, this[2], r.meta[4]), ins)
        for off, (t, _) in r.objs.items():
            if off < this[2] + sz and this[2] < off + self.sizeof(ip, st, t):
                ip.flag(st, 'construct-live', '%s constructed over a live %s' % (typ, t), ins); return [('abort', None, None)]
        if r.kind == 'heap' and self.cons:
            mk = st.pend.pop(('construct', this[1], this[2]), None)
            if mk is None or mk[1] != typ:
                ip.flag(st, 'no-construct', 'owned %s not constructed through allocator_traits::construct' % typ, ins)
        elif r.kind == 'stack':
            ip.event(st, 'temp', typ)
        kind, val, srcp = self.classify(ip, st, ins, typ, ptypes, rest)
        if kind is None: return [('abort', None, None)]
        def ret(s):
            rr = s.wreg(this[1])
            Interp_clear(rr, this[2], sz)
            rr.objs[this[2]] = (typ, val)
            if srcp is not None and kind in ('move', 'copy-nonconst'):
                self.set_val(ip, s, srcp, ('moved', self.objval(ip, s, srcp)) if kind == 'move' else ('touched', self.objval(ip, s, srcp)))
            ip.event(s, 'ctor', typ, kind, this, tuple(rest))
        return [('ret', None, ret), self.throw_out(ip, st, 'constructor of ' + typ)]

    def set_val(self, ip, s, p, v):
        r = s.wreg(p[1])
        if p[2] in r.objs:
            r.objs[p[2]] = (r.objs[p[2]][0], v)
        else:
            for off, (t, old) in list(r.objs.items()):
                if off <= p[2] < off + self.sizeof(ip, s, t): r.objs[off] = (t, ('sub', v))

    def classify(self, ip, st, ins, typ, ptypes, rest):
        """-> (kind, abstract value, source pointer)"""
        if not ptypes: return 'default', ('default',), None
        p0 = ptypes[0]
        m = re.match(r'^%s( const)?(&&|&)$' % typ, p0)
        if m and len(ptypes) == 1:
            f = self.find(ip, st, rest[0], 'copy/move source', typ, ins)
            if not f: return None, None, None
            kind = {(' const', '&'): 'copy', (None, '&&'): 'move', (None, '&'): 'copy-nonconst', (' const', '&&'): 'copy-crv'}[(m.group(1), m.group(2))]
            v = self.objval(ip, st, rest[0])
            return kind, v, rest[0]
        # general: symbolic value from the overload and the identity of arguments
        key = []; k = 0; r = list(rest)
        for t in ptypes:
            if t.startswith('std::initializer_list'):
                key.append((t, r[0], r[1])); r = r[2:]
            else:
                key.append((t, r[0])); r = r[1:]
        return 'args', ('args',) + tuple(key), None

    def dtor(self, ip, st, ins, typ, this):
        if this == 0: ip.flag(st, 'null', 'destructor of a null pointer', ins); return [('abort', None, None)]
        if this in (UNDEF, TOP) or this[0] != 'p':
            ip.flag(st, 'uninit', 'destructor of an invalid pointer', ins); return [('abort', None, None)]
        r = st.mem.get(this[1])
        if r is None or not r.alive:
            ip.flag(st, 'uaf', 'destructor run in released storage', ins); return [('abort', None, None)]
        o = r.objs.get(this[2])
        if o is None or o[0] != typ:
            ip.flag(st, 'destroy-dead', 'destructor of %s run where the live object is %s' % (typ, o[0] if o else 'none (destroyed twice or never constructed)'), ins)
            return [('abort', None, None)]
        if r.rid in st.consts: ip.flag(st, 'const-write', 'destroys the object of a const operand', ins)
        if r.kind == 'heap' and self.cons:
            mk = st.pend.pop(('destroy', this[1], this[2]), None)
            if self.triv and mk is None: mk = (None, typ)
            if mk is None or mk[1] != typ:
                ip.flag(st, 'no-destroy', 'owned %s not destroyed through allocator_traits::destroy' % typ, ins)
        def mut(s):
            rr = s.wreg(this[1]); del rr.objs[this[2]]
            ip.event(s, 'dtor', typ, this)
        return [('ret', None, mut)]

    def assign(self, ip, st, ins, typ, ptype, args):
        this, src = args
        if not self.find(ip, st, this, 'assignment', typ, ins): return [('abort', None, None)]
        if st.mem[this[1]].rid in st.consts: ip.flag(st, 'const-write', 'assigns to the object of a const operand', ins)
        m = re.match(r'^%s( const)?(&&|&)$' % typ, ptype)
        if m:
            if not self.find(ip, st, src, 'assignment source', typ, ins): return [('abort', None, None)]
            kind = {(' const', '&'): 'copy', (None, '&&'): 'move', (None, '&'): 'copy-nonconst', (' const', '&&'): 'copy-crv'}[(m.group(1), m.group(2))]
            v = self.objval(ip, st, src)
        else:
            kind = 'args'; v = ('args', (ptype, src))
        def ret(s):
            self.set_val(ip, s, this, v)
            if this != src and kind in ('move', 'copy-nonconst'):
                self.set_val(ip, s, src, ('moved' if kind == 'move' else 'touched', v))
            ip.event(s, 'assign', typ, kind, this, src, ptype)
        def thr(s):
            self.set_val(ip, s, this, ('assign-threw',))
            ip.event(s, 'assign-throw', typ, kind, this, src, ptype)
        return [('ret', this, ret), self.throw_out(ip, st, 'assignment of ' + typ, thr)]

    # ---- comparisons
    def role(self, v):
        while isinstance(v, tuple) and v and v[0] in ('moved', 'touched', 'slice'): v = v[1]
        return v

    def cmp(self, ip, st, ins, op, t1, t2, args):
        for p, t in zip(args, (t1, t2)):
            if not self.find(ip, st, p, 'operator' + op, t, ins): return [('abort', None, None)]
        a, b = self.role(self.objval(ip, st, args[0])), self.role(self.objval(ip, st, args[1]))
        rel = self.rel(a, b)
        if rel is None: raise AnalysisError('no relation between %r and %r' % (a, b))
        v = cmp_result(op, rel)
        return [('ret', v, lambda s: ip.event(s, 'cmp', op, args[0], args[1])), self.throw_out(ip, st, 'operator' + op)]

    def value_rel(self, a, b):
        """The scenario's relation between two transparent element values."""
        if not self.plain or not all(isinstance(x, tuple) and x[:2] == ('s', 'val') for x in (a, b)): return None
        return self.rel(('v', a[2]), ('v', b[2]))

    def rel(self, a, b):
        if (a, b) in self.relation: return self.relation[(a, b)]
        if (b, a) in self.relation:
            return {'less': 'greater', 'greater': 'less'}.get(self.relation[(b, a)], self.relation[(b, a)])
        if a == b: return 'equal'
        return None

    def vp_alloc_eq(self, ip, st, ins, a):
        for x in a:
            if x == UNDEF: ip.flag(st, 'uninit', 'comparison of an uninitialised allocator', ins)
        return [('ret', int(bool(self.equal_ids(a[0], a[1]))), None)]

    def vp_soccc(self, ip, st, ins, a):
        return [('ret', sym('soccc', a[0]), None)]

    def vp_default_id(self, ip, st, ins, a):
        return [('ret', sym('default'), None)]

def cmp_result(op, rel):
    if op == '<=>': return {'less': -1, 'equal': 0, 'greater': 1, 'unordered': 2}[rel]
    return cmp_of(op, rel)

def ident_undef(meta): return meta[0] == 'al' and meta[1] == UNDEF
def pid(v):
    if isinstance(v, tuple) and v[0] == 's':
        return v[1] if len(v) == 2 else '%s(%s)' % (v[1], ','.join(pid(x) for x in v[2:]))
    return str(v)

def Interp_clear(r, off, size):
    for o in [o for o, (s, _) in r.cells.items() if o < off + size and off < o + s]: del r.cells[o]
