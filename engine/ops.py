"""The operations of the wrappers: entry states and expected outcomes."""
from lab import *

CAT = {'lv': ('Arg&', 'copy-nonconst'), 'clv': ('Arg const&', 'copy'), 'rv': ('Arg&&', 'move'), 'crv': ('Arg const&&', 'copy-crv')}

def strong(c, assign_x=None):
    """Exceptional exit: every existing wrapper is as before."""
    threw_assign = any(e[0] == 'assign-throw' for e in c.lab.elem_events(c.st))
    for n in c.pre:
        a, b = c.pre[n], c.post[n]
        c.need(a.valueless == b.valueless, 'throw', 'after an exception %s %s' % (n, 'is valueless' if b.valueless else 'owns an object'))
        if not a.valueless and not b.valueless:
            c.need(a.loc == b.loc, 'throw', 'after an exception %s no longer owns its object' % n)
            c.need(a.typ == b.typ, 'throw', 'after an exception %s owns a different type' % n)
            if a.loc == b.loc and not (threw_assign and n == assign_x):
                c.need(a.val == b.val, 'throw-val', 'after an exception the object of %s was modified (%s)' % (n, descr(b.val)))
        c.need(a.alloc == b.alloc, 'throw', 'after an exception the allocator of %s changed to %s' % (n, pid(b.alloc)))
        if threw_assign and n == assign_x:
            c.need(any(e[0] == 'assign-throw' and (e[3][1], e[3][2]) == a.loc for e in c.lab.elem_events(c.st)), 'throw', 'exception thrown from assigning to an object %s does not own' % n)

def no_throw(c, why):
    c.need(False, 'unexpected-throw', 'an exception leaves %s' % why, next((e[-1] for e in c.st.trace if e[0] == 'throw'), None))

# ---------------------------------------------------------------- constructors
def run_value_ctors(lab, pats=None):
    for typ in lab.elems:
        sfx = '_' + typ if lab.poly else ''
        T = typ
        tests = []
        for q, (at, ok) in CAT.items():
            tests.append(('h_ctor_val_%s' % q, ['obj'], 0, ok)); tests.append(('h_ctor_val_alloc_%s' % q, ['obj'], 1, ok))
            tests.append(('h_ctor_ip_%s' % q, ['arg'], 0, [at])); tests.append(('h_ctor_alloc_ip_%s' % q, ['arg'], 1, [at]))
            if not lab.poly:
                tests.append(('h_ctor_arg_%s' % q, ['arg'], 0, [at])); tests.append(('h_ctor_arg_alloc_%s' % q, ['arg'], 1, [at]))
        il = 'std::initializer_list<int>'
        for a, p in ((0, 'h_ctor_'), (1, 'h_ctor_alloc_')):
            tests += [(p + 'ip0', [], a, []), (p + 'ip3a', ['arg'] * 3, a, ['Arg&', 'Arg const&', 'Arg&&']), (p + 'ip3b', ['arg'] * 3, a, ['Arg&&', 'Arg&', 'Arg const&&']),
                      (p + 'ip_obj_clv', ['obj'], a, 'copy'), (p + 'ip_obj_rv', ['obj'], a, 'move'),
                      (p + 'il', ['il'], a, [il]), (p + 'il3a', ['il', 'arg', 'arg'], a, [il, 'Arg&', 'Arg&&']), (p + 'il3b', ['il', 'arg', 'arg'], a, [il, 'Arg&&', 'Arg const&'])]
        for name, spec, alloc, want in tests:
            fn = name + sfx
            if lab.cxx14_missing(name): continue
            one_ctor(lab, 'ctor:' + name[7:], fn, T, spec, alloc, want)
    one_ctor(lab, 'ctor:default', 'h_ctor_default', lab.T, [], 0, [])
    one_ctor(lab, 'ctor:alloc', 'h_ctor_alloc', lab.T, [], 1, [])

def one_ctor(lab, op, fn, T, spec, alloc, want):
    st = State(); x = lab.wrapper(st); args = [x]; key = []; src = None
    if alloc: args.append(A1)
    for s, w in zip(spec, want if isinstance(want, list) else [want]):
        if s == 'obj': src = lab.ext_elem(st, T, ('v', 'u')); args.append(src)
        elif s == 'arg': p = lab.ext_arg(st); args.append(p); key.append((w, p))
        else:
            rid = st.new_region('ext', 16, 'il'); st.wreg(rid).cells.update({0: (8, sym('ext', rid, 0)), 8: (8, sym('ext', rid, 8))}); args.append(ptr(rid, 0)); key.append((w, sym('ext', rid, 0), sym('ext', rid, 8)))
    if isinstance(want, str): kind, val = want, ('v', 'u')
    elif want: kind, val = 'args', ('args',) + tuple(key)
    else: kind, val = 'default', ('default',)
    a_id = lab.alloc_of(A1 if alloc else sym('default'))
    first = src if src is not None else (key[0][1] if key else None)
    if want and isinstance(want, list) and key and len(key[0]) == 3: first = key[0][1]
    def oracle(lab, c):
        if c.kind == 'throw': return
        if c.valued('x'):
            c.owns_new('x', T, val)
            c.events(('ctor', T, kind, first))
        c.allocs(a_id)
        c.alloc_is('x', a_id)
    lab.check_op(op, fn, st, args, T, oracle, {}, {'x': x})

# ---------------------------------------------------------------- copy / move construction
def states(lab): return ['valued', 'valueless']
def types(lab): return lab.elems if lab.poly else lab.elems

def run_copy_ctors(lab):
    for typ in types(lab):
        for ys in states(lab):
            if ys == 'valueless' and typ != lab.elems[-1]: continue
            for fn, alloc in (('h_copy', 0), ('h_copy_nc', 0), ('h_copy_crv', 0), ('h_copy_alloc', 1), ('h_copy_alloc_nc', 1)):
                for rel in (['same', 'equal', 'unequal'] if alloc else ['-']):
                    if lab.cfg.empty and rel not in ('-', 'same'): continue
                    if lab.cfg.ae and rel == 'unequal': continue
                    lab.set_rel(rel)
                    st, y = lab.make(State(), A1, 'y', ys, typ)
                    x = lab.wrapper(st)
                    given = A1 if rel == 'same' else A2
                    a_id = lab.alloc_of(given) if alloc else (0 if lab.cfg.empty else sym('soccc', A1))
                    def oracle(lab, c, ys=ys, a_id=a_id, y=y):
                        if c.kind == 'throw': strong(c); return
                        c.same('y')
                        c.alloc_is('x', a_id)
                        if ys == 'valueless':
                            c.valueless('x'); c.events(); c.allocs()
                        else:
                            src = c.pre['y'].loc
                            c.owns_new('x', typ, ('v', 'y'))
                            c.events(('ctor', typ, 'copy', ptr(*src))); c.allocs(a_id)
                    lab.check_op(fn[2:].replace('_nc', '').replace('_crv', ''), fn, st, ([x, given, y] if alloc else [x, y]), '%s %s alloc:%s%s' % (ys, typ, rel, {'h_copy_nc': ' non-const source', 'h_copy_alloc_nc': ' non-const source', 'h_copy_crv': ' const rvalue source'}.get(fn, '')), oracle, {'y': y}, {'x': x}, consts=['y'])

def run_move_ctors(lab):
    for typ in types(lab):
        for ys in states(lab):
            if ys == 'valueless' and typ != lab.elems[-1]: continue
            for fn, alloc in (('h_move', 0), ('h_move_alloc', 1)):
                for rel in (['same', 'equal', 'unequal'] if alloc else ['-']):
                    if lab.cfg.empty and rel not in ('-', 'same'): continue
                    if lab.cfg.ae and rel == 'unequal': continue
                    lab.set_rel(rel)
                    st, y = lab.make(State(), A1, 'y', ys, typ)
                    x = lab.wrapper(st)
                    given = A1 if rel == 'same' else A2
                    a_id = lab.alloc_of(given) if alloc else lab.alloc_of(A1)
                    steal = rel != 'unequal'
                    def oracle(lab, c, ys=ys, a_id=a_id, steal=steal):
                        if c.kind == 'throw':
                            if steal or ys == 'valueless': no_throw(c, 'a move that only transfers ownership')
                            strong(c); return
                        c.alloc_is('x', a_id)
                        c.need(c.post['y'].alloc == c.pre['y'].alloc, 'alloc', 'allocator of the source changed')
                        if ys == 'valueless':
                            c.valueless('x'); c.valueless('y'); c.events(); c.allocs()
                        elif steal:
                            c.owns('x', c.pre['y'].loc, "the source's object"); c.valueless('y'); c.events(); c.allocs()
                        else:
                            src = c.pre['y'].loc
                            c.owns_new('x', typ, ('v', 'y')); c.owns('y', src, 'its own (moved-from) object')
                            c.events(('ctor', typ, 'move', ptr(*src))); c.allocs(a_id)
                    lab.check_op(fn[2:], fn, st, ([x, given, y] if alloc else [x, y]), '%s %s alloc:%s' % (ys, typ, rel), oracle, {'y': y}, {'x': x})

# ---------------------------------------------------------------- assignment
def binary_entries(lab):
    """(st, x, y, xs, ys, xt, yt, rel) for all operand combinations."""
    rels = ['same', 'equal', 'unequal']
    if lab.cfg.empty: rels = ['same']
    elif lab.cfg.ae: rels = ['same', 'equal']
    for rel in rels:
        for xs in ('valued', 'valueless'):
            for ys in ('valued', 'valueless'):
                tps = [(t, t) for t in lab.elems]
                if lab.poly: tps = lab.pairs
                if xs == 'valueless' or ys == 'valueless': tps = tps[:1]
                for xt, yt in tps:
                    lab.set_rel(rel)
                    st, x = lab.make(State(), A1, 'x', xs, xt)
                    st, y = lab.make(st, A1 if rel == 'same' else A2, 'y', ys, yt)
                    yield st, x, y, xs, ys, xt, yt, rel

def scen_text(xs, ys, xt, yt, rel): return 'x %s%s, y %s%s, allocators %s' % (xs, ' ' + xt if xs == 'valued' else '', ys, ' ' + yt if ys == 'valued' else '', rel)

def assign_copy_oracle(lab, rel, xs, ys, xt, yt, x):
    yid = lab.alloc_of(A1 if rel == 'same' else A2)
    def oracle(lab, c):
        pre = c.pre
        vx, vy = pre['x'], pre['y']
        eq = lab.model.equal_ids(vx.alloc, vy.alloc)
        if c.kind == 'throw': strong(c, 'x'); return
        c.need(c.ex.value == x, 'ret', 'result does not refer to the assigned-to wrapper')
        c.same('y')
        new_id = vy.alloc if lab.cfg.pocca else vx.alloc
        c.alloc_is('x', new_id)
        old = [] if vx.valueless else [('dtor', vx.typ, vx.loc)]
        if vy.valueless:
            c.valueless('x'); c.events(*old); c.allocs()
        elif not lab.poly and not vx.valueless and eq:
            c.owns('x', vx.loc, 'the object it owned (assigned in place)')
            c.events(('assign', vx.typ, 'copy', ptr(*vx.loc), ptr(*vy.loc))); c.allocs()
            c.need(c.post['x'].valueless or c.post['x'].val == vy.val, 'val', "x does not hold y's value")
        else:
            c.owns_new('x', vy.typ, vy.val)
            c.events(('ctor', vy.typ, 'copy', ptr(*vy.loc)), *old); c.allocs(new_id)
    return oracle

def assign_move_oracle(lab, x):
    def oracle(lab, c):
        vx, vy = c.pre['x'], c.pre['y']
        eq = lab.model.equal_ids(vx.alloc, vy.alloc)
        if c.kind == 'throw':
            if eq or vy.valueless: no_throw(c, 'a move assignment that only transfers ownership')
            strong(c); return
        c.need(c.ex.value == x, 'ret', 'result does not refer to the assigned-to wrapper')
        new_id = vy.alloc if lab.cfg.pocma else vx.alloc
        c.alloc_is('x', new_id)
        c.need(c.post['y'].alloc == vy.alloc, 'alloc', 'allocator of the source changed')
        old = [] if vx.valueless else [('dtor', vx.typ, vx.loc)]
        if vy.valueless:
            c.valueless('x'); c.valueless('y'); c.events(*old); c.allocs()
        elif eq:
            c.owns('x', vy.loc, "the source's object"); c.valueless('y'); c.events(*old); c.allocs()
            c.need(c.post['x'].valueless or c.post['x'].val == vy.val, 'val', "x does not hold y's value")
        else:
            c.owns_new('x', vy.typ, vy.val); c.owns('y', vy.loc, 'its own (moved-from) object')
            c.events(('ctor', vy.typ, 'move', ptr(*vy.loc)), *old); c.allocs(new_id)
    return oracle

def swap_oracle(lab):
    def oracle(lab, c):
        vx, vy = c.pre['x'], c.pre['y']
        if c.kind == 'throw': no_throw(c, 'swap'); return
        c.events(); c.allocs()
        px, py = c.post['x'], c.post['y']
        for n, p, o in (('x', px, vy), ('y', py, vx)):
            if o.valueless: c.valueless(n)
            else:
                c.owns(n, o.loc, "the other operand's object")
                c.need(p.valueless or p.val == o.val, 'val', 'swap modified an owned object')
        if lab.cfg.pocs: c.alloc_is('x', vy.alloc); c.alloc_is('y', vx.alloc)
        else: c.alloc_is('x', vx.alloc); c.alloc_is('y', vy.alloc)
    return oracle

def binary_ops(lab, st, x, y, scen, rel, only=None):
    """All binary operations from one entry state."""
    vx = lab.observe(st, x); vy = lab.observe(st, y)
    eq = lab.model.equal_ids(vx.alloc, vy.alloc)
    if not only or 'copy' in only:
        for fn in ('h_assign_copy', 'h_assign_copy_nc', 'h_assign_copy_crv'):
            lab.check_op('assign_copy', fn, st, [x, y], scen + {'h_assign_copy_nc': ' (non-const source)', 'h_assign_copy_crv': ' (const rvalue source)'}.get(fn, ''), assign_copy_oracle(lab, rel, None, None, None, None, x), {'x': x, 'y': y}, consts=['y'])
    if not only or 'move' in only:
        lab.check_op('assign_move', 'h_assign_move', st, [x, y], scen, assign_move_oracle(lab, x), {'x': x, 'y': y})
    if (not only or 'swap' in only) and (lab.cfg.pocs or eq):
        for fn in ('h_swap_member', 'h_swap_free'):
            lab.check_op(fn[2:], fn, st, [x, y], scen, swap_oracle(lab), {'x': x, 'y': y})

def run_binary(lab, only=None):
    for st, x, y, xs, ys, xt, yt, rel in binary_entries(lab):
        binary_ops(lab, st, x, y, scen_text(xs, ys, xt, yt, rel), rel, only)

def run_self(lab):
    for typ in types(lab):
        for xs in states(lab):
            if xs == 'valueless' and typ != lab.elems[-1]: continue
            lab.set_rel('same')
            st, x = lab.make(State(), A1, 'x', xs, typ)
            self_ops(lab, st, x, '%s %s' % (xs, typ if xs == 'valued' else ''))

def self_ops(lab, st, x, scen):
    def oracle(lab, c):
        if c.kind == 'throw': no_throw(c, 'self-assignment or self-swap'); return
        c.same('x'); c.events(); c.allocs()
        if 'assign' in c.op: c.need(c.ex.value == x, 'ret', 'result does not refer to the wrapper')
    for fn, op in (('h_assign_copy', 'self_assign_copy'), ('h_assign_copy_nc', 'self_assign_copy'), ('h_assign_move', 'self_assign_move'), ('h_swap_member', 'self_swap'), ('h_swap_free', 'self_swap')):
        lab.check_op(op, fn, st, [x, x], scen, oracle, {'x': x})

# ---------------------------------------------------------------- destruction, observers
def run_unary(lab):
    for typ in types(lab):
        for xs in states(lab):
            if xs == 'valueless' and typ != lab.elems[-1]: continue
            lab.set_rel('same')
            st, x = lab.make(State(), A1, 'x', xs, typ)
            unary_ops(lab, st, x, '%s %s' % (xs, typ if xs == 'valued' else ''))

def unary_ops(lab, st, x, scen):
    vx = lab.observe(st, x)
    def dtor_oracle(lab, c):
        if c.kind == 'throw': no_throw(c, 'the destructor'); return
        c.events(*([] if vx.valueless else [('dtor', vx.typ, vx.loc)])); c.allocs()
    lab.check_op('dtor', 'h_dtor', st, [x], scen, dtor_oracle, {'x': x}, killed=['x'])
    def obs_oracle(want, what):
        def oracle(lab, c):
            if c.kind == 'throw': no_throw(c, what); return
            c.same('x'); c.events(); c.allocs()
            if want is not None: c.need(c.ex.value == want, 'result', '%s gives %s, expected %s' % (what, showv(c.ex.value), showv(want)))
        return oracle
    lab.check_op('valueless_after_move', 'h_valueless', st, [x], scen, obs_oracle(int(vx.valueless), 'valueless_after_move'), {'x': x}, consts=['x'])
    lab.check_op('get_allocator', 'h_get_allocator', st, [x], scen, obs_oracle(vx.alloc, 'get_allocator'), {'x': x}, consts=['x'])
    acc = ['h_deref_c', 'h_deref', 'h_arrow_c', 'h_arrow', 'h_deref_rv', 'h_deref_crv']
    for fn in acc:
        if not lab.has(fn): continue
        if vx.valueless:
            if not lab.cfg.ndebug: valueless_access(lab, fn, st, x, scen)
            continue
        want = ptr(vx.loc[0], vx.loc[1] + lab.model.subobject(lab.ip, st, vx.typ, lab.T))
        lab.check_op('access', fn, st, [x], scen + ' ' + fn[2:], obs_oracle(want, 'accessor ' + fn[2:]), {'x': x}, consts=['x'])

def showv(v):
    if isinstance(v, tuple) and v and v[0] == 'p': return 'object #%d+%d' % (v[1], v[2])
    if isinstance(v, tuple) and v and v[0] == 's': return pid(v)
    return str(v)

def valueless_access(lab, fn, st, x, scen):
    """Assertions on: access to a valueless wrapper must stop at an assertion."""
    ex = lab.ip.run(st.clone(), fn, [x])
    lab.by_op['valueless_access'] = lab.by_op.get('valueless_access', 0) + 1
    for e in ex:
        lab.exits += 1; lab.obl += 1
        if e.kind != 'assert':
            lab.report('valueless-access', 'valueless_access', scen + ' ' + fn[2:], 'access to a valueless wrapper is not stopped by an assertion (%s)' % e.kind, fn_loc(lab, fn), e.kind)
        elif e.state.viol:
            lab.report('valueless-access', 'valueless_access', scen + ' ' + fn[2:], 'memory is accessed before the assertion: ' + e.state.viol[0][1], e.state.viol[0][2], e.kind)

def fn_loc(lab, fn):
    """Location of the library function the harness calls."""
    for b in lab.m.functions[fn]['blocks']:
        for i in b:
            if i['op'] in ('call', 'invoke') and i['callee'][0] == 'f':
                g = lab.m.functions.get(i['callee'][1])
                if g and g.get('file', '').startswith(lab.m.repo): return Loc(g['file'], g['line'], short(g['dem']), ())
    return None

# ---------------------------------------------------------------- converting assignment
def run_assign_val(lab):
    if lab.poly: return
    for xs in states(lab):
        for q, (at, ok) in CAT.items():
            for kind in ('val', 'arg'):
                lab.set_rel('same')
                st, x = lab.make(State(), A1, 'x', xs)
                src = lab.ext_elem(st, lab.T, ('v', 'u')) if kind == 'val' else lab.ext_arg(st)
                val_assign_op(lab, st, x, src, kind, q, xs)
    # the argument is the object the wrapper owns
    for q in ('clv', 'lv'):
        lab.set_rel('same')
        st, x = lab.make(State(), A1, 'x', 'valued')
        src = ptr(*lab.observe(st, x).loc)
        val_assign_op(lab, st, x, src, 'val', q, 'valued, from its own object', alias=True)

def val_assign_op(lab, st, x, src, kind, q, scen, alias=False):
    at, ok = CAT[q]
    vx = lab.observe(st, x)
    a_id = vx.alloc
    if kind == 'val': ek, val = ok, ('v', 'x' if alias else 'u')
    else: ek, val = 'args', None
    def oracle(lab, c):
        if c.kind == 'throw': strong(c, 'x'); return
        c.need(c.ex.value == x, 'ret', 'result does not refer to the assigned-to wrapper')
        c.alloc_is('x', a_id)
        if vx.valueless:
            c.owns_new('x', lab.T, val if kind == 'val' else ('args', (at, src)))
            c.events(('ctor', 'Obj', ek, src)); c.allocs(a_id)
        else:
            c.owns('x', vx.loc, 'the object it owned (assigned in place)')
            c.events(('assign', 'Obj', ek, ptr(*vx.loc), src)); c.allocs()
            if not c.post['x'].valueless and kind == 'arg': c.need(c.post['x'].val == ('args', (at, src)), 'events', 'argument not forwarded as %s (assigned from %s)' % (at, descr(c.post['x'].val)))
    lab.check_op('assign_val', 'h_assign_%s_%s' % (kind, q), st, [x, src], '%s from %s %s' % (scen, {'val': 'Obj', 'arg': 'Arg'}[kind], q), oracle, {'x': x})

# ---------------------------------------------------------------- comparison, hash
def wanted(lab, o, rel, two_way=True):
    """C++20 relational operators of elements without <=> are defined through
    synthesized three-way comparison, whose weak ordering has no unordered."""
    if rel == 'unordered' and two_way and not lab.cfg.cxx14 and o not in ('==', '!='): rel = 'equal'
    return cmp_result(o, rel)

OPS = {'eq': '==', 'ne': '!=', 'lt': '<', 'gt': '>', 'le': '<=', 'ge': '>='}
def expected_rel(vx, vy, rel):
    if vx and vy: return 'equal'
    if vx: return 'less'
    if vy: return 'greater'
    return rel

def cmp_check(lab, op, fn, st, args, scen, want, wrappers, neutral):
    def oracle(lab, c):
        if c.kind == 'throw':
            if neutral: no_throw(c, 'a comparison that looks at no element')
            strong(c); return
        for n in c.pre: c.same(n)
        c.need(c.ex.value == want, 'result', 'gives %s, expected %s' % (showv(c.ex.value), want))
        evs = [e for e in lab.elem_events(c.st)]
        c.need(all(e[0] == 'cmp' for e in evs), 'events', 'comparison performs other element operations')
        if neutral: c.need(not evs, 'events', 'comparison with a valueless operand uses an element comparison')
        c.allocs()
    lab.check_op(op, fn, st, args, scen, oracle, wrappers, consts=list(wrappers))

def run_plain_cmp(lab):
    sc = lab.cfg.sc
    rels = ['equal', 'unequal'] if sc == 8 else ['less', 'equal', 'greater'] + (['unordered'] if sc == 2 else [])
    arel = 'same' if lab.cfg.empty else ('equal' if lab.cfg.ae else 'unequal')
    ops = [(n, o) for n, o in OPS.items() if sc != 8 or n in ('eq', 'ne')]
    def both(st, x, y, a, b, names, er, text, wr, neutral):
        flip = {'less': 'greater', 'greater': 'less'}.get(er, er)
        for n, o in ops:
            for fn, args, r in ((a, [x, y], er),) + (((b, [y, x], flip),) if b else ()):
                if lab.has(fn + n): cmp_check(lab, 'cmp', fn + n, st, args, ('%s %s %s' % (names[0], o, names[1]) if fn is a else '%s %s %s' % (names[1], o, names[0])) + text, wanted(lab, o, r, False), wr, neutral)
        for fn, args, r, nm in (('h_tw_' + a[6:-1], [x, y], er, names),) + ((('h_tw_' + b[6:-1], [y, x], flip, names[::-1]),) if b else ()):
            if lab.has(fn): cmp_check(lab, 'cmp', fn, st, args, '%s <=> %s' % nm + text, wanted(lab, '<=>', r, False), wr, neutral)
    for xs in states(lab):
        for ys in states(lab):
            for rel in (rels if xs == ys == 'valued' else rels[:1]):
                lab.set_rel(arel)
                st, x = lab.make(State(), A1, 'x', xs)
                st, y = lab.make(st, A1 if lab.cfg.empty else A2, 'y', ys)
                lab.model.relation = {(('v', 'x'), ('v', 'y')): rel}
                er = expected_rel(xs == 'valueless', ys == 'valueless', rel)
                val = xs == ys == 'valued'
                both(st, x, y, 'h_cmp_xx_', None, ('x ' + xs, 'y ' + ys), er, ', elements ' + rel if val else '', {'x': x, 'y': y}, not val)
        lab.set_rel('same')
        st, x = lab.make(State(), A1, 'x', xs)
        for rel in (('equal', 'unordered') if xs == 'valued' and sc == 2 else ('equal',)):
            lab.model.relation = {(('v', 'x'), ('v', 'x')): rel}
            both(st, x, x, 'h_cmp_xx_', None, ('x ' + xs, 'itself'), rel, ', element not equal to itself' if rel != 'equal' else '', {'x': x}, xs == 'valueless')
        for what in ('u', 'o', 'y'):
            if not lab.has('h_cmp_x%s_eq' % what): continue
            for rel in (rels if xs == 'valued' else rels[:1]):
                lab.set_rel(arel)
                st, x = lab.make(State(), A1, 'x', xs)
                n = lab.model.sizeof(lab.ip, st, 'E' if what == 'u' else 'E2')
                u = ptr(st.new_region('ext', n, 'arg'), 0)
                st.wreg(u[1]).cells.update(lab.cells('E' if what == 'u' else 'E2', 'u'))
                if what == 'y':
                    y = ptr(st.new_region('wrapper', lab.const_call('h_y_sizeof'), 'wrapper'), 0)
                    mine = set(st.mem)
                    st = lab.clean(lab.ip.run(st, 'h_y_ctor', [y, A2, u]), 'h_y_ctor').state
                    for r in list(st.mem.values()):       # not a wrapper under check
                        if r.kind == 'heap' and r.alive and r.rid not in mine: st.wreg(r.rid).kind = 'ext'
                    u = y
                lab.model.relation = {(('v', 'x'), ('v', 'u')): rel}
                er = expected_rel(xs == 'valueless', False, rel)
                both(st, x, u, 'h_cmp_x%s_' % what, 'h_cmp_%sx_' % what, ('x ' + xs, {'u': 'value', 'o': 'value of another type', 'y': 'wrapper of another type'}[what]), er, ', elements ' + rel if xs == 'valued' else '', {'x': x}, xs == 'valueless')
    lab.model.relation = {}

def run_plain_hash(lab):
    if not lab.has('h_hash'): return
    fixed = set()
    for xs in states(lab):
        for ident in (A1, A2) if not lab.cfg.empty else (A1,):
            lab.set_rel('same')
            st, x = lab.make(State(), ident, 'x', xs)
            want = None
            if xs == 'valued':
                o = lab.ext_elem(st, 'E', ('v', 'x'))
                want = {e.value for e in lab.ip.run(st.clone(), 'h_hash_elem', [o])}
            def oracle(lab, c):
                if c.kind == 'throw': no_throw(c, 'hash of a built-in value'); return
                c.same('x'); c.allocs()
                if want is None:
                    fixed.add(c.ex.value)
                    c.need(isinstance(c.ex.value, int), 'result', 'hash of a valueless indirect is not a fixed value')
                else: c.need(c.ex.value in want, 'result', 'hash is %s, not the hash of the owned value' % showv(c.ex.value))
            lab.check_op('hash', 'h_hash', st, [x], xs, oracle, {'x': x}, consts=['x'])
    if len(fixed) > 1: lab.report('result', 'hash', 'valueless', 'hash of valueless indirects differs: %s' % (fixed,))

def run_cmp(lab):
    if lab.poly: return
    if lab.cfg.sc: return run_plain_cmp(lab)
    rels = ['less', 'equal', 'greater', 'unordered']
    arel = 'same' if lab.cfg.empty else ('equal' if lab.cfg.ae else 'unequal')
    for xs in states(lab):
        for ys in states(lab):
            for rel in (rels if xs == ys == 'valued' else ['less']):
                lab.set_rel(arel)
                st, x = lab.make(State(), A1, 'x', xs)
                st, y = lab.make(st, A1 if lab.cfg.empty else A2, 'y', ys)
                lab.model.relation = {(('v', 'x'), ('v', 'y')): rel}
                er = expected_rel(xs == 'valueless', ys == 'valueless', rel)
                for n, o in OPS.items():
                    cmp_check(lab, 'cmp', 'h_cmp_xx_' + n, st, [x, y], 'x %s %s y %s%s' % (xs, o, ys, ', elements ' + rel if xs == ys == 'valued' else ''), wanted(lab, o, er), {'x': x, 'y': y}, not (xs == ys == 'valued'))
                # the same wrapper on both sides
            # mixed element type
            for rel in (rels if xs == ys == 'valued' else ['less']):
                lab.set_rel(arel)
                st, x = lab.make(State(), A1, 'x', xs)
                st, y = make_other(lab, st, ys)
                lab.model.relation = {(('v', 'x'), ('v', 'y')): rel}
                er = expected_rel(xs == 'valueless', ys == 'valueless', rel)
                for n, o in OPS.items():
                    neutral = not (xs == ys == 'valued')
                    d = ', elements ' + rel if not neutral else ''
                    cmp_check(lab, 'cmp', 'h_cmp_xy_' + n, st, [x, y], 'x %s %s other %s%s' % (xs, o, ys, d), wanted(lab, o, er), {'x': x}, neutral)
                    flip = {'less': 'greater', 'greater': 'less'}.get(er, er)
                    cmp_check(lab, 'cmp', 'h_cmp_yx_' + n, st, [y, x], 'other %s %s x %s%s' % (ys, o, xs, d), wanted(lab, o, flip), {'x': x}, neutral)
        # self comparison
        lab.set_rel('same')
        st, x = lab.make(State(), A1, 'x', xs)
        # (an element need not be equal to itself)
        for rel in (('equal', 'unordered') if xs == 'valued' else ('equal',)):
            lab.model.relation = {(('v', 'x'), ('v', 'x')): rel}
            for n, o in OPS.items():
                cmp_check(lab, 'cmp', 'h_cmp_xx_' + n, st, [x, x], 'x %s %s itself%s' % (xs, o, ', element not equal to itself' if rel != 'equal' else ''), wanted(lab, o, rel), {'x': x}, xs == 'valueless')
        for ut in ('Obj', 'Oth'):
            for rel in (rels if xs == 'valued' else ['less']):
                lab.set_rel(arel)
                st, x = lab.make(State(), A1, 'x', xs)
                u = lab.ext_elem(st, ut, ('v', 'u'))
                lab.model.relation = {(('v', 'x'), ('v', 'u')): rel}
                er = expected_rel(xs == 'valueless', False, rel)
                flip = {'less': 'greater', 'greater': 'less'}.get(er, er)
                for n, o in OPS.items():
                    d = ', elements ' + rel if xs == 'valued' else ''
                    cmp_check(lab, 'cmp', 'h_cmp_%s_%s' % ('xu' if ut == 'Obj' else 'xo', n), st, [x, u], 'x %s %s value%s' % (xs, o, d), wanted(lab, o, er), {'x': x}, xs == 'valueless')
                    cmp_check(lab, 'cmp', 'h_cmp_%s_%s' % ('ux' if ut == 'Obj' else 'ox', n), st, [u, x], 'value %s x %s%s' % (o, xs, d), wanted(lab, o, flip), {'x': x}, xs == 'valueless')
    if not lab.cfg.cxx14: run_three_way(lab)
    lab.model.relation = {}

def make_other(lab, st, ys):
    """A Y = indirect<Oth, std::allocator<Oth>>; (not a checked wrapper)."""
    y = ptr(st.new_region('wrapper', lab.const_call('h_y_sizeof'), 'wrapper'), 0)
    o = lab.ext_elem(st, 'Oth', ('v', 'y'))
    cons = lab.model.cons; lab.model.cons = False
    mine = set(st.mem)
    try:
        st = lab.clean(lab.ip.run(st, 'h_y_ctor', [y, o]), 'h_y_ctor').state
        if ys == 'valueless':
            t = ptr(st.new_region('wrapper', lab.const_call('h_y_sizeof'), 'wrapper'), 0)
            st = lab.clean(lab.ip.run(st, 'h_y_move', [t, y]), 'h_y_move').state
            st = lab.clean(lab.ip.run(st, 'h_y_dtor', [t]), 'h_y_dtor').state
    finally: lab.model.cons = cons
    # blocks owned by y are not the wrappers' under check
    for r in list(st.mem.values()):
        if r.kind == 'heap' and r.alive and r.rid not in mine: st.wreg(r.rid).kind = 'ext'
    return st, y

def run_three_way(lab):
    for C, rels in (('TwS', ['less', 'equal', 'greater']), ('TwW', ['less', 'equal', 'greater']), ('TwP', ['less', 'equal', 'greater', 'unordered']), ('Lt', ['less', 'equal', 'greater', 'unordered'])):
        if not lab.has('h_%s_ctor' % C): lab.notes.add('missing ' + C); continue
        def mk(st, ident, role, kind):
            w = ptr(st.new_region('wrapper', 24, 'wrapper'), 0)
            o = lab.ext_elem(st, C, ('v', role))
            st = lab.clean(lab.ip.run(st, 'h_%s_ctor' % C, [w, ident, o]), 'ctor').state
            if kind == 'valueless':
                t = ptr(st.new_region('wrapper', 24, 'wrapper'), 0)
                st = lab.clean(lab.ip.run(st, 'h_%s_move' % C, [t, w]), 'move').state
            return st, w
        for xs in states(lab):
            for ys in states(lab) + ['plain']:
                for rel in (rels if xs == 'valued' and ys != 'valueless' else ['less']):
                    lab.set_rel('same')
                    st, x = mk(State(), A1, 'x', xs)
                    if ys == 'plain': y = lab.ext_elem(st, C, ('v', 'y'))
                    else: st, y = mk(st, A1, 'y', ys)
                    lab.model.relation = {(('v', 'x'), ('v', 'y')): rel}
                    er = expected_rel(xs == 'valueless', ys == 'valueless', rel)
                    for dirn in (('xx',) if ys != 'plain' else ('xu', 'ux')):
                        ee = er if dirn != 'ux' else {'less': 'greater', 'greater': 'less'}.get(er, er)
                        args = [x, y] if dirn != 'ux' else [y, x]
                        neutral = not (xs == 'valued' and ys != 'valueless')
                        todo = [('h_%s_tw_%s' % (C, dirn), '<=>')] + [('h_%s_%s_%s' % (C, dirn, n), o) for n, o in OPS.items()]
                        for fn, o in todo:
                            # an element with only < and == has no unordered <=> outcome
                            want = wanted(lab, o, ee, C == 'Lt')
                            raw_cmp(lab, fn, st, args, '%s: %s %s %s%s' % (C, 'value' if dirn == 'ux' else 'x ' + xs, o, ('x ' + xs) if dirn == 'ux' else 'value' if ys == 'plain' else 'y ' + ys, '' if neutral else ', elements ' + rel), want, neutral)

        # the same wrapper on both sides; an element need not equal itself
        for xs in states(lab):
            for rel in (['equal'] if C in ('TwS', 'TwW') or xs == 'valueless' else ['equal', 'unordered']):
                lab.set_rel('same')
                st, x = mk(State(), A1, 'x', xs)
                lab.model.relation = {(('v', 'x'), ('v', 'x')): rel}
                for fn, o in [('h_%s_tw_xx' % C, '<=>')] + [('h_%s_xx_%s' % (C, n), o) for n, o in OPS.items()]:
                    raw_cmp(lab, fn, st, [x, x], '%s: x %s %s itself%s' % (C, xs, o, ', element not equal to itself' if rel != 'equal' else ''), wanted(lab, o, rel, C == 'Lt'), xs == 'valueless')

def raw_cmp(lab, fn, st, args, scen, want, neutral):
    if not lab.has(fn): lab.notes.add('missing ' + fn); return
    s = st.clone()
    heap_before = lab.live_heap(s)
    s.consts = frozenset(r.rid for r in s.mem.values() if r.kind in ('wrapper', 'heap', 'ext'))
    lab.by_op['cmp'] = lab.by_op.get('cmp', 0) + 1
    for e in lab.ip.run(s, fn, args):
        lab.exits += 1; lab.obl += 1
        for v in e.state.viol: lab.report(v[0], 'cmp', scen, v[1], v[2], e.kind)
        loc = lab.last_loc(e.state) or fn_loc(lab, fn)
        throws = [x for x in e.state.trace if x[0] == 'throw']
        if e.kind == 'ret':
            if throws: lab.report('swallow', 'cmp', scen, 'exception swallowed', throws[0][-1], e.kind)
            elif e.value != want: lab.report('result', 'cmp', scen, 'gives %s, expected %s' % (showv(e.value), want), loc, e.kind)
            if neutral and lab.elem_events(e.state): lab.report('events', 'cmp', scen, 'comparison with a valueless operand uses an element comparison', loc, e.kind)
            if lab.live_heap(e.state) != heap_before or any(x[0] == 'alloc' for x in e.state.trace): lab.report('nalloc', 'cmp', scen, 'comparison allocates or frees', loc, e.kind)
        elif e.kind == 'throw':
            if neutral: lab.report('unexpected-throw', 'cmp', scen, 'comparison that looks at no element throws', loc, e.kind)
        elif e.kind == 'assert': lab.report('assert', 'cmp', scen, 'assertion can fail', e.value, e.kind)

def run_hash(lab):
    if lab.poly: return
    if lab.cfg.sc: return run_plain_hash(lab)
    vals = {}
    for xs in states(lab):
        for ident in (A1, A2) if not lab.cfg.empty else (A1,):
            lab.set_rel('same')
            st, x = lab.make(State(), ident, 'x', xs)
            vx = lab.observe(st, x)
            def oracle(lab, c, xs=xs):
                if c.kind == 'throw':
                    if xs == 'valueless': no_throw(c, 'hashing a valueless indirect')
                    strong(c); return
                c.same('x'); c.allocs()
                evs = lab.elem_events(c.st)
                if xs == 'valueless':
                    c.need(not evs, 'events', 'hashing a valueless indirect uses an element'); vals.setdefault('vl', set()).add(c.ex.value)
                    c.need(isinstance(c.ex.value, int), 'result', 'hash of a valueless indirect is not a fixed value')
                else:
                    c.need(lab.ip.resolve(c.st, c.ex.value) == lab.ip.resolve(c.st, sym('hash', ('v', 'x'))), 'result', 'hash is %s, not the hash of the owned object' % showv(c.ex.value))
                    c.need(all(e[0] == 'hash' for e in evs), 'events', 'hashing performs other element operations')
            lab.check_op('hash', 'h_hash', st, [x], xs, oracle, {'x': x}, consts=['x'])
    if len(vals.get('vl', ())) > 1: lab.report('result', 'hash', 'valueless', 'hash of valueless indirects differs: %s' % (vals['vl'],))

# ---------------------------------------------------------------- nested operands
def run_nested(lab):
    """Assignment to a wrapper from a wrapper that lives inside the object it
    owns: giving up the old object destroys the source."""
    if not lab.has('h_rec_move'): return
    ip = lab.ip
    size = lab.const_call('h_rec_sizeof')
    def one(st, fn, args):
        st = st.clone(); st.consts = ()
        return lab.clean(ip.run(st, fn, args), fn)
    def mk(st): return ptr(st.new_region('wrapper', size, 'wrapper'), 0)
    def node(st, ident, role, inner=None):
        w = mk(st); o = lab.ext_elem(st, 'Obj', ('v', role))
        return one(st, 'h_rec_node' if inner else 'h_rec_leaf', [w, ident, o] + ([inner] if inner else [])).state, w
    def drop(st, w): 
        st = one(st, 'h_rec_dtor', [w]).state
        return st
    def look(st, w):
        if one(st, 'h_rec_valueless', [w]).value: v = None
        else:
            p = one(st, 'h_rec_obj', [w]).value
            v = lab.objval(st, p)
        return v, one(st, 'h_rec_alloc', [w]).value
    rels = ['same'] if lab.cfg.empty else ['same', 'equal'] if lab.cfg.ae else ['same', 'equal', 'unequal']
    for rel in rels:
        for inner_kind in ('valued', 'valueless', 'valued with a tail'):
            lab.set_rel(rel)
            inner_id, outer_id = (A1, A1) if rel == 'same' else (A2, A1)
            st = State()
            tail = None
            if inner_kind == 'valued with a tail': st, tail = node(st, inner_id, 'z')
            st, inner = node(st, inner_id, 'y', tail)
            if tail: st = drop(st, tail)
            st, outer = node(st, outer_id, 'x', inner)
            st = drop(st, inner)
            if inner_kind == 'valueless':
                t = mk(st)
                st = one(st, 'h_rec_take', [t, outer]).state
                st = drop(st, t)
            ox, oy = lab.alloc_of(outer_id), lab.alloc_of(inner_id)
            for fn, kind in (('h_rec_move', 'move'), ('h_rec_copy', 'copy'), ('h_rec_copyc', 'copy')):
                op = 'nested_assign_' + kind
                scen = 'source inside the owned object, %s, allocators %s%s' % (inner_kind, rel, ' (const source)' if fn.endswith('c') else '')
                prop = lab.cfg.pocma if kind == 'move' else lab.cfg.pocca
                eq = lab.model.equal_ids(ox, oy)
                lab.by_op[op] = lab.by_op.get(op, 0) + 1
                for e in ip.run(st.clone(), fn, [outer]):
                    lab.exits += 1; lab.obl += 1
                    t = e.state
                    for v in t.viol: lab.report(v[0], op, scen, v[1] + lab.throw_source(t, v[0]), v[2], e.kind)
                    if e.kind == 'assert': lab.report('assert', op, scen, 'assertion at %s:%s can fail' % (e.value.file, e.value.line), e.value, e.kind)
                    if e.kind not in ('ret', 'throw') or any(v[0] in FATAL for v in t.viol): continue
                    loc = lab.last_loc(t)
                    try: val, al = look(t, outer)
                    except SetupError as er:
                        lab.report('observer', op, scen, str(er), er.viols[0][2] if er.viols else loc, e.kind); continue
                    threw = any(x[0] == 'assign-throw' for x in t.trace)
                    if e.kind == 'throw':
                        if (eq or inner_kind == 'valueless') and kind == 'move': lab.report('unexpected-throw', op, scen, 'a move that only transfers ownership throws', loc, e.kind)
                        if not threw and val != ('v', 'x'): lab.report('throw', op, scen, 'after an exception the object is %s' % descr(val), loc, e.kind)
                        if al != ox: lab.report('throw', op, scen, 'after an exception the allocator changed to ' + pid(al), loc, e.kind)
                    else:
                        lab.obl += 3
                        want = None if inner_kind == 'valueless' else ('v', 'y')
                        if val != want: lab.report('own', op, scen, 'wrapper ends up with %s instead of %s' % (descr(val) if val else 'no object', descr(want) if want else 'no object'), loc, e.kind)
                        wal = oy if prop else ox
                        if al != wal: lab.report('alloc', op, scen, 'get_allocator is %s where %s was expected' % (pid(al), pid(wal)), loc, e.kind)
                        if e.value != outer: lab.report('ret', op, scen, 'result does not refer to the assigned-to wrapper', loc, e.kind)
                    ex = ip.run(t.clone(), 'h_rec_dtor', [outer])
                    for f in ex:
                        for v in f.state.viol: lab.report(v[0], op, scen, 'later destruction: ' + v[1], v[2], e.kind)
                        if f.kind == 'ret' and not f.state.viol:
                            for l in lab.heap_leaks(f.state): lab.report('leak', op, scen, l, loc, e.kind)

# ---------------------------------------------------------------- history closure
def run_closure(lab, limit=12):
    """States reached by an operation whose representation no constructor
    produces: check every operation on them too, until no new one appears."""
    done = 0
    while lab.newreps and done < limit:
        st, n, live, how = lab.newreps.pop(0)
        done += 1
        st = st.clone(); st.consts = (); st.trace = (); st.viol = ()
        x = live[n]
        for m, w in live.items():
            if m != n:
                try: st = lab.clean(lab.ip.run(st, 'h_dtor', [w]), 'h_dtor').state
                except SetupError: st = None
                if st is None: break
        if st is None: continue
        # forget blocks that are already gone
        for r in list(st.mem.values()):
            if r.kind == 'heap' and not r.alive: pass
        tag = 'after %s (%s)' % how
        lab.set_rel('same' if lab.cfg.empty else 'unequal')
        try:
            vx = lab.observe(st, x)
            unary_ops(lab, st, x, tag)
            self_ops(lab, st, x, tag)
            ident = vx.alloc if not lab.cfg.empty else A1
            for ys in ('valued', 'valueless'):
                s, y = lab.make(st.clone(), ident, 'y', ys)
                binary_ops(lab, s, x, y, tag + ', y ' + ys, 'same')
                binary_ops(lab, s, y, x, tag + ' as source, x ' + ys, 'same')
            s = st.clone(); t = lab.wrapper(s)
            def mo(lab, c):
                if c.kind == 'throw': return
                if c.pre['y'].valueless: c.valueless('x'); c.valueless('y')
                else: c.owns('x', c.pre['y'].loc, "the source's object"); c.valueless('y')
            lab.check_op('move', 'h_move', s, [t, x], tag, mo, {'y': x}, {'x': t})
            def co(lab, c):
                if c.kind == 'throw': strong(c); return
                c.same('y')
                if c.pre['y'].valueless: c.valueless('x')
                else: c.owns_new('x', c.pre['y'].typ, c.pre['y'].val)
            lab.check_op('copy', 'h_copy', s, [t, x], tag, co, {'y': x}, {'x': t}, consts=['y'])
        except SetupError as e:
            lab.report('observer', 'history', tag, str(e), e.viols[0][2] if e.viols else None, 'ret')
    lab.closure_done = done
    return done

GROUPS = {'ctor': run_value_ctors, 'copy': run_copy_ctors, 'move': run_move_ctors, 'binary': run_binary, 'self': run_self,
          'unary': run_unary, 'assign_val': run_assign_val, 'cmp': run_cmp, 'hash': run_hash, 'nested': run_nested}

def seed_reps(lab):
    """Representations constructors and one move produce."""
    for typ in lab.elems:
        for k in ('valued', 'valueless'):
            lab.set_rel('same')
            try: st, x = lab.make(State(), A1, 'x', k, typ)
            except SetupError: continue
            lab.reps.setdefault(lab.canon(st, x), ('constructor', k))

def run_groups(lab, groups, closure=True):
    seed_reps(lab)
    for g in groups:
        try: GROUPS[g](lab)
        except SetupError as e:
            if e.viols:
                for v in e.viols: lab.report(v[0], 'setup', g, '%s: %s' % (e, v[1]), v[2], 'setup')
            lab.report('setup', 'setup', g, str(e), None, 'setup')
    if closure: run_closure(lab)
