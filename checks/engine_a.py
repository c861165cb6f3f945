"""Properties decided by the ownership/typestate dataflow analysis."""
import collections, os, re, sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(os.path.dirname(HERE), 'engine'))
import runner
from runner import configs, analyse, profiles, plain_profiles, ALL_TRAITS, REPO

MEM = {'uaf', 'double-free', 'bad-free', 'destroy-dead', 'use-dead', 'construct-live', 'free-live', 'null', 'uninit', 'oob', 'raw',
       'unreachable', 'badptr', 'align'}
LEAK = {'leak', 'stack-leak'}
THROW = {'throw', 'throw-val', 'swallow', 'replace-exn'}
ALLOC = {'dealloc-alloc', 'dealloc-mismatch', 'no-construct', 'no-destroy', 'construct-alloc', 'foreign-alloc'}
POST = {'own', 'val', 'type', 'events', 'nalloc', 'temp', 'ret', 'result', 'observer'}

def is_throw_exit(v): return v.exit == 'throw'
def normal(v): return v.exit != 'throw'

def p01(v): return v.aspect in MEM | LEAK
def p02(v): return v.aspect in ALLOC or (v.aspect == 'alloc-id')
def p03(v): return v.aspect in THROW or (v.aspect in {'observer'} and is_throw_exit(v))
def p04(v): return v.aspect == 'terminate' or (v.aspect == 'unexpected-throw' and v.op == 'dtor')
def of(v, *ops): return v.op.split(':')[0] in ops
def judged(v, extra=()): return normal(v) and v.aspect in POST | MEM | set(extra)
def p06(v): return of(v, 'copy', 'copy_alloc', 'assign_copy', 'nested_assign_copy') and (judged(v) or v.aspect in ('const-write', 'unexpected-throw'))
def p07(v): return of(v, 'move', 'move_alloc', 'assign_move', 'nested_assign_move') and (judged(v) or v.aspect == 'unexpected-throw')
def p08(v): return v.aspect in ('alloc', 'alloc-id') and normal(v)
def p09(v): return normal(v) and (('valueless' in v.scen and v.aspect in POST | MEM | {'unexpected-throw', 'assert'}) or (v.aspect in ('own', 'throw') and 'valueless' in v.msg)) and not of(v, 'cmp', 'hash', 'valueless_access')
def p10(v): return of(v, 'self_assign_copy', 'self_assign_move', 'self_swap')
def p11(v): return of(v, 'swap_member', 'swap_free')
def p13(v): return of(v, 'cmp')
def p14(v): return of(v, 'hash')
def p15(v): return of(v, 'ctor') and (judged(v, ('alloc', 'alloc-id')) or v.aspect in ('no-construct',))
def p16(v): return of(v, 'assign_val') and (judged(v, ('alloc', 'alloc-id')))
def p17(v): return v.aspect in ('const-write', 'global-write')
def p25(v): return v.aspect in ('assert', 'valueless-access') or (of(v, 'access') and v.aspect in {'events', 'nalloc', 'const-write'})
def p26(v): return of(v, 'access', 'valueless_after_move') or (v.aspect == 'observer' and normal(v))

IND = ('indirect',); BOTH = ('indirect', 'polymorphic')
ALLG = ['ctor', 'copy', 'move', 'binary', 'self', 'unary', 'assign_val', 'cmp', 'hash', 'nested']
OWNG = ['ctor', 'copy', 'move', 'binary', 'self', 'unary', 'assign_val', 'nested']
# property -> predicate, groups, wrapper kinds, operations that must have been analysed
TABLE = {
 'P01': (p01, ALLG, BOTH, ['dtor', 'move', 'move_alloc', 'copy', 'copy_alloc', 'assign_copy', 'assign_move', 'swap_member', 'swap_free', 'self_assign_move']),
 'P02': (p02, OWNG, BOTH, ['dtor', 'move_alloc', 'copy', 'copy_alloc', 'assign_copy', 'assign_move', 'ctor:default']),
 'P03': (p03, OWNG, BOTH, ['copy', 'copy_alloc', 'move_alloc', 'assign_copy', 'assign_move', 'ctor:default']),
 'P04': (p04, ALLG, BOTH, ['move', 'assign_move', 'swap_member', 'swap_free', 'dtor']),
 'P06': (p06, ['copy', 'binary', 'nested'], BOTH, ['copy', 'copy_alloc', 'assign_copy']),
 'P07': (p07, ['move', 'binary', 'nested'], BOTH, ['move', 'move_alloc', 'assign_move']),
 'P08': (p08, OWNG, BOTH, ['copy', 'copy_alloc', 'move', 'move_alloc', 'assign_copy', 'assign_move', 'swap_member', 'get_allocator', 'ctor:default', 'ctor:alloc']),
 'P09': (p09, OWNG, BOTH, ['copy', 'copy_alloc', 'move', 'move_alloc', 'assign_copy', 'assign_move', 'swap_member', 'swap_free', 'dtor', 'ctor:default']),
 'P10': (p10, ['self'], BOTH, ['self_assign_copy', 'self_assign_move', 'self_swap']),
 'P11': (p11, ['binary'], BOTH, ['swap_member', 'swap_free']),
 'P13': (p13, ['cmp'], IND, ['cmp']),
 'P14': (p14, ['hash'], IND, ['hash']),
 'P15': (p15, ['ctor'], BOTH, ['ctor:default', 'ctor:alloc', 'ctor:ip0', 'ctor:val_rv', 'ctor:alloc_il']),
 'P16': (p16, ['assign_val'], IND, ['assign_val']),
 'P17': (p17, ALLG, BOTH, ['copy', 'access', 'valueless_after_move', 'get_allocator', 'assign_copy']),
 'P25': (p25, OWNG + ['cmp', 'hash'], BOTH, ['valueless_access', 'access', 'move']),
 'P26': (p26, ['unary', 'move', 'binary'], BOTH, ['access', 'valueless_after_move']),
}
# harness function prefixes whose failure to compile belongs to the property
DROP = {'P06': ('h_copy', 'h_assign_copy'), 'P07': ('h_move', 'h_assign_move'), 'P11': ('h_swap',), 'P13': ('h_cmp', 'h_Tw', 'h_Lt'), 'P14': ('h_hash',),
        'P15': ('h_ctor',), 'P16': ('h_assign_val', 'h_assign_arg'), 'P26': ('h_deref', 'h_arrow', 'h_valueless')}

def cfgs_for(pid, tier):
    kinds = TABLE[pid][2]
    if pid == 'P25':
        base = [dict(pocca=0, pocma=0, pocs=0, ae=0), dict(pocca=1, pocma=1, pocs=1, ae=0), dict(pocca=0, pocma=1, pocs=0, ae=1), dict(empty=3)]
        if tier == 'thorough': base = ALL_TRAITS + [dict(empty=3), dict(pocca=0, pocma=0, pocs=0, ae=0, empty=1)]
        base = [dict(p, cons=1 if i % 2 == 0 else 0) if 'empty' not in p else p for i, p in enumerate(base)]
        return configs(tier, kinds, profs=[dict(p, ndebug=0) for p in base]) + configs(tier, kinds, profs=[dict(base[0], ndebug=1)])
    if pid in ('P13', 'P14') and tier == 'quick':
        return configs(tier, kinds, profs=plain_profiles(tier, scs=range(1, 9)) + [dict(pocca=0, pocma=0, pocs=0, ae=0, ndebug=1), dict(pocca=1, pocma=1, pocs=1, ae=0, cons=0, ndebug=0), dict(pocca=0, pocma=1, pocs=0, ae=1, ndebug=1), dict(pocca=0, pocma=0, pocs=0, ae=0, empty=1, ndebug=1), dict(empty=3, ndebug=1), dict(pocca=0, pocma=0, pocs=0, ae=0, nx=2, triv=1, ndebug=0)])
    if pid == 'P15' and tier == 'quick':
        return configs(tier, kinds, profs=[p for i, p in enumerate(profiles(tier)) if i in (0, 3, 6, 9, 12, 15) or i >= 16] + plain_profiles(tier))
    return configs(tier, kinds)

def describe(v):
    lib = v.loc and v.loc.line and not str(v.loc.fn).startswith('h_')
    if lib: loc = '%s:%d in %s' % (v.loc.file, v.loc.line, v.loc.fn)
    else:
        import queries  # the exit as a whole is wrong: name the operation's own definition
        loc = queries.place(v.res, v.op) if getattr(v, 'res', None) else v.cfg.header
    return '%s [%s]: %s; operation %s, entry state: %s, exit: %s; %s' % (loc, v.aspect, v.msg, v.op, v.scen, v.exit, v.cfg.text())

# allocators each further form of a header is analysed with
FORM = [dict(pocca=0, pocma=0, pocs=0, ae=0), dict(pocca=1, pocma=1, pocs=1, ae=0, cons=0), dict(pocca=0, pocma=1, pocs=0, ae=1), dict(empty=3)]

class Finding:
    def __init__(self, key, text, detail): self.key = key; self.text = text; self.detail = detail

def run(pid, tier):
    pred, groups, kinds, need = TABLE[pid]
    cs = cfgs_for(pid, tier)
    import variants
    more, forms = [], []
    form = FORM + [p for p in plain_profiles('quick', scs=range(1, 9) if pid in ('P13', 'P14') else (1, 5))]
    for h, s in sorted({(c.header, c.std) for c in cs}):
        for name, cmd, ir, place, nd in variants.of(h, s):
            forms.append('%s C++%d %s differs at %s:%d%s' % (h, s, name, *place, '' if ir is not None else ' (form not expressible for the IR)'))
            if ir is None: continue
            more += [runner.Config(h, s, way=(name, ir), **dict(p, ndebug=nd)) for p in form if p.get('sc', 5) == 5 or 'polymorphic' not in h]
    for h in sorted({c.header for c in cs}):
        for s in variants.extra_stds(h, sorted({c.std for c in cs if c.header == h})):
            forms.append('%s C++%d' % (h, s))
            more += [runner.Config(h, s, **dict(p, ndebug=nd)) for p in form if p.get('sc', 5) == 5 or 'polymorphic' not in h for nd in sorted({c.ndebug for c in cs})]
    res = analyse(cs + more, groups)
    out, errors, cov = judge(pid, res, pred, need)
    if forms: cov['other_forms_analysed'] = forms
    if pid == 'P17':
        import queries
        f, e, c = queries.TABLE[pid](tier)
        seen = set()
        for r in res:
            for name, file, line in r.get('globals', ()) if not r['error'] else ():
                if (name, line) in seen: continue
                seen.add((name, line))
                f.append(Finding(dict(kind='global', what=name), '%s:%s: %s is mutable state shared by all users' % (os.path.relpath(file, REPO), line, name), r['cfg'].text()))
        cov['declarations_judged'] = c['declarations_judged']; cov['declaration_queries'] = c['declaration_queries']
        out += f; errors += e
    return out, errors, cov

def judge(pid, res, pred, need):
    errors = []; found = []; seen = set()
    for r in res:
        if r['error']: errors.append('%s: %s' % (r['cfg'].text(), r['error'])); continue
        for v in r['viols']:
            setup = v.op == 'setup'
            if setup:
                hit = (pid == 'P01' and v.aspect in MEM | LEAK) or (pid in ('P15',) and 'ctor' in v.msg) or (pid in ('P07', 'P09') and 'move' in v.msg) or (pid == 'P26' and ('accessor' in v.msg or 'observer' in v.msg))
            else: hit = pred(v)
            if not hit: continue
            v.res = r
            found.append(v)
        for h, why in r['dropped']:
            if pid in DROP and h.startswith(DROP[pid]):
                k = ('drop', r['cfg'].header, h)
                if k in seen: continue
                seen.add(k)
                found.append(k + (why, r['cfg']))
    out = []
    uniq = collections.OrderedDict()
    for v in found:
        if isinstance(v, tuple) and v[0] == 'drop':
            uniq[v[:3]] = [Finding(dict(kind='uninstantiable', header=v[1], op=v[2]), 'operation %s of %s cannot be instantiated: %s' % (v[2], v[1], v[3]), v[4].text())]; continue
        k = (v.cfg.header, v.op, v.aspect, v.loc.line if v.loc else 0, v.msg)
        uniq.setdefault(k, []).append(v)
    for k, vs in uniq.items():
        if isinstance(vs[0], Finding): out.append(vs[0]); continue
        v = vs[0]
        out.append(Finding(dict(header=v.cfg.header, op=v.op, aspect=v.aspect, scens=sorted({x.scen for x in vs}), msg=v.msg, pocma=sorted({x.cfg.pocma for x in vs}), ae=sorted({x.cfg.ae for x in vs})), describe(v),
                           '%d entry states/configurations, e.g.\n' % len(vs) + '\n'.join('  ' + describe(x) + ('\n    ' + '\n    '.join(x.loc.chain) if x.loc else '') for x in vs[:4])))
    ok = [r for r in res if not r['error'] and not r.get('skipped')]
    # every operation the property is about must have been analysed in each module
    missing = []
    for r in ok:
        for op in need:
            if op == 'valueless_access' and r['cfg'].ndebug: continue
            if r['cfg'].sc and (op in ('valueless_access', 'ctor:alloc_il') or (op == 'hash' and r['cfg'].sc == 8)): continue
            if not r['by_op'].get(op): missing.append('%s not analysed for %s' % (op, r['cfg'].text()))
    if missing and not out: errors += missing[:5]
    cov = coverage(ok)
    cov['configurations_not_supported'] = sum(1 for r in res if r.get('skipped'))
    return out, errors, cov

def coverage(ok):
    by = collections.Counter(); fns = {}; sites = set(); lines = collections.Counter()
    for r in ok:
        by.update(r['by_op']); fns.update(r['fns']); sites |= r['sites']
    return {
        'configurations': len(ok), 'headers': sorted({r['cfg'].header for r in ok}),
        'library_functions_analysed': len({(f, l) for f, l in fns.values()}), 'instantiations_analysed': len(fns), 'opaque_call_sites': len({(f, l) for f, l, _ in sites}),
        'entry_states': sum(by.values()), 'entry_states_by_operation': dict(sorted(by.items())), 'exits_judged': sum(r['exits'] for r in ok),
        'obligations': sum(r['obl'] for r in ok), 'abstract_states': sum(r['stats']['states'] for r in ok), 'abstract_transitions': sum(r['stats']['insns'] for r in ok),
        'representations': sum(r['reps'] for r in ok), 'extra_representations_closed': sum(r['closure'] for r in ok),
        'samples': [r['cfg'].text() for r in ok[:3]] + sorted('%s:%d' % x for x in {v for r in ok[:1] for v in r['fns'].values()})[:6]}
