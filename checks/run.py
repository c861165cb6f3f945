#!/usr/bin/env python3
"""run.py <property>: decide one property from /repo's current source."""
import json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

def load_known():
    """known_findings.json: findings that are recorded instead of repaired."""
    with open(os.path.join(VERIF, 'known_findings.json')) as f: return json.load(f)['findings']

def matches(k, pid, f):
    if k['property'] != pid: return False
    key = f.key
    for a, want in k['match'].items():
        got = key.get(a)
        if a == 'scens':
            if not got or not all(any(s in x for s in want) for x in got): return False
        elif a in ('pocma', 'ae'):
            if got != [want]: return False
        elif a == 'msg':
            if not any(w in (got or '') for w in want): return False
        elif got != want: return False
    return True

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    try:
        import engine_a
        if pid in engine_a.TABLE: res = engine_a.run(pid, tier)
        else:
            import others
            res = others.run(pid, tier)
        findings, errors, cov = res
    except Exception:
        traceback.print_exc()
        findings, errors, cov = [], ['internal error: ' + traceback.format_exc().strip().splitlines()[-1]], {}
    known = load_known()
    new = []; shown = set()
    for f in findings:
        ks = [i for i, k in enumerate(known) if matches(k, pid, f)]
        if ks:
            for i in ks:
                if i not in shown: shown.add(i); print('KNOWN-FINDING: property=%s %s' % (pid, known[i]['what']))
        else: new.append(f)
    import explain
    cov = dict(cov)
    cov['rule'] = explain.RULE.get(pid, '')
    cov['explanation'] = explain.EXPLAIN.get(pid, explain.EXPLAIN['*'])
    cov['known_findings_seen'] = len(shown)
    ev = {'property': pid, 'tier': tier if tier in ('quick', 'thorough') else 'quick', 'seed': seed, 'level': 'other', 'coverage': cov,
          'assumptions': explain.ASSUME, 'wall_s': round(time.time() - t0, 2), 'violations': len(new)}
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as fo: json.dump(ev, fo, indent=1)
    if new:
        rd = os.path.join(VERIF, 'evidence', 'replay'); os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, pid + '.txt')
        with open(path, 'w') as fo:
            fo.write('property %s, %d distinct violation(s)\nreproduce: cd /verif && VERIF_TIER=%s python3 checks/run.py %s\n\n' % (pid, len(new), tier, pid))
            for f in new: fo.write(f.text + '\n' + (f.detail or '') + '\n\n')
        for f in new[:12]: print('  ' + f.text)
        if len(new) > 12: print('  ... %d more in %s' % (len(new) - 12, path))
        print('VIOLATION property=%s replay=%s' % (pid, path))
        return 1
    if errors:
        for e in errors[:6]: print('ANALYSIS ERROR: ' + e)
        return 2
    print('property %s holds on everything analysed (%s)' % (pid, ', '.join('%s=%s' % (k, v) for k, v in cov.items() if isinstance(v, int))))
    return 0

sys.exit(main())
