"""Uses that must be rejected: each case of witness/p31.cc and p32.cc is type checked
twice, once where the element supports the operation (must be accepted) and
once where it does not (must be rejected)."""
import os, re
from concurrent.futures import ThreadPoolExecutor
import witness
from engine_a import Finding

FILES = {'P31': 'p31.cc', 'P32': 'p32.cc'}

WHY = {'P31': 'the element or allocator does not support it', 'P32': 'the specification prohibits it'}

def cases(FILE):
    """(number, text of the header names it is for, text)"""
    return [(int(n), {'!VP_POLY': 'indirect', 'VP_POLY': 'polymorphic'}.get(k, '') + ('.h' if m else ''), t.strip()) for n, k, m, t in re.findall(r'^#(?:el)?if VP_CASE == (\d+)(?: && (!?VP_POLY))?(?: && (VP_MODERN))?[ ]*(?://\s*(.*))?$', open(os.path.join(witness.WIT, FILE)).read(), re.M)]

def run(pid, tier):
    FILE = FILES[pid]
    builds = witness.BUILDS['thorough' if tier == 'thorough' else 'quick']
    import variants
    builds = builds + [(h, s) for h in sorted({b[0] for b in builds}) for s in variants.extra_stds(h, [b[1] for b in builds if b[0] == h])]
    cs = cases(FILE); last = ''
    text = {}
    for n, k, t in cs:
        if not t or t.startswith('the same'): t = last + ' (%s)' % t if t else last
        else: last = t
        text[n] = t
    jobs = [(h, s, c, n, ok) for h, s in builds for c in witness.COMPILERS if witness.supports(c, s) for n, k, _ in cs if k in h for ok in (1, 0)]
    def go(j):
        h, s, c, n, ok = j
        return witness.compile_tu(c, s, h, FILE, ['-DVP_CASE=%d' % n] + (['-DVP_OK'] if ok else []))
    with ThreadPoolExecutor(8) as ex: res = dict(zip(jobs, ex.map(go, jobs)))
    found = {}; n_ok = n_rej = 0; twins = []; errors = []; samples = []
    for (h, s, c, n, ok), p in res.items():
        if not ok: continue
        bad = res[(h, s, c, n, 0)]
        if p.returncode:
            twins.append('%s C++%d %s case %d' % (h, s, c, n)); continue
        n_ok += 1
        if bad.returncode < 0: errors.append('compiler crash in case %d' % n); continue
        if bad.returncode:
            n_rej += 1
            samples.append('%s C++%d %s: %s' % (h, s, c, text[n])); continue
        found.setdefault((h, n), Finding(dict(kind='accepted', header=h, case=n), '%s (C++%d, %s): accepted although %s: %s' % (h, s, c, WHY[pid], text[n]), FILE + ' case %d' % n))
    if n_ok < 8 * len(cs) * (1 if pid == 'P32' else 0) + (200 if pid == 'P31' else 0) and not found: errors.append('only %d cases have a supported twin that type checks, e.g. not: %s' % (n_ok, twins[:3]))
    return list(found.values()), errors, {'cases': len(cs), 'supported_twins_accepted': n_ok, 'unsupported_uses_rejected': n_rej, 'twins_not_accepted': twins[:5], 'compilers': list(witness.COMPILERS), 'samples': samples[::29][:12]}
