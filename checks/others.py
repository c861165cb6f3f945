"""Properties decided by type-level witnesses and source queries."""
import witness, engine_a

def run(pid, tier):
    f, e, c = [], [], {}
    if pid in witness.FILES: f, e, c = witness.run(pid, tier)
    import queries
    q = queries.TABLE.get(pid)
    if pid in ('P31', 'P32'):
        import rejects
        q = lambda t: rejects.run(pid, t)
    if pid == 'P34':
        import package
        q = package.run
    if q:
        f2, e2, c2 = q(tier)
        f = f + f2; e = e + e2
        for k, v in c2.items(): c[k] = c[k] + v if k in c and isinstance(v, (int, list)) else v
    if not c: raise RuntimeError('no check for ' + pid)
    return f, e, c
