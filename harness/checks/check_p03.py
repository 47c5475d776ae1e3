"""P03: the Poissonized Plancherel measure and its diagrams."""
import itertools
import numpy as np
import vp
import exotic as ex
from exotic import xc, xd


def plancherel(a, q, seed, tail, form):
    def f():
        def one(rng):
            d = xd.PoissonizedPlancherel(theta=form(a / q))
            d.sample(random_state=rng)
            if len(d.list_of_samples) != 1 or len(d.list_of_young_diag) != 1:
                raise AssertionError('one sample and one diagram are recorded')
            return (tuple(ex._int(x) for x in d.list_of_young_diag[-1]),
                    tuple(ex._int(2 * x) for x in d.list_of_samples[-1]))
        o = vp.observe_law(one, canon=lambda s: s, seed=seed, pois_tail=tail, mc=6000)
        o['law'] = [dict(s=list(e['s'][0]), pts=list(e['s'][1]), p=e['p']) for e in o['law']]
        return o
    return f


def large(theta, seed):
    def f():
        def go():
            d = xd.PoissonizedPlancherel(theta=theta)
            d.sample(random_state=seed)
            return dict(part=[ex._int(x) for x in d.list_of_young_diag[-1]],
                        pts=[ex._int(2 * x) for x in d.list_of_samples[-1]])
        return vp.observe(go, part=[], pts=[])
    return f


def partitions(n, m=None):
    m = n if m is None else m
    if n == 0:
        yield ()
    for k in range(min(n, m), 0, -1):
        for r in partitions(n - k, k):
            yield (k,) + r


def lines(p):
    def f():
        def go():
            a = np.array(p, dtype=int)
            r = xc.xy_young_ru(a)
            if not np.array_equal(a, p):
                raise AssertionError('argument modified')
            return dict(pts=[[ex._int(x) for x in row] for row in r])
        return vp.observe(go, pts=[])
    return f


def call(d, op):
    n = len(d.list_of_young_diag)
    d.sample(random_state=op)
    if len(d.list_of_young_diag) != n + 1:
        raise AssertionError('diagram not recorded')


def run(c):
    c.model('MC_RSKModel', 'MC_RSKModel.cfg')
    out = []
    for a, q in ((1, 4), (1, 2), (1, 1), (3, 2)) + (((2, 1),) if c.thorough else ()):
        tail = 2e-4 if a / q <= 1 else 1e-3
        for fn, form in (('float', float),) + ((('int', int),) if q == 1 else ()):
            out.append(('theta%d_%d/%s' % (a, q, fn), plancherel(a, q, c.seed, tail, form),
                        dict(what='plancherel', a=a, q=q), 600))
    for theta in (60, 400, 2500) if c.thorough else (60, 400):
        for s in range(5):
            out.append(('large%d/%d' % (theta, s), large(theta, 100 * c.seed + s),
                        dict(what='bigplancherel', theta=theta)))
    for n in range(1, 11 if c.thorough else 9):
        for p in partitions(n):
            out.append(('diagram/%s' % '.'.join(map(str, p)), lines(p),
                        dict(what='lines', part=list(p))))
    ex.record_cases(out, 'object', lambda: xd.PoissonizedPlancherel(theta=4), call,
                    [0, 1, 2], 3)
    c.conform(out, *ex.CFG)
