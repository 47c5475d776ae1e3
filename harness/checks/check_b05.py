"""B05: the Gibbs sampler of beta-ensembles with a polynomial potential."""
import itertools
import numpy as np
import potentials as po


def run(c):
    deep = c.thorough
    rng = np.random.RandomState(c.seed + 5)
    c.model('MC_Gibbs', 'MC_GibbsModel.cfg')
    if deep:
        c.model('MC_Gibbs', 'MC_GibbsLocal.cfg')
    out, traces = [], []

    def add(name, fb, limit=None):
        out.append((name,) + fb + ((limit,) if limit else ()))
    # conditional energies, one monomial at a time and mixed
    for m in range(1, 7):
        for which in 'ab':
            for t in range(24 if deep else 8):
                N = int(rng.randint(2, 6))
                a, b = rng.randint(-2, 3, size=N).tolist(), rng.randint(0, 4, size=N - 1).tolist()
                i = int(rng.randint(1, N + (which == 'a')))
                V = [0] * m
                V[m - 1] = 1
                if t % 4 == 3:
                    V = rng.randint(-2, 3, size=m).tolist()
                    V[-1] = V[-1] or 1
                add('cond/%s/deg%d/%d' % (which, m, t), po.cond(which, i, a, b, V))
    # exact draws on the line: convex quartics and quadratics with a linear term
    line = [((0, 1), 1), ((3, 1), 2), ((0, 0, 0, 1), 1), ((-2, 0, 0, 1), 1), ((5, 2, 0, 1), 2), ((1, 3, 0, 1), 4),
            ((-4, 1, 0, 0), 1), ((0, 6, 0, 1), 1)]
    half = [((1,), 1), ((3,), 1), ((2, 1), 1), ((-3, 2), 1), ((0, 1), 1), ((-1, 1), 1), ((2, 0, 1), 1), ((1, 1, 1), 1),
            ((-2, 1, 1), 1), ((-1, 2, 1), 2), ((0, 0, 1), 1), ((6, 1), 4), ((2, -2, 1), 1)]
    n = 2**15 if deep else 2**12
    for j, (P, q) in enumerate(line):
        P = tuple(np.trim_zeros(P, 'b'))
        add('draw/line/%d' % j, po.sample(P, q, None, c.seed + j, n), 300)
    for j, (P, q) in enumerate(half):
        for s2 in (1, 2, 3, 4, 8) if deep else ((1, 2, 3) if j % 2 else (1, 2, 8)):
            add('draw/half/%d/%d' % (j, s2), po.sample(P, q, s2, c.seed + j, n), 300)
    # Metropolis steps
    pots = [(0, 1), (1, 0, 0, 1), (0, -3, 0, 2), (1, -1, 2, 1), (0, 0, 0, 0, 0, 1), (2, 1, -1, 0, 0, 1)]
    for j, V in enumerate(pots):
        for x, y in ((0, 3), (5, -4), (9, 7), (-8, 6)) + (((1, 2), (-9, -7), (7, 0)) if deep else ()):
            for sg in (.5, .9 if len(V) < 6 else .3) + ((.2,) if deep else ()):
                add('mala/%d/%d_%d/%s' % (j, x, y, sg), po.balance(V, x, y, sg))
    # refusals
    for j, V in enumerate([(0, 1), (1, 2), (0, 0, 0, 1), (1, -1, 2, 1), (0, -1, 0, 1), (0, 1, 0, -1), (0, -1),
                           (0, 0, 1), (1,), (0, 0, 0, 0, 1), (0, 0, 0, 0, 1, 1), (0, 0, 0, 0, 0, 1), (0, 0, 0, 0, 0, -1),
                           (0, 0, 0, 0, 0, 0, 1), (0, 1, 0, 0, 0, 0, 0, 1), (0, 0, 0, -2, 0, 1), (0, 2, 1, 1),
                           (0, 0, 0, 0, 0, 0, 0, 0, 0, 1)]):
        for const in (0, 3):
            for ex in ('no', 'yes'):
                add('refuse/%d/%d/%s' % (j, const, ex), po.refuse(V, const, exact=ex))
    for bn, bq in ((0, 1), (-1, 1), (-1, 2), (1, 2), (7, 1)):
        add('refuse/beta%d_%d' % (bn, bq), po.refuse((0, 1), 0, bn, bq))
    # whole runs
    pots = [(0, 1), (1, 2), (0, 0, 0, 1), (1, 1, 0, 2), (-1, 1, 3, 1), (0, 0, 0, 0, 0, 1), (1, 2, -1, 0, 0, 1),
            (0, 1, 0, 1, 0, 2)]
    for j, V in enumerate(pots):
        ex_ok = V in ((0, 1), (1, 2), (0, 0, 0, 1), (1, 1, 0, 2))
        for N, (bn, bq), p, ex in itertools.product((1, 2, 3, 4), ((2, 1), (1, 1), (1, 2), (5, 1)), (1, 3), (False, True)):
            if (ex and not ex_ok) or (not deep and (j + N + bn + p) % 3):
                continue
            traces.append(('run/%d/N%d/b%d_%d/p%d/%s' % (j, N, bn, bq, p, ex),)
                          + po.run(V, N, bn, bq, p, ex, c.seed + N, const=2 * (p == 3)))
    c.conform(out, 'MC_Potential', 'MC_Potential.cfg')
    c.conform_traces(traces, 'MC_GibbsTrace', 'MC_GibbsTrace.cfg')
