"""L01: leverage score dictionaries."""
import numpy as np
import bless_obs as bo

QS = [(1, 1), (2, 1), (4, 1), (1, 2), (8, 1)]


def gram(rng, n, r, hi=3):
    B = rng.randint(-hi, hi + 1, size=(r, n))
    return B.T.dot(B)


def run(c):
    deep = c.thorough
    c.model('MC_BlessModel', 'MC_BlessModelDeep.cfg' if deep else 'MC_BlessModel.cfg')
    rng = np.random.RandomState(c.seed + 77)
    out = []
    want = 2500 if deep else 420
    tried = 0
    while len(out) < want and tried < 60 * want:
        tried += 1
        n = int(rng.choice([1, 2, 3, 3, 3, 4]))
        L = gram(rng, n, int(rng.randint(1, n + 1)), int(rng.choice([1, 2])))
        if rng.rand() < .4:
            L = L + np.diag(rng.randint(0, 3, size=n))
        D = sorted(rng.choice(n, size=rng.randint(1, n + 1), replace=False).tolist())
        pd = int(rng.choice([1, 2, 4]))
        pn = [int(rng.choice([1, pd, max(1, pd - 1), pd, pd + 1])) for _ in D]
        a, b = [(1, 1), (2, 1), (1, 2), (3, 2), (5, 1), (1, 4)][rng.randint(6)]
        qn, qd = QS[rng.randint(len(QS))]
        if not bo.fits(L.tolist(), D, pn, pd, a, b, qn, qd):
            continue
        f, base = bo.reduction(L.tolist(), D, pn, pd, a, b, max(a / b, float(rng.choice([1, 5]))), qn, qd,
                               bool(rng.rand() < .5), c.seed)
        out.append(('reduce/%d' % len(out), f, base))
    k = 0
    for rep in range(6 if deep else 2):
        for n, q in ((4, (3, 1)), (6, (2, 1)), (7, (2, 1)), (3, (4, 1)), (8, (3, 2))):
            L = gram(rng, n, n) + np.eye(n, dtype=int)
            f, base = bo.first('bless', np.diag(L), L, q[0], q[1], 0, c.seed)
            out.append(('first/bless/%d' % k, f, base))
            k += 1
        for n, q, fin in ((1, (3, 1), 2.), (2, (4, 1), .5), (3, (3, 1), 1.), (3, (3, 1), 5.), (2, (6, 1), 1.)):
            L = gram(rng, n, n) + np.eye(n, dtype=int)
            f, base = bo.first('bless', np.diag(L), L, q[0], q[1], 0, c.seed, fin)
            out.append(('first/bless/%d' % k, f, base, 15))
            k += 1
        for n, q, size in ((5, (2, 1), 1), (4, (1, 1), 2), (5, (1, 2), 3), (6, (2, 1), 4), (7, (1, 1), 2)):
            L = gram(rng, n, n) + np.eye(n, dtype=int)
            f, base = bo.first('size', np.diag(L), L, q[0], q[1], size, c.seed)
            out.append(('first/size/%d' % k, f, base))
            k += 1
    for mode in ('vfx', 'alpha'):
        for size in (None, 2):
            for j, (qb, qm, nb) in enumerate([(4., 3., 3), (8., 2., 2), (6., 6., 4)]):
                L = gram(rng, 6, 6) + np.eye(6, dtype=int)
                f, base = bo.wire(mode, size, L, qb, qm, nb, c.seed + j)
                out.append(('wire/%s/%s/%d' % (mode, size, j), f, base))
    c.conform(out, 'MC_Bless', 'MC_Bless.cfg')
    tr = []
    for t in range(400 if deep else 80):
        n = int(rng.randint(6, 11))
        L = gram(rng, n, int(rng.randint(2, n + 1)), int(rng.choice([1, 2, 3]))) + np.eye(n, dtype=int)
        q = [(2, 1), (3, 1), (4, 1)][rng.randint(3)]
        f, base = bo.trace('bless', L, q[0], q[1], int(rng.randint(2, 7)), int(rng.choice([50, 100, 500])), 0, c.seed + t)
        tr.append(('trace/bless/%d' % t, f, base))
        n = int(rng.randint(1, 6))
        M = gram(rng, n, n, 2) + np.eye(n, dtype=int)
        f, base = bo.trace('bless', M, (2, 4, 8)[t % 3], 1, (0, 2, 3, 5)[t % 4], (200, 1000, 3000)[t % 3], 0, c.seed + t)
        if t < (160 if deep else 32):
            tr.append(('trace/few/%d' % t, f, base, 15))
        size = int(rng.randint(1, 6))
        q = [(1, 1), (2, 1), (1, 2)][rng.randint(3)]
        if 2 < np.trace(L) / max(size - 1, size / 2) < 40:
            f, base = bo.trace('size', L, q[0], q[1], int(rng.randint(2, 9)), 0, size, c.seed + t)
            tr.append(('trace/size/%d' % t, f, base))
    c.conform_traces(tr, 'MC_BlessTrace', 'MC_BlessTrace.cfg')
