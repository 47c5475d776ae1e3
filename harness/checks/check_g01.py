"""G01: figures show the last sample and the law it converges to."""
import itertools
import numpy as np
import figures as fg
from figures import be, xd


def beta_cases(c):
    r2, r8 = np.sqrt(2.0), np.sqrt(8.0)
    first = {'Hermite': ('banded', dict(size_N=5, loc=1.0, scale=3.0)), 'Laguerre': ('banded', dict(size_N=4, shape=3.0)),
             'Jacobi': ('banded', dict(size_N=5, a=2.0, b=1.0)), 'Circular': ('banded', dict(size_N=4)),
             'Ginibre': ('full', dict(size_N=3))}
    calls = [('Hermite', 2, 'banded', dict(size_N=8)), ('Hermite', 2, 'banded', dict(size_N=9, loc=2.0, scale=1.0)),
             ('Hermite', 1, 'banded', dict(size_N=12, loc=-1.5, scale=r8)), ('Hermite', 4, 'full', dict(size_N=6)),
             ('Hermite', 2, 'full', dict(size_N=10)), ('Hermite', 1, 'full', dict(size_N=7)),
             ('Hermite', 0, 'full', dict(size_N=12)), ('Hermite', 0, 'banded', dict(size_N=12, loc=1.0, scale=2.0)),
             ('Laguerre', 2, 'banded', dict(size_N=6, shape=5.0)), ('Laguerre', 1, 'banded', dict(size_N=8, shape=2.0, scale=3.0)),
             ('Laguerre', 4, 'banded', dict(size_N=5, shape=4.0, scale=1.0)), ('Laguerre', 2, 'banded', dict(size_N=7, size_M=12)),
             ('Laguerre', 2, 'full', dict(size_N=6, size_M=11)), ('Laguerre', 1, 'full', dict(size_N=8, size_M=8)),
             ('Laguerre', 4, 'full', dict(size_N=4, size_M=9)),
             ('Laguerre', 0, 'banded', dict(size_N=10, shape=3.0, scale=5.0)), ('Laguerre', 0, 'banded', dict(size_N=9, shape=1.0)),
             ('Jacobi', 2, 'banded', dict(size_N=8, a=4.0, b=2.0)), ('Jacobi', 1, 'banded', dict(size_N=6, a=1.0, b=5.0)),
             ('Jacobi', 2, 'full', dict(size_N=6, size_M1=9, size_M2=16)), ('Jacobi', 4, 'full', dict(size_N=4, size_M1=10, size_M2=5)),
             ('Jacobi', 2, 'banded', dict(size_N=6, size_M1=13, size_M2=8)), ('Jacobi', 1, 'full', dict(size_N=5, size_M1=11, size_M2=6)),
             ('Jacobi', 0, 'banded', dict(size_N=10, a=2.0, b=3.0)), ('Jacobi', 0, 'banded', dict(size_N=10, a=1.0, b=2.0)),
             ('Circular', 2, 'banded', dict(size_N=7)), ('Circular', 2, 'full', dict(size_N=7)),
             ('Circular', 1, 'full', dict(size_N=6, haar_mode='QR')), ('Circular', 4, 'banded', dict(size_N=5)),
             ('Circular', 0, 'banded', dict(size_N=9)), ('Circular', 0, 'full', dict(size_N=9)),
             ('Ginibre', 2, 'full', dict(size_N=9)), ('Ginibre', 2, 'full', dict(size_N=14))]
    out = []
    for j, (cls, b, m, kw) in enumerate(calls):
        for draw in ('plot', 'hist'):
            for norm in (True, False):
                for hist in ((), ('first',), ('first', 'flush')) if c.thorough else ((), ('first',))[:1 + (j + norm) % 2]:
                    pre = []
                    if hist and not (cls == 'Laguerre' and b == 0):
                        pre = [first[cls] if h == 'first' else ('flush', {}) for h in hist]
                    out.append(('%s/%s/b%d/%s%d/%s/%s/%d' % (cls, j, b, m, kw['size_N'], draw, norm, len(hist)),)
                               + fg.beta_case(cls + 'Ensemble', b, pre + [(m, kw)], draw, norm))
    for cls in ('Hermite', 'Laguerre', 'Jacobi', 'Circular', 'Ginibre'):
        for draw in ('plot', 'hist'):
            out.append(('%s/empty/%s' % (cls, draw),) + fg.empty_case(lambda cls=cls: getattr(be, cls + 'Ensemble')(2),
                                                                     lambda d, draw=draw: getattr(d, draw)()))
    return out


def run(c):
    out = beta_cases(c)
    for nm, make, num, den in (('carries4', lambda: xd.CarriesProcess(4), 3, 8), ('carries3', lambda: xd.CarriesProcess(3), 1, 3),
                               ('descent', xd.DescentProcess, 1, 2), ('virtual', lambda: xd.VirtualDescentProcess(.5), 3, 8),
                               ('virtual1', lambda: xd.VirtualDescentProcess(1.0), 0, 1)):
        for vs in (True, False):
            for sizes in ((20,), (30, 12), (5, 40)):
                out.append(('%s/plot/%s/%s' % (nm, vs, sizes[-1]),) + fg.descent_case(make, sizes, vs))
        if num:
            out.append((nm + '/bernoulli',) + fg.bern_case(make, 3 if not c.thorough else 4, num, den))
        out.append((nm + '/empty',) + fg.empty_case(make, lambda d: d.plot()))
    for root in (1, 2, 3, 4) + ((6,) if c.thorough else ()):
        for seeds in ((4,), (5, 1), (2, 3, 7)):
            out.append(('plancherel/%d/%s/plot' % (root, seeds),) + fg.plancherel_case(root, seeds, 'line'))
            for norm in (True, False):
                out.append(('plancherel/%d/%s/diagram/%s' % (root, seeds, norm),) + fg.plancherel_case(root, seeds, 'diagram', norm))
    for nm in ('plot', 'plot_diagram'):
        out.append(('plancherel/empty/' + nm,) + fg.empty_case(xd.PoissonizedPlancherel, lambda d, nm=nm: getattr(d, nm)()))
    seqs = [[('Wilson', 1)], [('GS', 1), ('Wilson', 2)], [('Aldous-Broder', 3), ('Schur', 4)], [('Chol', 5), ('flush', 0), ('KuTa12', 6)]]
    for name in ('house', 'bull', 'c5', 'star4', 'p3', 'k3'):
        for j, s in enumerate(seqs):
            out.append(('ust/%s/%d' % (name, j),) + fg.tree_case(name, s, False))
        out.append(('ust/%s/graph' % name,) + fg.tree_case(name, seqs[1], True))
        out.append(('ust/%s/kernel' % name,) + fg.ust_kernel(name, seqs[1]))
        out.append(('ust/%s/kernel/new' % name,) + fg.ust_kernel(name, []))
    out.append(('ust/empty',) + fg.empty_case(lambda: xd.UST(fg.gr.GRAPHS['house']()), lambda d: d.plot()))
    rs = np.random.RandomState(c.seed)
    for t in range(6 if c.thorough else 3):
        B = rs.randn(3, 4 + t % 2)
        L = B.T.dot(B)
        K = L.dot(np.linalg.inv(np.eye(len(L)) + L))
        w, v = np.linalg.eigh(K)
        P = B.T.dot(np.linalg.solve(B.dot(B.T), B))
        use = [lambda d: d.sample_exact(random_state=1)]
        for rn, kind, params in (('L', 'likelihood', dict(L=L)), ('phi', 'likelihood', dict(L_gram_factor=B)),
                                 ('K', 'correlation', dict(K=K)), ('eig', 'correlation', dict(K_eig_dec=(np.clip(w, 0, 1), v)))):
            for calls in ([], use):
                for arg, want in ((None, K), ('correlation', K), ('likelihood', L), ('', K if kind == 'correlation' else L)):
                    out.append(('finite/%d/%s/%s/%d' % (t, rn, arg, len(calls)),) + fg.finite_kernel(kind, params, calls, arg, want))
        out.append(('finite/%d/zono' % t,) + fg.finite_kernel('correlation', dict(projection=True, A_zono=B), [], None, P))
        out.append(('finite/%d/refused' % t,) + fg.finite_refused('likelihood', dict(L=L), 'other', 'ValueError'))
    half = [(-1, -1), (1, 1), (0, 0), (1, -1), (-1, 1)]
    for n in (2, 5, 8):
        for w in ('', 'BH'):
            for e in half:
                out.append(('ope/%d/%s/%s' % (n, w, e),) + fg.ope_case(n, [e], w, c.seed + n))
        for w in ('', 'BH', 'EZ'):
            for j, e in enumerate(half):
                out.append(('ope2/%d/%s/%s' % (n, w, e),) + fg.ope_case(n, [e, half[(j + n) % 5]], w, c.seed + n))
    for shape in ((1, 9), (6, 5), (20,)):
        out.append(('pot/quadratic/%s' % (shape,),) + fg.pot_case([.5, 0, 0], True, shape))
        out.append(('pot/unknown/%s' % (shape,),) + fg.pot_case([.25, .3, .5, 0, 0], False, shape))
    c.conform(out, 'MC_Figures', 'MC_Figures.cfg')
