"""B02: circular and Ginibre ensembles have their joint law."""
import numpy as np
import vp
import ensembles as en
from ensembles import be


def run(c):
    out = []
    mc = 200000 if c.thorough else 16000

    def add(name, kind, make, call, check, n, bn, mc=mc):
        def f():
            def draw(rng):
                d = make()
                r = call(d, rng)
                if len(d.list_of_samples) != 1 or not np.array_equal(d.list_of_samples[0], r):
                    raise AssertionError('the sample is recorded')
                return r
            return en.moments(draw, en.stats_circle(0), check, n, mc, c.seed)
        out.append(('%s/beta%d/N%d' % (name, bn, n), f, dict(what='circle', kind=kind, n=n, bn=bn), 800))

    for n in (1, 2, 3, 4, 5, 6) + ((7, 8) if c.thorough else ()):
        for beta in (0, 1, 2, 3, 4, 7) if n < 5 or c.thorough else (1, 2, 4):
            add('circular-banded', 'cbe', lambda beta=beta: be.CircularEnsemble(beta=beta),
                lambda d, rng, n=n: d.sample_banded_model(size_N=n, random_state=rng), 'circle', n, beta)
        add('circular-iid', 'cbe', lambda: be.CircularEnsemble(beta=0),
            lambda d, rng, n=n: d.sample_full_model(size_N=n, random_state=rng), 'circle', n, 0)
        for mode in ('QR', 'Hermite', None):
            kw = {} if mode is None else dict(haar_mode=mode)
            for beta, kind in ((1, 'orthogonal'), (2, 'unitary'), (4, 'symplectic')):
                if (mode, beta) == ('QR', 4) or (mode is None and n > 2):
                    continue
                add('circular-full-%s' % mode, kind, lambda beta=beta: be.CircularEnsemble(beta=beta),
                    lambda d, rng, n=n, kw=kw: d.sample_full_model(size_N=n, random_state=rng, **kw),
                    'twice' if beta == 4 else 'circle', n, beta)
        add('ginibre', 'ginibre', be.GinibreEnsemble,
            lambda d, rng, n=n: d.sample_full_model(size_N=n, random_state=rng), 'plane', n, 2)
    # many points
    nb = 1200 if c.thorough else 300
    for beta in (1, 2, 4):
        add('circular-banded', 'cbe', lambda beta=beta: be.CircularEnsemble(beta=beta),
            lambda d, rng: d.sample_banded_model(size_N=140, random_state=rng), 'circle', 140, beta, mc=nb)
        for mode in ('QR', 'Hermite'):
            if (mode, beta) != ('QR', 4):
                add('circular-full-%s' % mode, ('orthogonal', 'unitary', 'symplectic')[beta // 2],
                    lambda beta=beta: be.CircularEnsemble(beta=beta),
                    lambda d, rng, mode=mode: d.sample_full_model(size_N=30, haar_mode=mode, random_state=rng),
                    'twice' if beta == 4 else 'circle', 30, beta, mc=nb)
    add('ginibre', 'ginibre', be.GinibreEnsemble,
        lambda d, rng: d.sample_full_model(size_N=60, random_state=rng), 'plane', 60, 2, mc=nb)
    c.conform(out, 'MC_Beta', 'MC_Beta.cfg', limit=800, overall=840)
