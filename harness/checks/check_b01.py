"""B01: Hermite, Laguerre and Jacobi ensembles have their joint law."""
import numpy as np
import vp
import ensembles as en
from ensembles import be

BETAS = {'0': (0, 1), '1': (1, 1), '2': (2, 1), '4': (4, 1), 'half': (1, 2), '7half': (7, 2)}


def case(make, call, check, n, deg, nodes, seed, mc):
    def f():
        def draw(rng):
            d = make()
            r = call(d, rng)
            if len(d.list_of_samples) != 1 or d.list_of_samples[0] is not r and \
                    not np.array_equal(d.list_of_samples[0], r):
                raise AssertionError('the sample is recorded')
            return r
        return en.moments(draw, en.stats_real(deg), check, n, mc, seed, nodes=nodes,
                          max_paths=F_PATHS)
    return f


F_PATHS = 20000


def run(c):
    out = []
    deep = c.thorough
    mc = 120000 if deep else 12000

    def add(name, kind, cls, beta, call, check, n, deg, nodes, size=mc, **par):
        bn, bq = BETAS[beta]
        b = bn if bq == 1 else bn / bq
        out.append(('%s/%s/beta_%s/N%d' % (kind, name, beta, n),
                    case(lambda: cls(beta=b), call, check, n, deg, nodes, c.seed, size),
                    dict(what='real', kind=kind, n=n, deg=deg, bn=bn, bq=bq, **par), 800))

    for beta in BETAS:
        bn, bq = BETAS[beta]
        for n, deg, nodes in ((1, 4, 3), (2, 4, 3), (3, 4, 3), (4, 3, 2)) + (((4, 4, 3), (5, 3, 2)) if deep else ()):
            if n == 4 and beta in ('half', '0') and not deep:
                continue
            # ---- banded
            for nm, mu, sn, sd in (('default', 0, 2, 1), ('std', 0, 1, 1), ('shift', 1, 1, 4)):
                kw = {} if nm == 'default' else dict(loc=float(mu), scale=float(np.sqrt(sn / sd)))
                add('banded-' + nm + str(deg), 'hermite', be.HermiteEnsemble, beta,
                    lambda d, rng, kw=kw, n=n: d.sample_banded_model(size_N=n, random_state=rng, **kw),
                    'real', n, deg, nodes, mu=mu, sn=sn, sd=sd)
            for nm, an, ad, sn, sd in (('default', 1, 1, 2, 1), ('a', 3, 2, 1, 2)):
                kw = {} if nm == 'default' else dict(shape=an / ad, scale=sn / sd)
                add('banded-' + nm + str(deg), 'laguerre', be.LaguerreEnsemble, beta,
                    lambda d, rng, kw=kw, n=n: d.sample_banded_model(size_N=n, random_state=rng, **kw),
                    'pos', n, min(deg, 3 if n < 5 else 2), nodes, an=an, ad=ad, sn=sn, sd=sd)
            for nm, an, cn, ad in (('default', 1, 2, 1), ('a', 1, 5, 2)):
                kw = {} if nm == 'default' else dict(a=an / ad, b=cn / ad)
                add('banded-' + nm + str(deg), 'jacobi', be.JacobiEnsemble, beta,
                    lambda d, rng, kw=kw, n=n: d.sample_banded_model(size_N=n, random_state=rng, **kw),
                    'unit', n, deg, 3 if n == 4 else 4, an=an, cn=cn, ad=ad)
            if bn:
                m = n + 1
                # shape = beta (m - n + 1) / 2 = bn / bq
                add('banded-size_M%d' % deg, 'laguerre', be.LaguerreEnsemble, beta,
                    lambda d, rng, n=n, m=m: d.sample_banded_model(size_N=n, size_M=m, random_state=rng),
                    'pos', n, min(deg, 3 if n < 4 else 2), nodes, an=bn, ad=bq, sn=2, sd=1)
                add('banded-size_M12%d' % deg, 'jacobi', be.JacobiEnsemble, beta,
                    lambda d, rng, n=n: d.sample_banded_model(size_N=n, size_M1=n + 1, size_M2=n, random_state=rng),
                    'unit', n, deg, 3 if n == 4 else 4, an=2 * bn, cn=bn, ad=2 * bq)
    # ---- many points: the first equations, from samples (their moments concentrate)
    for beta in ('1', '2', '4', 'half', '7half'):
        bn, bq = BETAS[beta]
        nb = 400 if deep else 100
        for cls, kind, check, deg, par in (
                (be.HermiteEnsemble, 'hermite', 'real', 2, dict(mu=0, sn=2, sd=1)),
                (be.LaguerreEnsemble, 'laguerre', 'pos', 1, dict(an=1, ad=1, sn=2, sd=1)),
                (be.JacobiEnsemble, 'jacobi', 'unit', 2, dict(an=1, cn=2, ad=1))):
            n = 200 if kind == 'jacobi' and beta in ('1', '2', 'half') else 140
            add('many', kind, cls, beta,
                lambda d, rng, n=n: d.sample_banded_model(size_N=n, random_state=rng),
                check, n, deg, 0, size=nb, **par)
        if beta in ('1', '2', '4'):
            n = 40
            for cls, kind, check, deg, kw, par in (
                    (be.HermiteEnsemble, 'hermite', 'real', 2, {}, dict(mu=0, sn=2, sd=1)),
                    (be.LaguerreEnsemble, 'laguerre', 'pos', 1, dict(size_M=n + 3),
                     dict(an=4 * bn, ad=2, sn=2, sd=1)),
                    (be.JacobiEnsemble, 'jacobi', 'unit', 2, dict(size_M1=n + 3, size_M2=n + 1),
                     dict(an=4 * bn, cn=2 * bn, ad=2))):
                add('many-full', kind, cls, beta,
                    lambda d, rng, n=n, kw=kw: d.sample_full_model(size_N=n, random_state=rng, **kw),
                    check, n, deg, 0, size=nb, **par)
    # ---- full matrix models
    full = {'0': (1, 2, 3), '1': (1, 2, 3), '2': (1, 2), '4': (1, 2)}
    for beta, ns in full.items():
        bn, bq = BETAS[beta]
        for n in ns + ((3,) if deep and 3 not in ns else ()):
            nodes = {('1', 3): 3, ('4', 2): 0, ('2', 3): 0, ('4', 3): 0}.get((beta, n), 3)
            add('full', 'hermite', be.HermiteEnsemble, beta,
                lambda d, rng, n=n: d.sample_full_model(size_N=n, random_state=rng),
                'real', n, 4 if nodes and not (beta == '2' and n == 2) else 3, nodes, mu=0, sn=2, sd=1)
            if not bn:
                continue
            for dm in (0, 1):
                vars_ = n * (n + dm) * bn
                add('full-%d' % dm, 'laguerre', be.LaguerreEnsemble, beta,
                    lambda d, rng, n=n, dm=dm: d.sample_full_model(size_N=n, size_M=n + dm, random_state=rng),
                    'pos', n, 3 if vars_ <= 4 else 2, 4 if vars_ <= 4 else 3 if vars_ <= 6 else 0,
                    an=bn * (dm + 1), ad=2 * bq, sn=2, sd=1)
                add('full-%d' % dm, 'jacobi', be.JacobiEnsemble, beta,
                    lambda d, rng, n=n, dm=dm: d.sample_full_model(
                        size_N=n, size_M1=n + dm, size_M2=n + 1, random_state=rng),
                    'unit', n, 3, 0, an=bn * (dm + 1), cn=2 * bn, ad=2 * bq)
    c.conform(out, 'MC_Beta', 'MC_Beta.cfg', limit=800, overall=840)
