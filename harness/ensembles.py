"""Moments of the beta-ensemble samplers, by quadrature of every draw or by sampling."""
import itertools
import math
import numpy as np
import vp
import enumrng as E
import dppy.beta_ensembles as be

F = 10**4


def partitions(n, m=None):
    m = n if m is None else m
    if n == 0:
        yield ()
    for k in range(min(n, m), 0, -1):
        for r in partitions(n - k, k):
            yield (k,) + r


def stats_real(deg):
    lams = [l for d in range(1, deg + 1) for l in partitions(d)]

    def f(x):
        x = np.asarray(x, dtype=float)
        p = [None] + [np.sum(x**k) for k in range(1, deg + 1)]
        return np.array([np.prod([p[k] for k in l]) for l in lams])
    return [dict(lam=list(l)) for l in lams], f


CIRC = ('re1', 'im1', 're2', 'im2', 'abs1', 'abs2', 'cross', 'rad1', 'rad2', 'redet', 'imdet')


def stats_circle(_):
    def f(z):
        z = np.asarray(z, dtype=complex)
        p1, p2 = z.sum(), (z**2).sum()
        r = np.abs(z)**2
        d = np.prod(z) if z.size <= 12 or np.all(r < 1.1) else 0j     # else of no use: it overflows
        return np.array([p1.real, p1.imag, p2.real, p2.imag, abs(p1)**2, abs(p2)**2,
                         (p1**2 * p2.conj()).real, r.sum(), (r**2).sum(),
                         d.real, d.imag])
    return [dict(name=n) for n in CIRC], f


def moments(draw, stats, check, n, mc, seed, nodes=0, max_paths=20000):
    """draw(rng) -> points. Fields mom, count, support, outcome, method."""
    keys, f = stats
    flags = dict(count=True, support=True)

    def one(rng):
        with vp.quiet():
            x = np.asarray(draw(rng))
        if x.shape != (n,) and check != 'twice':
            flags['count'] = False
        if check == 'twice' and x.shape != (2 * n,):
            flags['count'] = False
        if not np.all(np.isfinite(x)):
            flags['support'] = False
        if check in ('real', 'pos', 'unit') and np.iscomplexobj(x):
            flags['support'] = False
            x = x.real
        if check == 'pos' and np.any(x < -1e-9):
            flags['support'] = False
        if check == 'unit' and (np.any(x < -1e-9) or np.any(x > 1 + 1e-9)):
            flags['support'] = False
        if check in ('circle', 'twice') and np.any(np.abs(np.abs(x) - 1) > 1e-8):
            flags['support'] = False
        return f(x)

    def quad(m):
        tot, mass, cnt = 0.0, 0.0, 0
        cut = [0.0]
        for p, r in E.paths(one, max_paths=max_paths, nodes=m, cut=cut):
            tot = tot + p * r
            mass += p
            cnt += 1
        if abs(mass - 1) > 1e-9:
            raise E.Unsupported('not a polynomial quadrature')
        return tot, cnt

    def go():
        v = t = None
        method, paths = 'quadrature', 0
        if nodes:
            try:
                v, paths = quad(nodes)
                w, k = quad(nodes + 1)
                paths += k
                if not np.allclose(v, w, rtol=1e-6, atol=1e-7):
                    v = None        # not a polynomial in the draws
                else:
                    t = np.abs(v) * 1e-6
            except (E.Unsupported, E.Budget, E.Diverged):
                v = None
        if v is None:
            method = 'sampled'
            rng = np.random.RandomState(seed)
            r = np.array([one(rng) for _ in range(mc)])
            v, t = r.mean(0), 6.5 * r.std(0) / np.sqrt(mc) + 1e-6
            paths = mc
        v, t = np.nan_to_num(v, nan=1e5, posinf=1e5, neginf=-1e5), np.nan_to_num(t)
        V = [int(round(F * a)) for a in np.clip(v, -2e5, 2e5)]
        T = [int(math.ceil(F * b)) + 1 for b in np.clip(t, 0, 2e5)]
        mom = [dict(k, h=a // F, l=a % F, th=b // F, tl=b % F, v=min(a, 10**9), t=min(b, 10**9))
               for k, a, b in zip(keys, V, T)]
        return dict(mom=mom, method=method, paths=paths, **flags)
    return vp.observe(go, mom=[], count=True, support=True)
