"""Observations on beta-ensembles with a polynomial potential and on limiting densities."""
import numpy as np
from scipy import special, stats
from scipy.stats import qmc
import vp
import dppy.beta_ensemble_polynomial_potential as bp
import dppy.beta_ensemble_polynomial_potential_core as core
import dppy.random_matrices as rm

BIG = 2**30


def whole(x, tol=1e-6):
    """Nearest integers, an absurd one where x is not close to an integer."""
    x = np.asarray(x, dtype=float)
    r = np.rint(x)
    bad = ~(np.abs(x - r) <= tol * np.maximum(1, np.abs(x)))
    return np.where(bad, BIG, np.clip(np.nan_to_num(r, nan=BIG), -BIG, BIG)).astype(int).tolist()


def scaled(x, s):
    return np.clip(np.rint(np.nan_to_num(np.asarray(x, dtype=float) * s, nan=BIG)), -BIG, BIG).astype(int).tolist()


def pol(V, const=0):
    """V[0] x + V[1] x^2 + ... as a poly1d."""
    return np.poly1d(list(V[::-1]) + [const])


class Source(np.random.RandomState):
    """Every draw is the image of the next uniform number of `feed`."""
    def __new__(cls, feed):
        return super().__new__(cls)

    def __init__(self, feed):
        super().__init__(0)
        self.feed = feed

    def _u(self, size):
        if size is None:
            return self.feed()
        n = int(np.prod(size))
        return np.array([self.feed() for _ in range(n)]).reshape(size)

    def random_sample(self, size=None):
        return self._u(size)

    random = random_sample

    def rand(self, *dims):
        return self._u(dims or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self._u(size)

    def standard_normal(self, size=None):
        return special.ndtri(self._u(size))

    def randn(self, *dims):
        return self.standard_normal(dims or None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)

    def standard_gamma(self, shape, size=None):
        if not np.all(np.asarray(shape) > 0):
            raise ValueError('shape < 0')
        return special.gammaincinv(shape, self._u(size))

    def gamma(self, shape, scale=1.0, size=None):
        if not np.all(np.asarray(scale) >= 0):
            raise ValueError('scale < 0')
        return scale * self.standard_gamma(shape, size)

    def chisquare(self, df, size=None):
        return 2 * self.standard_gamma(0.5 * df, size)

    def standard_exponential(self, size=None):
        return -np.log1p(-self._u(size))

    def exponential(self, scale=1.0, size=None):
        return scale * self.standard_exponential(size)


def stream(n, seed, dims=9):
    """n low-discrepancy uniform sequences, each continued by pseudo-random numbers."""
    pts = qmc.Sobol(dims, scramble=True, seed=seed).random(n)
    tail = np.random.RandomState(seed)
    state = dict(row=0, pos=0)

    def feed():
        state['pos'] += 1
        if state['pos'] <= dims:
            return float(pts[state['row'], state['pos'] - 1])
        return float(tail.rand())

    def nxt(i):
        state['row'], state['pos'] = i, 0
    return feed, nxt


# ---------------------------------------------------------------- conditionals
def cond(which, i, a, b, V):
    """The code's conditional energy of a_i or b_i; padding as in the sampler."""
    def f():
        N = len(a)
        A, B = np.zeros((2, N + 3))
        A[1:N + 1], B[1:N] = a, b
        fn = (core.polynomial_in_negative_log_conditional_a_coef if which == 'a'
              else core.polynomial_in_negative_log_conditional_b_coef)
        return vp.observe(lambda: dict(P=whole(fn(i, A, B, pol(V)).coef[::-1])), P=[])
    return f, dict(what='cond', which=which, i=i, a=list(a), b=list(b), V=list(V))


def sample(P, q, s2, seed, n=8192):
    """Low-discrepancy moments of the draws from exp(-P) or x^(s2/2 - 1) exp(-P)."""
    line = s2 is None
    d = len(P)

    def f():
        poly = np.poly1d((np.array(list(P[::-1]) + [0.0])) / q)
        feed, nxt = stream(n, seed)
        rng = Source(feed)

        def go():
            X = np.empty(n)
            for j in range(n):
                nxt(j)
                x = core.sampler_exact_convex_quartic(poly, random_state=rng) if line else \
                    core.sampler_exact_convex_quartic(poly, shape=s2 / 2, random_state=rng)
                X[j] = float(np.ravel(x[0])[0])
            K = 3
            top = K + d - 1
            mom = [np.mean(X**j) for j in range(top + 1)]
            dP = poly.deriv()
            tol = []
            for k in range(K + 1):
                with np.errstate(all='ignore'):
                    g = ((k if line else s2 / 2 - 1 + k) * (X**(k - 1) if k or not line else 0.0) - dP(X) * X**k)
                g = g if line or k else 0 * X
                tol.append(2 * q * (3.5 * np.std(g) / np.sqrt(n) + 2e-4 * (1 + sum(abs(np.array(P))) / q)))
            return dict(mom=scaled(mom, 10**4), tol=scaled(tol, 10**4),
                        support=bool(np.all(np.isfinite(X)) and (line or np.all(X > 0))))
        return vp.observe(go, mom=[], tol=[], support=False)
    return f, dict(what='sample', P=[0] + list(P), q=q, sn=s2 or 0, line=line)


class Script(Source):
    """Normal draws from a list, uniform draws from another."""
    def __new__(cls, z, u):
        return super().__new__(cls, None)

    def __init__(self, z, u):
        super().__init__(None)
        self.z, self.us = list(z), list(u)
        self.feed = lambda: self.us.pop(0)

    def standard_normal(self, size=None):
        if size is None:
            return self.z.pop(0)
        n = int(np.prod(size))
        return np.array([self.z.pop(0) for _ in range(n)]).reshape(size)


def balance(V, x, y, sigma):
    """One Metropolis step between x/10 and y/10."""
    def f():
        poly = pol(V)

        def step(x0, z, u, nb=1):
            z, u = np.atleast_1d(z), np.atleast_1d(u)
            return float(core.sampler_mala(x0, poly, sigma=sigma, nb_steps=nb, random_state=Script(z, u)))

        def leg(x0, y0):
            yz = lambda z: step(x0, z, 1e-300)              # noqa: E731   always accepted
            slope = yz(1.0) - yz(0.0)
            z = (y0 - yz(0.0)) / slope
            z += (y0 - yz(z)) / slope
            lo, hi = -700.0, 0.0                              # accepted at exp(lo)
            if step(x0, z, 1.0 - 1e-16) != x0:
                lo = 0.0
            for _ in range(64):
                mid = (lo + hi) / 2
                if step(x0, z, np.exp(mid)) != x0:
                    lo = mid
                else:
                    hi = mid
            return z, lo, np.log(abs(slope))

        def go():
            x0, y0 = x / 10, y / 10
            out = {}
            zs = {}
            for nm, s, t in (('xy', x0, y0), ('yx', y0, x0)):
                z, la, ls = leg(s, t)
                zs[nm] = z
                out[nm] = dict(la=scaled(la, 10**6), ls=scaled(ls, 10**6), hz=scaled(z * z / 2, 10**6))
            y1 = step(x0, .3, .4)
            y2 = step(y1, -.7, .9)
            y3 = step(y2, 1.1, .2)
            out['composed'] = bool(step(x0, [.3, -.7, 1.1], [.4, .9, .2], 3) == y3)
            return out
        return vp.observe(go, xy={}, yx={}, composed=False)
    return f, dict(what='balance', V=list(V), x=x, y=y, tol=60)


def refuse(V, const=0, bn=2, bq=1, exact='no'):
    def f():
        def go():
            e = bp.BetaEnsemblePolynomialPotential(bn / bq, pol(V, const))
            if exact != 'no':
                e.sample_mcmc(N=2, nb_gibbs_passes=1, sample_exact_cond=True, random_state=1)
        return vp.observe(go)
    return f, dict(what='refuse', V=list(V), bn=bn, exact=exact)


# ---------------------------------------------------------------- whole runs
def run(V, N, bn, bq, passes, exact, seed, const=0, steps=3):
    XS = [-3, -2, -1, 1, 2, 3, 4]
    deg = 4

    def go(**kw):
        """One run with integer draws in place of the conditional ones."""
        calls = []
        rnd = np.random.RandomState(seed)

        def values(P):
            return whole([2 * bq * (P(x) - P(0.0)) for x in XS])

        def stub_exact(P, shape=None, random_state=None, *a, **k):
            v = int(rnd.randint(-2, 3)) if shape is None else int(rnd.randint(0, 4))
            calls.append(dict(kind='a' if shape is None else 'b', P=values(P), start='none', x0=0, value=v,
                              shape=0 if shape is None else whole(2 * bq * shape)))
            return float(v), 0

        def stub_mala(x, V=None, *a, **k):
            v = int(rnd.randint(-2, 3))
            calls.append(dict(kind='a', P=values(V), start='given', x0=whole(x), value=v, shape=0))
            return float(v)

        e = bp.BetaEnsemblePolynomialPotential(bn / bq, pol(V, const))
        keep = {n: getattr(bp, n) for n in ('sampler_exact_convex_quartic', 'sampler_mala') if hasattr(bp, n)}
        if len(keep) < 2:
            return [], None
        try:
            bp.sampler_exact_convex_quartic, bp.sampler_mala = stub_exact, stub_mala
            out = e.sample_mcmc(N=N, nb_gibbs_passes=passes, sample_exact_cond=exact, nb_mala_steps=steps,
                                random_state=1, **kw)
        finally:
            for n, v in keep.items():
                setattr(bp, n, v)
        return calls, out

    def f():
        def all_runs():
            calls, last = go()
            if not calls:
                return dict(calls=[], seen=False, last=[], chain=[], maxima=True)
            _, chain = go(return_chain_of_eig_vals=True)
            _, top = go(return_chain_of_lambda_max=True)
            ps = lambda e: whole([np.sum(np.asarray(e)**k) for k in range(1, deg + 1)], 1e-6)   # noqa: E731
            chain = np.asarray(chain)
            return dict(calls=calls, seen=True, last=ps(last), chain=[ps(chain[:, p]) for p in range(chain.shape[1])],
                        maxima=bool(np.shape(top) == (passes,) and np.allclose(top, chain.max(axis=0))))
        r = vp.observe(all_runs, calls=[], seen=False, last=[], chain=[], maxima=False)
        return r
    return f, dict(V=list(V), N=N, bn=bn, bq=bq, passes=passes, exact=exact, xs=XS, deg=deg)


# ---------------------------------------------------------------- densities
def moments(dens, lo, hi, top, n=200001):
    """int x^j dens(x) dx on [lo, hi], which contains the support: midpoint rule in an angle, dense
    near both ends."""
    t = (np.arange(n) + 0.5) / n * np.pi
    x = lo + (hi - lo) * (1 - np.cos(t)) / 2
    w = (hi - lo) / 2 * np.sin(t) * np.pi / n
    with np.errstate(all='ignore'):
        d = np.asarray(dens(x), dtype=float)
    return [float(np.sum(w * d * x**j)) for j in range(top + 1)], x, d, w


def density(law, get, lo, hi, top, supp=None, **fields):
    """get() -> (density function, support or None)."""
    def f():
        def go():
            dens, s = get()
            m, x, d, w = moments(dens, lo, hi, top)
            s = supp if s is None else s
            a, b = (lo, hi) if s is None else s
            eps = 1e-3 * (b - a)
            out = np.sum((w * np.abs(d))[(x < a - 1e-9) | (x > b + 1e-9)])
            ok = out < 1e-6 and a >= lo - 1e-9 and b <= hi + 1e-9
            if s is not None:                    # the support is no larger than needed
                ok = ok and np.sum((w * d)[x < a + 20 * eps]) > 0 and np.sum((w * d)[x > b - 20 * eps]) > 0
            return dict(mom=scaled(m, 1000), negative=bool(np.any(d < 0)), support=bool(ok))
        return vp.observe(go, mom=[], negative=False, support=False)
    return f, dict(what='density', law=law, **fields)


def cdf(get_dens, get_cdf, lo, hi, n=24):
    def f():
        def go():
            dens, s = get_dens()
            F, t = get_cdf()
            xs = np.linspace(lo, hi, n + 1)
            mid = []
            for a, b in zip(xs[:-1], xs[1:]):
                mid.append(moments(dens, a, b, 0, 20001)[0][0])
            arg = xs[1:].copy()
            r = F(arg)
            return dict(mid=scaled(mid, 10**6), cdf=scaled(r, 10**6), supp=scaled(s, 10**6), supp2=scaled(t, 10**6))
        return vp.observe(go, mid=[], cdf=[], supp=[], supp2=[])
    return f, dict(what='cdf')


def edge(V):
    """Soft edge scale of the largest eigenvalue against the density there."""
    def f():
        def go():
            e = bp.BetaEnsemblePolynomialPotential(2, pol(V))
            b = e.support[1]
            ns, n2 = [1, 8, 27], []
            for N in ns:
                e.N = N
                n2.append(e.rescale_largest_eig_val(b + 1.0) - e.rescale_largest_eig_val(b))
            c = n2[0]
            h = 1e-5 * b
            mu = float(e.equilibrium_density(np.array([b - h]))[0])
            return dict(edge=scaled((np.pi * mu)**2 / h, 10**4), c3=scaled(c**3, 10**4), ns=ns, cube=[1, 2, 3],
                        n2=scaled([x / c if c else y * y for x, y in zip(n2, (1, 2, 3))], 10**4),
                        atb=scaled(e.rescale_largest_eig_val(b), 10**6))
        return vp.observe(go, edge=0, c3=0, ns=[], cube=[], n2=[], atb=0)
    return f, dict(what='edge')


def tracy_widom(order):
    """Mean, variance and shape of the largest eigenvalue's limiting law from its distribution function."""
    def f():
        def go():
            tw = core.TracyWidom()
            x = np.linspace(-8, 6, 281)
            F = tw.cdf(x, quad_order=order) if order else tw.cdf(x)
            h = x[1] - x[0]
            w = np.full(len(x), h)
            w[0] = w[-1] = h / 2
            # E (X - 6)^k  by parts
            m1 = 6 - np.sum(w * F)
            m2 = 2 * np.sum(w * (m1 - x) * F) + (6 - m1)**2
            one = [float(np.ravel(tw.cdf(v, order or 50))[0]) for v in x[60:200:20]]
            same = True
            for other in ((order or 50) + 7, 3, 9, 20, 130):
                for first in (tw, core.TracyWidom()):
                    first.cdf(x[:3], quad_order=other)
                    back = first.cdf(x, quad_order=order or 50)
                    same = same and bool(np.allclose(back, F, atol=1e-12))
            return dict(mean=scaled(m1, 10**4), var=scaled(m2, 10**4), low=scaled(F[0], 10**4), top=scaled(F[-1], 10**4),
                        monotone=bool(np.all(np.diff(F) > -1e-9)), same=bool(same and np.allclose(one, F[60:200:20], atol=1e-12)))
        return vp.observe(go, mean=0, var=0, low=0, top=0, monotone=False, same=False)
    return f, dict(what='tracy')
