"""Zonotope sampler: a stand-in for cvxopt on top of scipy's linear programming, scripted draws,
one-step laws of the tile."""
import sys
import types
import numpy as np
from scipy.optimize import linprog
import vp


class Limit(Exception):
    """The code used something of cvxopt that the stand-in does not have."""


class matrix(object):
    """Dense two-dimensional matrix with the semantics of cvxopt.matrix (column-major)."""
    __array_priority__ = 100

    def __init__(self, x=0.0, size=None, tc=None):
        if isinstance(x, matrix):
            a = x.a.copy()
        elif np.isscalar(x):
            a = np.full(size or (1, 1), float(x))
        elif isinstance(x, (list, tuple)) and x and isinstance(x[0], (list, tuple)):
            a = np.array(x, dtype=float).T           # a list of columns
        else:
            a = np.array(x, dtype=float)
            a = a.reshape(-1, 1) if a.ndim < 2 else a
        if size is not None and a.shape != tuple(size):
            a = a.reshape(size, order='F')
        self.a = a

    def __getattr__(self, nm):
        if nm.startswith('__'):
            raise AttributeError(nm)
        raise Limit(nm)

    @property
    def size(self):
        return self.a.shape

    @property
    def T(self):
        return matrix(self.a.T)

    def trans(self):
        return self.T

    def __array__(self, dtype=None, copy=None):
        return np.array(self.a, dtype=dtype)

    def __len__(self):
        return self.a.size

    def __iter__(self):
        return iter(self.a.ravel(order='F').tolist())

    def _key(self, k):
        if isinstance(k, tuple):
            return tuple([i] if isinstance(i, (int, np.integer)) else i for i in k)
        return None

    def __getitem__(self, k):
        if isinstance(k, tuple):
            if all(isinstance(i, (int, np.integer)) for i in k):
                return float(self.a[k])
            return matrix(self.a[np.ix_(*[np.atleast_1d(np.arange(n)[i]) for i, n in zip(k, self.a.shape)])])
        f = self.a.ravel(order='F')[k]
        return float(f) if np.isscalar(f) else matrix(f)

    def __setitem__(self, k, v):
        if isinstance(v, matrix):
            v = v.a
        if isinstance(k, tuple):
            ix = np.ix_(*[np.atleast_1d(np.arange(n)[i]) for i, n in zip(k, self.a.shape)])
            self.a[ix] = np.asarray(v, dtype=float) if np.ndim(v) != 1 else np.reshape(v, self.a[ix].shape, order='F')
        else:
            f = self.a.ravel(order='F').copy()
            f[k] = np.ravel(v, order='F') if np.ndim(v) else v
            self.a = f.reshape(self.a.shape, order='F')

    @staticmethod
    def _val(o):
        if isinstance(o, matrix):
            return o.a
        return np.asarray(o, dtype=float)

    def __neg__(self):
        return matrix(-self.a)

    def __pos__(self):
        return matrix(self.a)

    def __add__(self, o):
        return matrix(self.a + self._val(o))

    __radd__ = __add__

    def __sub__(self, o):
        return matrix(self.a - self._val(o))

    def __rsub__(self, o):
        return matrix(self._val(o) - self.a)

    def __mul__(self, o):
        v = self._val(o)
        if v.size == 1 or self.a.size == 1:
            return matrix(self.a * v)
        return matrix(self.a.dot(v))

    def __rmul__(self, o):
        v = self._val(o)
        return matrix(self.a * v if v.size == 1 else v.dot(self.a))

    def __truediv__(self, o):
        return matrix(self.a / self._val(o))


def spmatrix(x, i, j, size=None, tc=None):
    i, j = list(i), list(j)
    if size is None:
        size = (max(i) + 1, max(j) + 1)
    m = matrix(0.0, size)
    for k, (p, q) in enumerate(zip(i, j)):
        m.a[p, q] += x if np.isscalar(x) else list(x)[k]
    return m


CACHE = {}


def lp(c, G, h, A=None, b=None, solver=None, *rest, **kw):
    arr = [None if m is None else np.ascontiguousarray(np.asarray(m, dtype=float)) for m in (c, G, h, A, b)]
    key = tuple((m.shape, m.tobytes()) if m is not None else None for m in arr)
    if key not in CACHE:
        c_, G_, h_, A_, b_ = arr
        r = linprog(c_.ravel(), A_ub=G_, b_ub=h_.ravel(), A_eq=A_, b_eq=None if b_ is None else b_.ravel(),
                    bounds=(None, None), method='highs-ds')
        CACHE[key] = (r.status, r.x, r.fun)
    status, x, fun = CACHE[key]
    ok = status == 0
    return dict(status='optimal' if ok else 'primal infeasible' if status == 2 else 'unknown', x=matrix(x) if ok else None,
                **{'primal objective': fun})


def install():
    m = types.ModuleType('cvxopt')
    m.matrix, m.spmatrix = matrix, spmatrix
    m.sparse = lambda x, tc='d': matrix(np.vstack([np.asarray(y) for y in x]) if isinstance(x, list) else x)
    m.solvers = types.ModuleType('cvxopt.solvers')
    m.solvers.options, m.solvers.lp = {}, lp
    m.spdiag = lambda x: matrix(np.diag(np.ravel(np.asarray(x))))

    def missing(nm):
        if nm.startswith('__'):
            raise AttributeError(nm)
        raise Limit(nm)
    m.__getattr__ = missing
    sys.modules['cvxopt'] = m
    sys.modules['cvxopt.solvers'] = m.solvers


class Source(np.random.RandomState):
    """Draws recognised by their size: N numbers (objective, weights of the start), r numbers (a direction),
    single uniform numbers (position on the chord, acceptance)."""
    def __new__(cls, *a):
        return super().__new__(cls)

    def __init__(self, N, obj, start, dirs, us):
        super().__init__(0)
        self.N, self.obj, self.start, self.dirs, self.us = N, obj, start, list(dirs), list(us)

    def standard_normal(self, size=None):
        n = 1 if size is None else int(np.prod(size))
        v = self.obj if n == self.N else self.dirs.pop(0)
        v = np.array(v, dtype=float)
        return float(v[0]) if size is None else v.reshape(size)

    def randn(self, *d):
        return self.standard_normal(d or None)

    def normal(self, loc=0.0, scale=1.0, size=None):
        return loc + scale * self.standard_normal(size)

    def random_sample(self, size=None):
        if size is None:
            return self.us.pop(0)
        n = int(np.prod(size))
        if n == self.N:
            return np.array(self.start, dtype=float).reshape(size)
        return np.array([self.us.pop(0) for _ in range(n)]).reshape(size)

    random = random_sample

    def rand(self, *d):
        return self.random_sample(d or None)

    def uniform(self, low=0.0, high=1.0, size=None):
        return low + (high - low) * self.random_sample(size)


LOW, HIGH = 1e-9, 1 - 1e-9


def chain(A, C, X, q, dirs, us, via, nb, given=True, Y=None):
    """Chain of the real sampler from x_0 = X / q; or with its own x_0 and objective (given = False)."""
    from dppy.mcmc_sampling import zonotope_sampler
    A = np.array(A, dtype=float)
    r, N = A.shape
    rng = Source(N, C, Y if Y is not None else np.full(N, .5), dirs, us)
    p = dict(nb_iter=nb, random_state=rng)
    if given:
        p.update(lin_obj=np.array(C, dtype=float), x_0=np.array(X, dtype=float) / q)
    if via == 'object':
        from dppy.finite_dpps import FiniteDPP
        d = FiniteDPP('correlation', projection=True, A_zono=A)
        last = d.sample_mcmc('zonotope', **p)
        return d.list_of_samples[-1], last, len(d.list_of_samples)
    ch = zonotope_sampler(A, **p)
    return ch, ch[-1], 1


def ints(s):
    return [int(x) for x in np.ravel(s)]


def skipping(fn, **base):
    install()
    np_err = np.geterr()
    try:
        return vp.observe(fn, **base)
    finally:
        np.seterr(**np_err)


def guard(fn):
    def g():
        try:
            return fn()
        except (Limit, IndexError) as e:
            if isinstance(e, Limit) or 'pop from empty list' in str(e):
                return dict(outcome='skipped', note=str(e))
            raise
    return g


def step(A, C, X, q, D, n, D1=(), v1=LOW):
    """Law of the state after a move in direction D, from X / q or after a first move in direction D1."""
    def f():
        def go():
            pre = ([list(D1)], [.5, v1]) if D1 else ([], [])
            k = len(pre[0])

            def after(u, v):
                ch, _, _ = chain(A, C, X, q, pre[0] + [list(D)], pre[1] + [u, v], '', k + 2)
                return ch
            ch = after(.5, LOW)
            path = [ints(s) for s in ch[:k + 1]]
            law, acc = {}, {}
            for j in range(n):
                u = (j + .5) / n
                B = tuple(ints(after(u, LOW)[-1]))
                if B not in acc:
                    lo, hi = 0.0, 1.0
                    if tuple(ints(after(u, HIGH)[-1])) == B:
                        lo = 1.0
                    else:
                        for _ in range(20):
                            mid = (lo + hi) / 2
                            if tuple(ints(after(u, mid)[-1])) == B:
                                lo = mid
                            else:
                                hi = mid
                    acc[B] = lo
                law[B] = law.get(B, 0) + acc[B] / n
                here = tuple(path[-1])
                law[here] = law.get(here, 0) + (1 - acc[B]) / n
            return dict(path=path, law=[dict(s=list(B), p=int(round(p * vp.SCALE))) for B, p in sorted(law.items())],
                        tol=int(vp.SCALE * (2.5 / n + 1e-3)))
        return skipping(guard(go), path=[], law=[], tol=0)
    return f, dict(what='step', A=A, C=C, X=X, q=q, D=list(D), D1=list(D1))


def start(A, C, Y, q, given):
    """First state, from the sampler's own start A Y / q and objective, or from the same ones given."""
    X = np.array(A).dot(Y).tolist()

    def f():
        def go():
            ch, _, _ = chain(A, C, X, q, [], [], '', 1, given, np.array(Y) / q)
            return dict(path=[ints(s) for s in ch], law=[], tol=0)
        return skipping(guard(go), path=[], law=[], tol=0)
    return f, dict(what='start', A=A, C=C, X=X, q=q, D=[], D1=[])


def run(A, C, X, q, iters, seed, via):
    """A whole run with pseudo-random draws."""
    def f():
        def go():
            rs = np.random.RandomState(seed)
            r = len(A)
            dirs = rs.randn(iters, r).tolist()
            us = rs.rand(2 * iters + 2).tolist()
            A0 = np.array(A, dtype=float)
            ch, last, rec = chain(A0, C, X, q, dirs, us, via, iters)
            return dict(chain=[ints(s) for s in ch], last=ints(last), iters=iters,
                        other=bool(rec != 1 or not np.array_equal(A0, np.array(A, dtype=float))))
        return skipping(guard(go), chain=[], last=[], iters=iters, other=False)
    return f, dict(what='run', A=A, C=C, X=X, q=q)


def basis(y, eps):
    def f():
        from dppy.mcmc_sampling import extract_basis
        kw = {} if eps is None else dict(eps=eps / 10**6)
        return vp.observe(lambda: dict(items=ints(extract_basis(np.array(y)[:, None] / 10**6 if len(y) % 2 else
                                                                np.array(y) / 10**6, **kw))), items=[])
    return f, dict(what='basis', y=list(y), eps=10 if eps is None else eps)
