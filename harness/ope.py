"""Observations of MultivariateJacobiOPE."""
import itertools
import math
import numpy as np
from scipy.special import roots_jacobi
import vp
import enumrng as E
import dppy.multivariate_jacobi_ope as mj

F = 10**4


def obj(n, ps):
    return mj.MultivariateJacobiOPE(n, np.array([[p[0] / p[2], p[1] / p[2]] for p in ps]))


def fields(ps):
    return [dict(an=p[0], bn=p[1], q=p[2]) for p in ps]


def ordering_of(o):
    return [[int(i) for i in k] for k in o.ordering]


def scaled(x, s=F):
    x = np.asarray(x, dtype=float)
    if not np.all(np.isfinite(x)):
        raise AssertionError('not finite')
    return np.rint(np.clip(x * s, -2e9, 2e9)).astype(int).tolist()


def quadrature(ps, m):
    """Nodes and weights of the product measure, as the statement defines it."""
    xs, ws = zip(*(roots_jacobi(m, p[0] / p[2], p[1] / p[2]) for p in ps))
    X = np.array(list(itertools.product(*xs)))
    W = np.prod(np.array(list(itertools.product(*ws))), axis=1)
    return X, W


def ordering(n, d):
    def go():
        return dict(ord=[[int(i) for i in k] for k in mj.compute_ordering(n, d)])
    return lambda: vp.observe(go, ord=[])


def positions(n):
    def go():
        k = mj.compute_ordering(n, 1)
        return dict(len=len(k), at=[[i, int(k[i][0])] for i in range(0, len(k), 97)])
    return lambda: vp.observe(go, len=0, at=[])


def basis(n, ps):
    def go():
        o = obj(n, ps)
        k = ordering_of(o)
        X, W = quadrature(ps, max(map(max, k)) + 3)
        phi = o.eval_multiD_polynomials(X)
        if phi.shape != (len(X), n):
            raise AssertionError('shape of phi')
        return dict(ord=k, G=scaled(np.einsum('xi,x,xj->ij', phi, W, phi)),
                    X=[scaled(np.einsum('xi,x,xj->ij', phi, W * X[:, t], phi)) for t in range(len(ps))])
    return lambda: vp.observe(go, ord=[], G=[], X=[])


def ortho(n, jp):
    """Gram matrix of the functions for any float parameters."""
    def go():
        o = mj.MultivariateJacobiOPE(n, np.array(jp, dtype=float))
        k = ordering_of(o)
        X, W = quadrature([(a, b, 1) for a, b in jp], max(map(max, k)) + 3)
        phi = o.eval_multiD_polynomials(X)
        mass = float(np.sum(W))
        return dict(ord=k, G=scaled(np.einsum('xi,x,xj->ij', phi, W, phi)),
                    mass_ratio=scaled(o.mass_of_mu / mass), high=bool(np.all(phi[:, 0] > 0)))
    return lambda: vp.observe(go, ord=[], G=[], mass_ratio=0, high=False)


def kernel(n, ps, seed):
    def go():
        o = obj(n, ps)
        rng = np.random.RandomState(seed)
        x, y, z = (rng.uniform(-.9, .9, (m, len(ps))) for m in (4, 3, 4))
        if seed % 2:            # points may be views of one array, overlapping ones too
            w = rng.uniform(-.9, .9, (7, len(ps)))
            x, y, z = w[:4], w[2:5], w[::-1][:4]
        if seed % 4 == 0:       # nearly the same points
            y = x + 1e-4 * (1 + seed % 3)
            z = x - 3e-5
        phi = o.eval_multiD_polynomials
        self_ = np.asarray(o.K(x))
        return dict(px=scaled(phi(x), 1000), py=scaled(phi(y), 1000), pz=scaled(phi(z), 1000),
                    pair=scaled(o.K(x, y), 1000), point=scaled(o.K(x, z, eval_pointwise=True), 1000),
                    diag=scaled(o.K(x, eval_pointwise=True), 1000), self=scaled(self_, 1000))
    return lambda: vp.observe(go, px=[], py=[], pz=[], pair=[], point=[], diag=[], self=[])


def weight(e):
    """e: exponents times two."""
    def go():
        o = obj(1, [(a, b, 2) for a, b in e])
        xs = list(itertools.product((-1, 0, 1), repeat=len(e)))
        return dict(x=[list(x) for x in xs], w=scaled(o.eval_w(np.array(xs) / 2.0), 500))
    return lambda: vp.observe(go, x=[], w=[])


def mass(e):
    def go():
        return dict(total=int(round(1000 * obj(3, [(a, b, 2) for a, b in e]).mass_of_mu)))
    return lambda: vp.observe(go, total=0)


def bounds(n, ps):
    def go():
        o = obj(n, ps)
        c = np.asarray(o.rejection_bounds, dtype=float)
        t = np.linspace(1e-5, np.pi - 1e-5, 3001)
        x = np.cos(t)
        # one dimension at a time: P_k is a product
        one = {}
        for i, p in enumerate(ps):
            q = mj.MultivariateJacobiOPE(max(map(max, o.ordering)) + 1, np.array([[p[0] / p[2], p[1] / p[2]]]))
            phi = q.eval_multiD_polynomials(x[:, None])
            one[i] = np.max(phi**2 * np.pi * ((1 - x)**(p[0] / p[2] + .5) * (1 + x)**(p[1] / p[2] + .5))[:, None],
                            axis=0)
        sup = [np.prod([one[i][k[i]] for i in range(len(ps))]) for k in o.ordering]
        ok = bool(np.all(np.isfinite(c)))
        return dict(finite=ok, c=scaled(np.where(np.isfinite(c), c, 0)), sup=scaled(sup))
    return lambda: vp.observe(go, finite=False, c=[], sup=[])


def exps(d):
    return {1: [[1], [2], [3], [4]], 2: [[1, 0], [0, 1], [2, 0], [0, 2], [1, 1], [3, 0], [0, 4], [2, 1]],
            3: [[1, 0, 0], [0, 1, 0], [0, 0, 1], [2, 0, 0], [0, 0, 2], [1, 1, 0], [0, 1, 1], [1, 1, 1]]}[d]


def proposal(n, ps, nodes, mc, seed):
    d = len(ps)
    ee = exps(d)

    def go():
        o = obj(n, ps)

        def one(rng):
            x = np.asarray(o.sample_chain_rule_proposal(random_state=rng), dtype=float)
            if x.shape != (d,) or np.any(np.abs(x) > 1):
                raise AssertionError('not a point of the cube')
            i, ps_ = rng.tree.prefix[0]
            if len(ps_) != n or max(ps_) - min(ps_) > 1e-9:
                raise E.Unsupported('the first choice is not the index')
            return i, np.array([np.prod(x**np.array(e)) for e in ee])
        def quad(m):
            tot, cnt = {}, 0
            with vp.quiet():
                for p, (i, v) in E.paths(one, max_paths=400000, max_depth=2 + d, nodes=m):
                    a, b = tot.get(i, (0.0, 0.0))
                    tot[i] = (a + p, b + p * v)
                    cnt += 1
            if sorted(tot) != list(range(n)):
                raise AssertionError('some index is never accepted')
            return np.array([b / a for i, (a, b) in sorted(tot.items())]), cnt

        try:
            # the integrands are not polynomials in general: the two rules bound the error
            v, c1 = quad(nodes)
            w, c2 = quad(nodes // 2)
        except (E.Unsupported, E.Budget, E.Diverged):
            rng = np.random.RandomState(seed)
            with vp.quiet():
                x = np.array([o.sample_chain_rule_proposal(random_state=rng) for _ in range(mc)])
            v = np.array([np.prod(x**np.array(e), axis=1) for e in ee])
            t = 6.5 * v.std(1) / math.sqrt(mc)
            return dict(ord=ordering_of(o), pk=[], paths=mc, mom=[], mix=[
                dict(e=e, v=int(round(F * v[j].mean())), t=int(F * t[j]) + 1) for j, e in enumerate(ee)])
        return dict(ord=ordering_of(o), pk=[int(round(F / n))] * n, paths=c1 + c2, mix=[],
                    mom=[dict(k=i + 1, e=e, v=int(round(F * v[i, j])),
                              t=min(100, 15 + int(F * abs(v[i, j] - w[i, j]))))
                         for i in range(n) for j, e in enumerate(ee)])
    return lambda: vp.observe(go, ord=[], pk=[], mom=[], mix=[])


def sample(n, ps, kw, mc, seed, flat=False):
    d = len(ps)
    ee = {1: [[1], [2]], 2: [[1, 0], [0, 1], [2, 0], [1, 1], [1, 2]],
          3: [[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [0, 1, 1], [1, 1, 1]]}[d]

    def go():
        o = obj(n, ps)
        rng = np.random.RandomState(seed)
        shape = support = True
        lin = []
        with vp.quiet():
            for _ in range(mc):
                x = np.asarray(o.sample(random_state=rng, **kw))
                if x.shape != (n, d):
                    shape = False
                    break
                if not np.all(np.abs(x) <= 1 + 1e-9):
                    support = False
                lin.append([np.sum(np.prod(x**np.array(e), axis=1)) for e in ee])
        if not shape:
            return dict(ord=ordering_of(o), shape=False, support=support, mom=[])
        v = np.array(lin)

        def mt(w):
            return w.mean(0), 6.5 * w.std(0) / math.sqrt(mc)
        (a, ta), (b, tb) = mt(v), mt(v**2)
        return dict(ord=ordering_of(o), shape=shape, support=support, paths=mc,
                    mom=[dict(e=e, lin=int(round(F * a[j])), tlin=int(F * ta[j]) + 1,
                              sqr=int(round(F * b[j])), tsqr=int(F * tb[j]) + 1)
                         for j, e in enumerate(ee)])
    return lambda: vp.observe(go, ord=[], shape=True, support=True, mom=[])
