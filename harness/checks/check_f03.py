"""F03: the rejection samplers (vfx, alpha) draw from the exact DPP / k-DPP law."""
import copy
import numpy as np
import vp
import kernels as kz

FACTORS = {
    'two': [[1, 1], [0, 2]],
    'coin': [[1, 1]],                        # rank 1
    'diag2': [[1, 0], [0, 3]],
    'gen3': [[1, 0, 1], [1, 2, 0], [0, 1, 1]],
    'wide3': [[2, 1, 0], [0, 1, 2]],
    'strong3': [[3, 1, 0], [0, 3, 1], [1, 0, 3]],
    'dup3': [[2, 2, 0], [0, 0, 1]],          # two identical items
}
FAR = np.zeros((2, 280), dtype=int)          # a large data set with few items of non-zero features
FAR[:, [0, 140, 270]] = [[2, 1, 0], [0, 1, 2]]
BIG = dict(rls_oversample_bless=60., rls_oversample_dppvfx=60., rls_oversample_alphadpp=60.)
PART = dict(rls_oversample_bless=8., rls_oversample_dppvfx=1., rls_oversample_alphadpp=1.)


def call(d, mode, k, rng, **p):
    try:
        if k:
            return d.sample_exact_k_dpp(k, mode, random_state=rng, verbose=False, **p)
        return d.sample_exact(mode, random_state=rng, verbose=False, **p)
    except ValueError as e:
        if 'larger than the pre-computed bound' in str(e):      # not a matter of luck
            raise AssertionError(str(e))
        raise


class Prefix(np.random.RandomState):
    """Stream whose draws come from a real generator until the n-th intermediate sample (a Poisson
    draw) and from `late` afterwards; scalar uniforms of the first part are the given constant, so
    that these first trials are all rejected, or all accepted."""

    def __new__(cls, *a, **k):
        return super().__new__(cls)

    def __init__(self, early, late, n, u):
        self.early, self.late, self.n, self.u = early, late, n, u

    def _draw(self, name, a, k):
        if name == 'poisson':
            self.n -= 1
        if self.n <= 0:
            return getattr(self.late, name)(*a, **k)
        r = getattr(self.early, name)(*a, **k)
        if name in ('rand', 'random_sample', 'uniform') and np.ndim(r) == 0:
            lo, hi = (list(a) + [0.0, 1.0])[:2] if name == 'uniform' and len(a) > 1 else (0.0, 1.0)
            return lo + (hi - lo) * self.u
        return r


def _fwd(name):
    return lambda self, *a, **k: self._draw(name, a, k)


for _nm in dir(vp.E.EnumRNG):
    if not _nm.startswith('_') and callable(getattr(vp.E.EnumRNG, _nm)) and _nm not in ('get_state', 'set_state', 'seed'):
        setattr(Prefix, _nm, _fwd(_nm))


ONE = dict(max_iter=1, max_iter_size_rejection=1, early_stop=True)


def case(B, mode, k, params, warm, seed, cond=None, one=ONE, min_prob=1e-6, dtype=float,
         late=None):
    """late=(n, u): the law of the n-th trial, the previous ones being scripted."""
    def f():
        X = np.asarray(B, dtype=dtype).T.copy()

        def fresh():
            return kz.build(('likelihood', False, dict(L_eval_X_data=(kz.linear_kernel, X))))

        base = None
        if warm:
            for i in range(40):     # the dictionary may legitimately fail to be built
                base = fresh()
                try:
                    with vp.quiet():
                        for j in range(warm):
                            call(base, mode, k, np.random.RandomState(seed + 50 * i + j), **params)
                    break
                except ValueError:
                    continue
            else:
                return dict(outcome='NoDictionary', law=[], tol=0, paths=0, method='none')

        pre = seed
        if late:
            for pre in range(seed, seed + 200):
                rng = Prefix(np.random.RandomState(pre), np.random.RandomState(0), *late)
                try:
                    with vp.quiet():
                        call(copy.deepcopy(base) if warm else fresh(), mode, k, rng, **params, **one)
                except ValueError:
                    pass
                if rng.n <= 0:
                    break
            else:
                return dict(outcome='NoDictionary', law=[], tol=0, paths=0, method='none')

        def run(rng):
            if late:
                rng = Prefix(np.random.RandomState(pre), rng, *late)
            d = copy.deepcopy(base) if warm else fresh()
            s = call(d, mode, k, rng, **params, **one)
            if cond is not None and len(s) != cond:
                raise vp.E.PathCut()
            return s

        return vp.observe_law(run, accept=(ValueError,), normalise=True, multiset=True,
                              min_prob=min_prob, pois_tail=1e-6, max_paths=25000, mc=4000,
                              seed=seed, tol=200)
    return f


def runs(B, mode, k, seed, n):
    def f():
        X = np.asarray(B, dtype=float).T.copy()
        got = {}
        for i in range(n):
            d = kz.build(('likelihood', False, dict(L_eval_X_data=(kz.linear_kernel, X))))
            for j in range(2):
                try:
                    with vp.quiet():
                        s = call(d, mode, k, np.random.RandomState(seed + 7 * i + j),
                                 **dict(BIG, rls_oversample_bless=8. + 10 * (i % 3)) if i % 2 else {})
                except ValueError:      # a dictionary that cannot be built, too many rejections
                    continue
                except AssertionError as e:
                    return dict(outcome='InvalidBound', law=[], tol=0, paths=i, method='runs', message=str(e)[:120])
                t = tuple(sorted(int(x) for x in s))
                got[t] = got.get(t, 0) + 1
        return dict(outcome='law', law=[dict(s=list(t), p=v) for t, v in sorted(got.items())],
                    tol=0, paths=n, method='runs')
    return f


def cases(c):
    out = []

    def add(cid, thunk, m, card=-1):
        out.append((cid, thunk, dict(model=dict(m, card=card), expect='law')))

    for name, B in FACTORS.items():
        B = np.array(B)
        n = B.shape[1]
        m = kz.model('B', B, n)
        L = B.T @ B
        size = np.trace(L @ np.linalg.inv(np.eye(n) + L))
        for mode in ('vfx', 'alpha'):
            small = n == 2
            mp = 1e-7 if small else 1e-6
            if small or (mode == 'vfx' and c.thorough):
                add('%s/%s/fresh' % (name, mode),
                    case(B, mode, 0, BIG, 0, c.seed, min_prob=1e-6 if mode == 'vfx' else 4e-6), m)
            if n * 8 > 10:
                add('%s/%s/warm1' % (name, mode), case(B, mode, 0, BIG, 1, c.seed, min_prob=mp), m)
                if name == 'strong3' and not c.thorough:
                    pass
                elif mode == 'vfx':
                    for sd in (0, 1) + ((3, 5, 9) if c.thorough else ()):
                        add('%s/%s/partial%d' % (name, mode, sd),
                            case(B, mode, 0, PART, 2, sd, min_prob=mp), m)
                    q4 = dict(BIG, q_func=lambda s: 2.0 * s * s)
                    add('%s/%s/q2' % (name, mode),
                        case(B, mode, 0, q4, 1, c.seed, min_prob=mp), m)
                else:
                    for sd in (0, 1) + ((3, 5, 9) if c.thorough else ()):
                        add('%s/%s/partial%d' % (name, mode, sd),
                            case(B, mode, 0, PART, 2, sd, min_prob=mp), m)
                    r3 = dict(BIG, r_func=lambda r: 1.5 * r)
                    add('%s/%s/r15' % (name, mode),
                        case(B, mode, 0, r3, 1, c.seed, min_prob=mp), m)
            for k in range(1, n):
                if name == 'strong3' and mode == 'vfx' and not c.thorough:
                    continue
                if k >= size:
                    continue
                add('%s/%s/k%d/fresh' % (name, mode, k),
                    case(B, mode, k, BIG, 0, c.seed, min_prob=1e-6 if small else 1e-5), m, k)
                add('%s/%s/k%d/warm' % (name, mode, k),
                    case(B, mode, k, BIG, 1, c.seed, min_prob=mp), m, k)
            if name in ('two', 'diag2', 'wide3'):
                add('%s/%s/int' % (name, mode),
                    case(B, mode, 0, BIG, 1, c.seed, min_prob=mp, dtype=int), m)
            # the trial after some rejected ones, and after some of the wrong size
            if name in ('gen3', 'two', 'wide3') or (name, mode) == ('strong3', 'alpha') or c.thorough:
                for j in (2, 3) if name == 'gen3' or c.thorough else (2,):
                    if name == 'strong3' and not c.thorough:
                        continue
                    add('%s/%s/rejected%d' % (name, mode, j - 1),
                        case(B, mode, 0, BIG, 1, c.seed, min_prob=mp, one=dict(max_iter=j), late=(j, 1 - 1e-9)), m)
                for j in (1, 2, 3) if name != 'gen3' or c.thorough else (2,):
                    if name == 'strong3' and not c.thorough:
                        continue
                    add('%s/%s/first/rejected%d' % (name, mode, j - 1),
                        case(B, mode, 0, BIG, 0, c.seed, min_prob=mp, one=dict(max_iter=j), late=(j, 1 - 1e-9)), m)
                for k in range(1, n):
                    if k < size:
                        for j in (2, 3, 4):
                            add('%s/%s/k%d/trial%d' % (name, mode, k, j),
                                case(B, mode, k, BIG, 1, c.seed, min_prob=mp, late=(j, 1e-12),
                                     one=dict(max_iter=1, max_iter_size_rejection=j, early_stop=True)), m, k)
            # law rescaled to a smaller expected size: a k-DPP given its size
            if mode == 'vfx' and size > 1.2:
                p = dict(BIG, desired_expected_size=1.0)
                for k in (1, 2):
                    if k <= np.linalg.matrix_rank(B):
                        add('%s/%s/desired/k%d' % (name, mode, k),
                            case(B, mode, 0, p, 1, c.seed, cond=k, min_prob=mp), m, k)
    # runs with the tuning parameters by default: retries, changes of scale, second draws
    rs = np.random.RandomState(c.seed + 77)
    for t in range(12 if c.thorough else 4):
        d, n = ((4, 30), (3, 25), (5, 40), (4, 200))[t % 4]
        B = rs.randint(-2, 3, size=(d, n))
        for mode in ('vfx', 'alpha'):
            for k in sorted({0, 2, d - 1}):
                out.append(('runs/%d/%s/k%d' % (t, mode, k), runs(B, mode, k, c.seed + 100 * t, 120 if c.thorough else 40),
                            dict(model=kz.model('B', B, n, card=k or -1), expect='support')))
    # the tuning parameters by default on a few items
    for name, B in (('single', [[2]]), ('pair', [[2, 1], [0, 1]]), ('triple', [[2, 1, 0], [0, 2, 1], [1, 0, 2]])):
        B = np.array(B)
        n = B.shape[1]
        L = B.T @ B
        size = np.trace(L @ np.linalg.inv(np.eye(n) + L))
        for mode in ('vfx', 'alpha'):
            for k in range(n):
                if k < size:
                    add('%s/%s/default/k%d' % (name, mode, k), case(B, mode, k, {}, 1, c.seed, min_prob=1e-6),
                        kz.model('B', B, n), k or -1)
    m = kz.model('B', FAR, FAR.shape[1])
    for mode in ('vfx', 'alpha'):
        add('far/%s/warm1' % mode, case(FAR, mode, 0, BIG, 1, c.seed), m)
        if mode == 'vfx':
            add('far/%s/k1' % mode, case(FAR, mode, 1, BIG, 1, c.seed), m, 1)
    return out


def run(c):
    obs = c.conform(cases(c), 'MC_Law', 'MC_Law.cfg', limit=300)
    c.obs = obs
