"""Observations of the BLESS preprocessing (L01)."""
import itertools
from fractions import Fraction
import numpy as np
import enumrng as E
import vp
import dppy.bless as B
import dppy.intermediate_sampling as I


def table(L):
    """A likelihood function over the items 0..n-1, given as one column of data."""
    L = np.asarray(L, dtype=float)

    def ev(X, Y=None):
        X = np.atleast_2d(X)
        Y = X if Y is None else np.atleast_2d(Y)
        return L[np.ix_(X[:, 0].astype(int), Y[:, 0].astype(int))]
    n = L.shape[0]
    return np.column_stack([np.arange(n), 7 - np.arange(n)]).astype(float), ev


def perm(M):
    n = len(M)
    if n == 0:
        return 1
    return sum(abs(M[0][j]) * perm([r[:j] + r[j + 1:] for r in M[1:]]) for j in range(n) if M[0][j])


def fits(L, D, pn, pd, a, b, qn, qd):
    """The integers of the specification stay below 2^31 (its quotients below 2 10^8)."""
    c = b * pd
    n = len(L)
    core = [[c * L[x][y] + (a * pn[r] if r == s else 0) for s, y in enumerate(D)] for r, x in enumerate(D)]
    for i in range(n):
        full = [[c * L[i][i]] + [c * L[i][y] for y in D]] + \
            [[c * L[x][i]] + core[r] for r, x in enumerate(D)]
        if perm(full) * b * qn >= 2**30 or perm(core) * b * pd * a * qd >= 10**8 or perm(full) >= 2**30:
            return False
    return True


def canon(X, d, lamden=None):
    idx = tuple(int(i) for i in d.idx)
    n = len(X)
    rows = all(0 <= i < n for i in idx) and np.array_equal(np.asarray(d.X), X[list(idx)])
    pr = tuple(int(round(min(float(p), 20.0) * vp.SCALE)) for p in np.atleast_1d(d.probs))
    return (idx, pr, bool(rows), int(np.floor(float(d.lam) * 10**4 + 1e-6)),
            int(np.floor(float(d.rls_oversample) * 10**4 + 1e-6)))


def dictionary_law(fn, X, seed, **kw):
    """Exact law of the dictionary that fn(rng) returns; failing runs are the empty one."""
    def one(rng):
        try:
            with vp.quiet():
                return canon(X, fn(rng))
        except ValueError as e:
            if type(e) is not ValueError:
                raise
            return ((), (), True, 0, 0)
    try:
        d, n, cut = E.law(one, **kw)
    except (E.Unsupported, E.Budget, E.Diverged) as e:
        return dict(outcome='law', method='sampled', **sampled(one, seed))
    except Exception as e:
        return dict(outcome=vp.outcome_of(e), law=[], tol=0, message=str(e)[:200])
    return dict(outcome='law', law=entries(d), tol=60, method='enumerated', paths=n)


def sampled(one, seed, mc=20000):
    rng = np.random.RandomState(seed)
    d = {}
    for _ in range(mc):
        r = one(rng)
        d[r] = d.get(r, 0) + 1.0 / mc
    return dict(law=entries(d), tol=int(vp.SCALE * 7 * 0.5 / np.sqrt(mc)))


def entries(d):
    return [dict(s=[i + 1 for i in k[0]], pr=list(k[1]), rows=k[2], lam=k[3], q=k[4],
                 p=int(round(v * vp.SCALE))) for k, v in sorted(d.items(), key=str)]


def reduction(L, D, pn, pd, a, b, lam0, qn, qd, own, seed):
    """One reduction from dictionary D (probabilities pn / pd) at lam0 to a / b.
    own: the oversampling factor is that of the dictionary, not an argument."""
    X, ev = table(L)

    def f():
        q = qn / qd
        d0 = B.CentersDictionary(idx=np.array(D), X=X[D], probs=np.array(pn) / pd, lam=lam0,
                                 rls_oversample=q if own else q + 5)

        def fn(rng):
            if own:
                return B.reduce_lambda(X, ev, d0, a / b, rng)
            return B.reduce_lambda(X, ev, d0, a / b, rng, rls_oversample_parameter=q)
        return dictionary_law(fn, X, seed)
    base = dict(what='reduce', L=[list(map(int, r)) for r in L], D=[i + 1 for i in D], pn=list(pn), pd=pd,
                a=a, b=b, qn=qn, qd=qd)
    return f, base


def first(kind, diag, L, qn, qd, size, seed, final=0.01):
    X, ev = table(L)

    def f():
        def fn(rng):
            if kind == 'bless':
                return B.bless(X, ev, final, qn / qd, rng, nb_iter_bless=1, verbose=False)
            return B.bless_size(X, ev, size, qn / qd, rng, nb_iter_bless=1, verbose=False)[2]
        o = dictionary_law(fn, X, seed)
        o['lam'] = max([e['lam'] for e in o['law']] or [0])
        if len({e['lam'] for e in o['law']}) > 1:
            o['outcome'] = 'SeveralRegularisations'
        return o
    return f, dict(what='first', kind=kind, diag=[int(x) for x in diag], qn=qn, qd=qd, size=size, lam=0,
                   final=int(round(final * 10000)))


class Tap:
    """Records the calls of a function of a module while it runs."""
    def __init__(self, mod, name):
        self.mod, self.name, self.calls = mod, name, []
        self.f = getattr(mod, name, None)

    def __enter__(self):
        if self.f is not None:
            def g(*a, **k):
                r = self.f(*a, **k)
                self.calls.append((a, k, r))
                return r
            setattr(self.mod, self.name, g)
        return self

    def __exit__(self, *a):
        if self.f is not None:
            setattr(self.mod, self.name, self.f)


ARGS = ('X_data', 'eval_L', 'intermediate_dict_bless', 'lam_new', 'rng', 'rls_oversample_parameter')


def bound(a, k, names=ARGS):
    d = dict(zip(names, a))
    d.update(k)
    return d


def same(d, e):
    return d is e or all(np.array_equal(np.asarray(x), np.asarray(y)) for x, y in zip(d, e))


def trace(kind, L, qn, qd, nb, final, size, seed):
    X, ev = table(L)
    diag = [int(x) for x in np.diag(L)]

    def step(d):
        idx, pr, rows, lam, q = canon(X, d)
        return dict(idx=[i + 1 for i in idx], probs=list(pr), rows=rows, lam=int(round(float(d.lam) * 1000)), q=q)

    def f():
        def fn():
            with Tap(B, 'reduce_lambda') as tap:
                try:
                    if kind == 'bless':
                        r = B.bless(X, ev, final / 1000., qn / qd, seed, nb_iter_bless=nb or None, verbose=False)
                        lo = hi = 0
                    else:
                        hi, lo, r = B.bless_size(X, ev, size, qn / qd, seed, nb_iter_bless=nb, verbose=False)
                except ValueError as e:
                    # too few items (bless_size: a first regularisation already below the last one)
                    if (kind == 'size' and len(tap.calls) == 0) or 'No point selected' in str(e) or 'smaller than 1' in str(e):
                        return dict(steps=[], lams=[], lmax=0, lmin=0, returnslast=True, start=dict(idx=[]))
                    raise
            calls = [(bound(a, k), out) for a, k, out in tap.calls]
            if not calls or any('intermediate_dict_bless' not in c for c, _ in calls):
                return dict(steps=[], lams=[], lmax=0, lmin=0, returnslast=True, start=dict(idx=[]))
            prev = calls[0][0]['intermediate_dict_bless']
            st = step(prev)
            steps = []
            for c, out in calls:
                s = step(out)
                s['handedon'] = bool(same(c['intermediate_dict_bless'], prev))
                s['asked'] = int(round(float(c.get('lam_new', -1)) * 1000))
                steps.append(s)
                prev = out
            return dict(start=st, steps=steps, lams=[st['lam']] + [s['lam'] for s in steps],
                        lmax=int(round(float(hi) * 1000)), lmin=int(round(float(lo) * 1000)),
                        returnslast=bool(same(r, prev)))
        return vp.observe(fn, steps=[], lams=[], lmax=0, lmin=0, returnslast=True, start=dict(idx=[]))
    base = dict(what='trace', kind=kind, diag=diag, qn=qn, qd=qd, nb=nb, final=final if kind == 'bless' else 1000,
                size=size)
    return f, base


def wire(mode, size, L, q_bless, q_mode, nb, seed):
    """What the rejection samplers build their dictionary with."""
    from dppy.finite_dpps import FiniteDPP
    X, ev = table(L)

    def f():
        def fn():
            d = FiniteDPP('likelihood', L_eval_X_data=(ev, X))
            kw = dict(rls_oversample_bless=q_bless, nb_iter_bless=nb, verbose=False)
            kw['rls_oversample_dppvfx' if mode == 'vfx' else 'rls_oversample_alphadpp'] = q_mode
            with Tap(I, 'bless') as t1, Tap(I, 'bless_size') as t2, Tap(I, 'reduce_lambda') as t3:
                try:
                    if size is None:
                        d.sample_exact(mode, random_state=seed, **kw)
                    else:
                        d.sample_exact_k_dpp(size, mode, random_state=seed, **kw)
                except ValueError:
                    pass
            c = t1.calls + t2.calls
            if len(c) != 1 or len(t3.calls) != 1:
                return dict(seen=False)
            a, k, r = c[0]
            names = ['X_data', 'eval_L', 'target', 'rls_oversample_param', 'random_state', 'nb_iter_bless', 'verbose']
            g = bound(a, k, names)
            target = g.get('target', g.get('lam_final', g.get('size_final', -1)))
            made = r if t1.calls else r[2]
            h = bound(t3.calls[0][0], t3.calls[0][1])
            return dict(seen=True, first=['bless' if t1.calls else 'bless_size', int(round(1000 * float(target))),
                                          int(round(1000 * float(g['rls_oversample_param']))),
                                          int(g['nb_iter_bless'] or 0)],
                        oversample=int(round(1000 * float(h.get('rls_oversample_parameter') or 0))),
                        samelam=bool(float(h['lam_new']) == float(made.lam)),
                        handedon=bool(same(h['intermediate_dict_bless'], made)))
        return vp.observe(fn, seen=False, first=[], oversample=0, samelam=True, handedon=True)
    sized = size is not None and mode == 'alpha'
    return f, dict(what='wire', wantfirst=['bless_size' if sized else 'bless', 1000 * size if sized else 1000,
                                           int(1000 * q_bless), nb], wantoversample=int(1000 * q_mode))
