"""Public calls that draw random numbers, on small fixed inputs.

CALLS[name] = make, where make() gives (run, args): run(random_state) performs the call on fresh
objects built from args, and args is the list of things the caller owns (arrays, lists, ...)."""
import numpy as np
import vp  # noqa: F401

LQ = np.array([[2., 1, 0, 1], [1, 3, 1, 0], [0, 1, 2, 0], [1, 0, 0, 2]])
A = np.array([[1., 0, 1, 2], [0, 1, 1, -1]])
PHI = np.array([[1., 0, 1, 1], [1, 2, 0, 0], [0, 1, 1, -1]])
BIG = dict(rls_oversample_bless=60., rls_oversample_dppvfx=60., rls_oversample_alphadpp=60.,
           verbose=False)


class Memo(object):
    """A likelihood function that hands out the matrices it keeps."""

    def __init__(self):
        self.kept = {}

    def __call__(self, X, Y=None):
        Y = X if Y is None else Y
        X, Y = np.atleast_2d(X), np.atleast_2d(Y)
        k = (X.tobytes(), X.shape, Y.tobytes(), Y.shape)
        if k not in self.kept:
            self.kept[k] = X.dot(Y.T)
        return self.kept[k]

    def diag(self, X):
        k = ('diag', np.asarray(X).tobytes())
        if k not in self.kept:
            self.kept[k] = (np.asarray(X)**2).sum(axis=1)
        return self.kept[k]

    def clean(self):
        """Are the kept matrices still the ones computed?"""
        for k, v in self.kept.items():
            if k[0] == 'diag':
                continue
            X = np.frombuffer(k[0]).reshape(k[1])
            Y = np.frombuffer(k[2]).reshape(k[3])
            if not np.array_equal(v, X.dot(Y.T)):
                return False
        for k, v in self.kept.items():
            if k[0] == 'diag':
                n = len(v)
                if not np.array_equal(v, (np.frombuffer(k[1]).reshape(n, -1)**2).sum(axis=1)):
                    return False
        return True


def _finite(params, op, proj=False, kt=None):
    """params: () -> dict of keyword arguments of FiniteDPP."""
    def make():
        from dppy.finite_dpps import FiniteDPP
        p = params()
        key = next(iter(p))
        t = kt or ('correlation' if key[0] in 'KA' else 'likelihood')
        args = [p[key]]

        def run(rs):
            return op(FiniteDPP(t, proj, **p), rs)
        return run, args
    return make


def _k():
    return LQ.dot(np.linalg.inv(np.eye(4) + LQ))


def _sym(a):
    return (a + a.T) / 2


def _proj():
    q = np.linalg.qr(A.T)[0]
    return _sym(q.dot(q.T))


def _keig():
    w, v = np.linalg.eigh(_sym(_k()))
    return dict(K_eig_dec=(w, v))


def _leig():
    w, v = np.linalg.eigh(LQ)
    return dict(L_eig_dec=(w, v))


def _tiny():
    """Eigenvalues from negative rounding noise upwards."""
    w = np.array([-1e-13, 1e-13, 1e-7, 1e-4, .3, .7, .2, .9])[:len(LQ)]
    return np.concatenate([w, np.full(len(LQ) - len(w), .4)]), np.linalg.eigh(LQ)[1]


def _ktiny():
    return dict(K_eig_dec=_tiny())


def _ltiny():
    return dict(L_eig_dec=_tiny())


def _peig():
    return dict(K_eig_dec=(np.ones(2), np.linalg.qr(A.T)[0]))


def _lin():
    from dppy.utils import example_eval_L_linear
    return dict(L_eval_X_data=(example_eval_L_linear, 2 * PHI.T.copy()))


def _memo():
    return dict(L_eval_X_data=(Memo(), 2 * PHI.T.copy()))


def _memo2():
    return dict(L_eval_X_data=(Memo(), np.random.RandomState(0).randn(14, 3)))


def _table():
    F = {}
    reps = {'L': (lambda: dict(L=LQ.copy()), False), 'K': (lambda: dict(K=_sym(_k())), False),
            'L_eig': (_leig, False), 'K_eig': (_keig, False), 'L_tiny': (_ltiny, False), 'K_tiny': (_ktiny, False),
            'gram': (lambda: dict(L_gram_factor=PHI.copy()), False),
            'tall': (lambda: dict(L_gram_factor=np.vstack([PHI, PHI])), False), 'eval': (_lin, False),
            'P': (lambda: dict(K=_proj()), True), 'P_eig': (_peig, True),
            'zono': (lambda: dict(A_zono=A.copy()), True)}
    for rn, (p, pr) in reps.items():
        isP = rn in ('P', 'P_eig', 'zono')
        modes = ('GS', 'Chol', 'Schur') if rn == 'P' else ('GS', 'GS_bis', 'KuTa12', 'Chol')
        for m in modes + (('Schur',) if isP and rn != 'P' else ()):
            F['exact/%s/%s' % (rn, m)] = _finite(p, lambda d, rs, m=m: d.sample_exact(m, random_state=rs), pr)
        for m in ('GS', 'Chol', 'Schur') if rn == 'P' else ('GS', 'GS_bis', 'KuTa12'):
            F['kdpp/%s/%s' % (rn, m)] = _finite(p, lambda d, rs, m=m: d.sample_exact_k_dpp(2, m, random_state=rs), pr)
        if rn.endswith('tiny'):          # an initial state may not be found
            continue
        if not isP:
            for m in ('AED', 'AD', 'E'):
                F['mcmc/%s/%s' % (rn, m)] = _finite(
                    p, lambda d, rs, m=m: (d.sample_mcmc(m, nb_iter=6, size=2, random_state=rs),
                                           d.list_of_samples), pr)
        F['mcmckdpp/%s' % rn] = _finite(p, lambda d, rs: (d.sample_mcmc_k_dpp(2, nb_iter=6, random_state=rs),
                                                          d.list_of_samples), pr)
        F['init/%s' % rn] = _finite(p, lambda d, rs, m='E' if isP else 'AED': (
            d.sample_mcmc(m, nb_iter=4, size=2, s_init=[0, 1], random_state=rs), d.list_of_samples), pr)
    for nm, p in (('eval', _lin), ('memo', _memo), ('memo2', _memo2)):
        B = dict(BIG) if nm != 'memo2' else dict(BIG, rls_oversample_dppvfx=3., rls_oversample_alphadpp=3.)
        for m in ('vfx', 'alpha'):
            F['exact/%s/%s' % (nm, m)] = _finite(p, lambda d, rs, m=m, B=B: d.sample_exact(m, random_state=rs, **B))
            F['kdpp/%s/%s' % (nm, m)] = _finite(
                p, lambda d, rs, m=m, B=B: d.sample_exact_k_dpp(2, m, random_state=rs, **B))

    def fn(module, name, *args, **kw):
        def make():
            import importlib
            a = [x() if callable(x) and not isinstance(x, Memo) else x for x in args]
            f = getattr(importlib.import_module('dppy.' + module), name)

            def run(rs):
                return f(*a, random_state=rs, **kw)
            return run, a
        return make
    E = 'exact_sampling'
    F['fn/generic'] = fn(E, 'dpp_sampler_generic_kernel', lambda: _sym(_k()))
    for m in ('GS', 'Chol', 'Schur'):
        F['fn/kernel/' + m] = fn(E, 'proj_dpp_sampler_kernel', _proj, m)
        F['fn/kernelk/' + m] = fn(E, 'proj_dpp_sampler_kernel', _proj, m, 1)
    for m in ('GS', 'GS_bis', 'KuTa12'):
        F['fn/eig/' + m] = fn(E, 'proj_dpp_sampler_eig', lambda: np.linalg.qr(A.T)[0], m)
        F['fn/eigk/' + m] = fn(E, 'proj_dpp_sampler_eig', lambda: np.linalg.qr(A.T)[0], m, 1)
    F['fn/select'] = fn(E, 'dpp_eig_vecs_selector', lambda: np.array([.2, .7, .5]), lambda: np.eye(3))
    F['fn/kselect'] = fn(E, 'k_dpp_eig_vecs_selector', lambda: np.array([1., 2, 3]), lambda: np.eye(3), 2)
    M = 'mcmc_sampling'
    F['fn/initAED'] = fn(M, 'initialize_AED_sampler', lambda: LQ.copy())
    F['fn/initAD'] = fn(M, 'initialize_AD_and_E_sampler', lambda: LQ.copy())
    F['fn/initE'] = fn(M, 'initialize_AD_and_E_sampler', lambda: LQ.copy(), 2)
    F['fn/AED'] = fn(M, 'add_exchange_delete_sampler', lambda: LQ.copy(), lambda: [0, 1], 6)
    F['fn/AD'] = fn(M, 'add_delete_sampler', lambda: LQ.copy(), lambda: [0, 1], 6)
    F['fn/E'] = fn(M, 'basis_exchange_sampler', lambda: LQ.copy(), lambda: [0, 1], 6)

    def exotic(cls, init, kw, post=None):
        def make():
            import dppy.exotic_dpps as X

            def run(rs):
                d = getattr(X, cls)(*init)
                r = d.sample(random_state=rs, **kw)
                return r, d.list_of_samples, post(d) if post else None
            return run, []
        return make
    F['exotic/carries'] = exotic('CarriesProcess', (7,), dict(size=20))
    F['exotic/descent'] = exotic('DescentProcess', (), dict(size=20))
    F['exotic/virtual'] = exotic('VirtualDescentProcess', (.7,), dict(size=20))
    F['exotic/plancherel'] = exotic('PoissonizedPlancherel', (9,), {}, lambda d: d.list_of_young_diag)
    F['fn/permutation'] = fn('exotic_dpps_core', 'uniform_permutation', 9)

    def ust(mode, root):
        def make():
            import networkx as nx
            import dppy.exotic_dpps as X
            g = nx.Graph([(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)])

            def run(rs):
                u = X.UST(g)
                u.sample(mode, root=root, random_state=rs)
                return u.list_of_samples
            return run, [g]
        return make
    for m in ('Wilson', 'Aldous-Broder', 'GS', 'GS_bis', 'KuTa12', 'Schur', 'Chol'):
        F['ust/' + m] = ust(m, None)
        if m in ('Wilson', 'Aldous-Broder'):
            F['ust/%s/root' % m] = ust(m, 2)

    def beta(cls, b, method, kw):
        def make():
            import dppy.beta_ensembles as X

            def run(rs):
                d = getattr(X, cls)(beta=b)
                r = getattr(d, method)(random_state=rs, **kw)
                return r, d.list_of_samples
            return run, []
        return make
    full = {'HermiteEnsemble': dict(size_N=4), 'LaguerreEnsemble': dict(size_N=3, size_M=5),
            'JacobiEnsemble': dict(size_N=3, size_M1=5, size_M2=6), 'CircularEnsemble': dict(size_N=4)}
    for cls, kw in full.items():
        for b in (1, 2, 4, 0):
            if b == 0 and cls[0] in 'LJ':
                continue
            for hm in ('Hermite', 'QR')[:1 if b == 4 else 2] if cls[0] == 'C' else (None,):
                k = dict(kw, haar_mode=hm) if hm else kw
                F['beta/%s/full%d%s' % (cls, b, hm or '')] = beta(cls, b, 'sample_full_model', k)
        for b in (0, 1, 2, 3 if cls[0] == 'C' else 2.5):
            k = dict(size_N=4)
            F['beta/%s/banded%s' % (cls, b)] = beta(cls, b, 'sample_banded_model', k)
    F['beta/GinibreEnsemble/full2'] = beta('GinibreEnsemble', 2, 'sample_full_model', dict(size_N=4))

    def polypot(V, kw):
        def make():
            from dppy.beta_ensemble_polynomial_potential import BetaEnsemblePolynomialPotential as P
            v = np.poly1d(V)

            def run(rs):
                return P(2, v).sample_mcmc(N=3, nb_gibbs_passes=2, random_state=rs, **kw)
            return run, [v.coeffs]
        return make
    F['polypot/exact'] = polypot([.25, 0, 0, 0, 0], dict(sample_exact_cond=True))
    F['polypot/mala'] = polypot([.05, 0, .5, 0, 0], dict(nb_mala_steps=5))
    F['polypot/sextic'] = polypot([1 / 6, 0, 0, 0, 0, 0, 0],
                                  dict(nb_mala_steps=5, return_chain_of_eig_vals=True))

    def ope(N, jp, method, kw):
        def make():
            from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE as O
            j = np.array(jp)

            def run(rs):
                return getattr(O(N, j), method)(random_state=rs, **kw)
            return run, [j]
        return make
    F['ope/sample2d'] = ope(3, [[.5, .5], [-.3, .4]], 'sample', {})
    F['ope/sample1d'] = ope(3, [[.5, .5]], 'sample', {})
    F['ope/sample1dchain'] = ope(3, [[.5, .5]], 'sample', dict(tridiag_1D=False))
    F['ope/proposal'] = ope(3, [[.5, .5], [-.3, .4]], 'sample_chain_rule_proposal', {})

    def bl(name, *a):
        def make():
            import dppy.bless as B
            from dppy.utils import example_eval_L_linear as f
            X = np.random.RandomState(0).randn(12, 3)

            def run(rs):
                d = getattr(B, name)(X, f, *a, random_state=rs, verbose=False)
                if name == 'bless_size':
                    return d[:2], d[2].idx, d[2].X, d[2].probs, d[2].lam, d[2].rls_oversample
                return d.idx, d.X, d.probs, d.lam, d.rls_oversample
            return run, [X]
        return make
    F['bless/bless'] = bl('bless', 1.0, 4.0)
    F['bless/size'] = bl('bless_size', 2, 4.0)
    return F


CALLS = _table()


# ---- public calls that draw nothing: PLAIN[name] = make, run() takes no stream


def figure():
    """Everything the current figures show: points, lines, bars, images, texts."""
    import matplotlib.pyplot as plt
    out = []
    for n in plt.get_fignums():
        fig = plt.figure(n)
        for ax in fig.axes:
            out.append([ax.get_title(),
                        [np.asarray(x.get_xydata()) for x in ax.lines],
                        [[p.get_x(), p.get_width(), p.get_height()] for p in ax.patches if hasattr(p, 'get_x')],
                        [np.ma.getdata(k.get_offsets()) for k in ax.collections],
                        [np.ma.getdata(k.get_array()) for k in ax.collections if k.get_array() is not None],
                        [t.get_text() for t in ax.texts]])
    plt.close('all')
    return out


def _plain():
    F = {}

    def finite(params, op, proj=False, kt=None):
        def make():
            from dppy.finite_dpps import FiniteDPP
            p = params()
            key = next(iter(p))
            t = kt or ('correlation' if key[0] in 'KA' else 'likelihood')
            return lambda: op(FiniteDPP(t, proj, **p)), [p[key]]
        return make
    reps = {'L': (lambda: dict(L=LQ.copy()), False), 'K': (lambda: dict(K=_sym(_k())), False),
            'L_eig': (_leig, False), 'K_eig': (_keig, False), 'L_tiny': (_ltiny, False), 'K_tiny': (_ktiny, False),
            'gram': (lambda: dict(L_gram_factor=PHI.copy()), False),
            'tall': (lambda: dict(L_gram_factor=np.vstack([PHI, PHI])), False), 'eval': (_lin, False),
            'memo': (_memo, False), 'P': (lambda: dict(K=_proj()), True), 'P_eig': (_peig, True),
            'zono': (lambda: dict(A_zono=A.copy()), True)}

    def ker(d):
        d.compute_K()
        return d.K

    def lik(d):
        d.compute_L()
        return d.L

    def text(d):
        d.info()
        return str(d)

    def draw(d):
        d.plot_kernel()
        return figure()
    for rn, (p, pr) in reps.items():
        F['finite/K/' + rn] = finite(p, ker, pr)
        F['finite/plot/' + rn] = finite(p, draw, pr)
        F['finite/info/' + rn] = finite(p, text, pr)
        if not pr:
            F['finite/L/' + rn] = finite(p, lik)

    def fn(module, name, *args, **kw):
        def make():
            import importlib
            a = [x() if callable(x) and not isinstance(x, Memo) else x for x in args]
            f = getattr(importlib.import_module('dppy.' + module), name)
            return lambda: f(*a, **kw), a
        return make
    E = 'exact_sampling'
    F['fn/esp'] = fn(E, 'elementary_symmetric_polynomials', lambda: np.array([1., 2, 3]), 2)
    U = 'utils'
    for nm, a in (('is_symmetric', LQ), ('is_projection', _proj()), ('is_orthonormal_columns', np.linalg.qr(A.T)[0]),
                  ('is_equal_to_O_or_1', np.array([0., 1, 1])), ('is_in_01', np.array([0., .5, 1])),
                  ('is_geq_0', np.array([0., .5, 1])), ('is_full_row_rank', A)):
        F['utils/' + nm] = fn(U, nm, lambda a=a: a.copy())
    F['utils/inner1d'] = fn(U, 'inner1d', lambda: A.copy(), lambda: A.copy())
    F['utils/norm1d'] = fn(U, 'inner1d', lambda: A.copy())
    F['utils/det_ST'] = fn(U, 'det_ST', lambda: LQ.copy(), lambda: [0, 2])
    F['utils/det_ST2'] = fn(U, 'det_ST', lambda: LQ.copy(), lambda: [0, 2], lambda: [1, 3])
    for nm in ('linear', 'polynomial', 'min_kern'):
        X = np.array([[.1], [.4], [.7]])
        F['utils/eval_' + nm] = fn(U, 'example_eval_L_' + nm, lambda X=X: X.copy())
        F['utils/eval2_' + nm] = fn(U, 'example_eval_L_' + nm, lambda X=X: X.copy(), lambda X=X: X[:2].copy())
    C = 'exotic_dpps_core'
    F['rsk/list'] = fn(C, 'RSK', lambda: [3, 1, 2, 2, 5])
    F['rsk/array'] = fn(C, 'RSK', lambda: np.array([3, 1, 2, 5, 4]))
    F['young/xy'] = fn(C, 'xy_young_ru', lambda: np.array([4, 2, 1]))
    F['young/limit'] = fn(C, 'limit_shape', lambda: np.linspace(-3, 3, 13))
    R = 'random_matrices'
    x = np.linspace(-2.5, 4.5, 15)
    F['law/semi'] = fn(R, 'semi_circle_law', lambda: x.copy())
    F['law/mp'] = fn(R, 'marcenko_pastur_law', lambda: x.copy(), 8, 4)
    F['law/wachter'] = fn(R, 'wachter_law', lambda: x.copy(), 8, 9, 4)

    Q = 'beta_ensemble_polynomial_potential_core'

    def law_of(name, *a):
        def make():
            import importlib
            f = getattr(importlib.import_module('dppy.' + Q), name)
            v = x.copy()

            def run():
                g, support = f(*a)
                return g(v), support
            return run, [v]
        return make
    for m in (2, 3):
        F['equi/x%d' % (2 * m)] = law_of('equilibrium_x2m', m, 1.0)
        F['equi/cdf_x%d' % (2 * m)] = law_of('cdf_equilibrium_x2m', m, 1.0)
    for g2 in (1.0, -3.0):
        F['equi/x2x4/%g' % g2] = law_of('equilibrium_x2_x4', g2, 1.0)
        F['equi/cdf_x2x4/%g' % g2] = law_of('cdf_equilibrium_x2_x4', g2, 1.0)
    F['equi/ClItKr10'] = law_of('equilibrium_ClItKr10')

    def tracy():
        from dppy.beta_ensemble_polynomial_potential_core import TracyWidom
        tw, v = TracyWidom(), np.linspace(-4, 2, 5)
        return (lambda: tw.cdf(v)), [v]
    F['tracy/cdf'] = tracy
    def conditional(which):
        def make():
            import importlib
            f = getattr(importlib.import_module('dppy.' + Q), 'polynomial_in_negative_log_conditional_%s_coef' % which)
            a, b, V = np.array([0, .5, -1, 2, 0, 0.]), np.array([0, .5, 1, 0, 0, 0.]), np.poly1d([1., 0, 2, 1, 0])
            return (lambda: f(2, a, b, V).coeffs), [a, b, V.coeffs]
        return make
    F['cond/a'], F['cond/b'] = conditional('a'), conditional('b')

    def seeded(cls, init, draw, shows):
        """An object that has drawn once; then what it shows, over and over."""
        def make():
            import importlib
            mod = {'C': 'exotic_dpps', 'D': 'exotic_dpps', 'V': 'exotic_dpps', 'P': 'exotic_dpps',
                   'U': 'exotic_dpps'}
            m = 'beta_ensembles' if cls.endswith('Ensemble') else mod[cls[0]]
            d = getattr(importlib.import_module('dppy.' + m), cls)(*init)
            draw(d)

            def run():
                shows(d)
                return figure()
            return run, [d.list_of_samples[-1]]
        return make
    for cls, init in (('CarriesProcess', (7,)), ('DescentProcess', ()), ('VirtualDescentProcess', (.7,))):
        F['show/' + cls] = seeded(cls, init, lambda d: d.sample(20, random_state=1), lambda d: d.plot(False))
        F['show2/' + cls] = seeded(cls, init, lambda d: d.sample(20, random_state=1),
                                   lambda d: d.plot(True, random_state=3))
    for nm, f in (('plot', lambda d: d.plot()), ('diag', lambda d: d.plot_diagram()),
                  ('diagn', lambda d: d.plot_diagram(True))):
        F['show/plancherel/' + nm] = seeded('PoissonizedPlancherel', (9,), lambda d: d.sample(random_state=1), f)
    import networkx as nx
    g = nx.Graph([(0, 1), (1, 2), (2, 3), (3, 0), (0, 2)])
    for nm, f in (('plot', lambda d: d.plot()), ('graph', lambda d: d.plot_graph()),
                  ('kernel', lambda d: d.plot_kernel())):
        F['show/ust/' + nm] = seeded('UST', (g,), lambda d: d.sample(random_state=1), f)
    full = {'HermiteEnsemble': dict(size_N=4), 'LaguerreEnsemble': dict(size_N=3, size_M=5),
            'JacobiEnsemble': dict(size_N=3, size_M1=5, size_M2=6), 'CircularEnsemble': dict(size_N=4),
            'GinibreEnsemble': dict(size_N=4)}
    for cls, kw in full.items():
        for b in (2,) if cls[0] == 'G' else (2, 0):
            for mode in ('full',) if cls[0] == 'G' or (b == 0 and cls[0] in 'LJ') else ('full', 'banded'):
                if b == 0 and cls[0] in 'LJ':
                    mode = 'banded'

                def dr(d, mode=mode, kw=kw):
                    if mode == 'full':
                        d.sample_full_model(random_state=1, **kw)
                    else:
                        d.sample_banded_model(random_state=1, size_N=4)
                for nm in ('plot', 'hist'):
                    for norm in (True, False):
                        def show(d, nm=nm, norm=norm):
                            getattr(d, nm)(norm)
                        if cls[0] == 'G' and nm == 'hist':
                            continue
                        F['show/%s%d/%s/%s%s' % (cls, b, mode, nm, norm)] = seeded(cls, (b,), dr, show)

    def ope(op, jp=((.5, .5), (-.3, .4)), kw=()):
        def make():
            from dppy.multivariate_jacobi_ope import MultivariateJacobiOPE as O
            j = np.array(jp)
            X = np.linspace(-.8, .7, 3 * len(jp)).reshape(3, len(jp))
            Y = X[:2] / 2
            return (lambda: op(O(3, j), X, Y)), [j, X, Y]
        return make
    F['ope/K'] = ope(lambda o, X, Y: o.K(X))
    F['ope/K2'] = ope(lambda o, X, Y: o.K(X, Y))
    F['ope/Kpoint'] = ope(lambda o, X, Y: o.K(X, eval_pointwise=True))
    F['ope/Kpoints'] = ope(lambda o, X, Y: o.K(X[:2], Y, eval_pointwise=True))
    F['ope/w'] = ope(lambda o, X, Y: o.eval_w(X))
    F['ope/phi'] = ope(lambda o, X, Y: o.eval_multiD_polynomials(X))
    for w in ('', 'BH', 'EZ'):
        F['ope/plot' + w] = ope(lambda o, X, Y, w=w: (o.plot(X, w), figure())[1])
    for w in ('', 'BH'):
        F['ope/plot1' + w] = ope(lambda o, X, Y, w=w: (o.plot(X, w), figure())[1], jp=((.5, .2),))

    def pot(op):
        def make():
            from dppy.beta_ensemble_polynomial_potential import BetaEnsemblePolynomialPotential as P
            v, s = np.poly1d([.25, 0, 0, 0, 3.]), np.linspace(-1, 1, 7)
            return (lambda: op(P(2, v), s)), [v.coeffs, s]
        return make
    F['pot/hist'] = pot(lambda p, s: (p.hist(s), figure())[1])
    F['pot/rescale'] = pot(lambda p, s: (p.sample_mcmc(N=3, nb_gibbs_passes=1, random_state=1),
                                         p.rescale_largest_eig_val(s))[1])
    return F


PLAIN = _plain()
