"""F09: which descriptions of a finite DPP, and which calls, are accepted or refused."""
import itertools
import numpy as np
import vp
import kernels as kz

ORTH = {'id3': (np.eye(3, dtype=int), 1),
        'hh3': (np.array([[1, 2, 2], [2, 1, -2], [2, -2, 1]]), 3),
        'had4': (np.array([[1, 1, 1, 1], [1, -1, 1, -1], [1, 1, -1, -1], [1, -1, -1, 1]]), 2)}
BADV = {'twice': (np.array([[1, 1], [0, 0], [0, 0]]), 1),
        'long': (np.array([[2, 0], [0, 1], [0, 0]]), 1),
        'oblique': (np.array([[1, 1], [0, 1]]), 1),
        'firstonly': (np.array([[1, 0, 1], [0, 1, 1], [0, 0, 1]]), 1)}


def mats(rng, n, count, lo=-3, hi=4):
    for _ in range(count):
        a = rng.randint(lo, hi, size=(n, n))
        yield a + a.T
        yield a


def par_mat(key, M, q):
    return (dict(key=key, M=np.asarray(M).tolist(), q=q), {key: np.asarray(M) / q})


def par_eig(key, w, q, V, r):
    return (dict(key=key, w=list(w), q=q, V=V.tolist(), r=r),
            {key: (np.array(w) / q, V[:, :len(w)] / r)})


class NotAKernel(object):
    pass


def run(c):
    rng = np.random.RandomState(c.seed + 9)
    out = []
    seen = set()

    def case(kt, proj, params):
        def f():
            from dppy.finite_dpps import FiniteDPP
            box = {}
            made = vp.observe(lambda: box.update(d=FiniteDPP(kt, proj, **params)))['outcome']
            r = dict(outcome='ok', made=made, drawn='none', again='none', isproj=False)
            if made == 'ok':
                d = box['d']
                r['isproj'] = d.projection is True
                r['drawn'] = vp.observe(lambda: d.sample_exact(random_state=c.seed) and None)['outcome']
                r['again'] = vp.observe(lambda: d.sample_exact(random_state=c.seed + 1) and None)['outcome']
            return r
        return f

    def add(name, kt, proj, *pars):
        desc, params = [p[0] for p in pars], {}
        for p in pars:
            params.update(p[1])
        pn = {True: 'true', False: 'false'}[proj] if isinstance(proj, bool) else type(proj).__name__
        i = '%s/%s/%s/%s' % (name, kt, pn, '+'.join(d['key'] for d in desc))
        while i in seen:
            i += "'"
        seen.add(i)
        out.append((i, case(kt, proj, params),
                    dict(what='describe', type=kt, projection=pn, params=desc,
                         zono=any(d['key'] == 'A_zono' for d in desc))))

    P2 = np.array([[1, 1], [1, 1]])
    H = ORTH['hh3'][0]
    P3 = np.outer(H[0], H[0]) + np.outer(H[1], H[1])
    sym = [('half', np.array([[2, 1], [1, 2]]), 4), ('proj2', P2, 2), ('proj3', P3, 9),
           ('big', np.array([[3, 0], [0, 1]]), 2), ('neg', np.array([[1, 2], [2, 1]]), 4),
           ('zero', np.zeros((3, 3), int), 1), ('id', np.eye(3, dtype=int), 1),
           ('asym', np.array([[1, 1], [0, 1]]), 4), ('slightly', np.array([[1000, 1], [0, 1000]]), 2000),
           ('rect', np.array([[1, 0, 0], [0, 1, 0]]), 2), ('one', np.array([[1]]), 3),
           ('lastrow', np.array([[2, 1, 0], [1, 2, 1], [0, 2, 2]]), 6),
           ('negone', np.array([[4, 0, 0], [0, 4, 0], [0, 0, -1]]), 8),
           ('aboveone', np.array([[4, 0, 0], [0, 4, 0], [0, 0, 9]]), 8)]
    n = 40 if c.thorough else 12
    for s in (2, 3, 4):
        for j, M in enumerate(mats(rng, s, n)):
            sym.append(('rnd%d_%d' % (s, j), M, int(rng.choice([1, 4, 8]))))
    # symmetric matrices that share some aggregate of a projection without being one
    fake = []
    for q in (2, 5):
        for a, b, d, e in itertools.product(range(-1, q + 2), (0, 1, 2), range(-1, q + 2), range(-1, q + 2)):
            M = np.array([[a, b, 0], [b, d, 0], [0, 0, e]])
            if np.array_equal(M @ M, q * M):
                continue
            same = [np.trace(M @ M) == q * np.trace(M), (M @ M).sum() == q * M.sum(),
                    M[0] @ M[0] == q * a, M[:2, 1] @ M[:2, 1] == q * d,
                    round(np.linalg.det(M)) in (0, q**3) and np.trace(M) % q == 0]
            if any(same):
                fake.append((tuple(same), (a, b, d, e, q), M))
    for key in sorted({f[0] for f in fake}):
        grp = [f for f in fake if f[0] == key]
        for i in rng.choice(len(grp), size=min(len(grp), 30 if c.thorough else 6), replace=False):
            sym.append(('fake%s' % (grp[i][1],), grp[i][2], grp[i][1][-1]))
    for nm, M, q in sym:
        for proj in (False, True):
            M2 = M @ M if M.shape[0] == M.shape[1] else None
            if proj and M2 is not None and np.array_equal(np.diag(M2), q * np.diag(M)) \
                    and not np.array_equal(M2, q * M):
                continue           # only the diagonal is tested: no claim in between
            add(nm, 'correlation', proj, par_mat('K', M, q))
            add(nm, 'likelihood', proj, par_mat('L', M, q))
    eigs = [[0, 1, 2], [1, 1, 0], [2, 2, 0], [-1, 1, 0], [3, 1, 1], [0, 0, 0], [2, 0, -2], [1, 2, 5],
            [2, 2, 2], [0, 0, 2], [0, 0, 1], [2, 0, 3]]
    for vn, (V, r) in ORTH.items():
        for w in eigs:
            w = (w + [2])[:V.shape[1]]
            for proj in (False, True):
                add('%s%s' % (vn, w), 'correlation', proj, par_eig('K_eig_dec', w, 2, V, r))
                add('%s%s' % (vn, w), 'likelihood', proj, par_eig('L_eig_dec', w, 2, V, r))
    for vn, (V, r) in BADV.items():
        for key, kt in (('K_eig_dec', 'correlation'), ('L_eig_dec', 'likelihood')):
            add(vn, kt, False, par_eig(key, [1] * V.shape[1], 2, V, r))
            add(vn, kt, True, par_eig(key, [2] * V.shape[1], 2, V, r))
    rows = [np.array([[1, 0, 1], [0, 1, 1]]), np.array([[1, 2, 3], [2, 4, 6]]), np.array([[1], [1]]),
            np.array([[1, 1, 0], [0, 1, 1], [1, 2, 1]]), np.array([[2]]), np.array([[0, 0]])]
    rows += [rng.randint(-1, 2, size=(int(rng.randint(1, 4)), int(rng.randint(1, 5)))) for _ in range(3 * n)]
    for j, A in enumerate(rows):
        for proj in (True, False):
            add('zono%d' % j, 'correlation', proj,
                (dict(key='A_zono', M=A.tolist(), q=1), {'A_zono': A.astype(float)}))
    phi = np.array([[1., 0, 1], [0, 1, 1]])
    gram = (dict(key='L_gram_factor'), {'L_gram_factor': phi})
    lin = kz_linear()
    X = np.array([[1., 0], [1, 1], [0, 2]])
    ev = lambda cb, x, f: (dict(key='L_eval_X_data', callable=cb, ndim=x.ndim, size=int(x.size)),  # noqa: E731
                           {'L_eval_X_data': (f, x)})
    okK, okL = par_mat('K', np.eye(3, dtype=int), 2), par_mat('L', np.eye(3, dtype=int), 2)
    unk = (dict(key='M'), {'M': np.eye(3)})
    evs = [('ok', ev(True, X, lin)), ('flat', ev(True, X[0], lin)), ('cube', ev(True, X[None], lin)),
           ('empty', ev(True, X[:0], lin)), ('nocol', ev(True, X[:, :0], lin)),
           ('notcallable', ev(False, X, NotAKernel())), ('matrix', ev(False, X, X @ X.T))]
    for nm, p in evs:
        add(nm, 'likelihood', False, p)
        add(nm, 'correlation', False, p)
    add('gram', 'likelihood', False, gram)
    for kt in ('correlation', 'likelihood', 'kernel', '', None, 'Correlation', 'L'):
        for proj in (False, True, None, 1, 'no', 0.0, 0):
            for p in (okK, okL, gram, unk, (dict(key='A_zono', M=[[1, 0, 1]], q=1),
                                            {'A_zono': np.array([[1., 0, 1]])})):
                if kt is None:
                    continue
                if proj is True and p[0]['key'] in ('K', 'L'):
                    p = par_mat(p[0]['key'], P2, 2)
                add('type', kt, proj, p)
            add('type', str(kt), proj)
    add('two', 'correlation', False, okK, unk)
    add('two', 'correlation', False, okK, par_mat('L', np.array([[1, 1], [0, 1]]), 1))
    add('two', 'likelihood', False, par_mat('K', np.array([[1, 1], [0, 1]]), 1), okL)
    refuse(c, out)
    c.conform(out, 'MC_Kernels', 'MC_Kernels.cfg')


def kz_linear():
    from dppy.utils import example_eval_L_linear
    return example_eval_L_linear


# ------------------------------------------------------------------ calls that cannot be served
def refuse(c, out):
    from dppy.finite_dpps import FiniteDPP
    B = np.array([[1, 0, 1, 1], [0, 1, 1, 2], [0, 0, 1, 0], [1, 0, 0, 3]])
    L = (B.T @ B).astype(float)
    K = L @ np.linalg.inv(np.eye(4) + L)
    K = (K + K.T) / 2
    A = np.array([[1., 0, 1, 1], [0, 1, 1, 2]])
    Q = np.linalg.qr(A.T)[0]
    P = Q @ Q.T
    wL, V = np.linalg.eigh(L)
    lin = kz_linear()
    mk = {'L': lambda: FiniteDPP('likelihood', L=L),
          'L_eig': lambda: FiniteDPP('likelihood', L_eig_dec=(wL, V)),
          'gram': lambda: FiniteDPP('likelihood', L_gram_factor=A),
          'gramtall': lambda: FiniteDPP('likelihood', L_gram_factor=B.astype(float)),
          'eval': lambda: FiniteDPP('likelihood', L_eval_X_data=(lin, B.T.astype(float))),
          'K': lambda: FiniteDPP('correlation', K=K),
          'K_eig': lambda: FiniteDPP('correlation', K_eig_dec=(wL / (1 + wL), V)),
          'P': lambda: FiniteDPP('correlation', True, K=P),
          'P_eig': lambda: FiniteDPP('correlation', True, K_eig_dec=(np.ones(2), Q)),
          'zono': lambda: FiniteDPP('correlation', True, A_zono=A),
          'Lproj': lambda: FiniteDPP('likelihood', True, L=P)}
    isP = ('P', 'P_eig', 'zono')
    rank = {o: 2 for o in ('P', 'P_eig', 'zono', 'Lproj', 'gram')}

    calls = []
    for o in mk:
        for mode in ('nope', '', 'gs', 'GS ', 'AED'):
            calls.append((o, 'exact(%r)' % mode, lambda d, m=mode: d.sample_exact(m, random_state=1)))
            calls.append((o, 'kdpp(%r)' % mode, lambda d, m=mode: d.sample_exact_k_dpp(2, m, random_state=1)))
            if mode != 'AED':
                calls.append((o, 'mcmc(%r)' % mode, lambda d, m=mode: d.sample_mcmc(m, random_state=1)))
        calls.append((o, 'mcmc(GS)', lambda d: d.sample_mcmc('GS', random_state=1)))
        if o != 'eval':
            for m in ('vfx', 'alpha'):
                calls.append((o, 'exact(%s)' % m, lambda d, m=m: d.sample_exact(m, random_state=1)))
                calls.append((o, 'kdpp(%s)' % m, lambda d, m=m: d.sample_exact_k_dpp(2, m, random_state=1)))
        if o not in isP:
            calls.append((o, 'exact(Schur)', lambda d: d.sample_exact('Schur', random_state=1)))
        if o != 'zono':
            calls.append((o, 'mcmc(zonotope)', lambda d: d.sample_mcmc('zonotope', random_state=1)))
        if o in isP:
            calls.append((o, 'compute_L', lambda d: d.compute_L()))
            for m in ('AED', 'AD'):
                calls.append((o, 'mcmc(%s)' % m, lambda d, m=m: d.sample_mcmc(m, random_state=1)))
            for s in (1, 3, 4, 7):
                calls.append((o, 'mcmcE(%d)' % s, lambda d, s=s: d.sample_mcmc('E', size=s, random_state=1)))
                calls.append((o, 'mcmckdpp(%d)' % s, lambda d, s=s: d.sample_mcmc_k_dpp(s, random_state=1)))
                for m in ('GS', 'Chol', 'Schur'):
                    calls.append((o, 'kdpp(%d,%s)' % (s, m),
                                  lambda d, s=s, m=m: d.sample_exact_k_dpp(s, m, random_state=1)))
            calls.append((o, 'mcmcE()', lambda d: d.sample_mcmc('E', random_state=1)))
        calls.append((o, 'seed', lambda d: d.sample_exact(random_state='seed')))
        calls.append((o, 'seedlist', lambda d: d.sample_exact_k_dpp(2, random_state=[1, 2])))

    pre = {'fresh': lambda d: None,
           'sampled': lambda d: d.sample_exact(random_state=3),
           'kernel': lambda d: d.compute_K(),
           'k': lambda d: d.sample_exact_k_dpp(2, random_state=3)}

    def case(o, call, p):
        def f():
            d = mk[o]()
            pre[p](d)
            before = [list(s) for s in d.list_of_samples]
            r = vp.observe(lambda: call(d) and None)['outcome']
            r2 = vp.observe(lambda: call(d) and None)['outcome']
            kept = [list(s) for s in d.list_of_samples] == before
            # the object still serves what it served before
            still = vp.observe(lambda: d.sample_exact(random_state=4) and None)['outcome']
            return dict(outcome=r, second=r2, kept=bool(kept), still=still)
        return f
    for o, cn, call in calls:
        for p in pre:
            out.append(('refuse/%s/%s/%s' % (o, cn, p), case(o, call, p),
                        dict(what='refuse', expect='ValueError')))
