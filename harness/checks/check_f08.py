"""F08: the correlation and likelihood kernels of one object describe one law."""
import numpy as np
import vp
import kernels as kz
import objects

PREFIX = {
    'KL': ('K', 'L'), 'LK': ('L', 'K'), 'KKLL': ('K', 'K', 'L', 'L'),
    'exact': ('exactGS', 'L', 'K'), 'chol': ('exactChol', 'K', 'L'), 'kdpp': ('kdppGS', 'K', 'L'),
    'mcmc': ('mcmcAED', 'K', 'L'), 'kdppE': ('mcmcE', 'L', 'K'), 'bis': ('exactGS_bis', 'kdppKuTa12', 'K', 'L'),
    'schur': ('exactSchur', 'L', 'K'), 'Kflush': ('K', 'flush', 'exactGS', 'L'),
}


def step(d, op, k, seed):
    if op == 'K':
        d.compute_K()
    elif op == 'L':
        d.compute_L()
    elif op == 'flush':
        d.flush_samples()
    elif op.startswith('exact'):
        d.sample_exact(op[5:], random_state=seed)
    elif op.startswith('kdpp'):
        d.sample_exact_k_dpp(k, op[4:], random_state=seed)
    elif op == 'mcmcE':
        d.sample_mcmc_k_dpp(k, nb_iter=4, random_state=seed)
    else:
        d.sample_mcmc(op[4:], nb_iter=4, random_state=seed)


def case(rep, ops, k, sc, seed):
    def f():
        def ints(a):
            if a is None:
                return []
            return [[int(np.clip(round(float(x) * sc), -10**9, 10**9)) for x in r] for r in np.asarray(a)]

        d = kz.build(rep)
        for op in ops:
            vp.observe(lambda: step(d, op, k, seed) and None)
        outK = vp.observe(lambda: d.compute_K() and None)['outcome']
        K = d.K if outK == 'ok' else None
        outL = vp.observe(lambda: d.compute_L() and None)['outcome']
        L = d.L if outL == 'ok' else None
        K0, L0 = ints(K), ints(L)
        for op in ops:
            vp.observe(lambda: step(d, op, k, seed + 1) and None)
        again = (outK != 'ok' or ints(d.K) == K0) and (outL != 'ok' or ints(d.L) == L0)
        return dict(outcome='ok', outK=outK, outL=outL, K=K0, L=L0, again=bool(again))
    return f


def run(c):
    out = []

    def add(name, rn, rep, m, k, sc, eK='ok', eL='ok'):
        for pn, ops in PREFIX.items():
            out.append(('%s/%s/%s' % (name, rn, pn), case(rep, ops, k, sc, c.seed),
                        dict(what='kernels', model=m, sc=sc, expectK=eK, expectL=eL)))
    for name, B in kz.factors(c.seed, c.thorough).items():
        if B.shape[1] > 8:
            continue
        for rn, rep in kz.reps_L(B).items():
            if name.startswith('steep') and rn.startswith('K'):
                continue                                    # L = K (I - K)^-1 is ill-conditioned
            add(name, rn, rep, kz.model('L', B.T @ B, B.shape[1]), min(2, kz.rank(B)),
                10**4 if name.startswith('steep') else 10**5)
    for name, (M, q) in kz.correlation(c.seed, c.thorough).items():
        inv = np.linalg.det(q * np.eye(len(M)) - M) > 0.5
        for rn, rep in kz.reps_K(M, q).items():
            if inv:
                add(name, rn, rep, kz.model('K', M, len(M), q), 1, 10**5)
            elif rn == 'K_eig_dec' and np.any(rep[2]['K_eig_dec'][0] == 1):
                add(name, rn, rep, kz.model('K', M, len(M), q), 1, 10**5, eL='error')
    for name, A in kz.rows(c.seed, c.thorough).items():
        if A.shape[1] > 8:
            continue
        for rn, rep in kz.reps_A(A).items():
            if rep[1]:
                add(name, rn, rep, kz.model('A', A, A.shape[1]), len(A), 10**4, eL='ValueError')
        M, q = kz.scaled_proj(A)
        if q <= 60:
            for rn, rep in kz.reps_Lproj(A).items():
                add(name, rn, rep, kz.model('L', M, A.shape[1], q), len(A), 10**5)
    c.conform(out, 'MC_Kernels', 'MC_Kernels.cfg')
