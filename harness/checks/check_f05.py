"""F05: MCMC trajectories are well formed and respect their parameters."""
import itertools
import numpy as np
import vp
import kernels as kz


def traj_case(rep, mode, seed, nb, init, size, tmax, kdpp=False):
    T = {'none': None, 'large': 1e6, 'tiny': 1e-9}[tmax]

    def f():
        def go(T):
            d = kz.build(rep)
            p = dict(random_state=seed)
            if nb is not None:
                p['nb_iter'] = nb
            if T is not None:
                p['T_max'] = T
            s0 = None
            if init is not None:
                s0 = list(init)
                p['s_init'] = s0
            with vp.quiet():
                if kdpp:
                    r = d.sample_mcmc_k_dpp(size, **p)
                else:
                    if size is not None:
                        p['size'] = size
                    r = d.sample_mcmc(mode, **p)
            chain = [[int(x) for x in s] for s in d.list_of_samples[-1]]
            return d, r, chain, s0

        o = dict(outcome='ok', chain=[], ref=[], returned=[], recorded=0, untouched=True)
        try:
            d, r, chain, s0 = go(T)
            o.update(chain=chain, returned=[int(x) for x in r], recorded=len(d.list_of_samples),
                     untouched=s0 is None or s0 == list(init))
            if T is not None:
                o['ref'] = go(None)[2]
        except Exception as e:
            o['outcome'] = type(e).__name__
            o['message'] = str(e)[:200]
        return o
    return f


def cases(c):
    out = []
    F = kz.factors(c.seed, c.thorough)
    rng = np.random.RandomState(c.seed)

    def add(cid, m, mode, thunk, nb, init, tmax):
        out.append((cid, thunk, dict(model=m, mode=mode, nb=10 if nb is None else nb,
                                     given=init is not None, init=list(init or []), tmax=tmax)))

    nseeds = 12 if c.thorough else 3
    for name in ('one', 'two', 'gen3', 'gen4', 'wide35', 'tall43', 'dup4', 'rank1', 'zeroitem',
                 'block', 'rnd0', 'rnd1', 'big2x24'):
        B = F[name]
        n = B.shape[1]
        rk = kz.rank(B)
        reps = kz.reps_L(B)
        m = kz.model('B', B, n)
        for rn in ('L', 'L_gram_factor', 'L_eval_X_data', 'K_eig_dec'):
            for mode in ('AD', 'AED', 'E'):
                for s in range(nseeds):
                    sd = int(rng.randint(1 << 30))
                    init = None
                    size = None
                    mm = m
                    if mode == 'E':
                        size = 1 + s % rk
                        mm = dict(m, card=size)
                    if name == 'big2x24' and mode != 'E':
                        init = [0, 23]
                    if s % 3 == 1:
                        for t in itertools.combinations(range(n), size or min(2, rk)):
                            if np.linalg.det(B[:, t].T @ B[:, t]) > .5:
                                init = [int(x) for x in rng.permutation(t)]
                                break
                    if s % 3 == 2 and mode != 'E':
                        init = []
                    nb = [60, 25, None, 1, 2][s % 5]
                    if rk < n and mode == 'AD' and init is None and name == 'rank1':
                        init = [1]
                    add('%s/%s/%s/s%d' % (name, rn, mode, s), mm, mode,
                        traj_case(reps[rn], mode, sd, nb, init, size, 'none',
                                  kdpp=mode == 'E' and s % 2 == 0), nb, init, 'none')
                if rn == 'L' and name in ('gen4', 'wide35', 'two', 'big2x24'):
                    init = [0] if mode == 'E' or name != 'big2x24' else [0, 23]
                    size = 1 if mode == 'E' else None
                    mm = dict(m, card=1) if mode == 'E' else m
                    for tmax, nb in (('large', 40), ('tiny', 3000)):
                        add('%s/%s/%s/T%s' % (name, rn, mode, tmax), mm, mode,
                            traj_case(reps[rn], mode, 5 + c.seed, nb, init, size, tmax),
                            nb, init, tmax)
    big = rng.randint(-1, 2, size=(3, 300))
    big[:, [3, 150, 299]] = np.eye(3)
    m = kz.model('B', big, 300)
    for rn in ('L', 'L_gram_factor'):
        for mode in ('AD', 'AED', 'E'):
            for s, init in enumerate(([299, 3], [150], [150, 299, 3])):
                sd = int(rng.randint(1 << 30))
                size = len(init) if mode == 'E' else None
                mm = dict(m, card=size) if mode == 'E' else m
                add('big3x300/%s/%s/s%d' % (rn, mode, s), mm, mode,
                    traj_case(kz.reps_L(big)[rn], mode, sd, 120, init, size, 'none'),
                    120, init, 'none')
    for name, A in kz.rows(c.seed, c.thorough).items():
        d, n = A.shape
        m = kz.model('A', A, n, card=d)
        reps = kz.reps_A(A)
        for rn in ('A_zono', 'Kproj'):
            for s in range(2):
                add('%s/%s/E/s%d' % (name, rn, s), m, 'E',
                    traj_case(reps[rn], 'E', c.seed + s, 30, None, d, 'none', kdpp=s == 1),
                    30, None, 'none')
    return out


def run(c):
    c.conform_traces(cases(c), 'MC_Trajectory', 'MC_Trajectory.cfg')
