"""F04: the MCMC samplers leave the target law invariant."""
import itertools
import numpy as np
import vp
import kernels as kz


def minors(L, sizes):
    n = len(L)
    for k in sizes:
        for S in itertools.combinations(range(n), k):
            if k == 0 or round(np.linalg.det(L[np.ix_(S, S)]), 6) > 1e-6:
                yield S


def chain_case(rep, mode, starts, depth, seed, extra=()):
    def f():
        rows, paths, outcome, msg, n = [], [], 'law', '', 0
        tol = 5

        def run(s, nb, canon):
            def g(rng):
                d = kz.build(rep)
                kw = dict(s_init=list(s), nb_iter=nb, random_state=rng)
                if mode == 'E':
                    last = (d.sample_mcmc_k_dpp(len(s), **kw) if extra == 'kdpp'
                            else d.sample_mcmc('E', size=len(s), **kw))
                else:
                    last = d.sample_mcmc(mode, **kw)
                chain = d.list_of_samples[-1]
                if list(last) != list(chain[-1]):
                    raise AssertionError('returned state is not the last of the chain')
                return canon(chain)
            return vp.observe_law(g, canon=lambda x: x, seed=seed, max_paths=40000)

        for s in starts:
            o = run(s, 2, lambda ch: vp.as_items(ch[-1]))
            n += o['paths']
            if o['outcome'] != 'law':
                outcome, msg = o['outcome'], o.get('message', '')
                break
            tol = max(tol, o['tol'] if o['tol'] > 50 else 5)
            rows.append({'from': list(s), 'law': o['law']})
        if outcome == 'law' and depth:
            for s in starts[:2] + starts[-1:]:
                o = run(s, depth + 1, lambda ch: tuple(vp.as_items(x) for x in ch))
                n += o['paths']
                if o['outcome'] != 'law':
                    outcome, msg = o['outcome'], o.get('message', '')
                    break
                tol = max(tol, o['tol'] if o['tol'] > 50 else 5)
                paths += [dict(t=[list(x) for x in e['s']], p=e['p']) for e in o['law']]
        return dict(outcome=outcome, message=msg, rows=rows, paths=paths, tol=tol,
                    ptol=tol + 10 * depth, npaths=n, method='enumerated')
    return f


def cases(c):
    out = []
    F = kz.factors(c.seed, c.thorough)
    names = ['one', 'two', 'gen3', 'tall43', 'wide24', 'diag4', 'dup4', 'rank1', 'zeroitem',
             'block', 'ident3'] + (['gen4', 'wide35', 'rnd0', 'rnd1', 'defic33'] if c.thorough else [])

    def add(name, rn, mode, rep, m, starts, depth, extra=()):
        out.append(('%s/%s/%s%s' % (name, rn, mode, '/kdpp' if extra else ''),
                    chain_case(rep, mode, starts, depth, c.seed, extra),
                    dict(model=m, mode=mode)))

    for name in names:
        B = F[name]
        n = B.shape[1]
        L = B.T @ B
        reps = kz.reps_L(B)
        for rn in (reps if c.thorough or name in ('gen3', 'two') else ('L', 'K')):
            for mode in ('AD', 'AED'):
                starts = [s for s in minors(L, range(n + 1))]
                m = kz.model('B', B, n)
                add(name, rn, mode, reps[rn], m, starts, 2 if n <= 3 or mode == 'AD' else 1)
            for k in range(1, min(n, kz.rank(B)) + 1):
                starts = [s for s in minors(L, [k])]
                m = kz.model('B', B, n, card=k)
                add(name, '%s/k%d' % (rn, k), 'E', reps[rn], m, starts, 2,
                    'kdpp' if k % 2 else ())
    # fixed size: the unit of the kernel does not matter, however small or large
    for name in ('gen3', 'tall43', 'wide24', 'two'):
        B = F[name]
        n = B.shape[1]
        for rn, rep in kz.reps_scaled(B).items():
            for k in range(1, kz.rank(B) + 1):
                if rn.startswith('L_') and rn.split('_')[1] in ('tiny', 'huge', 'gram'):
                    add(name, '%s/k%d' % (rn, k), 'E', rep, kz.model('B', B, n, card=k),
                        list(minors(B.T @ B, [k])), 1, 'kdpp' if k % 2 else ())
    B, A = kz.far(c.seed)
    n = B.shape[1]
    reps = kz.reps_L(B)
    pos = [i for i in range(n) if B[:, i].any()]
    starts = [()] + [(i,) for i in pos] + [
        s for s in itertools.combinations(pos, 2) if abs(np.linalg.det(B[:, s])) > .5]
    add('far', 'L_gram_factor', 'AD', reps['L_gram_factor'], kz.model('B', B, n), starts, 0)
    starts = [s[::(-1)**i] for i, s in enumerate(itertools.combinations(pos, 2))
              if abs(np.linalg.det(B[:, s])) > .5]
    add('far', 'L', 'E', reps['L'], kz.model('B', B, n, card=2), starts, 0, 'kdpp')
    add('far', 'L', 'E', reps['L'], kz.model('B', B, n, card=2), starts, 0)
    for name, A in kz.rows(c.seed, c.thorough).items():
        d, n = A.shape
        if n > 5:
            continue
        starts = [s for s in itertools.combinations(range(n), d)
                  if abs(np.linalg.det(A[:, s].astype(float))) > 1e-6]
        m = kz.model('A', A, n, card=d)
        reps = kz.reps_A(A)
        for rn in ('A_zono', 'Kproj', 'K_eig_proj'):
            add(name, rn, 'E', reps[rn], m, starts, 2, 'kdpp' if rn == 'Kproj' else ())
    return out


def run(c):
    c.model('MC_MCMC', 'MC_MCMC.cfg', workers=2)
    c.conform(cases(c), 'MC_Chain', 'MC_Chain.cfg', limit=200)
