"""F01: exact samplers draw from the determinantal law."""
import vp
import kernels as kz


def law_case(rep, mode, seed):
    def f():
        return vp.observe_law(lambda rng: kz.build(rep).sample_exact(mode, random_state=rng),
                              seed=seed)
    return f


def cases(c):
    out = []

    def add(name, rep_name, rep, mode, m):
        out.append(('%s/%s/%s' % (name, rep_name, mode), law_case(rep, mode, c.seed),
                    dict(model=m, expect='law')))

    for name, B in kz.factors(c.seed, c.thorough).items():
        n = B.shape[1]
        m = kz.model('B', B, n)
        for rn, rep in kz.reps_L(B).items():
            for mode in ('GS', 'GS_bis', 'KuTa12', 'Chol'):
                add(name, rn, rep, mode, m)
    for name, A in kz.rows(c.seed, c.thorough).items():
        n = A.shape[1]
        m = kz.model('A', A, n)
        for rn, rep in kz.reps_A(A).items():
            modes = {'Kproj': ('GS', 'Chol', 'Schur')}.get(
                rn, ('GS', 'GS_bis', 'KuTa12', 'Chol', 'Schur') if rep[1]
                else ('GS', 'GS_bis', 'KuTa12', 'Chol'))
            for mode in modes:
                add(name, rn, rep, mode, m)
        if n <= 5:
            M, q = kz.scaled_proj(A)
            if int(q) ** n * int(abs(M).max()) ** 2 < 10**8:
                m = kz.model('L', M, n, q)
                for rn, rep in kz.reps_Lproj(A).items():
                    for mode in ('GS', 'GS_bis', 'KuTa12', 'Chol'):
                        add(name, rn, rep, mode, m)
    for name, (M, q) in kz.correlation(c.seed, c.thorough).items():
        n = len(M)
        m = kz.model('K', M, n, q)
        for rn, rep in kz.reps_K(M, q).items():
            for mode in ('GS', 'GS_bis', 'KuTa12', 'Chol'):
                add(name, rn, rep, mode, m)
    F = kz.factors(c.seed, c.thorough)
    for name in dict.fromkeys(('one', 'two', 'gen3', 'gen4', 'wide35', 'dup4', 'zeroitem', 'diag') + (
            tuple(F) if c.thorough else ())):
        if name in F:
            m = kz.model('B', F[name], F[name].shape[1])
            for rn, rep in kz.reps_int(F[name]).items():
                for mode in ('GS', 'GS_bis', 'KuTa12', 'Chol'):
                    add(name, rn, rep, mode, m)
    for name, A in kz.rows(c.seed, c.thorough).items():
        if A.shape[1] <= 5 or c.thorough:
            m = kz.model('A', A, A.shape[1])
            for mode in ('GS', 'GS_bis', 'KuTa12', 'Chol', 'Schur'):
                add(name, 'A_zono_int', ('correlation', True, dict(A_zono=A.astype(int))), mode, m)
    B, A = kz.far(c.seed)
    for rn, rep in kz.reps_L(B).items():
        for mode in ('GS', 'GS_bis', 'KuTa12', 'Chol'):
            add('far', rn, rep, mode, kz.model('B', B, B.shape[1]))
    for rn, rep in kz.reps_A(A).items():
        for mode in (('GS', 'Chol', 'Schur') if rn == 'Kproj' else
                     ('GS', 'GS_bis', 'KuTa12', 'Chol') + (('Schur',) if rep[1] else ())):
            add('farA', rn, rep, mode, kz.model('A', A, A.shape[1]))
    for name, w in kz.INT_K.items():
        m = kz.model('K', kz.np.diag(w), len(w))
        for rn, rep in kz.reps_K_int(w).items():
            for mode in ('GS', 'Chol', 'Schur') if rn == 'Kproj_int' else (
                    'GS', 'GS_bis', 'KuTa12', 'Chol'):
                add('int' + name, rn, rep, mode, m)
    return out


def run(c):
    c.conform(cases(c), 'MC_Law', 'MC_Law.cfg')
