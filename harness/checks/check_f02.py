"""F02: k-DPP samplers draw subsets of exactly k items with the right law."""
import vp
import kernels as kz


def law_case(rep, k, mode, seed):
    def f():
        return vp.observe_law(
            lambda rng: kz.build(rep).sample_exact_k_dpp(k, mode, random_state=rng), seed=seed)
    return f


def cases(c):
    out = []

    def add(name, rep_name, rep, k, mode, m, expect='law'):
        out.append(('%s/%s/k%d/%s' % (name, rep_name, k, mode), law_case(rep, k, mode, c.seed),
                    dict(model=dict(m, card=k), expect=expect)))

    eigmodes = ('GS', 'GS_bis', 'KuTa12')
    for name, B in kz.factors(c.seed, c.thorough).items():
        n = B.shape[1]
        r = kz.rank(B)
        m = kz.model('B', B, n)
        for rn, rep in kz.reps_L(B).items():
            for k in range(1, r + 1):
                for mode in eigmodes:
                    add(name, rn, rep, k, mode, m)
            add(name, rn, rep, n + 1, 'GS', m, 'error')
        for rn, rep in kz.reps_scaled(B).items() if n <= 5 else ():
            for k in range(1, r + 1):
                for mode in eigmodes if rn.startswith('L_gram') else eigmodes[:1]:
                    add(name, rn, rep, k, mode, m)
    for name, A in kz.rows(c.seed, c.thorough).items():
        n = A.shape[1]
        d = len(A)
        m = kz.model('A', A, n)
        for rn, rep in kz.reps_A(A).items():
            if not rep[1]:
                continue        # eigenvalues equal to 1: no likelihood kernel
            modes = {'Kproj': ('GS', 'Chol', 'Schur')}.get(rn, eigmodes)
            for mode in modes:
                add(name, rn, rep, d, mode, m)
            for k in (d - 1, d + 1):
                if k >= 1:
                    add(name, rn, rep, k, modes[0], m, 'ValueError')
        # projection likelihood kernel: any k <= rank
        if n <= 6:
            M, q = kz.scaled_proj(A)
            if int(abs(M).max()) ** d < 10**7:
                m = kz.model('M', M, n, q)
                for rn, rep in kz.reps_Lproj(A).items():
                    modes = ('GS', 'Chol', 'Schur') if rn == 'Lproj' else eigmodes
                    for k in range(1, d + 1):
                        for mode in modes:
                            add(name, rn, rep, k, mode, m)
                    add(name, rn, rep, d + 1, modes[0], m, 'ValueError')
    F = kz.factors(c.seed, c.thorough)
    for name in dict.fromkeys(('one', 'two', 'gen3', 'gen4', 'wide35', 'dup4', 'zeroitem', 'diag') + (
            tuple(F) if c.thorough else ())):
        if name in F:
            m = kz.model('B', F[name], F[name].shape[1])
            for rn, rep in kz.reps_int(F[name]).items():
                for k in range(1, kz.rank(F[name]) + 1):
                    for mode in eigmodes:
                        add(name, rn, rep, k, mode, m)
    B, A = kz.far(c.seed)
    for rn, rep in kz.reps_L(B).items():
        for k in (1, 2):
            for mode in eigmodes:
                add('far', rn, rep, k, mode, kz.model('B', B, B.shape[1]))
    for rn, rep in kz.reps_A(A).items():
        if rep[1]:
            for mode in ('GS', 'Chol', 'Schur') if rn == 'Kproj' else eigmodes:
                add('farA', rn, rep, 2, mode, kz.model('A', A, A.shape[1]))
    for name, w in kz.INT_K.items():
        m = kz.model('K', kz.np.diag(w), len(w))
        for rn, rep in kz.reps_K_int(w).items():
            if rep[1]:
                for mode in ('GS', 'Chol', 'Schur') if rn == 'Kproj_int' else eigmodes:
                    add('int' + name, rn, rep, sum(w), mode, m)
    return out


def run(c):
    c.conform(cases(c), 'MC_Law', 'MC_Law.cfg')
