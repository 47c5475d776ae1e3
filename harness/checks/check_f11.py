"""F11: samplers working directly on a kernel, non symmetric or complex Hermitian included."""
import numpy as np
import vp
import kernels as kz

SC = 10**4


def scaled(a, sc):
    return [[int(np.clip(round(float(x) * sc), -10**9, 10**9)) for x in r] for r in np.asarray(a)]


def cscaled(a, sc):
    a = np.asarray(a, dtype=complex)
    return [[[int(round(x.real * sc)), int(round(x.imag * sc))] for x in r] for r in a]


def nonsym(seed, thorough):
    """Integer L = P + J, P positive semi-definite and J skew: every principal minor is >= 0."""
    rng = np.random.RandomState(seed + 33)
    out = {'skew2': np.array([[0, 2], [-2, 0]]), 'skew4': None, 'mix2': np.array([[1, 3], [-3, 1]]),
           'attract3': np.array([[1, 2, 0], [-2, 1, 1], [0, -1, 0]]), 'tri3': np.array([[1, 2, 3], [0, 1, 1], [0, 0, 2]]),
           'perm3': np.array([[1, 1, 0], [0, 1, 1], [1, 0, 1]]), 'one': np.array([[2]]), 'zero2': np.zeros((2, 2), int)}
    J = np.triu(rng.randint(-2, 3, size=(4, 4)), 1)
    out['skew4'] = J - J.T
    for j in range(40 if thorough else 10):
        n = int(rng.randint(2, 6))
        B = rng.randint(-1, 2, size=(int(rng.randint(1, n + 1)), n))
        J = np.triu(rng.randint(-2, 3, size=(n, n)), 1)
        out['rnd%d' % j] = B.T @ B + J - J.T
    return out


def complex_rows(seed, thorough):
    rng = np.random.RandomState(seed + 34)
    out = {'i2': [[1, 1j]], 'i3': [[1, 1j, 1 + 1j]], 'f3': [[1, 1, 1], [1, 1j, -1]],
           'real4': [[1, 0, 1, 2], [0, 1, 1, 1]], 'z4': [[1, 0, 1j, 0], [0, 0, 1, 1 - 1j]],
           'full2': [[1, 1j], [1j, 2]], 'd3': [[1, 1j, 0, 1], [0, 1, 1j, 1], [1, 0, 2, 1j]]}
    j = 0
    while j < (40 if thorough else 12):
        n = int(rng.randint(2, 6))
        d = int(rng.randint(1, min(n, 3) + 1))
        A = rng.randint(-1, 2, size=(d, n)) + 1j * rng.randint(-1, 2, size=(d, n))
        if np.linalg.matrix_rank(A) == d:
            out['rnd%d' % j] = A
            j += 1
    return {k: np.array(v, dtype=complex) for k, v in out.items()}


def run(c):
    from dppy.exact_sampling import (dpp_sampler_generic_kernel, proj_dpp_sampler_kernel,
                                     proj_dpp_sampler_kernel_Chol)
    out = []
    for name, L in nonsym(c.seed, c.thorough).items():
        n = len(L)
        K = L @ np.linalg.inv(np.eye(n) + L)
        if np.max(np.abs(np.linalg.inv(np.eye(n) + L))) > 50:
            continue

        def law(K=K):
            return vp.observe_law(lambda g: dpp_sampler_generic_kernel(K, random_state=g)[0], seed=c.seed)
        out.append(('generic/%s' % name, law, dict(what='law', model=kz.model('L', L, n), expect='law')))
        for s in range(20 if c.thorough else 6):
            def lu(K=K, s=s):
                def f():
                    X, A = dpp_sampler_generic_kernel(K, random_state=s)
                    LU = (np.tril(A, -1) + np.eye(len(A))) @ np.triu(A)
                    return dict(items=[int(x) for x in X], LU=scaled(LU, SC))
                return vp.observe(f, items=[], LU=[])
            out.append(('lu/%s/%d' % (name, s), lu, dict(what='lu', L=L.tolist(), sc=SC)))
    for name, B in kz.factors(c.seed, c.thorough).items():
        if B.shape[1] > 6:
            continue
        L = B.T @ B
        K = L @ np.linalg.inv(np.eye(len(L)) + L)
        for s in range(3):
            def lu(K=K, s=s):
                def f():
                    X, A = dpp_sampler_generic_kernel(K, random_state=s)
                    LU = (np.tril(A, -1) + np.eye(len(A))) @ np.triu(A)
                    return dict(items=[int(x) for x in X], LU=scaled(LU, SC))
                return vp.observe(f, items=[], LU=[])
            out.append(('lusym/%s/%d' % (name, s), lu, dict(what='lu', L=L.tolist(), sc=SC)))

    def chol(K, s, size):
        def f():
            X, C = proj_dpp_sampler_kernel_Chol(K, size=size, random_state=s)
            C = np.tril(C)
            return dict(CC=cscaled(C @ C.conj().T, 10**6), KX=cscaled(K[np.ix_(X, X)], 10**6))
        return lambda: vp.observe(f, CC=[], KX=[])

    for name, A in complex_rows(c.seed, c.thorough).items():
        n = A.shape[1]
        K = A.conj().T @ np.linalg.inv(A @ A.conj().T) @ A
        K = (K + K.conj().T) / 2
        # item probabilities of det(A_S) use K = A^H (A A^H)^-1 A
        m = dict(kind='C', n=n, M=[[[int(x.real), int(x.imag)] for x in r] for r in A])
        for how in ('wrapper', 'direct'):
            def law(K=K, how=how):
                if how == 'wrapper':
                    return vp.observe_law(lambda g: proj_dpp_sampler_kernel(K, 'Chol', random_state=g), seed=c.seed)
                return vp.observe_law(lambda g: proj_dpp_sampler_kernel_Chol(K, random_state=g)[0], seed=c.seed)
            out.append(('complex/%s/%s' % (name, how), law, dict(what='claw', model=m)))
        for s in range(20 if c.thorough else 6):
            for size in (None,) + tuple(range(1, len(A))):
                out.append(('chol/%s/%d/%s' % (name, s, size), chol(K, s, size), dict(what='chol')))
    for name, A in kz.rows(c.seed, c.thorough).items():
        if A.shape[1] <= 6:
            for s in range(6):
                out.append(('cholreal/%s/%d' % (name, s), chol(kz.proj(A), s, None), dict(what='chol')))
    c.conform(out, 'MC_Blocks', 'MC_Blocks.cfg')
