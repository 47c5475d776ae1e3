"""Integer models of finite DPPs and the ways of handing them to FiniteDPP."""
import itertools
import numpy as np


def model(kind, M, n, q=1, card=-1):
    return dict(kind=kind, M=[[int(x) for x in r] for r in np.asarray(M)], q=int(q), n=int(n),
                card=int(card))


def idet(M):
    return int(round(np.linalg.det(np.asarray(M, dtype=float)))) if len(M) else 1


# ---------------------------------------------------------------- integer factors B (L = B^T B)
def factors(seed, thorough=False):
    """{name: B}, B an integer d x N matrix; L = B^T B."""
    rng = np.random.RandomState(1000 + seed)
    F = {}
    F['one'] = [[2]]
    F['two'] = [[1, 1], [0, 2]]
    F['gen3'] = [[1, 0, 1], [1, 2, 0], [0, 1, 1]]
    F['gen4'] = [[1, 0, 2, 1], [0, 1, 1, 2], [1, 1, 0, 0], [0, 0, 1, 1]]
    F['wide24'] = [[1, 2, 0, 1], [0, 1, 1, -1]]              # d < N, rank 2
    F['wide35'] = [[1, 0, 1, 0, 1], [0, 1, 1, 0, -1], [0, 0, 1, 1, 1]]
    F['tall43'] = [[1, 0, 1], [0, 1, 1], [1, 1, 0], [1, -1, 0]]
    F['diag4'] = [[1, 0, 0, 0], [0, 2, 0, 0], [0, 0, 1, 0], [0, 0, 0, 3]]
    F['dup4'] = [[1, 1, 0, 0], [0, 0, 1, 1], [0, 0, 1, 1]]    # identical items, repeated structure
    F['rank1'] = [[1, 2, -1, 1]]
    F['zeroitem'] = [[1, 0, 1, 1], [0, 0, 1, 2], [1, 0, 0, 1]]   # item 1 never sampled
    F['defic33'] = [[1, 1, 0, 1], [1, 1, 0, 1], [0, 1, 1, 0]]    # wide and row rank deficient
    F['block'] = [[1, 1, 0, 0], [1, -1, 0, 0], [0, 0, 1, 2], [0, 0, 1, 0]]
    F['ident3'] = [[1, 0, 0], [0, 1, 0], [0, 0, 1]]
    F['steep2'] = [[300, 1], [0, 2]]                          # eigenvalues orders of magnitude apart
    F['steep3'] = [[200, 100, 0], [0, 1, 0], [0, 0, 1]]
    for r in range(4 if thorough else 2):
        d, n = [(4, 4), (3, 4), (5, 5), (2, 5)][r]
        while True:
            B = rng.randint(-2, 3, size=(d, n))
            if np.linalg.matrix_rank(B) == min(d, n) and \
                    np.linalg.det(np.eye(n) + B.T @ B) < 20000:
                break
        F['rnd%d' % r] = B.tolist()
    big = rng.randint(-1, 2, size=(2, 24))
    big[:, 0], big[:, 23] = (1, 0), (1, 2)
    F['big2x24'] = big.tolist()
    return {k: np.array(v) for k, v in F.items()}


def rows(seed, thorough=False):
    """{name: A}, A an integer d x N matrix of full row rank; projection kernel on its rows."""
    rng = np.random.RandomState(2000 + seed)
    A = {}
    A['p13'] = [[1, 2, -1]]
    A['p24'] = [[1, 0, 1, 2], [0, 1, 1, -1]]
    A['p25'] = [[1, 1, 0, 2, 1], [0, 1, 1, 1, -1]]
    A['p35'] = [[1, 0, 0, 1, 2], [0, 1, 0, 1, -1], [0, 0, 1, 1, 1]]
    A['p33'] = [[1, 0, 1], [1, 1, 0], [0, 1, 1]]                # full rank: K = I
    A['p34'] = [[1, 0, 0, 1], [0, 1, 0, 1], [0, 0, 1, 1]]
    A['p11'] = [[3]]
    A['pcoord'] = [[1, 0, 0, 0], [0, 1, 0, 0], [0, 0, 1, 1]]    # two sure items, one of a pair
    A['pzero'] = [[1, 0, 1, 1], [1, 0, -1, 2]]                  # item 1 impossible
    A['pdup'] = [[1, 1, 0, 0, 1], [0, 0, 1, 1, 1]]
    for r in range(4 if thorough else 2):
        d, n = [(3, 5), (4, 5), (2, 6), (3, 6)][r]
        while True:
            B = rng.randint(-2, 3, size=(d, n))
            if np.linalg.matrix_rank(B) == d and np.linalg.det(B @ B.T) < 50000:
                break
        A['prnd%d' % r] = B.tolist()
    b = rng.randint(-1, 2, size=(2, 26))
    b[:, 0], b[:, 25] = (1, 0), (1, 2)
    A['pbig2x26'] = b.tolist()
    A['p56'] = [[1, 0, 0, 0, 0, 1], [0, 1, 0, 0, 0, -1], [0, 0, 1, 0, 0, 2], [0, 0, 0, 1, 0, 1],
                [1, 0, 0, 0, 1, 0]]
    c = rng.randint(0, 2, size=(3, 11))
    c[:, :3] = np.eye(3)
    A['pbig3x11'] = c.tolist()
    return {k: np.array(v) for k, v in A.items()}


def far(seed, n=300):
    """Large ground sets of which few items, some of them far out, have positive probability."""
    rng = np.random.RandomState(3000 + seed)
    pos = sorted({0, 1, int(rng.randint(128, 200)), int(rng.randint(257, n - 1)), n - 1})
    B = np.zeros((2, n), dtype=int)
    B[:, pos] = np.array([[1, 0, 1, 1, 2], [0, 1, 1, -1, 1]])[:, :len(pos)]
    A = np.zeros((2, n), dtype=int)
    A[:, pos] = np.array([[1, 0, 1, 2, 1], [0, 1, 1, -1, 1]])[:, :len(pos)]
    return B, A


def correlation(seed, thorough=False):
    """{name: (M, q)}: K = M / q with 0 <= K <= I and eigenvalues 0 and 1 among others."""
    C = {}
    C['half'] = ([[1, 0], [0, 1]], 2)
    C['sure'] = ([[2, 0, 0], [0, 1, 0], [0, 0, 0]], 2)          # probability 1, 1/2, 0
    C['pair'] = ([[1, 1, 0], [1, 1, 0], [0, 0, 1]], 2)          # exactly one of a pair, and a coin
    C['mix4'] = ([[2, 2, 0, 0], [2, 2, 0, 0], [0, 0, 2, 1], [0, 0, 1, 2]], 4)
    C['neg'] = ([[3, -1, 0], [-1, 3, 1], [0, 1, 2]], 6)
    C['id2'] = ([[1, 0], [0, 1]], 1)                            # K = I
    C['zero'] = ([[0, 0], [0, 0]], 1)                           # K = 0
    C['star'] = ([[4, 1, 1, 0], [1, 4, 0, 1], [1, 0, 4, 1], [0, 1, 1, 4]], 8)
    C['five'] = ([[2, 1, 0, 0, 0], [1, 2, 1, 0, 0], [0, 1, 2, 1, 0], [0, 0, 1, 2, 1],
                  [0, 0, 0, 1, 2]], 5)
    return {k: (np.array(m), q) for k, (m, q) in C.items()}


def rank(B):
    return int(np.linalg.matrix_rank(np.asarray(B, dtype=float)))


def proj(A):
    A = np.asarray(A, dtype=float)
    return A.T @ np.linalg.solve(A @ A.T, A)


def scaled_proj(A):
    """(M, q) with the projection kernel equal to M / q, both integer."""
    q = idet(A @ A.T)
    return np.rint(q * proj(A)).astype(int), q


def eig(M):
    w, v = np.linalg.eigh(np.asarray(M, dtype=float))
    return w, v


def clip_eig(w):
    return np.maximum(w, 0.0)


def linear_kernel(X, Y=None):
    X = np.atleast_2d(X)
    Y = X if Y is None else np.atleast_2d(Y)
    return X.dot(Y.T)


# ---------------------------------------------------------------- FiniteDPP representations
def reps_L(B):
    """{representation: (kernel_type, projection, params)} of L = B^T B."""
    B = np.asarray(B, dtype=float)
    L = B.T @ B
    n = len(L)
    K = L @ np.linalg.inv(np.eye(n) + L)
    K = (K + K.T) / 2
    w, v = eig(L)
    w = clip_eig(w)
    return {
        'L': ('likelihood', False, dict(L=L)),
        'L_eig_dec': ('likelihood', False, dict(L_eig_dec=(w, v))),
        'L_gram_factor': ('likelihood', False, dict(L_gram_factor=B)),
        'L_eval_X_data': ('likelihood', False, dict(L_eval_X_data=(linear_kernel, B.T.copy()))),
        'K': ('correlation', False, dict(K=K)),
        'K_eig_dec': ('correlation', False, dict(K_eig_dec=(w / (1 + w), v))),
    }


def reps_int(B):
    """Integer arrays: the same matrices typed without a decimal point."""
    B = np.asarray(B, dtype=int)
    out = {
        'L_int': ('likelihood', False, dict(L=B.T @ B)),
        'L_gram_int': ('likelihood', False, dict(L_gram_factor=B)),
        'L_eval_int': ('likelihood', False, dict(L_eval_X_data=(linear_kernel, B.T.copy()))),
    }
    L = B.T @ B
    if np.array_equal(L, np.diag(np.diag(L))):
        out['L_eig_int'] = ('likelihood', False, dict(L_eig_dec=(np.diag(L), np.eye(len(L), dtype=int))))
    return out


# eigenvectors with integer entries, one or several eigenvalues equal to 1
INT_K = {'some': [1, 0, 1, 1], 'all': [1, 1], 'one': [0, 0, 1]}


def reps_K_int(w):
    w = np.array(w)
    K = np.diag(w)
    flip = -np.eye(len(w), dtype=int)
    return {
        'K_int': ('correlation', False, dict(K=K)),
        'Kproj_int': ('correlation', True, dict(K=K)),
        'K_eig_proj_int': ('correlation', True, dict(K_eig_dec=(w, flip))),
        'K_eig_int': ('correlation', False, dict(K_eig_dec=(w, flip))),
    }


def reps_A(A):
    """Projection correlation kernel on the row space of A."""
    A = np.asarray(A, dtype=float)
    d, n = A.shape
    K = proj(A)
    K = (K + K.T) / 2
    w, v = eig(K)
    w = np.rint(w)
    q, _ = np.linalg.qr(A.T)
    return {
        'A_zono': ('correlation', True, dict(A_zono=A)),
        'Kproj': ('correlation', True, dict(K=K)),
        'K_eig_proj': ('correlation', True, dict(K_eig_dec=(w, v))),
        'K_thin_proj': ('correlation', True, dict(K_eig_dec=(np.ones(d), q))),
        'K_plain': ('correlation', False, dict(K=K)),
        'K_eig_plain': ('correlation', False, dict(K_eig_dec=(w, v))),
        # same row space: rows of norm 1, rows of different magnitudes
        'A_zono_unit': ('correlation', True, dict(A_zono=A / np.linalg.norm(A, axis=1)[:, None])),
        'A_zono_mixed': ('correlation', True, dict(A_zono=A * 30.0**(1 - np.arange(d) % 3)[:, None])),
    }


def reps_scaled(B):
    """The k-DPP of c.L is that of L: the same kernel in tiny and in huge units."""
    B = np.asarray(B, dtype=float)
    out = {}
    # (a huge singular kernel has round-off eigenvalues below the fixed tolerance of dppy)
    for sn, s in (('tiny', 1e-9), ('huge', 1e6 if rank(B) == B.shape[1] else 10.0)):
        L = (B.T @ B) * s**2
        w, v = eig(B.T @ B)
        out['L_' + sn] = ('likelihood', False, dict(L=L))
        out['L_eig_' + sn] = ('likelihood', False, dict(L_eig_dec=(clip_eig(w) * s**2, v)))
        out['L_gram_' + sn] = ('likelihood', False, dict(L_gram_factor=B * s))
        out['L_eval_' + sn] = ('likelihood', False, dict(L_eval_X_data=(linear_kernel, B.T * s)))
    return out


def reps_Lproj(A):
    """Projection *likelihood* kernel on the row space of A."""
    A = np.asarray(A, dtype=float)
    L = proj(A)
    L = (L + L.T) / 2
    w, v = eig(L)
    return {
        'Lproj': ('likelihood', True, dict(L=L)),
        'L_eig_proj': ('likelihood', True, dict(L_eig_dec=(np.rint(w), v))),
    }


def reps_K(M, q):
    K = np.asarray(M, dtype=float) / q
    w, v = eig(K)
    w = np.clip(w, 0, 1)
    return {
        'K': ('correlation', False, dict(K=K)),
        'K_eig_dec': ('correlation', False, dict(K_eig_dec=(w, v))),
    }


def copy_params(p):
    out = {}
    for k, v in p.items():
        if isinstance(v, tuple):
            out[k] = tuple(x.copy() if isinstance(x, np.ndarray) else x for x in v)
        elif isinstance(v, np.ndarray):
            out[k] = v.copy()
        else:
            out[k] = v
    return out


def build(rep):
    from dppy.finite_dpps import FiniteDPP
    kt, pr, params = rep
    return FiniteDPP(kt, pr, **copy_params(params))
