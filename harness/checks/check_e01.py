"""E01: symmetric polynomials, minors, inner products and the selection of eigenvectors."""
import numpy as np
import vp
import kernels as kz


def ints(a):
    a = np.asarray(a, dtype=float)
    r = np.rint(a)
    if not np.all(np.abs(a - r) < 1e-6 * np.maximum(1, np.abs(a))):
        r = np.where(np.abs(a - r) < 1e-6 * np.maximum(1, np.abs(a)), r, 2**30)
    return np.clip(r, -2**30, 2**30).astype(int).tolist()


def columns(V, W):
    """Which columns of V are the columns of W; -1 for one that is none of them."""
    out = []
    for c in np.asarray(W).T:
        m = [j for j in range(V.shape[1]) if np.array_equal(V[:, j], c)]
        out.append(m[0] if len(m) == 1 else -1)
    return tuple(sorted(out))


def run(c):
    from dppy.exact_sampling import (elementary_symmetric_polynomials, k_dpp_eig_vecs_selector,
                                     dpp_eig_vecs_selector)
    from dppy.utils import det_ST, inner1d
    rng = np.random.RandomState(c.seed + 21)
    out = []
    vals = [[1], [0], [3], [1, 2], [2, 2, 2], [0, 0, 5], [5, 0, 1, 2], [1, 2, 3, 4], [4, 3, 2, 1],
            [1, 1, 1, 1, 1, 1], [7, 0, 0, 3, 0], [0, 0, 0], [10, 1, 1, 10], [100, 1, 30]]
    for _ in range(120 if c.thorough else 25):
        vals.append(rng.randint(0, 6, size=rng.randint(1, 8)).tolist())
    for j, v in enumerate(vals):
        N = len(v)
        for size in range(0, N + 2):
            for t, f in (('f', float), ('i', int)):
                def thunk(v=v, size=size, f=f):
                    return vp.observe(lambda: dict(E=ints(elementary_symmetric_polynomials(
                        np.array(v, dtype=f), size))), E=[])
                out.append(('esp%d/%d%s' % (j, size, t), thunk, dict(what='esp', v=v, size=size)))
        if N > 6:
            continue
        r = sum(x > 0 for x in v)
        for rows in sorted({N, N + 2, max(1, N - 1)}):
            V = np.vstack([np.arange(N)] + [rng.randint(-9, 9, size=N) for _ in range(rows - 1)]).astype(float)
            for k in range(1, r + 2):
                for ex in (None, 0, 2, 'tiny', 'huge'):
                    def thunk(v=v, V=V, k=k, ex=ex):
                        # k eigenvectors are selected the same way in any unit
                        w = np.array(v, dtype=float) * {'tiny': 1e-17, 'huge': 1e12}.get(ex, 1.0)
                        if isinstance(ex, str):
                            ex = None
                        E = None if ex is None else elementary_symmetric_polynomials(w, k + ex)
                        return vp.observe_law(lambda g: k_dpp_eig_vecs_selector(
                            w, V, k, E_poly=E, random_state=g), canon=lambda W: columns(V, W), seed=c.seed)
                    m = kz.model('M', np.diag(v), N)
                    out.append(('kselect%d/%d/r%d/E%s' % (j, k, rows, ex), thunk,
                                dict(what='law', model=dict(m, card=k),
                                     expect='law' if k <= r else 'ValueError')))
            q = max(v) + int(rng.randint(0, 3)) or 1

            def thunk(v=v, V=V, q=q):
                return vp.observe_law(lambda g: dpp_eig_vecs_selector(
                    np.array(v) / q, V, random_state=g), canon=lambda W: columns(V, W), seed=c.seed)
            out.append(('select%d/r%d' % (j, rows), thunk,
                        dict(what='law', model=kz.model('K', np.diag(v), N, q), expect='law')))
    for j in range(400 if c.thorough else 80):
        n, p = rng.randint(1, 6), rng.randint(1, 6)
        M = rng.randint(-3, 4, size=(n, p))
        k = rng.randint(0, min(n, p, 4) + 1)
        S = rng.choice(n, size=k, replace=bool(j % 2)).tolist()
        T = rng.choice(p, size=k, replace=False).tolist()
        sq = n == p and j % 3 == 0
        if sq:
            T = S

        def thunk(M=M, S=S, T=T, sq=sq):
            if len(S) == 0:
                S, T = np.array([], dtype=int), np.array([], dtype=int)
            return vp.observe(lambda: dict(value=ints(det_ST(M.astype(float), S) if sq else
                                                      det_ST(M.astype(float), S, T))), value=0)
        out.append(('minor%d' % j, thunk, dict(what='minor', M=M.tolist(), S=S, T=T)))
        A, B = rng.randint(-9, 9, size=(2, n, p))
        for axis in (0, 1):
            for two in (False, True):
                def thunk(A=A, B=B, axis=axis, two=two):
                    return vp.observe(lambda: dict(value=ints(inner1d(A * 1.0, B * 1.0, axis) if two
                                                              else inner1d(A * 1.0, axis=axis))), value=[])
                out.append(('inner%d/%d%d' % (j, axis, two), thunk,
                            dict(what='inner', A=A.tolist(), B=(B if two else A).tolist(), axis=axis)))
    c.conform(out, 'MC_Blocks', 'MC_Blocks.cfg')
