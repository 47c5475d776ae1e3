"""F10: the zonotope chain."""
import itertools
import numpy as np
import zono


def generic(A, C):
    A = np.array(A, dtype=float)
    r, N = A.shape
    for B in itertools.combinations(range(N), r):
        AB = A[:, B]
        if abs(np.linalg.det(AB)) < .5:
            continue
        lam = np.linalg.solve(AB.T, np.array(C, dtype=float)[list(B)])
        red = np.array(C) - lam.dot(A)
        if any(abs(red[j]) < .05 for j in range(N) if j not in B):
            return False
    return True


def inside(A, C, X, q, slack=.02):
    """Is X/q well inside one tile?"""
    A = np.array(A, dtype=float)
    r, N = A.shape
    best = 0
    for B in itertools.combinations(range(N), r):
        AB = A[:, B]
        if abs(np.linalg.det(AB)) < .5:
            continue
        lam = np.linalg.solve(AB.T, np.array(C, dtype=float)[list(B)])
        up = [j for j in range(N) if j not in B and C[j] < lam.dot(A[:, j])]
        y = np.linalg.solve(AB, np.array(X) / q - A[:, up].sum(axis=1))
        if np.all(y > -slack) and np.all(y < 1 + slack):
            best += 1 if np.all(y > slack) and np.all(y < 1 - slack) else 5
    return best == 1


def chord_mid(A, X, q, D):
    zono.install()
    A = np.array(A, dtype=float)
    r, N = A.shape
    e = []
    for s in (1, -1):
        r_ = zono.linprog(np.r_[s, np.zeros(N)], A_eq=np.c_[-np.array(D, dtype=float), A], b_eq=np.array(X) / q,
                          bounds=[(None, None)] + [(0, 1)] * N, method='highs-ds')
        e.append(r_.x[0])
    return np.array(X) / q + (e[0] + e[1]) / 2 * np.array(D)


def oblique(A, D):
    """No face of a tile contains the direction D."""
    A = np.array(A, dtype=float)
    r, N = A.shape
    return all(np.linalg.matrix_rank(np.c_[A[:, F], D]) == r or np.linalg.matrix_rank(A[:, F]) < r - 1
               for F in itertools.combinations(range(N), r - 1))


def run(c):
    deep = c.thorough
    rs = np.random.RandomState(c.seed + 10)
    c.model('MC_ZonoModel', 'MC_ZonoModel.cfg')
    fixed = [[[1, 2, 3]], [[2, -1, 1, 1]], [[1, 0, 1], [0, 1, 1]], [[1, 0, 1, 2], [0, 1, 1, -1]],
             [[1, 2, 0, 1], [1, 2, 1, 0]], [[1, 0, 0, 1], [0, 1, 0, 1], [0, 0, 1, 1]], [[1, 0, 2], [0, 0, 1]],
             [[1, 1, 1, 1, 3]]]
    mats = list(fixed)
    while len(mats) < (60 if deep else 22):
        r = int(rs.randint(1, 4))
        N = int(rs.randint(r + 1, 6))
        A = rs.randint(-2, 4, size=(r, N))
        if np.linalg.matrix_rank(A) == r and np.linalg.det(A.dot(A.T)) < 2000:
            mats.append(A.tolist())
    n = 256 if deep else 128
    out = []
    for j, A in enumerate(mats):
        r, N = np.array(A).shape
        done = 0
        for t in range(200):
            if done >= (6 if deep else 3):
                break
            C = rs.randint(-9, 10, size=N).tolist()
            if not generic(A, C):
                continue
            q = 16
            Y = rs.randint(1, q, size=N).tolist()
            X = np.array(A).dot(Y).tolist()
            if not inside(A, C, X, q):
                continue
            D = rs.randint(-3, 4, size=r)
            D1 = rs.randint(-3, 4, size=r)
            if not D.any() or not D1.any() or not oblique(A, D) or not oblique(A, D1):
                continue
            if not inside(A, C, chord_mid(A, X, q, D1), 1):
                continue
            tag = '%d/%d' % (j, done)
            D, D1 = D.tolist(), D1.tolist()
            out.append(('first/%s' % tag,) + zono.step(A, C, X, q, D, n))
            out.append(('second/%s/low' % tag,) + zono.step(A, C, X, q, D, n, D1, zono.LOW))
            out.append(('second/%s/high' % tag,) + zono.step(A, C, X, q, D, n, D1, zono.HIGH))
            out.append(('start/%s/own' % tag,) + zono.start(A, C, Y, q, False))
            out.append(('start/%s/given' % tag,) + zono.start(A, C, Y, q, True))
            for via in ('', 'object'):
                out.append(('run/%s/%s' % (tag, via or 'function'),) + zono.run(A, C, X, q, (1, 2, 7)[done % 3], t, via))
            done += 1
    for k in range(40 if deep else 15):
        y = rs.choice([0, 1000000, 5, 15, 999995, 999985, 500000, 3, 40, 999970, 123456, 876543], size=rs.randint(1, 8)).tolist()
        out.append(('basis/%d' % k,) + zono.basis(y, (None, 20, 0, 30)[k % 4]))
    c.conform(out, 'MC_Zonotope', 'MC_Zonotope.cfg')
