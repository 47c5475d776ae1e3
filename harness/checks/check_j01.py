"""J01: the multivariate Jacobi ensemble's multi-indices, polynomials, weight, kernel and bounds."""
import itertools
import numpy as np
import vp
import ope

PS = {'arcsine': [(-1, -1, 2)], 'cheb2': [(1, 1, 2)], 'legendre': [(0, 0, 1)], 'mixed': [(-1, 1, 2)],
      'half_a': [(-1, 0, 2)], 'half_b': [(0, -1, 2)], 'quarter': [(1, -1, 4)], 'tenth': [(3, -4, 10)],
      'edge': [(2, -1, 4)], 'edge2': [(-2, 1, 4)]}
WIDE = {'big': [(2, 2, 1)], 'bigger': [(3, 1, 1)], 'low': [(-3, -3, 4)], 'lopsided': [(-3, 6, 4)]}
PS2 = {'arcsine2': [(-1, -1, 2), (-1, -1, 2)], 'one_arcsine': [(-1, -1, 2), (1, 0, 2)], 'mix': [(-1, 1, 2), (1, 1, 5)],
       'gen': [(1, -1, 4), (-1, 2, 5)], 'flip': [(1, -1, 2), (0, -1, 2)]}
PS3 = {'gen3': [(1, -1, 4), (0, 1, 2), (-1, -1, 2)], 'leg3': [(0, 0, 1)] * 3}


def refuse(n, jp, expect):
    def go():
        ope.mj.MultivariateJacobiOPE(n, np.array(jp, dtype=float))
    return lambda: vp.observe(go), dict(what='refuse', expect=expect)


def run(c):
    out, deep = [], c.thorough
    for d in (1, 2, 3, 4, 5):
        top = {1: 12, 2: 60, 3: 70, 4: 40, 5: 36}[d]
        for n in sorted(set(range(1, top if deep else min(top, 31))) | {top, 9 if d == 2 else 8, 2**d, 2**d + 1, 3**d if d < 4 else 33}):
            out.append(('ordering/d%d/n%d' % (d, n), ope.ordering(n, d), dict(what='ordering', n=n, d=d)))
    # around the powers of integers, where the layer changes and roots are rounded
    for d, ms in ((2, (6, 7, 8, 9, 10, 11)), (3, (4, 5)), (4, (3, 4) if deep else (3,))):
        for n in sorted({m**d + s for m in ms for s in (-1, 0, 1) if deep or m**d < 110 or s == 1}):
            out.append(('ordering/edge/d%d/n%d' % (d, n), ope.ordering(n, d), dict(what='ordering', n=n, d=d), 600))
    for n in (1000, 32768):
        out.append(('ordering/d1/n%d' % n, ope.positions(n), dict(what='positions', n=n), 600))
    ALL = {**PS, **WIDE, **PS2, **PS3}
    for nm, ps in ALL.items():
        for n in (1, 2, 5, 9) + ((14, 20) if deep else ()):
            if len(ps) == 1 and n > 9:
                continue
            out.append(('basis/%s/%d' % (nm, n), ope.basis(n, ps), dict(what='basis', ps=ope.fields(ps))))
            for s in range(8 if deep else 3):
                out.append(('kernel/%s/%d/%d' % (nm, n, s), ope.kernel(n, ps, 4 * c.seed + s), dict(what='kernel')))
            if nm not in WIDE:
                out.append(('bounds/%s/%d' % (nm, n), ope.bounds(n, ps), dict(what='bounds')))
    # parameters close to, and exactly at, the special values
    rs = np.random.RandomState(c.seed)
    pts = [-.5, .5, 0.0]
    near = [p + s * e for p in pts for e in (0, 1e-12, 1e-7, 1e-4, 2e-3, .02, .1, .3) for s in (1, -1) if abs(p + s * e) <= .5]
    for t in range(200 if deep else 60):
        d = 1 + t % 3
        jp = rs.choice(near, size=(d, 2)).tolist()
        if t % 4 == 0:
            jp[0] = [jp[0][0]] * 2
        if t % 5 == 0 and abs(-1 - jp[-1][0]) <= .5:
            jp[-1][1] = -1 - jp[-1][0]
        if d == 1 and t % 2:
            jp = [[float(rs.choice([-.9, -.7, 1.5, 4, -.501])), jp[0][1]]]
        n = (3, 6, 9)[t % 3] if d == 1 else (4, 7, 10)[t % 3]
        out.append(('ortho/%d' % t, ope.ortho(n, jp), dict(what='ortho')))
    # both parameters of a row close to the same special value, at every scale
    for t, (p, e) in enumerate(itertools.product(((-.5, 1), (.5, -1), (0.0, 1), (0.0, -1)), (6e-3, 4e-3, 2e-3, 1e-3, 3e-4, 3e-5))):
        row = [p[0] + p[1] * e, p[0] + p[1] * e * .7]
        jp = [[row], [[.5, -.5], row], [row, row[::-1]], [[.3, -.2], row, [0.0, 0.0]]][(t + t // 4) % 4]
        out.append(('ortho/near/%d' % t, ope.ortho(7 if len(jp) < 3 else 9, jp), dict(what='ortho')))
    grid = [list(e) for e in itertools.product((-1, 0, 1), repeat=2)]
    for e in grid:
        out.append(('weight/%s' % e, ope.weight([e]), dict(what='weight', e=[e])))
        out.append(('mass/%s' % e, ope.mass([e]), dict(what='mass', e=[e])))
        for e2 in grid if deep else grid[::2]:
            out.append(('weight/%s%s' % (e, e2), ope.weight([e, e2]), dict(what='weight', e=[e, e2])))
            out.append(('mass/%s%s' % (e, e2), ope.mass([e, e2]), dict(what='mass', e=[e, e2])))
    out.append(('weight/[3,2]', ope.weight([[3, 2]]), dict(what='weight', e=[[3, 2]])))
    for j, (n, jp, ex) in enumerate((
            (0, [[0, 0]], 'ValueError'), (-1, [[0, 0]], 'ValueError'), (2.0, [[0, 0]], 'ValueError'),
            ('3', [[0, 0]], 'ValueError'), (3, [[-1, 0]], 'ValueError'), (3, [[0, -1.2]], 'ValueError'),
            (3, [[2, 7]], 'ok'), (3, [[-.9, 0]], 'ok'), (3, [[.6, 0], [0, 0]], 'ValueError'),
            (3, [[.5, -.5], [0, -.6]], 'ValueError'), (3, [[.5, -.5], [0, .5]], 'ok'), (1, [[0, 0]], 'ok'),
            (3, [[.1, .2], [.3, .1], [0, -.51]], 'ValueError'))):
        f, base = refuse(n, jp, ex)
        out.append(('refuse/%d' % j, f, base))
    c.conform(out, 'MC_JacobiOPE', 'MC_JacobiOPE.cfg')
