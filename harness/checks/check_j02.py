"""J02: samples of the multivariate Jacobi ensemble have the law of the projection DPP."""
import ope
from checks.check_j01 import PS, PS2, PS3, WIDE


def run(c):
    out, deep = [], c.thorough
    mc = 60000 if deep else 6000
    for nm, ps in {**PS, **PS2, **PS3}.items():
        d = len(ps)
        for n in {1: (1, 2, 5), 2: (2, 5), 3: (2, 4)}[d]:
            if d == 3 and not deep:
                continue
            out.append(('proposal/%s/%d' % (nm, n), ope.proposal(n, ps, {1: 60, 2: 40, 3: 12}[d], mc, c.seed),
                        dict(what='proposal', ps=ope.fields(ps)), 600))
    for nm, ps in {**PS, **WIDE}.items():
        for n in (1, 2, 4):
            out.append(('tridiagonal/%s/%d' % (nm, n), ope.sample(n, ps, {}, 5 * mc, c.seed),
                        dict(what='sample', ps=ope.fields(ps)), 600))
            if nm not in WIDE and n > 1:
                out.append(('chain/%s/%d' % (nm, n), ope.sample(n, ps, dict(tridiag_1D=False), mc, c.seed),
                            dict(what='sample', ps=ope.fields(ps)), 600))
    for nm, ps in {**PS2, **PS3}.items():
        for n in (1, 2, 3) + ((5,) if deep else ()):
            out.append(('chain/%s/%d' % (nm, n), ope.sample(n, ps, {}, mc, c.seed),
                        dict(what='sample', ps=ope.fields(ps)), 800))
    # many points: the projections accumulate
    for nm, ps, n, kw in (('legendre', PS['legendre'], 20, dict(tridiag_1D=False)), ('gen', PS2['gen'], 20, {}),
                          ('cheb2', PS['cheb2'], 17, {})):
        out.append(('many/%s/%d' % (nm, n), ope.sample(n, ps, kw, mc // 3, c.seed),
                    dict(what='sample', ps=ope.fields(ps)), 600))
    c.conform(out, 'MC_JacobiOPE', 'MC_JacobiOPE.cfg', limit=800, overall=840)
