"""B04: limiting densities, their distribution functions and edges."""
import numpy as np
import potentials as po
from potentials import bp, core, rm


def ensemble(V):
    def get():
        e = bp.BetaEnsemblePolynomialPotential(2, po.pol([v for v in V]))
        return e.equilibrium_density, e.support
    return get


def run(c):
    deep = c.thorough
    out = []

    def add(name, fb):
        out.append((name,) + fb)
    # V = t x^(2m), V = g2/2 x^2 + g4/4 x^4 (one and two cuts), and the higher order edge; V * q integer
    def line(name, V, q, R, get):
        d = len(V)
        top = min(d + (1 if q > 20 else 4), 10)
        add('density/' + name, po.density('line', get, -R, R, top, V=V, q=q))
    for m in (1, 2, 3) + ((4, 5) if deep else ()):
        for num, q in ((1, 2), (1, 1), (2, 1), (1, 4)):
            V = [0] * (2 * m)
            V[-1] = num
            nm = 'x%d/%d_%d' % (2 * m, num, q)
            if m <= 3:
                line(nm, V, q, 3.5, ensemble(np.array(V) / q))
            line(nm + '/fn', V, q, 3.5, lambda m=m, num=num, q=q: core.equilibrium_x2m(m, 2 * m * num / q))
            if m in (2, 3):
                f = lambda m=m, num=num, q=q: core.cdf_equilibrium_x2m(m, 2 * m * num / q)      # noqa: E731
                g = lambda m=m, num=num, q=q: core.equilibrium_x2m(m, 2 * m * num / q)          # noqa: E731
                add('cdf/' + nm, po.cdf(g, f, -2.5, 2.5))
    for g2, g4, q in ((1, 1, 1), (-1, 1, 1), (2, 1, 2), (-2, 1, 1), (-3, 1, 1), (-4, 2, 1), (1, 3, 4), (-1, 1, 4),
                      (-5, 2, 2), (-2, 1, 2)) + (((3, 1, 1), (-7, 4, 2), (-6, 3, 1)) if deep else ()):
        V = [0, g2, 0, g4]
        nm = 'x2x4/%d_%d_%d' % (g2, g4, q)
        line(nm, V, q, 3.5, ensemble(np.array(V) / q))
        get = lambda g2=g2, g4=g4, q=q: core.equilibrium_x2_x4(2 * g2 / q, 4 * g4 / q)          # noqa: E731
        line(nm + '/fn', V, q, 3.5, get)
        f = lambda g2=g2, g4=g4, q=q: core.cdf_equilibrium_x2_x4(2 * g2 / q, 4 * g4 / q)        # noqa: E731
        add('cdf/' + nm, po.cdf(get, f, -3.5, 3.5))
    ck = [8 / 5, 1 / 5, -4 / 15, 1 / 20]
    line('ClItKr10', [96, 12, -16, 3], 60, 3.5, ensemble(ck))
    line('ClItKr10/fn', [96, 12, -16, 3], 60, 3.5, core.equilibrium_ClItKr10)
    # semi-circle of radius R solves the loop equations of 2 x^2 / R^2
    for num, den in ((2, 1), (1, 1), (3, 2), (4, 1), (1, 2)):
        R = num / den
        get = lambda R=R: ((lambda x: rm.semi_circle_law(x, R)), (-R, R))                       # noqa: E731
        line('semicircle/%d_%d' % (num, den), [0, 2 * den**2], num**2, 1.05 * R, get)
    line('semicircle/default', [0, 1], 2, 2.5, lambda: (rm.semi_circle_law, (-2., 2.)))
    for M, N in ((1, 1), (2, 1), (5, 4), (10, 10), (7, 3), (40, 10)) + (((3, 2), (20, 19)) if deep else ()):
        for s in (1, 2) if M < 10 else (1,):
            sg = np.sqrt(s)
            top = 4 if s == 2 else 5
            hi = s * (1 + np.sqrt(N / M))**2
            supp = (s * (1 - np.sqrt(N / M))**2, hi)
            get = (lambda M=M, N=N, sg=sg, supp=supp: ((lambda x: rm.marcenko_pastur_law(x, M, N, sg)), supp))
            add('density/mp/%d_%d_%d' % (M, N, s), po.density('mp', get, 0.0, 1.0 * hi, top, cn=N, cd=M, s=s))
            if s == 1:
                get = lambda M=M, N=N, supp=supp: ((lambda x: rm.marcenko_pastur_law(x, M, N)), supp)   # noqa: E731
                add('density/mp/%d_%d/default' % (M, N), po.density('mp', get, 0.0, hi, top, cn=N, cd=M, s=1))
    for M1, M2, N in ((1, 1, 1), (2, 1, 1), (1, 2, 1), (3, 2, 1), (5, 4, 3), (4, 5, 3), (10, 10, 10), (7, 30, 5)):
        get = lambda M1=M1, M2=M2, N=N: ((lambda x: rm.wachter_law(x, M1, M2, N)), None)         # noqa: E731
        add('density/wachter/%d_%d_%d' % (M1, M2, N),
            po.density('wachter', get, 0.0, 1.0, 8, an=M1, bn=M2, d=N))
    for j, V in enumerate([(0, .5), (0, 2.), (0, 0, 0, 1.), (0, 0, 0, .25), (0, 0, 0, 0, 0, 1.), (0, 1., 0, 1.), (0, -1., 0, 1.),
                           (0, .5, 0, .25), (0, .25, 0, 2.), tuple(ck)]):
        add('edge/%d' % j, po.edge(V))
    for order in (None, 40, 60) + ((80,) if deep else ()):
        add('tracy/%s' % order, po.tracy_widom(order))
    c.conform(out, 'MC_Potential', 'MC_Potential.cfg')
