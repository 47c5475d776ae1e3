"""What the figures of the real objects contain."""
import copy
import itertools
import re
import numpy as np
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.collections import LineCollection
from matplotlib.patches import Circle, Polygon, Rectangle
import networkx as nx
import vp
import graphs as gr
import dppy.exotic_dpps as xd
import dppy.beta_ensembles as be
import dppy.multivariate_jacobi_ope as mj
import dppy.beta_ensemble_polynomial_potential as bp
from dppy.finite_dpps import FiniteDPP

U = 10000
BIG = 100000000


def i4(x, s=U):
    return np.clip(np.rint(np.nan_to_num(np.asarray(x, dtype=float) * s, nan=BIG, posinf=BIG, neginf=-BIG)),
                   -BIG, BIG).astype(int).tolist()


def bars_of(ax):
    """Histograms of the axes: [left, right, area], whatever their style and orientation."""
    out = []
    rect = [p for p in ax.patches if isinstance(p, Rectangle)]
    if rect:
        ys = {round(p.get_y(), 9) for p in rect}
        if len(ys) > 1:        # horizontal bars
            out.append([[p.get_y(), p.get_y() + p.get_height(), p.get_width() * p.get_height()] for p in rect])
        else:
            out.append([[p.get_x(), p.get_x() + p.get_width(), p.get_width() * p.get_height()] for p in rect])
    for p in ax.patches:
        if isinstance(p, Polygon):
            v = p.get_xy()
            n = len(v) // 2
            w = v[1:2 * n - 1].reshape(-1, 2, 2) if len(v) % 2 == 0 else v[1:2 * n - 1].reshape(-1, 2, 2)
            out.append([[a[0], b[0], (b[0] - a[0]) * a[1]] for a, b in w if b[0] > a[0]])
    return [i4(b) for b in out]


def axes_of(figs):
    return [ax for f in figs for ax in f.axes]


def figs():
    return [plt.figure(n) for n in plt.get_fignums()]


def content():
    """Everything the current figures show."""
    axs = axes_of(figs())
    scat, segs = [], []
    for ax in axs:
        for k in ax.collections:
            if isinstance(k, LineCollection):
                segs += [i4(s) for s in k.get_segments()]
            else:
                xy = np.ma.getdata(k.get_offsets())
                s = np.ma.getdata(getattr(k, 'get_sizes', lambda: [])())
                scat.append(dict(xy=i4(xy.reshape(-1, 2)), s=i4(np.broadcast_to(s, len(xy)) if len(s) in (1, len(xy)) else [], 1000)))
    hs = [b for ax in axs for b in bars_of(ax)]
    return dict(scat=scat, segs=segs, lines=[i4(x.get_xydata()) for ax in axs for x in ax.lines],
                bars=hs[0] if hs else [], circ=[i4([p.center[0], p.center[1], p.radius]) for ax in axs
                                               for p in list(ax.patches) + list(ax.artists) if isinstance(p, Circle)])


EMPTY = dict(scat=[], segs=[], lines=[], bars=[], circ=[])


def same(a, b):
    if isinstance(a, list):
        return isinstance(b, list) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, nx.Graph):
        return set(map(frozenset, a.edges())) == set(map(frozenset, b.edges()))
    return np.array_equal(a, b)


def shown(d, draw, records=('list_of_samples',)):
    """Draw; what the figure contains and whether the records were left alone."""
    plt.close('all')
    before = [copy.deepcopy(getattr(d, r)) for r in records]
    try:
        draw(d)
        fig = content()
    finally:
        plt.close('all')
    return fig, all(same(b, getattr(d, r)) for b, r in zip(before, records))


# ------------------------------------------------------------------ beta-ensembles
def beta_case(cls, beta, calls, draw, norm):
    """calls: list of (mode, kwargs); the last one fixes the parameters."""
    mode, kw = calls[-1]
    info = dict(what='beta', ens=cls.replace('Ensemble', ''), beta=beta, mode=mode, norm=norm, draw=draw, N=kw.get('size_N', 10),
                loc=int(round(U * kw.get('loc', 0))), s2=int(round(kw.get('scale', 2**.5)**2)), scale=int(round(kw.get('scale', 2))),
                k=int(kw.get('shape', kw.get('a', 1))), k2=int(kw.get('b', 1)),
                M=kw.get('size_M', kw.get('size_M1', 0)) or 0, M2=kw.get('size_M2', 0) or 0,
                given=bool(kw.get('size_M') or kw.get('size_M1')))

    def f():
        def go():
            d = getattr(be, cls)(beta)
            for j, (m, k) in enumerate(calls):
                if m == 'flush':
                    d.flush_samples()
                else:
                    getattr(d, 'sample_%s_model' % m)(random_state=7 + j, **k)
            last = np.array(d.list_of_samples[-1])
            fig, kept = shown(d, lambda d: getattr(d, draw)(normalization=norm))
            scale = np.sqrt(d.params['size_N']) if cls.startswith('Gin') and norm else 1.0
            return dict(fig=fig, kept=kept, last=list(map(list, zip(i4(last.real), i4(last.imag)))),
                        angles=i4(np.angle(last)), mods=i4(np.abs(last) / scale))
        return vp.observe(go, fig=EMPTY, kept=True, last=[], angles=[], mods=[])
    return f, info


def empty_case(make, draw):
    def f():
        def go():
            plt.close('all')
            try:
                draw(make())
            finally:
                plt.close('all')
        return vp.observe(go)
    return f, dict(what='empty')


# ------------------------------------------------------------------ exotic
def descent_case(make, sizes, vs):
    def f():
        def go():
            d = make()
            for j, n in enumerate(sizes):
                d.sample(size=n, random_state=3 + j)
            last = i4(d.list_of_samples[-1])
            fig, kept = shown(d, lambda d: d.plot(vs_bernoullis=vs, random_state=1))
            return dict(fig=fig, kept=kept, last=last)
        return vp.observe(go, fig=EMPTY, kept=True, last=[])
    return f, dict(what='line', height=U if vs else 0)


def bern_case(make, size, num, den):
    def f():
        d = make()
        d.sample(size=size + 2, random_state=1)
        d.sample(size=size, random_state=1)

        def one(rng):
            plt.close('all')
            d.plot(True, random_state=rng)
            xy = [np.ma.getdata(k.get_offsets()).reshape(-1, 2) for ax in axes_of(figs()) for k in ax.collections]
            plt.close('all')
            low = [v for v in xy if len(v) == 0 or np.all(v[:, 1] == -1)]
            # the sample itself may be empty as well
            low = low[-1] if low else [[-9, 0]]
            return tuple(sorted(int(v[0]) if v[0] == int(v[0]) else -9 for v in low))
        return vp.observe_law(one, canon=lambda s: s)
    return f, dict(what='bern', size=size, num=num, den=den)


def plancherel_case(root, seeds, what, norm=False):
    def f():
        def go():
            d = xd.PoissonizedPlancherel(theta=root**2)
            for s in seeds:
                d.sample(random_state=s)
            if what == 'line':
                last = i4(d.list_of_samples[-1])
                fig, kept = shown(d, lambda d: d.plot(), ('list_of_samples', 'list_of_young_diag'))
                return dict(fig=fig, kept=kept, last=last)
            part = [int(x) for x in d.list_of_young_diag[-1]]
            fig, kept = shown(d, lambda d: d.plot_diagram(norm), ('list_of_samples', 'list_of_young_diag'))
            return dict(fig=fig, kept=kept, part=part)
        return vp.observe(go, fig=EMPTY, kept=True, part=[1], last=[])
    return f, dict(what=what, height=0, root=root, norm=norm)


class TwoGraphs(Exception):
    pass


def tree_case(name, calls, whole):
    """The figure of the last tree (or of the whole graph)."""
    g = gr.GRAPHS[name]()

    def f():
        def go():
            d = xd.UST(g)
            for m, s in calls:
                if m == 'flush':
                    d.flush_samples()
                else:
                    d.sample(m, random_state=s)
            edges = [list(map(int, e)) for e in g.edges()]
            if whole:
                show = list(range(len(edges)))
            else:
                show = list(gr.tree_idx(g, d.list_of_samples[-1]))
            pos = nx.circular_layout(g)
            names = list(pos)
            P = np.array([pos[v] for v in names])

            def node(x):
                k = int(np.argmin(np.sum((P - x)**2, axis=1)))
                return int(names[k]) if np.sum((P[k] - x)**2) < 1e-6 else -9

            mids = [(e, (pos[e[0]] + pos[e[1]]) / 2) for e in g.edges()]

            def edge(x):
                best = sorted((float(np.sum((m - x)**2)), e) for e, m in mids)
                return [int(v) for v in best[0][1]] if best[0][0] < 1e-6 else [-9, -9]
            plt.close('all')
            n0 = len(d.list_of_samples)
            before = [set(map(frozenset, t.edges())) for t in d.list_of_samples]
            try:
                (d.plot_graph if whole else d.plot)()
                axs = axes_of(figs())
                seg = [s for ax in axs for k in ax.collections if isinstance(k, LineCollection) for s in k.get_segments()]
                drawn = [[node(s[0]), node(s[-1])] for s in seg]
                nodes, labels = [], []
                for ax in axs:
                    for t in ax.texts:
                        x = np.array(t.get_position(), dtype=float)
                        if t.get_text().startswith('$'):
                            labels.append(dict(e=edge(x), t=t.get_text()))
                        else:
                            nodes.append(node(x) if str(node(x)) == t.get_text() else -9)
            finally:
                plt.close('all')
            kept = n0 == len(d.list_of_samples) and before == [set(map(frozenset, t.edges())) for t in d.list_of_samples]
            return dict(edges=edges, shown=show, drawn=drawn, labels=labels, nodes=nodes, seen=bool(seg), kept=kept)
        return vp.observe(go, edges=[], shown=[], drawn=[], labels=[], nodes=[], seen=False, kept=True)
    return f, dict(what='tree', n=g.number_of_nodes())


# ------------------------------------------------------------------ kernels
def heat(d, draw, K):
    plt.close('all')
    before = copy.deepcopy(d.list_of_samples)
    try:
        draw(d)
        n = len(K)
        maps = [(ax, k) for ax in axes_of(figs()) for k in list(ax.collections) + list(ax.images)
                if k.get_array() is not None and np.size(k.get_array()) == n * n]
        ax, k = maps[0]
        m = np.ma.getdata(k.get_array()).reshape(n, n)
        ticks = [re.sub(r'[^0-9]', '', t.get_text()) for t in ax.get_xticklabels()]
        down = ax.yaxis_inverted()
        tick_y = [re.sub(r'[^0-9]', '', t.get_text()) for t in ax.get_yticklabels()]
    finally:
        plt.close('all')
    if tick_y != ticks:
        ticks = tick_y + ticks
    return dict(map=i4(m), K=i4(K), downwards=bool(down), ticks=ticks, kept=same(before, d.list_of_samples))


def ust_kernel(name, calls):
    def f():
        def go():
            g = gr.GRAPHS[name]()
            d = xd.UST(g)
            for m, s in calls:
                d.sample(m, random_state=s)
            A = nx.incidence_matrix(g, oriented=True).toarray()[:-1]
            K = A.T.dot(np.linalg.solve(A.dot(A.T), A))
            return heat(d, lambda d: d.plot_kernel(), K)
        return vp.observe(go, map=[], K=[], downwards=True, ticks=[], kept=True)
    return f, dict(what='kernel')


def finite_kernel(kind, params, calls, arg, K):
    def f():
        def go():
            d = FiniteDPP(kind, **params)
            for j, call in enumerate(calls):
                call(d)
            return heat(d, (lambda d: d.plot_kernel()) if arg is None else (lambda d: d.plot_kernel(arg)), K)
        return vp.observe(go, map=[], K=[], downwards=True, ticks=[], kept=True)
    return f, dict(what='kernel')


def finite_refused(kind, params, arg, want):
    def f():
        d = FiniteDPP(kind, **params)

        def go():
            try:
                d.plot_kernel(arg)
            finally:
                plt.close('all')
        o = vp.observe(go)
        o['kept'] = d.list_of_samples == []
        return o
    return f, dict(what='refused', want=want)


# ------------------------------------------------------------------ continuous
def ope_case(n, e, weighted, seed):
    """e: doubled exponents."""
    def f():
        def go():
            o = mj.MultivariateJacobiOPE(n, np.array(e) / 2.0)
            X = np.random.RandomState(seed).uniform(-.95, .95, (n, len(e)))
            kd = np.ravel(o.K(X, eval_pointwise=True))
            phi = o.eval_multiD_polynomials(X)
            plt.close('all')
            try:
                o.plot(X, weighted)
                fig = content()
                hs = [b for ax in axes_of(figs()) for b in bars_of(ax)]
                # offsets and signed sizes; the negative weights are the second cloud
                sc = [k for ax in axes_of(figs()) for k in ax.collections if len(np.ma.getdata(k.get_offsets()))]
                xy, s = [], []
                for k, sg in zip(sc, (1, -1)):
                    off = np.ma.getdata(k.get_offsets())
                    sz = np.ma.getdata(k.get_sizes())
                    xy += i4(off)
                    s += (sg * np.broadcast_to(sz, len(off))).tolist()
                s = i4(np.array(s) / max(map(abs, s)))
            finally:
                plt.close('all')
            return dict(fig=dict(fig, bars=[], scat=[]), shown=dict(xy=xy, s=s), hists=hs, pts=i4(X), kd=i4(kd, 1000), phi=i4(phi, 1000))
        return vp.observe(go, fig=EMPTY, shown=dict(xy=[], s=[]), hists=[], pts=[], kd=[], phi=[])
    return f, dict(what='ope', e=[list(x) for x in e], weighted=weighted)


def pot_case(V, density, shape):
    def f():
        def go():
            p = bp.BetaEnsemblePolynomialPotential(2, np.poly1d(V))
            X = np.random.RandomState(5).uniform(-1.9, 2.2, shape)
            plt.close('all')
            try:
                p.hist(X)
                fig = content()
            finally:
                plt.close('all')
            return dict(fig=fig, pts=i4(np.ravel(X)))
        return vp.observe(go, fig=EMPTY, pts=[])
    return f, dict(what='pot', density=density)
