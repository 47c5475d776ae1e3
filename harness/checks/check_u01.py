"""U01: spanning trees are sampled uniformly."""
import numpy as np
import networkx as nx
import vp
import graphs as gr


def law(name, mode, root, seed, mc, ntrees, fwd):
    def f():
        g = gr.GRAPHS[name]()
        d = gr.UST(g)

        def one(rng):
            d.flush_samples()
            kw = {} if root is None and fwd else dict(root=root)
            d.sample(mode=mode, random_state=rng, **kw)
            return gr.tree_idx(g, d.list_of_samples[-1])
        pmax = min(0.5, 1.0 / ntrees)
        walk = mode in ('Wilson', 'Aldous-Broder')
        if walk:
            # infinitely many walks: enumerate down to a small probability
            o = vp.observe_law(one, canon=lambda s: s, seed=seed, mc=mc, pmax=pmax,
                               min_prob=2e-5, max_paths=40000)
            if o['outcome'] == 'law' and o['tol'] < vp.SCALE * 4 * np.sqrt(pmax / mc):
                return o
        return vp.observe_law(one, canon=lambda s: s, seed=seed, mc=mc, pmax=pmax, enum=not walk)
    return f


def large(name, mode, roots, seed, nb):
    def f():
        g = gr.graph(name)
        d = gr.UST(g)

        def go():
            trees = []
            for i in range(nb):
                d.sample(mode=mode, root=roots[i % len(roots)], random_state=seed + i)
                trees.append(list(gr.tree_idx(g, d.list_of_samples[-1])))
            kinds = sorted(set(map(tuple, trees)))
            return dict(trees=[list(t) for t in kinds], counts=[trees.count(list(t)) for t in kinds],
                        len=len(d.list_of_samples))
        return vp.observe(go, trees=[], counts=[], len=0)
    return f


def run(c):
    c.model('MC_USTModel', 'MC_USTModel.cfg')
    out = []
    for name, mk in gr.GRAPHS.items():
        g = mk()
        n = g.number_of_nodes()
        L = nx.laplacian_matrix(nx.Graph([e for e in g.edges() if e[0] != e[1]])).toarray()
        nt = int(round(np.linalg.det(L[1:, 1:]))) if n > 1 else 1
        for mode in gr.MODES:
            if name == 'wheel5' and not c.thorough and mode in ('GS_bis', 'KuTa12', 'Chol'):
                continue
            roots = [None]
            if mode in ('Wilson', 'Aldous-Broder'):
                roots = [None, 0, n - 1] + (list(range(1, n - 1)) if c.thorough else [])
            for r in roots:
                mc = (200000 if c.thorough else 20000)
                out.append(('%s/%s/%s' % (name, mode, r),
                            law(name, mode, r, c.seed, mc, nt, True), gr.base(name, 'law'), 600))
    for name in gr.LARGE:
        for mode in gr.MODES:
            walk = mode in ('Wilson', 'Aldous-Broder')
            nb = {'path140': 2, 'cycle130': 6, 'grid11': 4, 'star140': 120}[name]
            nb = nb * (4 if c.thorough else 1)
            roots = [None] if not walk else [0] if name == 'star140' else [None, 129, 0]
            out.append(('%s/%s/large' % (name, mode), large(name, mode, roots, c.seed * 1000, nb),
                        gr.base(name, 'large', draws=nb, uniform=name == 'star140'), 300))
    c.conform(out, 'MC_UST', 'MC_UST.cfg')
