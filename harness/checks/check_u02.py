"""U02: the spanning tree object: kernel, record, validation."""
import itertools
import numpy as np
import networkx as nx
import vp
import graphs as gr


def kernel(name, pre):
    def f():
        def go():
            d = gr.UST(gr.GRAPHS[name]())
            for p in pre:
                if p == 'eig':
                    d.compute_kernel_eig_vecs()
                elif p == 'kernel':
                    d.compute_kernel()
                else:
                    d.sample(mode=p, random_state=0)
            d.compute_kernel()
            return dict(K=[[int(round(10000 * x)) for x in r] for r in d.kernel])
        return vp.observe(go, K=[])
    return f


def history(name, ops):
    def f():
        g = gr.GRAPHS[name]()
        d = gr.UST(g)
        done, before = [], []
        shot = lambda: [gr.tree_idx(g, t) for t in d.list_of_samples]
        for op in ops:
            e = dict(kind=op[0], tree=[], same=True)

            def go(op=op, e=e):
                if op[0] == 'flush':
                    d.flush_samples()
                elif op[0] == 'kernel':
                    d.compute_kernel()
                else:
                    kw = dict(mode=op[1]) if op[1] else {}
                    kw.update(op[3] if len(op) > 3 else {})
                    d.sample(random_state=op[2], **kw)
                    t = gr.tree_idx(g, d.list_of_samples[-1])
                    e['tree'] = list(t)
                    f2 = gr.UST(gr.GRAPHS[name]())
                    f2.sample(random_state=op[2], **kw)
                    e['same'] = gr.tree_idx(g, f2.list_of_samples[-1]) == t
            o = vp.observe(go)
            e['outcome'] = o['outcome']
            now = shot()
            e['len'] = len(now)
            if op[0] == 'flush':
                before = []
            e['keeps'] = now[:len(before)] == before
            before = now
            done.append(e)
        return dict(outcome='ok', ops=done)
    return f


def run(c):
    out = []
    pres = [(), ('eig',), ('kernel',), ('Wilson',), ('GS',), ('Schur',), ('KuTa12', 'Chol'), ('GS_bis', 'kernel')]
    for name in gr.GRAPHS:
        if name == 'wheel5' and not c.thorough:
            continue
        for pre in pres:
            out.append(('kernel/%s/%s' % (name, '-'.join(pre)), kernel(name, pre),
                        gr.base(name, 'kernel')))
    ops = [('sample', m, 3 + i) for i, m in enumerate(gr.MODES)]
    ops += [('sample', None, 1), ('sample', 'Wilson', 2, dict(root=0)), ('flush',), ('kernel',),
            ('invalid', 'nope', 0)]
    k = 0
    for n in range(1, 4 if c.thorough else 3):
        for h in itertools.product(range(len(ops)), repeat=n):
            for name in (('k4', 'bull') if n < 3 else ('paw',)):
                out.append(('history/%s/%s' % (name, '.'.join(map(str, h))),
                            history(name, [ops[i] for i in h]), gr.base(name, 'history')))
    rng = np.random.RandomState(c.seed)
    for r in range(400 if c.thorough else 100):
        h = rng.randint(len(ops), size=6)
        out.append(('history/house/r%d' % r, history('house', [ops[i] for i in h]),
                    gr.base('house', 'history')))
    bad = {'two-parts': [(0, 1), (2, 3)], 'isolated': [(0, 1), (1, 2)]}
    for nm, ed in bad.items():
        def go(ed=ed, nm=nm):
            gr.UST(gr.G(ed, range(4) if nm == 'isolated' else None))
        out.append(('disconnected/' + nm, (lambda go=go: vp.observe(go)),
                    dict(what='raise', expect='ValueError')))
    c.conform(out, 'MC_UST', 'MC_UST.cfg')
