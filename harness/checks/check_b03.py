"""B03: beta-ensemble objects: record, parameters, normalisation, refusals."""
import itertools
import re
import numpy as np
import vp
import ensembles as en
from ensembles import be

H, L, J, C, G = (be.HermiteEnsemble, be.LaguerreEnsemble, be.JacobiEnsemble, be.CircularEnsemble,
                 be.GinibreEnsemble)
# (kind, method, keyword arguments, expected outcome, points)
OPS = {
    'H2': (H, 2, [('sample', 'full', dict(size_N=3), 'ok', 3), ('sample', 'banded', {}, 'ok', 10),
                  ('sample', 'banded', dict(size_N=4, loc=1.0, scale=0.5), 'ok', 4),
                  ('sample', 'full', {}, 'ok', 10), ('flush',), ('show',)]),
    'H4': (H, 4, [('sample', 'full', dict(size_N=5), 'ok', 5), ('sample', 'banded', dict(size_N=2), 'ok', 2),
                  ('flush',), ('show',)]),
    'H0': (H, 0, [('sample', 'full', dict(size_N=5), 'ok', 5), ('sample', 'banded', dict(size_N=2), 'ok', 2),
                  ('flush',)]),
    'H3': (H, 3, [('sample', 'banded', dict(size_N=5), 'ok', 5),
                  ('invalid', 'full', dict(size_N=3), 'ValueError', 0), ('flush',)]),
    'L2': (L, 2, [('sample', 'full', dict(size_N=3, size_M=5), 'ok', 3), ('sample', 'banded', {}, 'ok', 10),
                  ('sample', 'banded', dict(size_N=1, size_M=1), 'ok', 1),
                  ('sample', 'banded', dict(size_N=4, shape=2.0, scale=1.0), 'ok', 4),
                  ('invalid', 'full', dict(size_N=5, size_M=4), 'ValueError', 0),
                  ('invalid', 'banded', dict(size_N=5, size_M=4), 'ValueError', 0), ('flush',)]),
    'L4': (L, 4, [('sample', 'full', dict(size_N=3, size_M=3), 'ok', 3), ('sample', 'full', {}, 'ok', 10),
                  ('flush',), ('show',)]),
    'L0': (L, 0, [('sample', 'banded', dict(size_N=3), 'ok', 3),
                  ('invalid', 'full', dict(size_N=3, size_M=5), 'ValueError', 0), ('flush',)]),
    'J2': (J, 2, [('sample', 'full', dict(size_N=3, size_M1=5, size_M2=4), 'ok', 3),
                  ('sample', 'banded', {}, 'ok', 10),
                  ('sample', 'banded', dict(size_N=4, size_M1=4, size_M2=6), 'ok', 4),
                  ('sample', 'banded', dict(size_N=4, a=2.0, b=1.0), 'ok', 4),
                  ('invalid', 'full', dict(size_N=5, size_M1=4, size_M2=9), 'ValueError', 0),
                  ('invalid', 'full', dict(size_N=5, size_M1=9, size_M2=4), 'ValueError', 0),
                  ('invalid', 'banded', dict(size_N=5, size_M1=7, size_M2=4), 'ValueError', 0), ('flush',)]),
    'J4': (J, 4, [('sample', 'full', dict(size_N=3, size_M1=3, size_M2=4), 'ok', 3), ('flush',), ('show',)]),
    'C2': (C, 2, [('sample', 'full', dict(size_N=3), 'ok', 3), ('sample', 'banded', {}, 'ok', 10),
                  ('sample', 'full', dict(size_N=4, haar_mode='QR'), 'ok', 4),
                  ('invalid', 'full', dict(size_N=4, haar_mode='no'), 'ValueError', 0), ('flush',)]),
    'C4': (C, 4, [('sample', 'full', dict(size_N=3), 'ok', 6), ('sample', 'banded', dict(size_N=3), 'ok', 3),
                  ('invalid', 'full', dict(size_N=4, haar_mode='QR'), 'ValueError', 0), ('flush',)]),
    'C3': (C, 3, [('sample', 'banded', dict(size_N=3), 'ok', 3),
                  ('invalid', 'full', dict(size_N=4), 'ValueError', 0), ('show',)]),
    'C0': (C, 0, [('sample', 'banded', dict(size_N=3), 'ok', 3), ('sample', 'full', dict(size_N=4), 'ok', 4), ('flush',)]),
    'G2': (G, 2, [('sample', 'full', dict(size_N=3), 'ok', 3), ('sample', 'full', {}, 'ok', 10),
                  ('invalid', 'banded', {}, 'NotImplementedError', 0), ('flush',), ('show',)]),
}


def call(d, op, seed):
    f = d.sample_full_model if op[1] == 'full' else d.sample_banded_model
    return f(random_state=seed, **op[2])


def reported(d):
    """The reported dimensions and reference measure, up to round-off."""
    g = lambda v: v if v is None else 'nan' if np.isnan(v) else float('%.9g' % v)
    return {k: g(d.params.get(k)) for k in ('loc', 'scale', 'shape', 'a', 'b', 'size_N', 'size_M',
                                            'size_M1', 'size_M2')}


def history(cls, beta, ops, norm=True):
    def f():
        d = cls(beta=beta)
        done, before = [], []
        for j, op in enumerate(ops):
            e = dict(kind=op[0] if op[0] in ('flush', 'sample') else 'other',
                     expect=op[3] if len(op) > 3 else 'ok', last=True, same=True, size=0, want=0)

            def go():
                if op[0] == 'flush':
                    d.flush_samples()
                elif op[0] == 'show':
                    str(d)
                else:
                    r = np.array(call(d, op, j))
                    e['size'], e['want'] = r.size, op[4]
                    e['last'] = len(d.list_of_samples) > 0 and np.array_equal(d.list_of_samples[-1], r)
                    t = cls(beta=beta)
                    q = np.array(call(t, op, j))
                    e['same'] = bool(np.array_equal(q, r)
                                     and np.array_equal(t.normalize_points(q.copy()),
                                                        d.normalize_points(r.copy()))
                                     and reported(d) == reported(t))
                    d.normalize_points(d.list_of_samples[-1])
            o = vp.observe(go)
            e['outcome'] = o['outcome']
            now = [np.array(s) for s in d.list_of_samples]
            if op[0] == 'flush':
                before = []
            e['keeps'] = len(now) >= len(before) and all(map(np.array_equal, now, before))
            e['len'] = len(now)
            m = re.search(r'number of samples = (\d+)', str(d))
            e['shown'] = int(m.group(1)) if m else -1
            before = now
            if op[0] == 'sample' and o['outcome'] == 'ok' and not np.array_equal(now[-1], call(cls(beta=beta), op, j)):
                e['last'] = False       # normalising changed the record
            done.append(e)
        return dict(outcome='ok', ops=done)
    return f


def params(cls, beta, op, want):
    def f():
        def go():
            d = cls(beta=beta)
            call(d, op, 0)
            par = []
            for name, num, den in want:
                v = d.params.get(name)
                known = v is not None and np.isfinite(v)
                par.append(dict(name=name, known=bool(known), num=num, den=den,
                                v=int(round(10000 * v)) if known else 0))
            return dict(par=par)
        return vp.observe(go, par=[])
    return f


def dims(cls, beta, op, pairs):
    def f():
        def go():
            d = cls(beta=beta)
            call(d, op, 0)
            r = lambda x: int(round(10000 * x))
            return dict(dims=[dict(par=r(d.params[a]), m=r(d.params[m])) for a, m in pairs],
                        n=int(d.params['size_N']))
        return vp.observe(go, dims=[], n=1)
    return f


def norm(cls, beta, op, x, form):
    def f():
        def go():
            d = cls(beta=beta)
            call(d, op, 0)
            arg = {'float': lambda: np.array(x, dtype=float), 'int': lambda: np.array(x),
                   'list': lambda: list(x)}[form]()
            keep = list(arg)
            y = d.normalize_points(arg)
            return dict(y=[int(round(1000 * v)) for v in y], untouched=list(arg) == keep)
        return vp.observe(go, y=[], untouched=True)
    return f


def run(c):
    out = []
    deep = c.thorough
    for name, (cls, beta, ops) in OPS.items():
        full = 3 if deep else 2
        hs = [h for n in range(1, full + 1) for h in itertools.product(range(len(ops)), repeat=n)]
        rng = np.random.RandomState(c.seed)
        hs += [tuple(int(x) for x in rng.randint(len(ops), size=6)) for _ in range(60 if deep else 15)]
        for h in dict.fromkeys(hs):
            out.append(('history/%s/%s' % (name, '.'.join(map(str, h))),
                        history(cls, beta, [ops[i] for i in h]), dict(what='history')))
    S = lambda *a: ('sample',) + a
    P = [
        (H, 2, S('full', dict(size_N=3)), [('size_N', 3, 1), ('loc', 0, 1), ('scale', 14142, 10000)]),
        (H, 2, S('banded', dict(size_N=3, loc=1.5, scale=0.5)), [('size_N', 3, 1), ('loc', 3, 2), ('scale', 1, 2)]),
        (H, 2, S('banded', {}), [('size_N', 10, 1), ('loc', 0, 1), ('scale', 14142, 10000)]),
        (L, 2, S('banded', dict(size_N=3, shape=1.5, scale=0.5)), [('size_N', 3, 1), ('shape', 3, 2), ('scale', 1, 2), ('size_M', 7, 2)]),
        (L, 4, S('banded', dict(size_N=3, size_M=5)), [('size_N', 3, 1), ('shape', 6, 1), ('scale', 2, 1), ('size_M', 5, 1)]),
        (L, 1, S('full', dict(size_N=3, size_M=5)), [('size_N', 3, 1), ('shape', 3, 2), ('scale', 2, 1), ('size_M', 5, 1)]),
        (J, 1, S('full', dict(size_N=3, size_M1=5, size_M2=4)), [('size_N', 3, 1), ('a', 3, 2), ('b', 1, 1), ('size_M1', 5, 1), ('size_M2', 4, 1)]),
        (J, 4, S('banded', dict(size_N=3, size_M1=5, size_M2=4)), [('size_N', 3, 1), ('a', 6, 1), ('b', 4, 1), ('size_M1', 5, 1), ('size_M2', 4, 1)]),
        (J, 2, S('banded', dict(size_N=3, a=1.5, b=2.5)), [('size_N', 3, 1), ('a', 3, 2), ('b', 5, 2), ('size_M1', 7, 2), ('size_M2', 9, 2)]),
        (L, 4, S('banded', dict(size_N=1, size_M=1)), [('size_N', 1, 1), ('shape', 2, 1), ('scale', 2, 1), ('size_M', 1, 1)]),
        (L, 1, S('full', dict(size_N=1, size_M=1)), [('size_N', 1, 1), ('shape', 1, 2), ('scale', 2, 1), ('size_M', 1, 1)]),
        (L, 4, S('banded', dict(size_N=1)), [('size_N', 1, 1), ('shape', 1, 1), ('scale', 2, 1)]),
        (J, 4, S('banded', dict(size_N=1, size_M1=1, size_M2=1)), [('size_N', 1, 1), ('a', 2, 1), ('b', 2, 1), ('size_M1', 1, 1), ('size_M2', 1, 1)]),
        (J, 1, S('banded', dict(size_N=1, size_M1=1, size_M2=3)), [('size_N', 1, 1), ('a', 1, 2), ('b', 3, 2), ('size_M1', 1, 1), ('size_M2', 3, 1)]),
        (J, 4, S('full', dict(size_N=1, size_M1=3, size_M2=1)), [('size_N', 1, 1), ('a', 6, 1), ('b', 2, 1), ('size_M1', 3, 1), ('size_M2', 1, 1)]),
        (H, 2, S('banded', dict(size_N=1, loc=-2.0, scale=3.0)), [('size_N', 1, 1), ('loc', -2, 1), ('scale', 3, 1)]),
        (C, 2, S('full', dict(size_N=1)), [('size_N', 1, 1)]), (C, 4, S('banded', dict(size_N=1)), [('size_N', 1, 1)]),
        (G, 2, S('full', dict(size_N=1)), [('size_N', 1, 1)]),
        (C, 2, S('full', dict(size_N=7)), [('size_N', 7, 1)]), (C, 2, S('banded', dict(size_N=7)), [('size_N', 7, 1)]),
        (G, 2, S('full', dict(size_N=7)), [('size_N', 7, 1)]),
    ]
    for i, (cls, beta, op, want) in enumerate(P):
        out.append(('params/%s/%d' % (cls.__name__, i), params(cls, beta, op, want), dict(what='params')))
    for bn, bq in ((1, 1), (2, 1), (4, 1), (1, 2), (7, 2)):
        b = bn if bq == 1 else bn / bq
        for n in (1, 4):
            for kw in (dict(size_N=n), dict(size_N=n, size_M=n + 2), dict(size_N=n, shape=0.5)):
                out.append(('dims/laguerre/%d_%d/%s' % (bn, bq, kw), dims(L, b, S('banded', kw), [('shape', 'size_M')]),
                            dict(what='dims', bn=bn, bq=bq)))
            for kw in (dict(size_N=n), dict(size_N=n, size_M1=n + 2, size_M2=n), dict(size_N=n, a=0.5, b=3.5)):
                out.append(('dims/jacobi/%d_%d/%s' % (bn, bq, kw),
                            dims(J, b, S('banded', kw), [('a', 'size_M1'), ('b', 'size_M2')]),
                            dict(what='dims', bn=bn, bq=bq)))
    # normalisation: y^2 = (x - mu)^2 num / den (Hermite), y = x num / den (Laguerre)
    x = [-7, -3, -2, 0, 1, 2, 5, 8]
    for form in ('float', 'int', 'list'):
        for beta, n in ((1, 3), (2, 5), (4, 2)):
            out.append(('norm/hermite-full/%d/%s' % (beta, form), norm(H, beta, S('full', dict(size_N=n)), x, form),
                        dict(what='norm', kind='hermite', x=x, mu=0, num=1, den=beta * n)))
            out.append(('norm/hermite-banded/%d/%s' % (beta, form),
                        norm(H, beta, S('banded', dict(size_N=n, loc=2.0, scale=3.0)), x, form),
                        dict(what='norm', kind='hermite', x=x, mu=2, num=2, den=9 * beta * n)))
            out.append(('norm/laguerre-full/%d/%s' % (beta, form),
                        norm(L, beta, S('full', dict(size_N=n, size_M=n + 3)), x, form),
                        dict(what='norm', kind='scale', x=x, num=1, den=beta * (n + 3))))
            out.append(('norm/laguerre-banded/%d/%s' % (beta, form),
                        norm(L, beta, S('banded', dict(size_N=n, shape=0.5 * beta * 3, scale=4.0)), x, form),
                        dict(what='norm', kind='scale', x=x, num=1, den=2 * beta * (n + 2))))
            out.append(('norm/jacobi/%d/%s' % (beta, form), norm(J, beta, S('banded', dict(size_N=n)), x, form),
                        dict(what='norm', kind='scale', x=x, num=1, den=1)))
        out.append(('norm/hermite-banded/0/' + form, norm(H, 0, S('banded', dict(size_N=2, loc=1.0, scale=2.0)), x, form),
                    dict(what='norm', kind='hermite', x=x, mu=1, num=2, den=4)))
        out.append(('norm/laguerre-banded/0/' + form, norm(L, 0, S('banded', dict(size_N=2, scale=4.0)), x, form),
                    dict(what='norm', kind='scale', x=x, num=1, den=2)))
        if form != 'list':
            out.append(('norm/ginibre/' + form, norm(G, 2, S('full', dict(size_N=4)), x, form),
                        dict(what='norm', kind='scale', x=x, num=1, den=2)))

    def bad(name, mk, expect='ValueError'):
        out.append(('refused/' + name, (lambda: vp.observe(lambda: mk() and None)), dict(what='raise', expect=expect)))
    for cls in (H, L, J, C):
        bad('%s/-1' % cls.__name__, lambda cls=cls: cls(beta=-1))
    bad('Hermite/-0.5', lambda: H(beta=-0.5))
    bad('Hermite/nan', lambda: H(beta=float('nan')))
    bad('Circular/1.5', lambda: C(beta=1.5))
    bad('Circular/2.0', lambda: C(beta=2.0))
    for b in (0, 1, 4, 2.5):
        bad('Ginibre/%s' % b, lambda b=b: G(beta=b))
    for b in (0.5, 3, 5):
        bad('Laguerre/full/%s' % b, lambda b=b: L(beta=b).sample_full_model(size_N=2, size_M=3, random_state=0))
        bad('Jacobi/full/%s' % b, lambda b=b: J(beta=b).sample_full_model(size_N=2, size_M1=3, size_M2=3, random_state=0))
        bad('Hermite/full/%s' % b, lambda b=b: H(beta=b).sample_full_model(size_N=2, random_state=0))
    c.conform(out, 'MC_Beta', 'MC_Beta.cfg')
