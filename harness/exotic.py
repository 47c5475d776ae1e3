"""Shared cases of the exotic-DPP checks."""
import itertools
import numpy as np
import vp
import dppy.exotic_dpps as xd
import dppy.exotic_dpps_core as xc

CFG = ('MC_Combin', 'MC_Combin.cfg')


def law_case(fn, seed, canon=tuple, **kw):
    """The law of a call returning a sequence of integers."""
    def f():
        return vp.observe_law(fn, canon=lambda s: tuple(_int(x) for x in s), seed=seed, **kw)
    return f


def windows_case(fn, size, lo, hi, width, first, count, seed, base):
    """Empirical law of the points in windows of `width` consecutive positions lo..hi of a long
    sample; positions in a window are numbered from `base`."""
    def f():
        def go():
            rng = np.random.RandomState(seed)
            rows = []
            for _ in range(count):
                with vp.quiet():
                    s = np.array(list(fn(rng)), dtype=float)
                ind = np.zeros(size + 2, dtype=int)
                if s.size and (np.any(s != np.rint(s)) or s.min() < first or s.max() >= first + size):
                    return dict(law=[dict(s=[-9], p=vp.SCALE)])
                ind[s.astype(int)] = 1
                code = sum(ind[lo + k:hi + 1 - width + 1 + k] << k for k in range(width))
                rows.append(np.bincount(code, minlength=1 << width) / code.size)
            rows = np.array(rows)
            p, t = rows.mean(0), 7 * rows.std(0).max() / np.sqrt(count) + 1e-4
            law = [dict(s=[base + k for k in range(width) if i >> k & 1], p=int(round(vp.SCALE * x)))
                   for i, x in enumerate(p)]
            return dict(law=law, tol=int(vp.SCALE * t))
        o = vp.observe(go, law=[], tol=0)
        if o['outcome'] == 'ok':
            o['outcome'] = 'law'
        return o
    return f


def _int(x):
    i = int(x)
    return i if i == x else -9


def record_case(make, call, ops, twin=True):
    """ops: list of 'flush' or an argument passed to call(obj, arg)."""
    def f():
        def go():
            d = make()
            sizes, keeps, same = [], True, True
            before = []
            for j, op in enumerate(ops):
                if op == 'flush':
                    d.flush_samples()
                    before = []
                else:
                    call(d, op)
                    got = norm(d.list_of_samples)
                    keeps = keeps and got[:len(before)] == before
                    e = make()
                    call(e, op)
                    same = same and norm(e.list_of_samples)[-1:] == got[-1:]
                    before = got
                sizes.append(len(d.list_of_samples))
            return dict(sizes=sizes, keeps=keeps, same=same)
        return vp.observe(go, sizes=[], keeps=True, same=True)
    return f


def norm(samples):
    return [repr(vp.plain(list(s)) if not hasattr(s, 'edges') else sorted(map(str, s.edges())))
            for s in samples]


def histories(alphabet, length):
    for n in range(1, length + 1):
        for h in itertools.product(range(len(alphabet)), repeat=n):
            yield ''.join(map(str, h)), [alphabet[i] for i in h]


def record_cases(out, name, make, call, alphabet, length):
    for tag, ops in histories(alphabet, length):
        out.append(('%s/history/%s' % (name, tag), record_case(make, call, ops),
                    dict(what='record', ops=['flush' if o == 'flush' else 'sample' for o in ops])))
