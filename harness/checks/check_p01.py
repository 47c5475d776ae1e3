"""P01: uniform random permutations."""
import numpy as np
import vp
import exotic as ex
from exotic import xc


def positions(n, count, seed):
    def f():
        def go():
            rng = np.random.RandomState(seed)
            pos, less = np.zeros((n, n)), np.zeros((n, n))
            i = np.arange(n)
            for _ in range(count):
                s = np.array(xc.uniform_permutation(n, random_state=rng))
                if sorted(s.tolist()) != list(range(n)):
                    return dict(perm=False)
                pos[i, s] += 1
                less += s[:, None] < s
            r = lambda a: [[int(x) for x in b] for b in np.rint(vp.SCALE * a / count)]
            return dict(pos=r(pos), less=r(less),
                        tp=int(vp.SCALE * 7 * np.sqrt(1 / n / count)), tl=int(vp.SCALE * 3.5 / np.sqrt(count)))
        return vp.observe(go, perm=True, pos=[], less=[], tp=0, tl=0)
    return f


def run(c):
    out = []
    for n in range(0, 7 if c.thorough else 6):
        out.append(('law/%d' % n, ex.law_case(
            lambda rng, n=n: xc.uniform_permutation(n, random_state=rng), c.seed),
            dict(what='perm', n=n)))
    # larger permutations: where each item goes, and how pairs are ordered
    for n in (8, 13, 24, 40) + ((100,) if c.thorough else ()):
        out.append(('positions/%d' % n, positions(n, 100000 if c.thorough else 20000, c.seed),
                    dict(what='positions', n=n)))
    for n in (1, 2, 3, 10, 33, 100):
        for s in range(3):
            out.append(('seeded/%d/%d' % (n, s), (lambda n=n, s=s: vp.observe(
                lambda: dict(s=list(map(int, xc.uniform_permutation(n, random_state=s)))), s=[])),
                dict(what='isperm', n=n)))
    # sizes beyond the small integer types: too long to list, so the observation is the verdict of a sort
    def big(n, s):
        def go():
            v = np.asarray(xc.uniform_permutation(n, random_state=s))
            once = v.shape == (n,) and np.array_equal(np.sort(v.astype(np.int64)), np.arange(n))
            return dict(perm=bool(once), pos=[], less=[], tp=0, tl=0)
        return lambda: vp.observe(go, perm=True, pos=[], less=[], tp=0, tl=0)
    for n in (300, 33000, 70000):
        out.append(('big/%d' % n, big(n, c.seed), dict(what='positions', n=0)))
    c.conform(out, *ex.CFG)
