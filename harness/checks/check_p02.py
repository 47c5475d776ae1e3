"""P02: the Robinson-Schensted-Knuth correspondence."""
import itertools
import numpy as np
import vp
import exotic as ex
from exotic import xc

FORMS = {'list': list, 'tuple': tuple, 'array': np.array,
         'half': lambda w: [x / 2 for x in w], 'farray': lambda w: np.array(w) / 2.0,
         'generator': None}


def case(word, form):
    def f():
        def go():
            if form == 'generator':
                arg, copy = iter(list(word)), None
            else:
                arg, copy = FORMS[form](word), FORMS[form](word)
            P, Q = xc.RSK(arg)
            m = 2 if form in ('half', 'farray') else 1
            to = lambda T, m: [[ex._int(m * x) for x in row] for row in T]
            return dict(P=to(P, m), Q=to(Q, 1),
                        untouched=bool(copy is None or np.array_equal(arg, copy)))
        return vp.observe(go, P=[], Q=[], untouched=True)
    return f


def run(c):
    c.model('MC_RSKModel', 'MC_RSKModel.cfg')
    c.model('MC_RSKModel', 'MC_RSKWords.cfg')
    words = [w for n in range(0, 7 if c.thorough else 6) for w in itertools.permutations(range(1, n + 1))]
    words += [w for n in range(1, 6 if c.thorough else 5) for w in itertools.product(range(1, n + 1), repeat=n)
              if len(set(w)) < n]
    rng = np.random.RandomState(c.seed)
    for n in (8, 12, 20):
        for _ in range(40 if c.thorough else 12):
            words.append(tuple(int(x) for x in rng.randint(-n, n, n)))
            words.append(tuple(int(x) for x in rng.permutation(n)))
    for n in (150, 300) if c.thorough else (150,):
        words += [tuple(range(n)), tuple(range(n, 0, -1)), tuple([7] * n),
                  tuple(int(x) for x in rng.permutation(n)),
                  tuple(int(x) for x in rng.randint(-300, 301, n)),
                  tuple(int(x) for x in rng.randint(0, 4, n))]
    out = []
    seen = set()
    for i, w in enumerate(words):
        if w in seen:
            continue
        seen.add(w)
        forms = list(FORMS) if len(w) <= 4 else [list(FORMS)[i % len(FORMS)]]
        for form in forms:
            name = '.'.join(map(str, w)) if len(w) < 30 else 'long%d-%d' % (len(w), i)
            out.append(('%s/%s' % (form, name), case(w, form),
                        dict(what='rsk', word=list(w))))
    c.conform(out, *ex.CFG)
