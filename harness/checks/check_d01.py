"""D01: carries, descent and virtual descent processes."""
import vp
import exotic as ex
from exotic import xd


def sampler(make, size):
    def fn(rng):
        d = make()
        d.sample(size=size, random_state=rng)
        if len(d.list_of_samples) != 1:
            raise AssertionError('one sample is recorded')
        return d.list_of_samples[-1]
    return fn


def run(c):
    out = []
    deep = c.thorough
    for n in range(2, 7 if deep else 6):
        out.append(('descent/%d' % n, ex.law_case(sampler(xd.DescentProcess, n), c.seed),
                    dict(what='descent', n=n)))
    for b in (2, 3, 4, 7, 10):
        for n in range(2, 7):
            if b ** n <= (20000 if deep else 1100):
                out.append(('carries/%d/%d' % (b, n), ex.law_case(
                    sampler(lambda b=b: xd.CarriesProcess(base=b), n), c.seed),
                    dict(what='carries', n=n, b=b)))
    for a, q in ((1, 2), (1, 4), (3, 4), (0, 1), (1, 1), (1, 10), (2, 5)):
        for n in range(1, 5 if deep else 4):
            out.append(('virtual/%d_%d/%d' % (a, q, n), ex.law_case(
                sampler(lambda a=a, q=q: xd.VirtualDescentProcess(x_0=a / q), n), c.seed),
                dict(what='virtual', n=n, a=a, q=q)))
    # long samples: law of the points in windows of 3 positions, in four ranges of positions
    for size in (60, 400, 3000) + ((20000,) if deep else ()):
        num = 1500 if size < 9000 else 400
        q = size // 4
        for j in range(4):
            lo, hi = max(1, j * q), (j + 1) * q - 1
            def long(name, make, **f):
                v = 1 - (f['what'] == 'virtual')
                if f['what'] == 'virtual' and size > 1000:
                    return
                for w in (3, 1):
                    out.append(('long/%s/%d/%d/%d' % (name, size, w, j), ex.windows_case(
                        sampler(make, size), size, lo, hi, w, v, num, c.seed + j, v),
                        dict(f, n=f['n'] - 3 + w)))
            long('descent', xd.DescentProcess, what='descent', n=4)
            for b in (2, 3, 10):
                long('carries%d' % b, lambda b=b: xd.CarriesProcess(base=b), what='carries', n=4, b=b)
            for b in (16, 200, 300):
                out.append(('long/carries%d/%d/1/%d' % (b, size, j), ex.windows_case(
                    sampler(lambda b=b: xd.CarriesProcess(base=b), size), size, lo, hi, 1, 1, num, c.seed + j, 1),
                    dict(what='carries', n=2, b=b)))
            for a, d in ((1, 2), (1, 4)):
                long('virtual%d_%d' % (a, d), lambda a=a, d=d: xd.VirtualDescentProcess(x_0=a / d),
                     what='virtual', n=3, a=a, q=d)
    for x in (-0.1, 1.1, 2, -1):
        out.append(('x_0/%s' % x, (lambda x=x: vp.observe(
            lambda: xd.VirtualDescentProcess(x_0=x) and None)),
            dict(what='raise', expect='ValueError')))

    def value(name, make, num, den):
        out.append(('intensity/' + name, (lambda: vp.observe(
            lambda: dict(v=int(round(vp.SCALE * make()._bernoulli_param))), v=0)),
            dict(what='value', num=num, den=den)))
    value('descent', xd.DescentProcess, 1, 2)
    for b in (2, 3, 10, 16, 200, 1000, 70000):
        value('carries/%d' % b, lambda b=b: xd.CarriesProcess(base=b), b - 1, 2 * b)
    for a, q in ((1, 2), (1, 4), (3, 4), (0, 1), (1, 1)):
        value('virtual/%d_%d' % (a, q), lambda a=a, q=q: xd.VirtualDescentProcess(x_0=a / q),
              q * q - a * a, 2 * q * q)

    def call(d, op):
        size, seed = op
        if size is None:
            d.sample(random_state=seed)
        else:
            d.sample(size=size, random_state=seed)
    for name, make in (('descent', xd.DescentProcess), ('carries', xd.CarriesProcess),
                       ('virtual', xd.VirtualDescentProcess)):
        ex.record_cases(out, name, make, call, [(None, 0), (7, 1), (40, 2), 'flush'], 4 if deep else 3)
    c.conform(out, *ex.CFG)
