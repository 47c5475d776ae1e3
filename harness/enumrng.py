"""Branch-enumerating random source.

`EnumRNG` is a `numpy.random.RandomState` whose draws do not consume random bits: each
discrete draw forks the execution over its possible values, and each uniform draw returns a
symbolic number that forks only when the code under test compares it (or truncates it to an
integer).  Running the code once per path therefore yields the *exact* output law of the real
implementation, however its draws are organised.  Gaussian / gamma / chi-square / beta draws
can fork over Gauss quadrature nodes, so that expectations of polynomials in the draws are exact.

Anything the enumeration cannot interpret raises `Unsupported`; the callers then fall back on
plain sampling with a very strict threshold, so an unforeseen way of drawing never becomes an alarm.
"""
import itertools
import math
import re
import numpy as np

PRUNE = 1e-11            # alternatives below this conditional probability are never followed


class Unsupported(Exception):
    """The enumeration cannot interpret an operation on a symbolic draw."""


class Budget(Exception):
    """More paths than the caller allows."""


class Diverged(Exception):
    """The code under test did not repeat itself when the same draws were replayed."""


class PathCut(BaseException):
    """A path left the enumerated part of the tree (depth or probability cut)."""


class _Uniform:
    """One U(0,1) draw, known to lie in [lo, hi)."""
    __slots__ = ('tree', 'lo', 'hi')

    def __init__(self, tree):
        self.tree, self.lo, self.hi = tree, 0.0, 1.0

    def below(self, c):
        """Fork on U < c."""
        if math.isnan(c):
            return False
        w = self.hi - self.lo
        p = (c - self.lo) / w if w > 0 else (1.0 if self.lo < c else 0.0)
        p = min(1.0, max(0.0, p))
        if p <= PRUNE:
            return False
        if p >= 1.0 - PRUNE:
            return True
        if self.tree.fork([p, 1.0 - p]) == 0:
            self.hi = c
            return True
        self.lo = c
        return False


class Sym:
    """a * f(U) + b with f the identity or the logarithm, a != 0."""
    __array_priority__ = 1e6

    def __init__(self, u, a=1.0, b=0.0, log=False):
        self.u, self.a, self.b, self.log_ = u, float(a), float(b), log

    # -- ranges ---------------------------------------------------------------------------
    def _inv(self, v):
        """The c with  value < v  <=>  U < c (a>0)  or  U > c (a<0)."""
        c = (float(v) - self.b) / self.a
        if self.log_:
            c = math.exp(c) if c < 700 else math.inf
        return c

    def _lt(self, v):
        if isinstance(v, Sym):
            if v.u is self.u and v.log_ == self.log_:
                a, b = self.a - v.a, self.b - v.b
                if a == 0:
                    return b < 0
                return Sym(self.u, a, b, self.log_)._lt(0.0)
            raise Unsupported('comparison of two draws')
        v = _scalar(v)
        c = self._inv(v)
        if math.isnan(c):
            return False
        r = self.u.below(c)
        return r if self.a > 0 else not r

    def __lt__(self, v):
        return self._cmp(v, lambda x: self._lt(x))

    def __le__(self, v):
        return self._cmp(v, lambda x: not x._lt(self) if isinstance(x, Sym) else self._lt(x))

    def __gt__(self, v):
        return self._cmp(v, lambda x: x._lt(self) if isinstance(x, Sym)
                         else (not _isnan(x)) and not self._lt(x))

    def __ge__(self, v):
        return self._cmp(v, lambda x: not self._lt(x) if isinstance(x, Sym)
                         else (not _isnan(x)) and not self._lt(x))

    def __eq__(self, v):
        return self._cmp(v, lambda x: False)

    def __ne__(self, v):
        return self._cmp(v, lambda x: True)

    __hash__ = None

    def _cmp(self, v, f):
        if isinstance(v, np.ndarray) and v.ndim:
            out = np.empty(v.shape, dtype=bool)
            for i in np.ndindex(v.shape):
                out[i] = f(v[i])
            return out
        return f(v)

    # -- arithmetic -----------------------------------------------------------------------
    def _map(self, v, f):
        if isinstance(v, np.ndarray) and v.ndim:
            out = np.empty(v.shape, dtype=object)
            for i in np.ndindex(v.shape):
                out[i] = f(v[i])
            return out
        return f(_scalar(v) if not isinstance(v, Sym) else v)

    def __add__(self, v):
        def f(x):
            if isinstance(x, Sym):
                if x.u is self.u and x.log_ == self.log_ and self.a + x.a:
                    return Sym(self.u, self.a + x.a, self.b + x.b, self.log_)
                raise Unsupported('sum of two draws')
            return Sym(self.u, self.a, self.b + x, self.log_)
        return self._map(v, f)

    __radd__ = __add__

    def __neg__(self):
        return Sym(self.u, -self.a, -self.b, self.log_)

    def __sub__(self, v):
        return self + (-v)

    def __rsub__(self, v):
        return (-self) + v

    def __mul__(self, v):
        def f(x):
            if isinstance(x, Sym):
                raise Unsupported('product of two draws')
            if x == 0:
                return 0.0
            return Sym(self.u, self.a * x, self.b * x, self.log_)
        return self._map(v, f)

    __rmul__ = __mul__

    def __truediv__(self, v):
        def f(x):
            if isinstance(x, Sym):
                raise Unsupported('quotient of two draws')
            return Sym(self.u, self.a / x, self.b / x, self.log_)
        return self._map(v, f)

    def __rtruediv__(self, v):
        raise Unsupported('division by a draw')

    def log(self):
        if self.log_ or self.a <= 0 or self.b != 0:
            raise Unsupported('log of a transformed draw')
        return Sym(self.u, 1.0, math.log(self.a), True)

    def exp(self):
        if self.log_ and self.a == 1.0:
            return Sym(self.u, math.exp(self.b), 0.0)
        raise Unsupported('exp of a draw')

    def __floor__(self):
        if self.log_:
            raise Unsupported('floor of log')
        e = sorted((self.a * self.u.lo + self.b, self.a * self.u.hi + self.b))
        lo, hi = math.floor(e[0] + 1e-12), math.ceil(e[1] - 1e-12) - 1
        if hi - lo > 10000:
            raise Unsupported('floor over a wide range')
        for k in range(lo, hi):
            if self._lt(k + 1):
                return k
        return hi

    def __int__(self):
        e = sorted((self.a * self.u.lo + self.b, self.a * self.u.hi + self.b))
        if e[0] < 0:
            raise Unsupported('int of a negative draw')
        return self.__floor__()

    def floor(self):
        return self.__floor__()

    def astype(self, t):
        if np.dtype(t).kind in 'iu':
            return int(self)
        raise Unsupported('cast of a draw')

    def __float__(self):
        raise Unsupported('a draw was used as a plain number')

    __index__ = __complex__ = None

    def __bool__(self):
        return True

    def item(self):
        return self

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        if method != '__call__' or kw.get('out') is not None:
            raise Unsupported('ufunc %s.%s on a draw' % (ufunc.__name__, method))
        n = ufunc.__name__
        if len(inputs) == 1:
            f = {'log': Sym.log, 'exp': Sym.exp, 'negative': Sym.__neg__,
                 'positive': lambda s: s, 'floor': Sym.__floor__}.get(n)
            if f is None:
                raise Unsupported('ufunc %s on a draw' % n)
            return f(inputs[0])
        x, y = inputs
        if not isinstance(x, Sym):
            if isinstance(x, np.ndarray) and x.ndim == 0:
                x = x.item()
            swap = {'less': '__gt__', 'less_equal': '__ge__', 'greater': '__lt__',
                    'greater_equal': '__le__', 'equal': '__eq__', 'not_equal': '__ne__',
                    'add': '__radd__', 'subtract': '__rsub__', 'multiply': '__rmul__',
                    'divide': '__rtruediv__', 'true_divide': '__rtruediv__'}
            if n not in swap:
                raise Unsupported('ufunc %s on a draw' % n)
            return getattr(y, swap[n])(x)
        fwd = {'less': '__lt__', 'less_equal': '__le__', 'greater': '__gt__',
               'greater_equal': '__ge__', 'equal': '__eq__', 'not_equal': '__ne__',
               'add': '__add__', 'subtract': '__sub__', 'multiply': '__mul__',
               'divide': '__truediv__', 'true_divide': '__truediv__'}
        if n not in fwd:
            raise Unsupported('ufunc %s on a draw' % n)
        if isinstance(y, np.ndarray) and y.ndim == 0:
            y = y.item()
        return getattr(x, fwd[n])(y)


class SymArray(np.ndarray):
    """Object array of draws; conversion to a float array is refused rather than guessed."""

    def astype(self, dtype, *a, **k):
        if np.dtype(dtype).kind in 'iu':
            out = np.empty(self.shape, dtype=dtype)
            for i in np.ndindex(self.shape):
                out[i] = int(self[i])
            return out
        if np.dtype(dtype).kind == 'O':
            return self.copy()
        raise Unsupported('cast of draws to %s' % dtype)


def _scalar(v):
    if isinstance(v, Sym):
        return v
    if isinstance(v, np.ndarray):
        if v.size != 1:
            raise Unsupported('comparison with an array')
        v = v.reshape(-1)[0]
        if isinstance(v, Sym):
            return v
    try:
        return float(v)
    except TypeError:
        raise Unsupported('operand %r' % (type(v),))


def _isnan(v):
    try:
        return math.isnan(v)
    except TypeError:
        return False


class Tree:
    """Depth-first enumeration of the decision tree of one experiment."""

    def __init__(self, min_prob=0.0, max_depth=100000):
        self.prefix = []         # list of [index, alternatives]
        self.min_prob, self.max_depth = min_prob, max_depth
        self.cut = 0.0           # probability of the paths given up by the engine itself
        self.start()

    def start(self):
        self.pos, self.prob = 0, 1.0

    def fork(self, probs):
        """Choose one alternative; returns its index."""
        if len(probs) == 1:
            return 0
        if self.pos < len(self.prefix):
            i, ps = self.prefix[self.pos]
            if len(ps) != len(probs) or abs(ps[i] - probs[i]) > 1e-7:
                raise Diverged('replaying the same draws met a different choice')
        else:
            if self.pos >= self.max_depth:
                self.cut += self.prob
                raise PathCut()
            ps = list(map(float, probs))
            i = self._next(ps, -1)
            if i is None:
                raise PathCut()
            self.prefix.append([i, ps])
        self.pos += 1
        self.prob *= ps[i]
        return i

    def _next(self, ps, i):
        for j in range(i + 1, len(ps)):
            if ps[j] > PRUNE and self.prob * ps[j] > self.min_prob:
                return j
            self.cut += self.prob * max(0.0, ps[j])
        return None

    def advance(self):
        """Move to the next unexplored path; False when the tree is exhausted."""
        while self.prefix:
            i, ps = self.prefix[-1]
            self.prob = 1.0
            for k, q in self.prefix[:-1]:
                self.prob *= q[k]
            j = self._next(ps, i)
            if j is not None:
                self.prefix[-1][0] = j
                return True
            self.prefix.pop()
        return False


def _size(size):
    if size is None:
        return None
    if isinstance(size, (int, np.integer)):
        return (int(size),)
    return tuple(int(s) for s in size)


class EnumRNG(np.random.RandomState):

    def __new__(cls, tree=None, **kw):
        return super().__new__(cls, 12345)

    def __init__(self, tree=None, nodes=0, pois_tail=1e-4, multiset=False):
        super().__init__(12345)
        self.tree, self.nodes, self.pois_tail = tree, nodes, pois_tail
        self.multiset = multiset
        self.calls = []

    # -- plumbing ---------------------------------------------------------------------------
    def _fork(self, probs):
        return self.tree.fork(probs)

    def _array(self, size, f):
        size = _size(size)
        if size is None:
            return f()
        out = np.empty(size, dtype=object)
        flat = out.reshape(-1)
        for i in range(flat.size):
            flat[i] = f()
        return out

    def _numarray(self, size, f, dtype=float):
        size = _size(size)
        if size is None:
            return f()
        out = np.empty(size, dtype=dtype)
        flat = out.reshape(-1)
        for i in range(flat.size):
            flat[i] = f()
        return out

    def _unif(self):
        return Sym(_Uniform(self.tree))

    def _usize(self, size):
        r = self._array(size, self._unif)
        return r.view(SymArray) if isinstance(r, np.ndarray) else r

    # -- uniforms -----------------------------------------------------------------------------
    def rand(self, *dims):
        return self._usize(dims if dims else None)

    def random_sample(self, size=None):
        return self._usize(size)

    random = ranf = sample = random_sample

    def uniform(self, low=0.0, high=1.0, size=None):
        u = self._usize(size)
        if np.ndim(low) or np.ndim(high):
            raise Unsupported('uniform with array bounds')
        return u * (high - low) + low if (low, high) != (0.0, 1.0) else u

    # -- discrete -----------------------------------------------------------------------------
    def _pick(self, n):
        n = int(n)
        if n <= 0:
            raise ValueError('a must be greater than 0')
        return self._fork([1.0 / n] * n) if n > 1 else 0

    def choice(self, a, size=None, replace=True, p=None):
        if isinstance(a, (int, np.integer)) or np.ndim(a) == 0:
            n, items = int(a), None
            if n <= 0:
                raise ValueError('a must be greater than 0 unless no samples are taken')
        else:
            items = np.asarray(a) if not isinstance(a, np.ndarray) else a
            if items.ndim != 1:
                raise ValueError('a must be 1-dimensional')
            n = len(items)
            if n == 0 and not (_size(size) is not None and np.prod(_size(size)) == 0):
                raise ValueError("'a' cannot be empty unless no samples are taken")
        if p is not None:
            p = np.asarray(p, dtype=float)
            if p.ndim != 1:
                raise ValueError("'p' must be 1-dimensional")
            if len(p) != n:
                raise ValueError("'a' and 'p' must have same size")
            if np.isnan(p).any():
                raise ValueError('probabilities contain NaN')
            if (p < 0).any():
                raise ValueError('probabilities are not non-negative')
            if abs(p.sum() - 1.0) > 1.5e-8:
                raise ValueError('probabilities do not sum to 1')
            p = p / p.sum()
        shape = _size(size)
        m = 1 if shape is None else int(np.prod(shape))
        idx = []
        if replace:
            w = [1.0 / n] * n if p is None else p
            if self.multiset and m > 1 and n > 1:
                # one representative per multiset of draws, with its multinomial probability
                live = [j for j in range(n) if w[j] > 1e-14]
                reps = list(itertools.combinations_with_replacement(live, m))
                pr = []
                for r in reps:
                    q = math.factorial(m)
                    for j in set(r):
                        q = q / math.factorial(r.count(j)) * w[j]**r.count(j)
                    pr.append(q)
                idx.extend(reps[self._fork(pr)][::-1])
            else:
                for _ in range(m):
                    idx.append(self._fork(w) if n > 1 else 0)
        else:
            if m > n:
                raise ValueError("Cannot take a larger sample than population when 'replace=False'")
            left = list(range(n))
            for _ in range(m):
                w = np.ones(len(left)) if p is None else p[left]
                if w.sum() <= 0:
                    raise ValueError('Fewer non-zero entries in p than size')
                j = self._fork(w / w.sum()) if len(left) > 1 else 0
                idx.append(left.pop(j))
        if shape is None:
            i = idx[0]
            if items is None:
                return int(i)
            r = items[i]
            return r
        idx = np.array(idx, dtype=np.int64).reshape(shape)
        return idx if items is None else items[idx]

    def randint(self, low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        if np.ndim(low) or np.ndim(high):
            raise Unsupported('randint with array bounds')
        low, high = int(low), int(high)
        if low >= high:
            raise ValueError('low >= high')
        return self._numarray(size, lambda: low + self._pick(high - low), dtype)

    def random_integers(self, low, high=None, size=None):
        if high is None:
            low, high = 1, low
        return self.randint(low, high + 1, size)

    def tomaxint(self, size=None):
        raise Unsupported('tomaxint')

    def bytes(self, length):
        raise Unsupported('bytes')

    def permutation(self, x):
        if isinstance(x, (int, np.integer)):
            arr = np.arange(x)
        else:
            arr = np.array(x)
        order = self._perm(len(arr))
        return arr[order]

    def shuffle(self, x):
        order = self._perm(len(x))
        if isinstance(x, np.ndarray):
            x[...] = x[order]
        else:
            x[:] = [x[i] for i in order]

    def _perm(self, n):
        left, out = list(range(n)), []
        for _ in range(n):
            out.append(left.pop(self._pick(len(left))))
        return out

    def _poisson(self, lam):
        lam = float(lam)
        if lam < 0 or math.isnan(lam):
            raise ValueError('lam < 0 or lam is NaN')
        ps, tot, k, p = [], 0.0, 0, math.exp(-lam)
        if p == 0.0:
            raise Unsupported('large Poisson intensity')
        while 1.0 - tot > self.pois_tail:
            ps.append(p)
            tot += p
            k += 1
            p *= lam / k
            if k > 2000:
                break
        # the tail is one extra alternative, cut when taken
        i = self._fork(ps + [max(0.0, 1.0 - tot)])
        if i == len(ps):
            self.tree.cut += self.tree.prob
            raise PathCut()
        return i

    def poisson(self, lam=1.0, size=None):
        if np.ndim(lam):
            lam = np.asarray(lam)
            out = np.empty(lam.shape, dtype=int)
            for i in np.ndindex(lam.shape):
                out[i] = self._poisson(lam[i])
            return out
        return self._numarray(size, lambda: self._poisson(lam), int)

    def _binom(self, n, p):
        n = int(n)
        return self._fork([math.comb(n, k) * p**k * (1 - p)**(n - k) for k in range(n + 1)])

    def binomial(self, n, p, size=None):
        if np.ndim(n) or np.ndim(p):
            n, p = np.broadcast_arrays(n, p)
            out = np.empty(n.shape, dtype=int)
            for i in np.ndindex(n.shape):
                out[i] = self._binom(n[i], float(p[i]))
            return out
        return self._numarray(size, lambda: self._binom(n, p), int)

    def multinomial(self, n, pvals, size=None):
        if size is not None:
            raise Unsupported('multinomial with size')
        p = np.asarray(pvals, dtype=float)
        out = np.zeros(len(p), dtype=int)
        for _ in range(int(n)):
            out[self._fork(p)] += 1
        return out

    def geometric(self, p, size=None):
        raise Unsupported('geometric')

    # -- quadrature for continuous laws ---------------------------------------------------------
    def _quad(self, key):
        if not self.nodes:
            raise Unsupported('continuous draw')
        x, w = _quadrature(key, self.nodes)
        i = self._fork(w)
        return float(x[i])

    def _bcast(self, size, f, *args):
        args = [np.asarray(a, dtype=float) for a in args]
        shape = _size(size)
        if shape is None:
            shape = np.broadcast(*args).shape
        bc = [np.broadcast_to(a, shape) for a in args]
        if shape == ():
            return f(*[float(b) for b in bc])
        out = np.empty(shape)
        for i in np.ndindex(shape):
            out[i] = f(*[float(b[i]) for b in bc])
        return out

    def normal(self, loc=0.0, scale=1.0, size=None):
        if np.any(np.asarray(scale) < 0):
            raise ValueError('scale < 0')
        return self._bcast(size, lambda l, s: l + s * self._quad(('n',)) if s else l, loc, scale)

    def standard_normal(self, size=None):
        return self.normal(size=size)

    def randn(self, *dims):
        return self.normal(size=dims if dims else None)

    def _gam(self, shape):
        if shape < 0:
            raise ValueError('shape < 0')
        return self._quad(('g', round(shape, 12))) if shape > 0 else 0.0

    def gamma(self, shape, scale=1.0, size=None):
        return self._bcast(size, lambda a, s: s * self._gam(a), shape, scale)

    def standard_gamma(self, shape, size=None):
        return self.gamma(shape, 1.0, size)

    def chisquare(self, df, size=None):
        if np.any(np.asarray(df) <= 0):
            raise ValueError('df <= 0')
        return self.gamma(np.asarray(df, dtype=float) / 2.0, 2.0, size)

    def exponential(self, scale=1.0, size=None):
        return self._bcast(size, lambda s: s * self._gam(1.0), scale)

    def standard_exponential(self, size=None):
        return self.exponential(1.0, size)

    def beta(self, a, b, size=None):
        if np.any(np.asarray(a) <= 0) or np.any(np.asarray(b) <= 0):
            raise ValueError('a <= 0')
        return self._bcast(size, lambda x, y: self._quad(('b', round(x, 12), round(y, 12))), a, b)

    def get_state(self, *a, **k):
        raise Unsupported('get_state')

    def set_state(self, *a, **k):
        raise Unsupported('set_state')

    def seed(self, *a, **k):
        raise Unsupported('seed')


def _refuse(name):
    def f(self, *a, **k):
        raise Unsupported(name)
    return f


for _n in ('dirichlet', 'f', 'gumbel', 'hypergeometric', 'laplace', 'logistic', 'lognormal',
           'logseries', 'multivariate_normal', 'negative_binomial', 'noncentral_chisquare',
           'noncentral_f', 'pareto', 'power', 'rayleigh', 'standard_cauchy', 'standard_t',
           'triangular', 'vonmises', 'wald', 'weibull', 'zipf'):
    setattr(EnumRNG, _n, _refuse(_n))


_QUAD = {}


def _quadrature(key, m):
    k = (key, m)
    if k not in _QUAD:
        from scipy.special import roots_hermitenorm, roots_genlaguerre, roots_jacobi
        if key[0] == 'n':
            x, w = roots_hermitenorm(m)
        elif key[0] == 'g':
            x, w = roots_genlaguerre(m, key[1] - 1.0)
        else:
            t, w = roots_jacobi(m, key[2] - 1.0, key[1] - 1.0)
            x = (1.0 + t) / 2.0
        _QUAD[k] = (x, w / w.sum())
    return _QUAD[k]


def paths(fn, max_paths=200000, min_prob=0.0, max_depth=100000, nodes=0, pois_tail=1e-4,
          multiset=False, cut=None):
    """Yield (probability, result) for every path of fn(rng).  cut[0]: mass the engine gave up."""
    tree = Tree(min_prob, max_depth)
    n = 0
    while True:
        tree.start()
        rng = EnumRNG(tree, nodes=nodes, pois_tail=pois_tail, multiset=multiset)
        try:
            r = fn(rng)
            yield tree.prob, r
        except PathCut:
            pass
        except (TypeError, AttributeError) as e:
            # the code asked of a symbolic draw something only a number can do
            if re.search(r"\b(Sym|SymArray|EnumRNG|input types|dtype\('O'\))", str(e)):
                raise Unsupported('an operation on a draw: %s' % str(e)[:80])
            raise
        if tree.pos < len(tree.prefix):
            raise Diverged('replaying the same draws met fewer choices')
        n += 1
        if n > max_paths:
            raise Budget(n)
        more = tree.advance()
        if cut is not None:
            cut[0] = tree.cut
        if not more:
            return


def law(fn, **kw):
    """Exact law of fn(rng) (hashable results): {result: probability}, paths, mass cut."""
    d, n, cut = {}, 0, [0.0]
    for p, r in paths(fn, cut=cut, **kw):
        d[r] = d.get(r, 0.0) + p
        n += 1
    return d, n, cut[0]
