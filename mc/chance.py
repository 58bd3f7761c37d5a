"""Choice points: every random draw of the code under test becomes an enumerated choice.

Explorer.explore(fn) re-executes fn once per path of the choice tree (stateless DFS).
A uniform draw is a LazyU: an interval that is split only where the code compares it, so
the probability of every path is exact.
"""
import math
import random as _random
import numpy as _np

CUR = None  # the active Explorer


class HarnessError(Exception):
    """The harness cannot interpret what the code did."""


class Limit(HarnessError):
    pass


class Explorer:
    def __init__(self, max_paths=200000, max_choices=4000):
        self.max_paths = max_paths
        self.max_choices = max_choices
        self.paths = 0
        self.choices = 0
        self.trace = []

    # -- choice primitive ---------------------------------------------------
    def choose(self, probs, what=""):
        """Pick an index; probs may be None (nondeterminism) or a list of weights summing to 1."""
        n = len(probs)
        opts = [i for i in range(n) if probs[i] > 0.0]
        if not opts:
            raise HarnessError("no option with positive probability: %s" % what)
        d = len(self.trace)
        if d >= self.max_choices:
            raise Limit("more than %d random choices in one execution" % self.max_choices)
        if d < len(self.prefix):
            k = self.prefix[d]
        else:
            k = 0
        if k >= len(opts):
            raise HarnessError("replay diverged at choice %d (%s)" % (d, what))
        self.trace.append((k, len(opts)))
        self.choices += 1
        self.prob *= probs[opts[k]]
        return opts[k]

    def nondet(self, n, what=""):
        """A choice without a probability (schedule, input)."""
        d = len(self.trace)
        k = self.prefix[d] if d < len(self.prefix) else 0
        self.trace.append((k, n))
        self.choices += 1
        return k

    # -- driver -------------------------------------------------------------
    def explore(self, fn):
        """Yield (prob, result, trace) for every path of fn()."""
        global CUR
        prefix = []
        while True:
            self.prefix, self.trace, self.prob = prefix, [], 1.0
            saved, CUR = CUR, self
            patch = Patch()
            try:
                patch.install()
                res = fn()
            finally:
                patch.remove()
                CUR = saved
            self.paths += 1
            if self.paths > self.max_paths:
                raise Limit("more than %d paths" % self.max_paths)
            trace = [k for k, _ in self.trace]
            yield self.prob, res, trace
            nxt = list(self.trace)
            while nxt and nxt[-1][0] + 1 >= nxt[-1][1]:
                nxt.pop()
            if not nxt:
                return
            k, n = nxt.pop()
            prefix = [a for a, _ in nxt] + [k + 1]

    def replay(self, fn, trace):
        global CUR
        self.prefix, self.trace, self.prob = list(trace), [], 1.0
        saved, CUR = CUR, self
        patch = Patch()
        try:
            patch.install()
            return fn()
        finally:
            patch.remove()
            CUR = saved


def distribution(fn, key=lambda r: r, **kw):
    """Exact distribution {key(result): probability} of fn over all its random draws."""
    ex = Explorer(**kw)
    dist = {}
    for p, r, _ in ex.explore(fn):
        k = key(r)
        dist[k] = dist.get(k, 0.0) + p
    return dist, ex


class _Base:
    __slots__ = ("lo", "hi")

    def __init__(self):
        self.lo, self.hi = 0.0, 1.0


class LazyU(float):
    """a*u + b for a uniform u on [0,1) known to lie in [base.lo, base.hi)."""
    __array_ufunc__ = None
    __slots__ = ("base", "a", "b")

    def __new__(cls, base=None, a=1.0, b=0.0):
        base = base or _Base()
        self = float.__new__(cls, a * 0.5 * (base.lo + base.hi) + b)
        self.base, self.a, self.b = base, float(a), float(b)
        return self

    def _below(self, c):
        """Is u < c?  Splits the interval when undecided."""
        s = self.base
        if c <= s.lo:
            return False
        if c >= s.hi:
            return True
        w = s.hi - s.lo
        k = CUR.choose([(c - s.lo) / w, (s.hi - c) / w], "u<%r" % c)
        if k == 0:
            s.hi = c
            return True
        s.lo = c
        return False

    def _lt(self, o):
        if isinstance(o, LazyU) and o.base is self.base:
            raise HarnessError("comparison of two terms in the same uniform")
        if isinstance(o, LazyU):
            raise HarnessError("comparison of two uniforms")
        c = float(o)
        if math.isnan(c):
            return False
        if self.a == 0.0:
            return self.b < c
        t = (c - self.b) / self.a
        if self.a > 0:
            return self._below(t)
        return not self._below(t)

    def _chk(self, o):
        return isinstance(o, (int, float, _np.number, _np.bool_))

    def __lt__(self, o):
        return self._lt(o) if self._chk(o) else NotImplemented

    def __le__(self, o):
        return self._lt(o) if self._chk(o) else NotImplemented

    def __gt__(self, o):
        return (not self._lt(o)) if self._chk(o) else NotImplemented

    def __ge__(self, o):
        return (not self._lt(o)) if self._chk(o) else NotImplemented

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    __hash__ = float.__hash__

    def __mul__(self, o):
        return LazyU(self.base, self.a * float(o), self.b * float(o)) if self._chk(o) else NotImplemented
    __rmul__ = __mul__

    def __truediv__(self, o):
        return LazyU(self.base, self.a / float(o), self.b / float(o)) if self._chk(o) else NotImplemented

    def __add__(self, o):
        if isinstance(o, LazyU):
            raise HarnessError("sum of two uniforms")
        return LazyU(self.base, self.a, self.b + float(o)) if self._chk(o) else NotImplemented
    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, LazyU):
            raise HarnessError("difference of two uniforms")
        return LazyU(self.base, self.a, self.b - float(o)) if self._chk(o) else NotImplemented

    def __rsub__(self, o):
        return LazyU(self.base, -self.a, float(o) - self.b)

    def __neg__(self):
        return LazyU(self.base, -self.a, -self.b)

    def __bool__(self):
        return True

    def __float__(self):
        return self

    def _floor(self):
        lo = self.a * self.base.lo + self.b
        hi = self.a * self.base.hi + self.b
        if self.a < 0:
            lo, hi = hi, lo
        n = math.floor(lo)
        while n + 1 < hi:
            if self._lt(n + 1):
                return n
            n += 1
        return n

    def __int__(self):
        return self._floor()

    __floor__ = _floor
    __trunc__ = _floor

    def __reduce__(self):
        raise HarnessError("pickling a random draw")

    def __deepcopy__(self, memo):
        return self


def _weights(w):
    w = [float(x) for x in w]
    return w


def _choices(population, weights=None, *, cum_weights=None, k=1):
    population = list(population)
    if cum_weights is not None:
        weights = [cum_weights[0]] + [cum_weights[i] - cum_weights[i - 1] for i in range(1, len(cum_weights))]
    if weights is None:
        if not population:
            raise IndexError("list index out of range")
        weights = [1.0] * len(population)
    w = _weights(weights)
    if len(w) != len(population):
        raise ValueError("The number of weights does not match the population")
    tot = sum(w)
    if not tot > 0.0:
        raise ValueError("Total of weights must be greater than zero")
    if not math.isfinite(tot):
        raise ValueError("Total of weights must be finite")
    p = [x / tot for x in w]
    return [population[CUR.choose(p, "choices")] for _ in range(k)]


def _choice(seq):
    if len(seq) == 0:
        raise IndexError("Cannot choose from an empty sequence")
    n = len(seq)
    return seq[CUR.choose([1.0 / n] * n, "choice")]


def _randrange(start, stop=None, step=1):
    r = range(start) if stop is None else range(start, stop, step)
    if len(r) == 0:
        raise ValueError("empty range")
    return r[CUR.choose([1.0 / len(r)] * len(r), "randrange")]


def _shuffle(x):
    for i in reversed(range(1, len(x))):
        j = _randrange(i + 1)
        x[i], x[j] = x[j], x[i]


def _sample(population, k, *, counts=None):
    pool = list(population)
    out = []
    for _ in range(k):
        out.append(pool.pop(_randrange(len(pool))))
    return out


def _np_random(size=None):
    if size is None:
        return LazyU()
    a = _np.empty(size, dtype=object)
    for i in _np.ndindex(a.shape):
        a[i] = LazyU()
    return a


def _np_rand(*shape):
    return _np_random(shape if shape else None)


def _np_randint(low, high=None, size=None, dtype=int):
    if high is None:
        low, high = 0, low
    low, high = int(low), int(high)
    if high <= low:
        raise ValueError("low >= high")
    n = high - low

    def one():
        return low + CUR.choose([1.0 / n] * n, "randint")
    if size is None:
        return one()
    a = _np.empty(size, dtype=int)
    for i in _np.ndindex(a.shape):
        a[i] = one()
    return a


def _np_choice(a, size=None, replace=True, p=None):
    arr = _np.arange(int(a)) if _np.ndim(a) == 0 else _np.asarray(a)
    n = arr.shape[0]
    if n == 0 and (size is None or _np.prod(size) != 0):
        raise ValueError("'a' cannot be empty unless no samples are taken")
    if p is not None:
        pw = _weights(_np.asarray(p, dtype=float))
        if len(pw) != n:
            raise ValueError("'a' and 'p' must have same size")
        if any(math.isnan(x) for x in pw):
            raise ValueError("probabilities contain NaN")
        if any(x < 0 for x in pw):
            raise ValueError("probabilities are not non-negative")
        if abs(sum(pw) - 1.0) > 1e-7:
            raise ValueError("probabilities do not sum to 1")
    else:
        pw = [1.0 / n] * n if n else []
    m = 1 if size is None else int(_np.prod(size))
    idx = []
    cur = list(pw)
    for _ in range(m):
        tot = sum(cur)
        if not tot > 0:
            raise ValueError("Fewer non-zero entries in p than size")
        i = CUR.choose([x / tot for x in cur], "np.choice")
        idx.append(i)
        if not replace:
            cur[i] = 0.0
    if size is None:
        return arr[idx[0]]
    return arr[_np.array(idx, dtype=int)].reshape(size)


POISSON_MAX = 3
POISSON_LOG = []


def _np_poisson(lam=1.0, size=None):
    """Nondeterministic draw from 0..POISSON_MAX; the last option stands for the tail."""
    def one():
        l = float(lam)
        POISSON_LOG.append(l)
        if l == 0.0:
            return 0
        pm = [math.exp(-l) * l ** k / math.factorial(k) for k in range(POISSON_MAX)]
        pm.append(max(1e-12, 1.0 - sum(pm)))
        pm = [max(x, 1e-12) for x in pm]
        return CUR.choose([x / sum(pm) for x in pm], "poisson")
    if size is None:
        return one()
    a = _np.empty(size, dtype=int)
    for i in _np.ndindex(a.shape):
        a[i] = one()
    return a


def _np_uniform(low=0.0, high=1.0, size=None):
    if size is None:
        return LazyU() * (high - low) + low
    a = _np.empty(size, dtype=object)
    for i in _np.ndindex(a.shape):
        a[i] = LazyU() * (high - low) + low
    return a


class _Gen:
    """Stand-in for numpy Generator / random.Random instances created by the code."""
    random = staticmethod(_np_random)
    integers = staticmethod(lambda low, high=None, size=None, dtype=int, endpoint=False:
                            _np_randint(low, None if high is None and not endpoint else
                                        ((high if high is not None else low) + (1 if endpoint else 0)), size))
    choice = staticmethod(_np_choice)
    poisson = staticmethod(_np_poisson)
    uniform = staticmethod(_np_uniform)
    shuffle = staticmethod(_shuffle)


class Patch:
    def install(self):
        R, N = _random, _np.random
        self.saved = []

        def sub(mod, name, f):
            self.saved.append((mod, name, getattr(mod, name)))
            setattr(mod, name, f)
        sub(R, "random", lambda: LazyU())
        sub(R, "uniform", lambda a, b: LazyU() * (b - a) + a)
        sub(R, "choices", _choices)
        sub(R, "choice", _choice)
        sub(R, "randint", lambda a, b: _randrange(a, b + 1))
        sub(R, "randrange", _randrange)
        sub(R, "shuffle", _shuffle)
        sub(R, "sample", _sample)
        for nm in ("random", "random_sample", "ranf", "sample"):
            if hasattr(N, nm):
                sub(N, nm, _np_random)
        sub(N, "rand", _np_rand)
        sub(N, "randint", _np_randint)
        sub(N, "choice", _np_choice)
        sub(N, "poisson", _np_poisson)
        sub(N, "uniform", _np_uniform)
        sub(N, "shuffle", _shuffle)
        sub(N, "default_rng", lambda *a, **k: _Gen())

    def remove(self):
        for mod, name, f in reversed(self.saved):
            setattr(mod, name, f)
