"""Randomness as explicit choices: every number drawn by the code becomes a choice point, and all choices for the first
draws are enumerated.

Only values the real generators can return are chosen: the ends of the interval, values one rounding step away from them and
values in between. Generators that are not listed here keep their (seeded) behaviour."""
from __future__ import annotations

import contextlib
import math
import random as _random

import numpy as np

# 1 - 2**-53 is the largest double below one, 1 - 2**-24 the largest single
HI64 = 1.0 - 2.0 ** -53
HI32 = 1.0 - 2.0 ** -24
UNIT = (0.0, HI64, 0.5, 2.0 ** -53, 0.2999999999, 0.7700000001)


class Chooser:
    """Follows prefix, then takes option 0 at each of the first `depth` choice points, then cycles."""

    def __init__(self, prefix, depth, quantiles=None):
        self.prefix, self.depth, self.quantiles = prefix, depth, quantiles
        self.taken, self.widths = [], []
        self.n = 0
        self.late = _random.Random(7)  # later draws: fixed pseudo-random values, so that rejection loops end
        self.weight = 1.0  # the probability of this execution (quantile mode)

    def weighted(self, options, weights):
        t = sum(weights)
        k = self.pick(list(range(len(options))), list(range(len(options))))
        self.weight *= weights[k] / t
        return options[k]

    def pick(self, options, rest):
        i = self.n
        self.n += 1
        if i >= self.depth:
            return self.late.choice(rest) if rest is not None else self.late.random()
        k = self.prefix[i] if i < len(self.prefix) else 0
        self.taken.append(k)
        self.widths.append(len(options))
        return options[k]

    def unit(self, hi=HI64, lo=0.0):
        if self.quantiles:
            q = self.quantiles
            return self.weighted([(i + 0.5) / q for i in range(q)], [1.0] * q)
        opts = [max(lo, min(u, hi)) for u in UNIT]
        return self.pick(opts, None)

    def index(self, allowed, weights=None):
        a = list(allowed)
        if self.quantiles:
            return self.weighted(a, weights or [1.0] * len(a))
        if len(a) == 1:
            return a[0]
        if len(a) > 4:
            o = [a[0], a[-1], a[len(a) // 2], a[1]]
        else:
            o = a
        return self.pick(o, a)

    def normal(self, loc, scale):
        if self.quantiles:
            from scipy.special import ndtri

            return float(loc + scale * ndtri(self.unit()))
        opts = [0.0, 1.0, loc + 0.5 * scale, HI64, loc - 0.9 * scale, loc, loc + 4 * scale, 2.0 ** -53]
        return float(self.pick([float(o) for o in opts],
                               [0.0, 1.0, loc + scale, loc - scale, loc + 0.3 * scale, loc - 2 * scale, 0.5, 0.01, 0.99]))


class Modal(Chooser):
    """The most likely outcome of every draw (the median for continuous ones)."""

    def __init__(self):
        super().__init__((), 0)

    def unit(self, hi=HI64, lo=0.0):
        self.n += 1
        return 0.5

    def index(self, allowed, weights=None):
        self.n += 1
        a = list(allowed)
        return a[0] if weights is None else max(zip(weights, a))[1]

    def normal(self, loc, scale):
        self.n += 1
        return loc


def explore(run, depth, limit=200000, quantiles=None):
    """run(chooser) for every sequence of choices at the first `depth` choice points. Returns the number of executions."""
    stack = [()]
    n = 0
    while stack:
        prefix = stack.pop()
        ch = Chooser(prefix, depth, quantiles)
        run(ch)
        n += 1
        if n > limit:
            raise RuntimeError("too many executions")
        for i in range(len(prefix), len(ch.taken)):
            for k in range(1, ch.widths[i]):
                stack.append(tuple(ch.taken[:i]) + (k,))
    return n


def _fill(shape, f):
    if shape is None:
        return f()
    shape = (shape,) if isinstance(shape, (int, np.integer)) else tuple(shape)
    out = np.empty(shape)
    for i in np.ndindex(*shape):
        out[i] = f()
    return out


@contextlib.contextmanager
def controlled(ch):
    """All module-level generators of random, numpy.random and torch draw from the chooser."""
    import random

    import torch

    saved = []

    def put(obj, name, fn):
        if hasattr(obj, name):
            saved.append((obj, name, getattr(obj, name)))
            setattr(obj, name, fn)

    def uniform(low=0.0, high=1.0, size=None):
        return _fill(size, lambda: min(float(high), float(low) + (float(high) - float(low)) * ch.unit()))

    def normal(loc=0.0, scale=1.0, size=None):
        return _fill(size, lambda: ch.normal(float(loc), float(scale)))

    def choice(a, size=None, replace=True, p=None):
        arr = np.arange(a) if isinstance(a, (int, np.integer)) else np.asarray(a)
        if p is not None:
            p = np.asarray(p, dtype=float)
            if len(p) != len(arr) or abs(p.sum() - 1) > 1e-6 or (p < 0).any():
                raise ValueError("probabilities do not sum to 1")
            idx = [i for i in range(len(arr)) if p[i] > 0]
        else:
            idx = list(range(len(arr)))
        if not idx:
            raise ValueError("'a' cannot be empty unless no samples are taken")
        if size is None:
            return arr[ch.index(idx, None if p is None else [p[i] for i in idx])]
        n = int(np.prod(size))
        out = []
        for _ in range(n):
            i = ch.index(idx, None if p is None else [p[j] for j in idx])
            out.append(i)
            if not replace:
                idx = [j for j in idx if j != i]
        return arr[np.array(out, dtype=int)].reshape(size)

    def randint(low, high=None, size=None, dtype=int):
        if high is None:
            low, high = 0, low
        vals = sorted({low, high - 1, (low + high - 1) // 2, min(low + 1, high - 1)})
        r = _fill(size, lambda: ch.index(vals))
        return int(r) if size is None else r.astype(dtype)

    put(np.random, "uniform", uniform)
    put(np.random, "normal", normal)
    put(np.random, "choice", choice)
    put(np.random, "randint", randint)
    for n in ("random", "random_sample", "ranf", "sample"):
        put(np.random, n, lambda size=None: _fill(size, ch.unit))
    put(np.random, "rand", lambda *s: _fill(s or None, ch.unit))
    put(np.random, "randn", lambda *s: _fill(s or None, lambda: ch.normal(0.0, 1.0)))
    put(np.random, "standard_normal", lambda size=None: _fill(size, lambda: ch.normal(0.0, 1.0)))

    put(random, "random", ch.unit)
    put(random, "uniform", lambda a, b: a + (b - a) * ch.unit())
    put(random, "choice", lambda s: s[ch.index(range(len(s)))])
    put(random, "randint", lambda a, b: randint(a, b + 1))
    put(random, "randrange", lambda a, b=None: randint(a, b))
    put(random, "gauss", ch.normal)
    put(random, "normalvariate", ch.normal)

    def tensor(shape, dtype, f):
        dtype = dtype or torch.get_default_dtype()
        return torch.from_numpy(np.asarray(_fill(tuple(shape), f), dtype=np.float64)).to(dtype)

    def hi(dtype):
        return HI64 if dtype == torch.float64 else HI32

    def size_of(a):
        return tuple(a[0]) if len(a) == 1 and not isinstance(a[0], int) else tuple(a)

    def rand(*shape, dtype=None, device=None, generator=None, size=None, **kw):
        dtype = dtype or torch.get_default_dtype()
        return tensor(size if size is not None else size_of(shape), dtype, lambda: ch.unit(hi(dtype)))

    real_uniform_ = torch.Tensor.uniform_

    def uniform_(self, a=0.0, b=1.0, *, generator=None):
        if not self.dtype.is_floating_point:
            return real_uniform_(self, a, b)
        v = tensor(self.shape, self.dtype, lambda: min(b, a + (b - a) * ch.unit(hi(self.dtype))))
        with torch.no_grad():
            self.copy_(v)
        return self

    def multinomial(probs, num_samples, replacement=False, *, generator=None, out=None):
        rows = probs.detach().reshape(-1, probs.shape[-1])
        res = torch.empty((rows.shape[0], num_samples), dtype=torch.int64)
        for r in range(rows.shape[0]):
            allowed = [i for i in range(rows.shape[1]) if float(rows[r, i]) > 0]
            for j in range(num_samples):
                i = ch.index(allowed, [float(rows[r, x]) for x in allowed])
                res[r, j] = i
                if not replacement:
                    allowed = [x for x in allowed if x != i]
        res = res.reshape(*probs.shape[:-1], num_samples)
        if out is not None:
            out.resize_(res.shape).copy_(res)
            return out
        return res

    def randperm(n, **kw):
        left, o = list(range(n)), []
        while left:
            i = ch.index(left)
            o.append(i)
            left.remove(i)
        return torch.tensor(o, dtype=torch.int64)

    def draw(self, n=1, out=None, dtype=None):
        dtype = dtype or torch.get_default_dtype()
        return tensor((n, self.dimension), dtype, lambda: ch.unit(hi(dtype)))

    put(torch, "rand", rand)
    put(torch.Tensor, "uniform_", uniform_)
    put(torch, "multinomial", multinomial)
    put(torch, "randperm", randperm)
    put(torch.quasirandom.SobolEngine, "draw", draw)
    try:
        from scipy.stats import _continuous_distns as cd

        gen = cd.truncnorm_gen

        def rvs(self, a, b, size=None, random_state=None):
            return _fill(size if size != () else None, lambda: float(np.asarray(gen._ppf(self, ch.unit(), a, b))))

        if hasattr(gen, "_ppf"):
            put(gen, "_rvs", rvs)
    except Exception:  # noqa: BLE001
        pass
    try:
        yield ch
    finally:
        for obj, name, fn in reversed(saved):
            setattr(obj, name, fn)
