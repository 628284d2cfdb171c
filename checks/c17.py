import itertools
import math

from lib.harness import Violation, require, same
from lib.legal import P, illegal

RULE = ("every value of every integer/categorical domain in the bounds, a dense set of values (end points, values one rounding "
        "step from them, a regular and a geometric grid) of every float domain, every pair of domains, every column layout, "
        "every configuration of every listed space and every grid point of its numeric space; distinct = (group, definition)")

FLOATS = [(0.0, 1.0, False), (-3.5, 7.25, False), (1e-4, 0.1, True), (1.0, 1000.0, True), (0.1, 0.7, False),
          (-1e-9, 1e9, False), (3.0, 3.3, True), (-0.7, -0.1, False), (0.3, 0.9, True), (1e-8, 1e8, True), (0.1, 1.1, False),
          (5, 7, False), (-5.6, 2.3, False), (0.007, 0.7, True), (1e-30, 1e-20, True), (0.5, 1.5, True), (1, 2, True),
          (0.0, 1e-6, False), (1000.0, 1001.0, False), (0.0, 10.0, False), (10.0, 100.0, True)]
BIG_INTS = [(5, 1000005, False), (3, 50021, True), (1, 100000, True), (-70000, 70001, False), (0, 65535, False),
            (1, 4096, False), (2, 1024, True), (0, 999, False), (-1000, 1000, False)]


def ints(top):
    for lo in (-3, 0, 1, 2, 7, 100):
        for n in range(2, top + 1):
            yield (lo, lo + n - 1, False)
            if lo >= 1:
                yield (lo, lo + n - 1, True)
    yield from BIG_INTS


class D:
    """A domain by its definition; values, legality and scale are computed from the definition only."""

    def __init__(self, kind, lo, hi, log=False, bins=None):
        self.kind, self.lo, self.hi, self.log, self.bins = kind, lo, hi, log, bins

    def make(self):
        from neps.search_spaces.domain import Domain

        if self.kind == "indices":
            return Domain.indices(self.hi + 1)
        f = Domain.integer if self.kind == "int" else Domain.floating
        return f(self.lo, self.hi, log=self.log, bins=self.bins)

    @property
    def card(self):
        return self.bins if self.bins else None if self.kind == "float" else self.hi - self.lo + 1

    def unit(self, v):
        if self.log:
            return (math.log(v) - math.log(self.lo)) / (math.log(self.hi) - math.log(self.lo))
        return (v - self.lo) / (self.hi - self.lo)

    def at(self, u):
        if self.log:
            return math.exp(math.log(self.lo) + u * (math.log(self.hi) - math.log(self.lo)))
        return self.lo + u * (self.hi - self.lo)

    def values(self, n=41):
        if self.bins:
            return [float(self.at(i / (self.bins - 1))) for i in range(self.bins)]
        if self.kind != "float":
            if self.card <= 3000:
                return list(range(self.lo, self.hi + 1))
            edge = 200
            mid = range(self.lo + edge, self.hi - edge, max(1, (self.hi - self.lo) // 997))
            pows = [v for k in range(1, 40) for v in (2 ** k - 1, 2 ** k, 2 ** k + 1) if self.lo <= v <= self.hi]
            return sorted({*range(self.lo, self.lo + edge), *mid, *pows, *range(self.hi - edge, self.hi + 1)})
        lo, hi = float(self.lo), float(self.hi)
        v = {lo, hi, math.nextafter(lo, hi), math.nextafter(hi, lo)}
        for i in range(n):
            v.add(min(hi, max(lo, self.at(i / (n - 1)))))
            v.add(min(hi, max(lo, lo + i / (n - 1) * (hi - lo))))
        return sorted(v)

    def legal(self, v):
        if not isinstance(v, (int, float)) or not math.isfinite(v):
            return f"{v!r} is not a number"
        if not self.lo <= v <= self.hi:
            return f"{v!r} is not in [{self.lo}, {self.hi}]"
        if self.kind != "float" and v != int(v):
            return f"{v!r} is not an integer"
        if self.bins and self.kind == "float" and not any(close(v, w, self, 1e-5) for w in self.values()):
            return f"{v!r} is not one of the {self.bins} bins"
        return None

    def __repr__(self):
        return f"D({self.kind}[{self.lo}, {self.hi}]{' log' if self.log else ''}{f' bins={self.bins}' if self.bins else ''})"


def close(a, b, d, tol=1e-9):
    """Equal up to rounding: exactly for integers, in the scale of the domain otherwise."""
    if d.kind != "float":
        return a == b
    return abs(a - b) <= tol * max(abs(a), abs(b)) if d.log else abs(a - b) <= tol * max(abs(d.lo), abs(d.hi))


def grid(n, ulps=True):
    """Points of the unit interval: a regular grid and points a rounding step from the ends and the inner grid points."""
    g = {i / n for i in range(n + 1)}
    if ulps:
        for x in list(g):
            g |= {min(1.0, math.nextafter(x, 2.0)), max(0.0, math.nextafter(x, -1.0))}
        g |= {5e-324, 1e-300, 1e-17, 1 - 1e-16, 2.0 ** -24, 1 - 2.0 ** -24, 1 - 2.0 ** -53}
    return sorted(g)


def t64(v):
    import torch

    return torch.tensor(v, dtype=torch.float64)


# ------------------------------------------------------------------------------------------------ one domain
def domain_cases(quick):
    for lo, hi, log in FLOATS:
        yield D("float", lo, hi, log)
        for b in (2, 3, 5, 10):
            yield D("float", lo, hi, log, b)
    for lo, hi, log in ints(80 if quick else 300):
        yield D("int", lo, hi, log)
    for n in range(2, 60 if quick else 500):
        yield D("indices", 0, n - 1)


def domain_case(d):
    import torch

    dom = d.make()
    vals = d.values()
    units = dom.to_unit(t64(vals)).tolist()
    n = len(vals)
    if d.kind != "float":
        again = dom.to_unit(torch.tensor(vals)).tolist()
        require(max(abs(x - y) for x, y in zip(again, units)) < 1e-9, lambda: f"{d}: unit values of a tensor of integers differ from those of floats")
    for v, u in zip(vals, units):
        require(-1e-12 <= u <= 1 + 1e-12, lambda: f"{d}: {v} has the unit value {u}")
        require(abs(u - d.unit(v)) <= 1e-6, lambda: f"{d}: {v} has the unit value {u}, not {d.unit(v)}")
    require(abs(units[0]) < 1e-12 and abs(units[-1] - 1) < 1e-12, lambda: f"{d}: ends have the unit values {units[0]}, "
            f"{units[-1]}")
    for (v, u), (w, x) in zip(zip(vals, units), list(zip(vals, units))[1:]):
        require(u <= x, lambda: f"{d}: {v} < {w} but their unit values are {u} > {x}")
        require(d.kind == "float" or u < x, lambda: f"{d}: {v} and {w} have the same unit value")
    back = dom.from_unit(t64(units)).tolist()
    for v, w in zip(vals, back):
        require(close(v, w, d), lambda: f"{d}: {v} comes back as {w}")
        require(d.legal(w) is None, lambda: f"{d}: {v} comes back as {w}: {d.legal(w)}")
        require(d.kind == "float" or isinstance(w, int), lambda: f"{d}: {v} comes back as {w!r}")
    # every point of the unit interval
    g = grid(200)
    if d.card and d.card <= 300:
        g = sorted({*g, *((i + f) / d.card for i in range(d.card) for f in (0.01, 0.5, 0.99))})
    for dt in (torch.float64, torch.float32):
        x = torch.tensor(g, dtype=torch.float64).to(dt)
        out = dom.from_unit(x).tolist()
        n += len(out)
        for u, v in zip(x.tolist(), out):
            require(d.legal(v) is None, lambda: f"{d}: the unit value {u} ({dt}) becomes {v}: {d.legal(v)}")
        for (u, v), (x_, w) in zip(zip(x.tolist(), out), list(zip(x.tolist(), out))[1:]):
            require(v <= w, lambda: f"{d}: unit values {u} <= {x_} ({dt}) become {v} > {w}")
        require(close(out[0], d.lo, d, 1e-5) and close(out[-1], d.hi, d, 1e-5),
                lambda: f"{d}: the ends of the unit interval become {out[0]} and {out[-1]}")
        if d.kind == "float" and not d.bins:
            for u, v in zip(x.tolist(), out):
                require(close(v, d.at(u), d, 1e-5 if dt == torch.float32 else 1e-9),
                        lambda: f"{d}: the unit value {u} becomes {v}, not {d.at(u)}")
        elif dt == torch.float64 and not d.log and d.card <= 300:
            # evenly spaced values share the interval evenly
            for i in range(d.card):
                for f in (0.01, 0.5, 0.99):
                    v = dom.from_unit(t64([(i + f) / d.card])).tolist()[0]
                    want = d.values()[i]
                    require(close(v, want, d), lambda: f"{d}: the unit value {(i + f) / d.card} becomes {v}, not {want}")
        elif dt == torch.float64 and d.log and d.kind != "float":
            for u, v in zip(x.tolist(), out):
                require(abs(v - d.at(u)) <= 0.5 + 1e-6, lambda: f"{d}: the unit value {u} becomes {v}, not {d.at(u):.3f}")
    # single values behave as tensors do
    for v in vals[:: max(1, len(vals) // 20)]:
        one = dom.to_unit_one(v)
        require(abs(one - dom.to_unit(t64([v])).item()) < 1e-9, lambda: f"{d}: to_unit_one({v}) = {one}")
    if d.card:
        i = dom.as_integer_domain()
        require(i.lower == 0 and i.upper == d.card - 1, lambda: f"{d}: as_integer_domain is {i}")
    return {"stats": {"values": n}}


# ------------------------------------------------------------------------------------------------ pairs of domains
CAST = [D("float", 0.0, 1.0), D("float", -3.5, 7.25), D("float", 1e-4, 0.1, True), D("float", 1.0, 1000.0, True),
        D("float", 0.0, math.log(10)), D("float", 1.0, 10.0, True), D("float", math.log(1e-4), math.log(0.1)),
        D("float", 5, 7), D("float", 0.0, 1.0, bins=5), D("float", 0.0, 1.0, bins=10), D("float", 1.0, 1000.0, True, 4),
        D("float", -3.5, 7.25, bins=2), D("float", 1.0, 10.0), D("float", 0.0, 9.0),
        D("int", 0, 1), D("int", 1, 10), D("int", 0, 4), D("int", -3, 3), D("int", 1, 10, True), D("int", 1, 1000, True),
        D("int", 5, 1005), D("int", 2, 5, True), D("indices", 0, 1), D("indices", 0, 4), D("indices", 0, 9),
        D("indices", 0, 2), D("int", 100, 200), D("float", 0.1, 0.7)]


def finer(a, b):
    """Whether b distinguishes all values of a (so casting to b and back must be the identity)."""
    if repr(a) == repr(b):
        return True
    if b.card is None:
        return True
    if a.card is None:
        return False
    even_a = not (a.log and not a.bins)
    even_b = not (b.log and not b.bins)
    if even_a and even_b:
        return a.card == b.card
    return (a.lo, a.hi, a.log, a.card) == (b.lo, b.hi, b.log, b.card)


def cast_case(case):
    import torch

    a, b = case
    da, db = a.make(), b.make()
    vals = a.values(17)
    x = t64(vals)
    out = db.cast(x, frm=da)
    n = len(vals)
    res = out.tolist()
    for v, w in zip(vals, res):
        require(b.legal(w) is None, lambda: f"{v} of {a} becomes {w} in {b}: {b.legal(w)}")
        require(b.kind == "float" or isinstance(w, int), lambda: f"{v} of {a} becomes {w!r} in {b}")
    for (v, w), (v2, w2) in zip(zip(vals, res), list(zip(vals, res))[1:]):
        require(w <= w2, lambda: f"{v} < {v2} of {a} become {w} > {w2} in {b}")
    require(close(res[0], b.lo, b) and close(res[-1], b.hi, b), lambda: f"the ends of {a} become {res[0]}, {res[-1]} in {b}")
    if finer(a, b):
        back = da.cast(out.to(torch.float64), frm=db).tolist()
        for v, w, r in zip(vals, res, back):
            require(close(v, r, a, 1e-7), lambda: f"{v} of {a} becomes {w} in {b} and comes back as {r}")
    if b.card is None:  # position in the interval is kept
        for v, w in zip(vals, res):
            require(abs(a.unit(v) - b.unit(w)) < 1e-6, lambda: f"{v} of {a} (at {a.unit(v)}) becomes {w} in {b}")
    for v, w in list(zip(vals, res))[:: max(1, n // 7)]:
        one = db.cast_one(float(v), frm=da)
        require(close(one, w, b),
                lambda: f"cast_one({v}) of {a} to {b} is {one}, cast gives {w}")
    return {"stats": {"values": n}}


def cast_cases(quick):
    return itertools.product(CAST, CAST)


# ------------------------------------------------------------------------------------------------ columns
COLS = [D("float", 0.0, 1.0), D("float", 1e-4, 0.1, True), D("int", 1, 10), D("int", 1, 10, True), D("indices", 0, 2),
        D("float", 0.0, 1.0, bins=5)]


def translate_cases(quick):
    for frm in itertools.product(range(len(COLS)), repeat=2):
        for to in itertools.product(range(len(COLS)), repeat=2):
            yield (frm, to)
    for k in range(len(COLS)):
        yield ((k,), (0,))
        yield ((0, 1, 2), (k, 3, 4))
        yield ((k, k, k), (3, 2, 5))


def translate_case(case):
    import torch
    from neps.search_spaces.domain import Domain

    frm, to = ([COLS[i] for i in c] for c in case)
    fd, td = [d.make() for d in frm], [d.make() for d in to]
    cols = [d.values(5)[:12] for d in frm]
    m = max(map(len, cols))
    cols = [(c * m)[:m] for c in cols]
    want = [t.cast(t64(c), frm=f).tolist() for c, f, t in zip(cols, fd, td)]
    x = torch.stack([t64(c) for c in cols], dim=-1)
    before = x.clone()

    def check(out, w, what):
        got = [out[..., i].reshape(-1).tolist() for i in range(len(frm))]
        for i, (g, c) in enumerate(zip(got, w)):
            require(len(g) == len(c) and all(close(p, q, D("float", to[i].lo, to[i].hi), 1e-6) for p, q in zip(g, c)),
                    lambda: f"{what}: column {i} from {frm[i]} to {to[i]} becomes {g}, not {c}")

    out = Domain.translate(x, frm=fd, to=td)
    check(out, want, "two dimensions")
    require(out.shape == x.shape, lambda: f"shape {out.shape}")
    require(torch.equal(x, before), "the input was changed")
    check(Domain.translate(x.reshape(1, m, len(frm)), frm=fd, to=td), want, "three dimensions")
    check(Domain.translate(x[0], frm=fd, to=td), [[w[0]] for w in want], "one dimension")
    check(Domain.translate(x, frm=iter(fd), to=iter(td)), want, "iterables")
    if len(set(map(repr, frm))) == 1:
        check(Domain.translate(x, frm=fd[0], to=td), want, "one source domain")
    if len(set(map(repr, to))) == 1:
        check(Domain.translate(x, frm=fd, to=td[0]), want, "one target domain")
    if all(d.kind != "float" for d in frm):
        check(Domain.translate(x.to(torch.int64), frm=fd, to=td), want, "integer tensor")
    for bad in (fd + fd[:1], td + td[:1]):
        for kw in (dict(frm=bad, to=td), dict(frm=fd, to=bad)):
            if len(kw["frm"]) == len(fd) and len(kw["to"]) == len(td):
                continue
            try:
                Domain.translate(x, **kw)
            except ValueError:
                continue
            raise Violation("a wrong number of domains is accepted")


# ------------------------------------------------------------------------------------------------ parameters
def param_cases(quick):
    for lo, hi, log in FLOATS:
        yield P("float", lo, hi, log=log)
    for lo, hi, log in ints(60 if quick else 200):
        yield P("int", lo, hi, log=log)
    pool = ("a", "b", "", "A", 1, 2, 0, 0.5, -1.5, "1", 3.0, True)
    for n in (2, 3):
        for c in itertools.permutations(pool[: 8 if quick else 12], n):
            if len(set(c)) == n:
                yield P("cat", choices=c)
    for n in (4, 5, 6):
        for c in itertools.combinations(pool, n):
            if len(set(c)) == n:
                yield P("cat", choices=c)
                yield P("cat", choices=c[::-1])


def param_case(p):
    import torch
    from neps.search_spaces.encoding import (CategoricalToIntegerTransformer, CategoricalToUnitNorm, ConfigEncoder,
                                             MinMaxNormalizer)

    h = p.make()
    if p.kind == "cat":
        vals = list(p.choices)
        norm = [h.value_to_normalized(v) for v in vals]
        require(len(set(norm)) == len(vals), lambda: f"{p}: normalized values {norm} are not distinct")
        back = [h.normalized_to_value(x) for x in norm]
        trs = [CategoricalToIntegerTransformer(p.choices), CategoricalToUnitNorm(p.choices)]
    else:
        d = D(p.kind, p.lo, p.hi, p.log)
        vals = d.values(21)
        norm = [h.value_to_normalized(v) for v in vals]
        require(all(0 <= x <= 1 for x in norm), lambda: f"{p}: normalized values {norm}")
        for (v, x), (w, y) in zip(zip(vals, norm), list(zip(vals, norm))[1:]):
            require(x <= y and (p.kind == "float" or x < y), lambda: f"{p}: {v} < {w} have the normalized values {x}, {y}")
        back = [h.normalized_to_value(x) for x in norm]
        trs = [MinMaxNormalizer(h.domain)]
        if p.kind == "int" and not p.log:
            trs.append(MinMaxNormalizer(h.domain, bins=p.hi - p.lo + 1))
        g = grid(100)
        out = [h.normalized_to_value(u) for u in g]
        for u, v in zip(g, out):
            require(p.bad(v) is None, lambda: f"{p}: the normalized value {u} becomes {v!r}: {p.bad(v)}")
        for (u, v), (u2, w) in zip(zip(g, out), list(zip(g, out))[1:]):
            require(v <= w, lambda: f"{p}: normalized values {u} < {u2} become {v} > {w}")
        require(close(out[0], p.lo, d) and close(out[-1], p.hi, d), lambda: f"{p}: ends become {out[0]}, {out[-1]}")
        if p.kind == "float":
            for u, v in zip(g, out):
                require(close(v, d.at(u), d), lambda: f"{p}: the normalized value {u} becomes {v}, not {d.at(u)}")
    dd = None if p.kind == "cat" else D(p.kind, p.lo, p.hi, p.log)

    def eq(a, b, tol=1e-9):
        return type(a) is type(b) and (a == b if p.kind != "float" else close(a, b, dd, tol))
    if p.kind == "float":
        vals = [float(v) for v in vals]
    for v, w in zip(vals, back):
        require(eq(v, w), lambda: f"{p}: {v!r} is normalized and comes back as {w!r}")
    for tr in trs:
        name = type(tr).__name__
        for dt in (None, torch.float64, torch.float32):
            if dt == torch.float32 and p.kind != "cat" and (p.kind == "float" or dd.card > 300 or dd.log):
                continue
            buf = torch.full((len(vals), 2), 7.0, dtype=dt or torch.float64)
            a = tr.encode(vals, dtype=dt)
            b = tr.encode(vals, out=buf[:, 1], dtype=dt)
            require(bool((buf[:, 0] == 7).all()), lambda: f"{p}: {name} writes outside its column")
            for how, enc in (("", a), (" into a buffer", buf[:, 1]), (" (returned)", b)):
                got = tr.decode(enc)
                for v, w, x in zip(vals, got, enc.tolist()):
                    require(eq(v, w), lambda: f"{p}: {name}{how} ({dt}): {v!r} is encoded as {x} and decoded as {w!r}")
                require(all(x < y for x, y in zip(enc.tolist(), enc.tolist()[1:])) or p.kind == "float",
                        lambda: f"{p}: {name}{how}: order of {vals} not kept: {enc.tolist()}")
                lo, hi = tr.domain.lower, tr.domain.upper
                require(all(lo - 1e-9 <= x <= hi + 1e-9 for x in enc.tolist()),
                        lambda: f"{p}: {name}{how}: {enc.tolist()} outside [{lo}, {hi}]")
        one = [tr.decode(tr.encode([v]))[0] for v in vals[:50]]
        for v, w in zip(vals, one):
            require(eq(v, w), lambda: f"{p}: {name}: {v!r} alone comes back as {w!r}")
        # every point of the encoded column decodes to a legal value
        u = t64(grid(100)) * (tr.domain.upper - tr.domain.lower) + tr.domain.lower
        u = u.clip(tr.domain.lower, tr.domain.upper)
        for dt in (torch.float64, torch.float32):
            for x, w in zip(u.tolist(), tr.decode(u.to(dt))):
                require(p.bad(w) is None, lambda: f"{p}: {name}: the point {x} ({dt}) decodes to {w!r}: {p.bad(w)}")
    enc = ConfigEncoder.default({"p": h})
    got = enc.decode(enc.encode([{"p": v} for v in vals]))
    for v, c in zip(vals, got):
        require(set(c) == {"p"} and eq(v, c["p"]), lambda: f"{p}: the encoder turns {v!r} into {c}")
    return {"stats": {"values": len(vals)}}


# ------------------------------------------------------------------------------------------------ whole configurations
KINDS = {"f": P("float", -3.5, 7.25), "l": P("float", 1e-4, 0.1, log=True), "i": P("int", 1, 10),
         "j": P("int", 1, 1000, log=True), "c": P("cat", choices=("x", "y", "z")), "d": P("cat", choices=(4, 0.5, "q", "r", 1)),
         "k": P("const", value=5)}


def config_cases(quick):
    names = ("zeta", "B", "a", "b10")
    for n in (1, 2, 3) if quick else (1, 2, 3, 4):
        for kinds in itertools.permutations(KINDS, n):
            if all(k == "k" for k in kinds):
                continue
            yield (kinds, names[:n])
            if n > 1:
                yield (kinds, names[:n][::-1])


def some(p):
    if p.kind == "const":
        return [p.value]
    if p.kind == "cat":
        return list(p.choices)
    d = D(p.kind, p.lo, p.hi, p.log)
    m = d.at(0.37)
    return [d.lo, d.hi, m, d.at(0.9)] if p.kind == "float" else [d.lo, d.hi, round(m)]


def config_case(case):
    import torch
    from neps.search_spaces.encoding import CategoricalToUnitNorm, ConfigEncoder

    kinds, names = case
    space = {nm: KINDS[k] for nm, k in zip(names, kinds)}
    params = {k: p.make() for k, p in space.items() if p.kind != "const"}
    const = {k: p.value for k, p in space.items() if p.kind == "const"}
    cfgs = [dict(zip(space, vs)) for vs in itertools.product(*(some(p) for p in space.values()))]
    custom = {k: CategoricalToUnitNorm(p.choices) for k, p in space.items() if p.kind == "cat"}
    encs = [("default", ConfigEncoder.default(params, constants=const or None))]
    if custom:
        encs.append(("custom", ConfigEncoder.default(params, constants=const or None, custom_transformers=custom)))
    n = 0
    for what, enc in encs:
        require(enc.ncols == len(params) and len(enc.domains) == len(params) and set(enc.index_of) == set(params)
                and sorted(enc.index_of.values()) == list(range(len(params))),
                lambda: f"{what}: columns {enc.index_of} for {list(params)}")
        for k, i in enc.index_of.items():
            require(enc.domains[i] == enc.domain_of[k] == enc.transformers[k].domain, lambda: f"domain of column {i} ({k})")
        require(enc.n_categorical == sum(p.kind == "cat" for p in space.values()) and
                enc.n_numerical == sum(p.kind in ("float", "int") for p in space.values()),
                lambda: f"{enc.n_categorical} categorical, {enc.n_numerical} numerical columns for {space}")
        order = [dict(reversed(list(c.items()))) for c in cfgs]
        for batch in (cfgs, order):
            x = enc.encode(batch)
            require(tuple(x.shape) == (len(batch), len(params)), lambda: f"shape {tuple(x.shape)}")
            got = enc.decode(x)
            require(len(got) == len(batch), "number of decoded configurations")
            for c, g, row in zip(batch, got, x.tolist()):
                n += 1
                require(set(c) == set(g), lambda: f"{c} comes back as {g}")
                for k, p in space.items():
                    ok = same(c[k], g[k]) if p.kind != "float" else \
                        isinstance(g[k], float) and close(c[k], g[k], D("float", p.lo, p.hi, p.log))
                    require(ok, lambda: f"{what}: {c} is encoded as {row} and comes back as {g}")
                    b = p.bad(g[k])
                    require(b is None, lambda: f"{what}: {c} comes back as {g}: {b}")
                for k, i in enc.index_of.items():  # a column depends on its own parameter only
                    alone = enc.transformers[k].encode([c[k]], dtype=torch.float64).tolist()[0]
                    require(abs(alone - row[i]) < 1e-12, lambda: f"{what}: column {i} of {c} is {row[i]}, {k} is {alone}")
            again = enc.encode(got)
            require(torch.allclose(again, x, rtol=0, atol=1e-9), lambda: f"{what}: encoding the decoded gives other numbers")
        x32 = enc.encode(cfgs, dtype=torch.float32)
        require(x32.dtype == torch.float32, "dtype")
        for c, g in zip(cfgs, enc.decode(x32)):
            b = illegal(space, g)
            require(b is None, lambda: f"{what}: {c} comes back as {g} (float32): {b}")
            for k, p in space.items():
                require(p.kind == "float" or p.kind == "int" and p.log or same(c[k], g[k]),
                        lambda: f"{what}: {c} comes back as {g} (float32)")
        # all points of the numeric space
        axis = [0.0, 5e-324, 0.1, 1 / 3, 0.5, math.nextafter(0.5, 1), 0.77, 1 - 2.0 ** -53, 1.0]
        if len(params) > 2:
            axis = [0.0, 1 / 3, 0.5, 1 - 2.0 ** -53, 1.0]
        pts = t64([[d.lower + u * (d.upper - d.lower) for u, d in zip(us, enc.domains)]
                   for us in itertools.product(axis, repeat=len(params))])
        for dt in (torch.float64, torch.float32):
            for row, g in zip(pts.tolist(), enc.decode(pts.to(dt))):
                n += 1
                b = illegal(space, g)
                require(b is None, lambda: f"{what}: the point {row} ({dt}) decodes to {g}: {b}")
    if const:
        for bad in (dict(parameters={**params, **{k: P("int", 1, 3).make() for k in const}}, constants=const),):
            try:
                ConfigEncoder.default(**bad)
            except ValueError:
                continue
            raise Violation("a name that is both a parameter and a constant is accepted")
    # the normalized view of a configuration
    from neps.search_spaces import SearchSpace

    for c in cfgs[:: max(1, len(cfgs) // 12)]:
        ss = SearchSpace(**{k: p.make() for k, p in space.items()})
        for k, v in c.items():
            if space[k].kind != "const":
                ss[k].set_value(v)
        got = ss.get_normalized_hp_categories()
        num = [ss[k].value_to_normalized(c[k]) for k in ss if space[k].kind in ("float", "int")]
        cat = [ss[k].value_to_normalized(c[k]) for k in ss if space[k].kind == "cat"]
        require(got["continuous"] == num and got["categorical"] == cat, lambda: f"normalized values of {c}: {got}")
        for k in ss:
            if space[k].kind != "const":
                require(ss[k].normalized_value == ss[k].value_to_normalized(c[k]),
                        lambda: f"normalized_value of {k}={c[k]!r} is {ss[k].normalized_value}")
    return {"stats": {"values": n}}


def run(ck):
    ck.rule = RULE
    ck.level = "exploration"
    q = ck.quick
    ck.assumptions = ["floats are compared up to 1e-9 of their range (float32 results up to 1e-5)",
                      "integer domains with more than 3000 values are covered at both ends, powers of two and a regular grid"]
    ck.enumerate("domain", domain_cases(q), domain_case)
    ck.enumerate("cast", cast_cases(q), cast_case)
    ck.enumerate("translate", translate_cases(q), translate_case)
    ck.enumerate("parameter", param_cases(q), param_case)
    ck.enumerate("configuration", config_cases(q), config_case)
