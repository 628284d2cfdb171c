import itertools
import math

from lib import rng
from lib.harness import Violation, require, same
from lib.legal import P, illegal, make_space

RULE = ("every random number drawn becomes a choice between the ends of its range, values one rounding step from them and "
        "values in between; every sequence of choices for the first D draws of every operation on every listed parameter, "
        "space and parent configuration is executed and the result checked against the definition; distinct = (definition, "
        "operation, choices)")

D1 = [P("float", 0.0, 1.0), P("float", -3.5, 7.25), P("float", 1e-4, 0.1, log=True), P("float", 1.0, 1000.0, log=True),
      P("float", 0.1, 0.7), P("float", -1e-9, 1e9), P("float", 3.0, 3.3, log=True), P("float", 0.1, 0.3),
      P("float", -0.7, -0.1), P("float", 0.3, 0.9, log=True), P("float", 1e-8, 1e8, log=True), P("float", 0.1, 1.1),
      P("float", 5, 7), P("float", -5.6, 2.3), P("float", 0.007, 0.7, log=True),
      P("int", 0, 1), P("int", 1, 3), P("int", -3, 3), P("int", 1, 10), P("int", 0, 50), P("int", 5, 1000005),
      P("int", 1, 2, log=True), P("int", 1, 10, log=True), P("int", 1, 1000, log=True), P("int", 7, 9, log=True),
      P("int", 2, 100, log=True), P("int", -10, -7), P("int", 3, 50021, log=True),
      P("cat", choices=("a", "b")), P("cat", choices=(1, 0.5, "two")), P("cat", choices=(True, False)),
      P("cat", choices=tuple("dcbae")), P("cat", choices=(3, 1, 2)),
      P("const", value=5), P("const", value="c"), P("const", value=0.25)]


def defaults(p):
    if p.kind == "const":
        return
    if p.kind == "cat":
        vals = [p.choices[0], p.choices[-1]]
    else:
        mid = math.sqrt(p.lo * p.hi) if p.log else (p.lo + p.hi) / 2
        near = p.lo + (p.hi - p.lo) * 0.05
        vals = [p.lo, p.hi, mid, near] if p.kind == "float" else sorted({p.lo, p.hi, round(mid)})
    for v in vals:
        for conf in ("low", "medium", "high"):
            yield P(p.kind, p.lo, p.hi, p.log, p.choices, default=v, conf=conf)


def with_priors():
    for p in D1:
        yield p
        yield from defaults(p)


def values(p):
    if p.kind == "const":
        return [p.value]
    if p.kind == "cat":
        return list(p.choices)[:3]
    mid = math.sqrt(p.lo * p.hi) if p.log else (p.lo + p.hi) / 2
    v = [p.lo, p.hi, mid, p.lo + (p.hi - p.lo) * 0.07]
    return v if p.kind == "float" else sorted({round(x) for x in v})


def fresh(p, v):
    h = p.make()
    if p.kind != "const":
        h.set_value(v)
    return h


SAME = "same as child"  # mutation may give up when it draws the value it started from


def param_cases(quick):
    for p in with_priors():
        yield (p, "sample", None)
        if p.kind == "const" or p.default is not None and (p.conf != "medium" or quick and p.default != p.lo):
            continue
        for v in values(p):
            yield (p, "mutate", v)
            for w in values(p):
                yield (p, "crossover", (v, w))


def param_case(case):
    p, op, arg = case
    cfg = {"n": 0}

    def check(vals, what):
        for v in vals:
            b = p.bad(v)
            require(b is None, lambda: f"{what} yields {b}")

    def attempt(f, what):
        def go(ch):
            with rng.controlled(ch):
                try:
                    r = f()
                except Violation:
                    raise
                except Exception as e:  # noqa: BLE001
                    if SAME in str(e):
                        return
                    raise Violation(f"{what} with the draws {ch.taken} fails: {type(e).__name__}: {e}") from e
            check(r, f"{what} with the draws {ch.taken}")
        cfg["n"] += rng.explore(go, depth)

    depth = 2
    if op == "sample":
        h = p.make()
        attempt(lambda: [h.sample_value()], "sampling")
        attempt(lambda: [h.sample().value], "sampling a parameter")
        if p.kind != "const":
            attempt(lambda: [h.sample_value(user_priors=True)], "sampling from the prior")
            attempt(lambda: [h.sample(user_priors=True).value], "sampling a parameter from the prior")
        require(p.kind == "const" or h.value is None, lambda: "sampling changed the parameter sampled from")
    elif op == "mutate":
        depth = 3
        for kw in ({}, {"std": 0.01}, {"std": 2.0}):
            h = fresh(p, arg)
            attempt(lambda: [h.mutate(**kw).value], f"mutating {arg!r} {kw}")
            require(same(h.value, fresh(p, arg).value), lambda: "mutation changed its parent")
        h = fresh(p, arg)
        attempt(lambda: [h.mutate(mutation_strategy="simple").value], f"simple mutation of {arg!r}")
    else:
        depth = 3
        v, w = arg
        h, g = fresh(p, v), fresh(p, w)
        attempt(lambda: [c.value for c in h.crossover(g)], f"crossover of {v!r} and {w!r}")
        require(same(h.value, fresh(p, v).value) and same(g.value, fresh(p, w).value), lambda: "crossover changed a parent")
    return {"stats": {"executions_of_choices": cfg["n"]}}


# ------------------------------------------------------------------------------------------------ spaces
F, FL = P("float", 0.1, 0.7), P("float", 0.3, 0.9, log=True)
FD = P("float", 0.1, 0.7, default=0.7, conf="high")
FLD = P("float", 1e-4, 0.1, log=True, default=1e-4, conf="medium")
I, ILD = P("int", 1, 3), P("int", 3, 50021, log=True, default=3, conf="high")
ID = P("int", -3, 3, default=3)
IL = P("int", 1, 10, log=True)
C, CD = P("cat", choices=(1, 0.5, "two")), P("cat", choices=(True, False), default=False, conf="high")
K = P("const", value=5)
FI, FF = P("int", 1, 9, fid=True), P("float", 0.5, 4.0, fid=True)
FFL = P("float", 0.3, 0.9, log=True, fid=True)
SPACES = [(F,), (FL,), (I,), (C,), (FD,), (FLD,), (ILD,), (ID,), (CD,), (F, C), (FD, CD), (ILD, FLD), (FD, K), (C, K), (I, CD),
          (FD, CD, FI), (F, C, FF), (ILD, K, FFL), (FLD, ID, CD, FI), (F, I, C, K, FF), (IL, FD), (IL, CD, FI)]


def named(ps):
    return dict(zip("zaxbq", ps))


def plain(space, k):
    """The k-th listed configuration of a space: name -> value."""
    return {n: values(p)[k % len(values(p))] if k < 3 else values(p)[-1] for n, p in space.items()}


def legal(space, cfg, fid_given):
    sub = space if fid_given else {k: p for k, p in space.items() if not (p.fid and cfg.get(k) is None)}
    return illegal(sub, {k: cfg[k] for k in cfg if k in sub or k not in space})


SPACE_OPS = ["sample", "sample_prior", "sample_fid", "mutate", "crossover", "local_mutation", "custom_crossover", "default",
             "uniform_policy", "fixed_prior_policy", "ensemble"]


def space_cases(quick):
    for i in range(len(SPACES)):
        for op in SPACE_OPS:
            if op == "ensemble":
                for inc in ("hypersphere", "gaussian", "crossover", "mutation"):
                    for w in (None, (1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.5, 0.25, 0.25)):
                        yield (i, op, (inc, w))
            else:
                yield (i, op, None)


def space_case(case):
    import numpy as np
    from neps.optimizers.multi_fidelity import sampling_policy as sp
    from neps.optimizers.multi_fidelity_prior.utils import custom_crossover, local_mutation

    i, op, arg = case
    space = named(SPACES[i])
    ss = make_space(space)
    fixed = [k for k, p in space.items() if p.kind == "const" or p.fid]
    mutable = [k for k in space if k not in fixed]
    count = [0]

    def conf(k, fid=True):
        c = ss.from_dict({n: v for n, v in plain(space, k).items() if fid or not space[n].fid})
        return c

    def attempt(f, what, fid_given=False, depth=3, allow=()):
        def go(ch):
            with rng.controlled(ch):
                try:
                    r = f()
                except Violation:
                    raise
                except Exception as e:  # noqa: BLE001
                    if any(a in str(e) for a in allow):
                        return
                    raise Violation(f"{what} with the draws {ch.taken} fails: {type(e).__name__}: {e}") from e
            for c in r if isinstance(r, (list, tuple)) else [r]:
                cfg = {k: h.value for k, h in c.hyperparameters.items()}
                b = legal(space, cfg, fid_given)
                require(b is None, lambda: f"{what} with the draws {ch.taken} yields {cfg}: {b}")
        count[0] += rng.explore(go, depth)

    if op.startswith("sample"):
        kw = dict(user_priors=op == "sample_prior", ignore_fidelity=op == "sample")
        for patience in (1, 10):
            attempt(lambda: ss.sample(patience=patience, **kw), f"sample({kw})", fid_given=not kw["ignore_fidelity"],
                    depth=len(space) if len(space) < 4 else 4)
        require(all(h.value is None or space[k].kind == "const" for k, h in ss.hyperparameters.items()),
                lambda: "sampling changed the space it sampled from")
    elif op == "default":
        missing = [k for k in mutable if space[k].default is None]
        for ignore_fid in (True, False):
            for ignore_missing in (True, False):
                def go(ch):
                    with rng.controlled(ch):
                        try:
                            c = ss.sample_default_configuration(ignore_fidelity=ignore_fid,
                                                                ignore_missing_defaults=ignore_missing)
                        except Exception as e:  # noqa: BLE001
                            need = missing or not ignore_fid and any(p.fid and p.default is None for p in space.values())
                            require(need and not ignore_missing, lambda: f"default configuration fails: {e!r}")
                            return
                    cfg = {k: h.value for k, h in c.hyperparameters.items()}
                    b = legal(space, cfg, not ignore_fid)
                    require(b is None, lambda: f"default configuration {cfg}: {b}")
                    for k, p in space.items():
                        if p.default is not None and not p.fid:
                            require(same(cfg[k], p.default), lambda: f"default configuration has {k}={cfg[k]!r}, the default is "
                                                                     f"{p.default!r}")
                count[0] += rng.explore(go, 3)
    elif op == "mutate":
        for k in range(4):
            c = conf(k)
            attempt(lambda: c.mutate(), f"mutate {plain(space, k)}", allow=("Could not mutate",), depth=3)
            attempt(lambda: c.mutate(patience=2, mutation_strategy="smbo"), f"mutate {plain(space, k)}",
                    allow=("Could not mutate",), depth=3)
    elif op == "crossover":
        for k, m in itertools.combinations(range(4), 2):
            a, b = conf(k), conf(m)
            for prob in (1.0, 0.4):
                attempt(lambda: a.crossover(b, crossover_probability_per_hyperparameter=prob, patience=3),
                        f"crossover of {plain(space, k)} and {plain(space, m)}", allow=("Cannot crossover",), depth=3)
    elif op == "local_mutation":
        for k in range(4):
            for kw in ({}, dict(std=1.0, mutation_rate=1.0), dict(std=0.01, mutation_rate=0.5)):
                for fid in (True, False):
                    c = conf(k, fid)
                    attempt(lambda: local_mutation(c, **kw), f"local_mutation({plain(space, k)}, {kw})", allow=(SAME,))
    elif op == "custom_crossover":
        for k, m in itertools.product(range(3), repeat=2):
            a, b = conf(k), conf(m)
            for prob in (1.0, 0.5, 0.0):
                attempt(lambda: custom_crossover(a, b, crossover_prob=prob, patience=3), "custom_crossover")
    elif op == "uniform_policy":
        attempt(lambda: sp.RandomUniformPolicy(ss).sample(), "RandomUniformPolicy")
    elif op == "fixed_prior_policy":
        for frac in (0, 0.5, 1):
            attempt(lambda: sp.FixedPriorPolicy(ss, fraction_from_prior=frac).sample(), "FixedPriorPolicy")
    elif op == "ensemble":
        inc_type, w = arg
        weights = None if w is None else dict(inc=w[0], prior=w[1], random=w[2])
        complete = all(space[k].default is not None for k in mutable)
        for k in (None, 0, 1, 2):
            if k is None and not complete:
                continue
            pol = sp.EnsemblePolicy(ss, inc_type=inc_type)
            inc = None if k is None else conf(k)
            attempt(lambda: pol.sample(inc=inc, weights=weights, distance=1.1), f"EnsemblePolicy({inc_type}, {weights}, {k})",
                    allow=(SAME,))
            if inc is not None:
                pol = sp.EnsemblePolicy(ss, inc_type=inc_type)
                attempt(lambda: pol.sample(inc=inc, weights=weights, distance=1.1, inc_mutation_rate=0.9, inc_mutation_std=0.5),
                        f"EnsemblePolicy({inc_type}, {weights}, {k})", allow=(SAME,))
    return {"stats": {"executions_of_choices": count[0]}}


# ------------------------------------------------------------------------------------------------ samplers, initial design
def design_cases(quick):
    for i in range(len(SPACES)):
        for sampler in ("sobol", "uniform", "prior", "border", "weighted"):
            yield (i, sampler)


def design_case(case):
    import torch
    from neps.optimizers.initial_design import make_initial_design
    from neps.sampling.priors import Prior
    from neps.sampling.samplers import Sampler, WeightedSampler
    from neps.search_spaces.encoding import ConfigEncoder

    i, kind = case
    space = named(SPACES[i])
    ss = make_space(space)
    params = {**ss.numerical, **ss.categoricals}
    enc = ConfigEncoder.default(params, constants=ss.constants)
    nofid = {k: p for k, p in space.items() if not p.fid}
    n = len(params)
    count = [0]

    def sampler():
        if kind == "sobol":
            return Sampler.sobol(ndim=n)
        if kind == "uniform":
            return Sampler.uniform(ndim=n)
        if kind == "border":
            return Sampler.borders(ndim=n)
        prior = Prior.from_parameters(params.values())
        if kind == "prior":
            return prior
        return WeightedSampler([Sampler.uniform(ndim=n), prior, Sampler.sobol(ndim=n)], torch.tensor([0.5, 0.3, 0.2]))

    def go(dtype, size):
        def f(ch):
            with rng.controlled(ch):
                try:
                    x = sampler().sample(size, to=enc.domains, **({} if dtype is None else {"dtype": dtype}))
                    cfgs = enc.decode(x.reshape(-1, n))
                except Exception as e:  # noqa: BLE001
                    raise Violation(f"{kind} sampler with the draws {ch.taken} fails: {type(e).__name__}: {e}") from e
            require(kind == "border" or tuple(x.shape) == (*(size if not isinstance(size, int) else (size,)), n),
                    lambda: f"{kind} sampler yields shape {tuple(x.shape)} for n={size}")
            for c in cfgs:
                b = illegal(nofid, c)
                require(b is None, lambda: f"{kind} sampler ({dtype}) with the draws {ch.taken} yields {c}: {b}")
        return f

    for dtype in (None, torch.float64):
        for size in (1, 2, torch.Size((1, 2))):
            if kind == "border" and (size if isinstance(size, int) else 2) > 2 ** n:
                continue
            count[0] += rng.explore(go(dtype, size), 3)
    fids = [k for k, p in space.items() if p.fid]
    how = ["min", "max", True]
    if fids:
        how += [space[fids[0]].lo, space[fids[0]].hi, {fids[0]: space[fids[0]].hi}]
    for first in (True, False):
        for size in ("ndim", 3, None):
            for h in how:
                def design(ch):
                    with rng.controlled(ch):
                        try:
                            s = kind if kind in ("sobol", "uniform", "prior") else sampler()
                            out = make_initial_design(space=ss, encoder=enc, sampler=s, sample_size=size,
                                                      sample_default_first=first, sample_fidelity=h)
                        except Exception as e:  # noqa: BLE001
                            raise Violation(f"initial design ({kind}) with the draws {ch.taken} fails: "
                                            f"{type(e).__name__}: {e}") from e
                    for c in out:
                        b = illegal(space, c)
                        require(b is None, lambda: f"initial design ({kind}) with the draws {ch.taken} yields {c}: {b}")
                    for k in fids:
                        want = {"min": space[k].lo, "max": space[k].hi}.get(h) if isinstance(h, str) else \
                            h[k] if isinstance(h, dict) else None if h is True else h
                        require(want is None or all(c[k] == want for c in out), lambda: f"fidelity {out} for {h}")
                    if first:
                        require(len(out) >= 1, lambda: "no default configuration")
                        for k, p in nofid.items():
                            require(p.default is None or same(out[0][k], p.default),
                                    lambda: f"the first configuration {out[0]} is not the default")
                    else:
                        require(size is not None or not out, lambda: f"{out} for no samples")
                count[0] += rng.explore(design, 2)
    return {"stats": {"executions_of_choices": count[0]}}


# ------------------------------------------------------------------------------------------------ the shape of priors
def unit(p, v):
    if p.log:
        return (math.log(v) - math.log(p.lo)) / (math.log(p.hi) - math.log(p.lo))
    return (v - p.lo) / (p.hi - p.lo)


def prior_cases(quick):
    seen = set()
    for p in D1:
        if p.kind == "const":
            continue
        for q in defaults(p):
            key = (repr(p), q.default)
            if key not in seen and (p.kind == "cat" or p.hi - p.lo > 1 or p.kind == "float"):
                seen.add(key)
                for how in ("parameter", "sampler"):
                    yield (p, q.default, how)


def spread(p, default, conf, how):
    """Expected distance of a sample from the default (in [0, 1]; categories: probability of another one), computed over all
    quantiles of the first draw; None if no draw was seen."""
    from neps.sampling.priors import Prior
    from neps.search_spaces.encoding import ConfigEncoder

    q = P(p.kind, p.lo, p.hi, p.log, p.choices, default=None if conf is None else default, conf=conf or "low")
    h = q.make()
    enc = ConfigEncoder.default({"p": h})
    prior = Prior.from_parameters([h])
    tot, acc = [0.0], [0.0]
    seen = [0]

    def go(ch):
        with rng.controlled(ch):
            if how == "parameter":
                v = h.sample_value(user_priors=True)
            else:
                v = enc.decode(prior.sample(1, to=enc.domains))[0]["p"]
        seen[0] += ch.n
        d = (0.0 if same(v, default) else 1.0) if p.kind == "cat" else abs(unit(p, v) - unit(p, default))
        tot[0] += ch.weight
        acc[0] += ch.weight * d
    rng.explore(go, 1, quantiles=64)
    return acc[0] / tot[0] if seen[0] else None


def prior_case(case):
    p, default, how = case
    s = {c: spread(p, default, c, how) for c in (None, "low", "medium", "high")}
    if any(v is None for v in s.values()):
        return {"stats": {"no_draw_seen": 1}}
    order = [s[None], s["low"], s["medium"], s["high"]]
    if p.kind == "cat" and how == "sampler":
        # by design the default has probability 0.25 / 0.5 / 0.75 whatever the number of choices
        order = order[1:]
    require(all(a > b - 1e-9 for a, b in zip(order, order[1:])) and order[0] > order[-1] + 1e-6,
            lambda: f"distance of samples from the default {default!r} without prior and with low, medium, high confidence: "
                    f"{[s[c] for c in (None, 'low', 'medium', 'high')]}")


# ------------------------------------------------------------------------------------------------ densities of priors
def density_cases(quick):
    ps = [F, FD, FLD, I, ID, ILD, C, CD, P("cat", choices=tuple("abcd"), default="c", conf="medium")]
    for r in (1, 2, 3):
        yield from itertools.permutations(ps, r) if r < 3 else itertools.combinations(ps, r)


def density_case(case):
    """The joint density of a prior depends on every parameter with a default, is largest at the default, and does not depend
    on the others."""
    import torch
    from neps.sampling.priors import Prior
    from neps.search_spaces.encoding import ConfigEncoder

    space = dict(zip("zax", case))
    ss = make_space(space)
    params = {k: ss[k] for k in sorted(space)}
    enc = ConfigEncoder.default(params)
    prior = Prior.from_parameters(params.values())
    at = {k: p.default if p.default is not None else values(p)[0] for k, p in space.items()}

    def dens(c):
        x = enc.encode([c])
        out = prior.log_prob(x, frm=enc.domains)
        return float(out.reshape(-1)[0])
    n = 0
    best = dens(at)
    require(math.isfinite(best), lambda: f"density {best} at the default")
    for k, p in space.items():
        for v in values(p):
            d = dens({**at, k: v})
            n += 1
            if p.default is None:
                require(abs(d - best) < 1e-9, lambda: f"{k} has no default, but the density depends on it")
            elif same(v, p.default):
                continue
            else:
                require(d < best - 1e-9, lambda: f"{k}={v!r} has log density {d}, the default {p.default!r} has {best}")
            for m in space:
                if m != k and space[m].default is not None:
                    for w in values(space[m]):
                        if same(w, space[m].default):
                            continue
                        e = dens({**at, k: v, m: w})
                        n += 1
                        require(e < d - 1e-9, lambda: f"{m}={w!r} has log density {e}, its default has {d}")
    return {"stats": {"densities": n}}


# ------------------------------------------------------------------------------------------------ the mode of joint priors
def modal_cases(quick):
    ps = [P("float", 0.0, 1.0, default=0.5, conf="high"), P("int", 0, 10, default=5, conf="medium"),
          P("float", 1e-4, 1.0, log=True, default=1e-2, conf="high"), P("cat", choices=tuple("abcd"), default="d", conf="high"),
          P("cat", choices=(True, False), default=False, conf="high"), P("cat", choices=(3, 1, 2), default=3, conf="high")]
    for r in (1, 2, 3):
        for c in itertools.permutations(range(len(ps)), r):
            for how in ("prior", "pibo", "space", "policy"):
                yield (tuple(ps[i] for i in c), how)


def modal_case(case):
    """If every draw takes its most likely value (the median of a continuous one), a sample from the prior is the default."""
    from neps.optimizers import SearcherMapping
    from neps.optimizers.initial_design import make_initial_design
    from neps.optimizers.multi_fidelity.sampling_policy import FixedPriorPolicy
    from neps.search_spaces.encoding import ConfigEncoder

    ps, how = case
    space = dict(zip("zax", ps))
    ss = make_space(space)
    ch = rng.Modal()
    with rng.controlled(ch):
        if how == "prior":
            enc = ConfigEncoder.default({**ss.numerical, **ss.categoricals}, constants=ss.constants)
            out = make_initial_design(space=ss, encoder=enc, sampler="prior", sample_size=1, sample_default_first=False)[0]
        elif how == "pibo":
            opt = SearcherMapping["pibo"](pipeline_space=ss, initial_design_size=1, sample_default_first=False)
            out = opt.ask(trials={}, budget_info=None).config
        elif how == "space":
            out = ss.sample(user_priors=True).hp_values()
        else:
            out = FixedPriorPolicy(ss).sample().hp_values()
    if not ch.n:
        return {"stats": {"no_draw_seen": 1}}
    for k, p in space.items():
        v = out[k]
        ok = abs(v - p.default) <= 1e-5 * abs(p.default) if p.kind == "float" else same(v, p.default)
        require(ok, lambda: f"the most likely sample {out} from the prior is not the default, see {k}")


def run(ck):
    ck.rule = RULE
    ck.level = "exploration"
    ck.assumptions = ["a draw can be any value of its range: the ends and the values a rounding step away are enumerated "
                      "together with values in between, not all 2**53 of them"]
    ck.enumerate("parameter", param_cases(ck.quick), param_case)
    ck.enumerate("space", space_cases(ck.quick), space_case)
    ck.enumerate("design", design_cases(ck.quick), design_case)
    ck.enumerate("prior", prior_cases(ck.quick), prior_case)
    ck.enumerate("modal", modal_cases(ck.quick), modal_case)
    ck.enumerate("density", density_cases(ck.quick), density_case)
