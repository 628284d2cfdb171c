import itertools
import math
import os
from pathlib import Path

from lib.harness import Violation, fresh_dir, require, same
from lib.legal import P, illegal, make_space

RULE = ("every parameter definition and number of grid values listed, alone and in every combination of up to three; every "
        "history of finished, failed and pending trials, with the searcher object kept or new for every proposal; every split "
        "of a real run over the grid into restarts; distinct = (definitions, size, history)")

FLOATS = [P("float", 0.0, 1.0), P("float", -3.5, 7.25), P("float", 1e-4, 0.1, log=True), P("float", 1.0, 1000.0, log=True),
          P("float", 0.1, 0.7), P("float", -1e-9, 1e9), P("float", 3.0, 3.3, log=True), P("float", 1e-5, 1e-1, log=True),
          P("float", 0.1, 0.3), P("float", -0.7, -0.1)]
INTS = [P("int", 0, 1), P("int", 1, 3), P("int", -3, 3), P("int", 1, 10), P("int", 0, 50), P("int", 5, 1000005),
        P("int", 1, 2, log=True), P("int", 1, 10, log=True), P("int", 1, 1000, log=True), P("int", 7, 9, log=True),
        P("int", 2, 100, log=True), P("int", -10, -7)]
FID = [P("int", 1, 9, fid=True), P("float", 0.5, 4.0, fid=True)]
CATS = [P("cat", choices=("a", "b")), P("cat", choices=(1, 0.5, "two")), P("cat", choices=(True, False)),
        P("cat", choices=tuple("dcba"))]
CONST = [P("const", value=5), P("const", value="c"), P("const", value=0.25)]


def near(a, b):
    return abs(a - b) <= 1e-9 * max(1.0, abs(b)) or abs(a - b) <= 1e-9 * abs(b)


def ideal(lo, hi, log, n):
    if n == 1:
        return [lo]
    if log:
        a, b = math.log(lo), math.log(hi)
        return [math.exp(a + (b - a) * i / (n - 1)) for i in range(n)]
    return [lo + (hi - lo) * i / (n - 1) for i in range(n)]


def check_axis(p, n, vals):
    """vals: the distinct values, in the order of first appearance."""
    for v in vals:
        b = p.bad(v)
        require(b is None, lambda: f"grid value {b}")
    if p.kind == "const":
        require(len(vals) == 1, lambda: f"{vals}")
        return
    if p.kind == "cat":
        require(len(vals) == len(p.choices), lambda: f"the grid has the categories {vals}, the parameter {p.choices}")
        return
    s = sorted(vals)
    if p.kind == "float":
        want = ideal(p.lo, p.hi, p.log, n)
        ok = len(s) == n and all(abs(a - b) <= 1e-9 * max(abs(b), abs(p.hi - p.lo)) for a, b in zip(s, want))
        if p.log:
            ok = ok and all(abs(a - b) <= 1e-9 * abs(b) for a, b in zip(s, want))
        require(ok, lambda: f"{p} has grid {s}, expected {want}")
        return
    size = p.hi - p.lo + 1
    require(s[0] == p.lo and s[-1] == p.hi, lambda: f"{p}: grid {s} does not include both end points")
    if n > size and not p.log:
        require(s == list(range(p.lo, p.hi + 1)), lambda: f"{p}: grid {s} for {n} values")
    a, b = ideal(p.lo, p.hi, p.log, n), ideal(p.lo - 0.499999, p.hi + 0.499999, p.log, n)
    bands = [(min(x, y) - 1, max(x, y) + 1) for x, y in zip(a, b)]
    if n <= size and not p.log:
        require(len(s) == n and all(lo <= v <= hi for v, (lo, hi) in zip(s, bands)),
                lambda: f"{p}: grid {s} is not evenly spaced")
    else:
        require(all(any(lo <= v <= hi for v in s) for lo, hi in bands)
                and all(any(lo <= v <= hi for lo, hi in bands) for v in s), lambda: f"{p}: grid {s} is not evenly spaced")


def grid(space, n, **kw):
    from neps.optimizers import SearcherMapping

    return SearcherMapping["grid_search"](pipeline_space=make_space(space), grid_step_size=n, **kw)


def trial(s, k, state):
    from neps.state.trial import Trial

    t = Trial.new(trial_id=s.id, config=dict(s.config), location="/x/" + s.id, previous_trial=None,
                  previous_trial_location=None, time_sampled=float(k), worker_id="w")
    if state != "p":
        t.set_evaluating(time_started=1.0, worker_id="w")
    if state in "sf":
        ok = state == "s"
        t.report = t.set_complete(report_as="success" if ok else "crashed", time_end=2.0, loss=1.0 * (k % 3) if ok else None,
                                  cost=1.0, learning_curve=None, err=None if ok else ValueError("x"), tb=None, extra={},
                                  evaluation_duration=1.0)
    return t


def walk(space, n, states, fresh, kw=()):
    """Ask until the grid is exhausted; returns the proposals."""
    import random

    opt = grid(space, n, **dict(kw))
    trials, out = {}, []
    for k in range(100000):
        if fresh:
            opt = grid(space, n, **dict(kw))
        random.seed(k)  # whatever the process did before
        listed = dict(reversed(trials.items())) if k % 2 else trials
        try:
            s = opt.ask(trials=listed, budget_info=None)
        except Exception as e:  # noqa: BLE001
            for _ in range(2):
                try:
                    s = opt.ask(trials=trials, budget_info=None)
                except Exception as e2:  # noqa: BLE001
                    if type(e2) is type(e):
                        continue
                raise Violation("proposes another configuration after reporting that the grid is exhausted")
            return out, e
        require(s.id not in trials and s.previous_config_id is None, lambda: f"id {s.id} is used twice or continues a trial")
        trials[s.id] = trial(s, k, states[k % len(states)])
        out.append(dict(s.config))
    raise Violation("the grid is never exhausted")


def freeze(c):
    return tuple(sorted((k, type(v).__name__, v) for k, v in c.items()))


def check_grid(space, n, out, e):
    for c in out:
        b = illegal(space, c)
        require(b is None, lambda: f"proposes {c}: {b}")
    seen = [freeze(c) for c in out]
    require(len(set(seen)) == len(seen), lambda: f"visits {next(s for s in seen if seen.count(s) > 1)} more than once")
    axes = {k: [] for k in space}
    for c in out:
        for k, v in c.items():
            if not any(same(v, w) for w in axes[k]):
                axes[k].append(v)
    for k, p in space.items():
        check_axis(p, n, axes[k])
    total = math.prod(len(a) for a in axes.values())
    require(len(out) == total, lambda: f"visits {len(out)} of {total} grid points before reporting exhaustion ({e!r})")
    require(isinstance(e, ValueError) or "exhausted" in str(e).lower(), lambda: f"ends with {e!r}")


def axis_cases(quick):
    for p in FLOATS + INTS + FID + CATS + CONST:
        for n in ((2, 3, 4, 5, 7, 10, 11, 20) if quick else range(2, 41)):
            yield (p, n)


def axis_case(case):
    p, n = case
    space = {"p": p}
    out, e = walk(space, n, "s", False)
    check_grid(space, n, out, e)


def space_cases(quick):
    pick = [FLOATS[0], FLOATS[2], INTS[1], INTS[7], FID[0], CATS[1], CATS[2], CONST[0]]
    for r in (2, 3):
        for c in itertools.combinations(range(len(pick)), r):
            for n in (2, 3):
                for states in ("s", "sfpe"):
                    yield (tuple(pick[i] for i in c), n, states, r == 2, ())
    for c in itertools.combinations(range(len(pick)), 2):
        yield (tuple(pick[i] for i in c), 3, "sp", True, (("seed", 5),))
        yield (tuple(pick[i] for i in c), 2, "fp", False, (("ignore_errors", True), ("budget", 10)))


def names(ps):
    return {n: p for n, p in zip("zax", ps)}  # not in the order of the alphabet


def space_case(case):
    ps, n, states, fresh, kw = case
    space = names(ps)
    out, e = walk(space, n, states, fresh, kw)
    check_grid(space, n, out, e)
    again, _ = walk(space, n, "s", not fresh, kw)
    require(same(again, out), lambda: "the order in which the grid is visited depends on the history or the searcher object")
    return {"stats": {"grid_points": len(out)}}


def run_cases(quick):
    spaces = [(CATS[0], INTS[1]), (CATS[2], CONST[0], FLOATS[0])]
    for ps in spaces:
        size = 6
        for cut in itertools.product((0, 1), repeat=size - 1):
            for fail in (None, 2):
                yield (ps, cut, fail)


def run_case(case):
    import neps
    import random

    ps, cut, fail = case
    space = names(ps)
    parts, k = [], 1
    for c in cut:
        if c:
            parts.append(k)
            k = 1
        else:
            k += 1
    parts.append(k)
    root = fresh_dir("root")
    log = []

    def f(**cfg):
        log.append(cfg)
        random.random()
        if fail is not None and len(log) - 1 == fail:
            raise ValueError("no")
        return float(len(log) % 4)

    def go(m):
        neps.run(run_pipeline=f, pipeline_space={k: p.make() for k, p in space.items()}, root_directory=root,
                 searcher=grid(space, 3), max_evaluations_total=99, max_evaluations_per_run=m, ignore_errors=True,
                 post_run_summary=False)

    for i, m in enumerate(parts):
        random.seed(i)
        go(m)
    require(len(log) == sum(parts), lambda: f"evaluated {len(log)} configurations in runs of {parts}")
    try:
        go(1)
        e = None
    except Exception as x:  # noqa: BLE001
        e = x
        while e.__cause__ is not None:
            e = e.__cause__
    require(e is not None and len(log) == sum(parts), lambda: f"evaluates another configuration {log[-1]} after the whole grid")
    check_grid(space, 3, log, e)
    ref, _ = walk(space, 3, "s", False)
    require(same(log, ref), lambda: f"the run visits {log}, the searcher alone {ref}")
    require(len(os.listdir(Path(root) / "configs")) == sum(parts), "the directory holds another number of trials")


def worker_cases(quick):
    for ps in [(CATS[0], INTS[1]), (CATS[1], FLOATS[2])]:
        for who in itertools.product((0, 1), repeat=6):
            yield (ps, who)


def worker_case(case):
    from neps.state.filebased import create_or_load_filebased_neps_state
    from neps.state.optimizer import OptimizationState, OptimizerInfo

    ps, who = case
    space = names(ps)
    ref, _ = walk(space, 3, "s", False)
    root = Path(fresh_dir("root"))
    st = [create_or_load_filebased_neps_state(root, optimizer_info=OptimizerInfo({}),
                                              optimizer_state=OptimizationState(budget=None, shared_state={}))
          for _ in range(2)]
    opts = [grid(space, 3) for _ in range(2)]
    out = [dict(st[w].sample_trial(opts[w], worker_id=f"w{w}").config) for w in who]
    require(same(out, ref[:len(out)]), lambda: f"workers {who} sample {out}, one worker {ref[:len(out)]}")


def run(ck):
    ck.rule = RULE
    ck.level = "model_checking"
    ck.assumptions = ["integers are evenly spaced up to rounding (tolerance of one unit around the ideal grid)"]
    ck.enumerate("axis", axis_cases(ck.quick), axis_case)
    ck.enumerate("space", space_cases(ck.quick), space_case)
    ck.enumerate("run", run_cases(ck.quick), run_case)
    ck.enumerate("workers", worker_cases(ck.quick), worker_case)
