import itertools
import json
import os
import random
from pathlib import Path

from lib.harness import fresh_dir, require
from lib.runs import CrashScenario, NullCtx, RunScenario, UserError, call_run, explore, explore_crashes, loss_of, see
from fsmc import core

RULE = ("every sequence of runs (searcher definition x overwrite x outcome) up to the length bound on directories in every "
        "listed state, with the directory compared before and after each; every option value; every schedule of workers "
        "starting with different definitions; every crash point of an overwriting run; distinct = sequence or schedule")


# ------------------------------------------------------------------------------------------------ definitions of searchers
def space():
    import neps

    return {"x": neps.Float(0, 1), "e": neps.Integer(1, 3, is_fidelity=True)}


def make_class():
    from neps.optimizers.base_optimizer import BaseOptimizer, SampledConfig

    class Mine(BaseOptimizer):
        def __init__(self, pipeline_space, **kw):
            super().__init__(pipeline_space=pipeline_space)
            self.kw = kw

        def ask(self, trials, budget_info):
            return SampledConfig(id=str(len(trials) + 1), config={"x": random.random(), "e": 1})

    return Mine


def definition(name, base):
    """arguments of neps.run"""
    import yaml

    from neps.optimizers import SearcherMapping
    from neps.search_spaces import SearchSpace

    def file(d):
        p = os.path.join(base, f"args_{name}.yaml")
        with open(p, "w") as f:
            f.write(yaml.safe_dump(d))
        return {"run_args": p}

    if name == "custom":
        p = os.path.join(base, "custom.yaml")
        with open(p, "w") as f:
            f.write(yaml.safe_dump({"strategy": "random_search", "use_priors": False}))
        return {"searcher": p}
    return {
        "rs": lambda: {"searcher": "random_search"},
        "rs opt": lambda: {"searcher": "random_search", "use_priors": True},
        "rs file": lambda: file({"searcher": "random_search"}),
        "rs dict": lambda: file({"searcher": {"strategy": "random_search"}}),
        "hb": lambda: {"searcher": "hyperband"},
        "hb eta": lambda: {"searcher": "hyperband", "eta": 2},
        "hb eta file": lambda: file({"searcher": {"strategy": "hyperband", "eta": 2}}),
        "default": lambda: {},
        "class": lambda: {"searcher": make_class()},
        "class opt": lambda: {"searcher": make_class(), "z": 3},
        "instance": lambda: {"searcher": make_class()(SearchSpace(**space()))},
        "rs instance": lambda: {"searcher": SearcherMapping["random_search"](pipeline_space=SearchSpace(**space()))},
    }[name]()


DEFS = ["rs", "rs opt", "rs file", "rs dict", "hb", "hb eta", "hb eta file", "default", "class", "class opt", "instance",
        "rs instance", "custom"]
ALG = {"rs": "random_search", "hb": "hyperband", "default": "hyperband", "class": "Mine", "instance": "Mine",
       "custom": "random_search"}


def algorithm(d):
    return ALG[d.split()[0]]


OPT = {"rs opt": "o", "hb eta": 2, "hb eta file": 2, "class opt": 3}


def relation(a, b):
    """Are the two the same definition? None: the same algorithm with the same options, written down in another way."""
    if a == b or {a, b} == {"rs", "rs file"}:
        return True
    if algorithm(a) != algorithm(b) or OPT.get(a) != OPT.get(b):
        return False
    return None


# ------------------------------------------------------------------------------------------------ observing
def snapshot(root):
    out = {}
    for d, _, files in os.walk(root):
        out[os.path.relpath(d, root)] = None
        for f in files:
            if f.endswith("lock"):
                continue
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[os.path.relpath(p, root)] = fh.read()
    return out


def trials_of(root):
    from neps.state.filebased import load_filebased_neps_state

    st = load_filebased_neps_state(Path(root))
    out = {}
    for tid, t in st.get_all_trials().items():
        r = t.report
        out[tid] = (dict(t.config), t.state.value, None if r is None else (r.loss, r.cost, r.reported_as))
    return out


class Runner:
    def __init__(self, base):
        self.base, self.calls = base, []

    def run(self, root, d, n, overwrite=False, outcome="ok", **kw):
        """n more evaluations; returns the exception"""
        import neps

        here = []

        def f(x, e, pipeline_directory):
            here.append(str(pipeline_directory))
            self.calls.append(x)
            if outcome == "fail":
                raise UserError("failed")
            return {"loss": x, "cost": 1.0}

        if overwrite is not None:
            kw["overwrite_working_directory"] = overwrite
        kw = {**kw, **definition(d, self.base)}
        err = None
        try:
            neps.run(run_pipeline=f, pipeline_space=space(), root_directory=root, max_evaluations_total=99,
                     max_evaluations_per_run=n, post_run_summary=False, **kw)
        except Exception as e:  # noqa: BLE001
            err = e
        return here, err


def new_base():
    base = os.path.abspath(fresh_dir("base"))
    os.makedirs(os.path.join(base, "neighbour"))
    with open(os.path.join(base, "neighbour", "results.txt"), "w") as f:
        f.write("precious")
    return base


# ------------------------------------------------------------------------------------------------ sequences
def seq_cases(quick):
    yield from ([(d, o, w)] for d in DEFS for o in ("ok", "fail") for w in (False, True, None))
    for a in DEFS:
        for b in DEFS:
            for w in (False, True):
                for o in ("ok", "fail"):
                    yield [(a, o, False), (b, "ok", w)]
    small = ["rs", "hb", "class"] if quick else ["rs", "rs opt", "hb", "default", "class"]
    steps = [(d, "ok", w) for d in small for w in (False, True)] + [("rs", "fail", False), ("rs", "none", False)]
    for s in itertools.product(steps, repeat=3):
        yield list(s)
    if not quick:
        steps = [(d, "ok", w) for d in ("rs", "hb") for w in (False, True)] + [("rs", "fail", False)]
        for s in itertools.product(steps, repeat=4):
            yield list(s)


STATES = ["fresh", "empty", "files"]


def seq_case(case):
    steps, state = case
    base = new_base()
    root = os.path.join(base, "res")
    if state != "fresh":
        os.makedirs(root)
    if state == "files":
        os.makedirs(os.path.join(root, "plots"))
        for p in ("notes.txt", "plots/a.txt"):
            with open(os.path.join(root, p), "w") as f:
                f.write("mine")
    r = Runner(base)
    cur, known, failed = None, {}, False
    before = snapshot(root)
    near = snapshot(os.path.join(base, "neighbour"))
    for i, (d, outcome, over) in enumerate(steps):
        over = bool(over) if over is not None else None
        evals, err = r.run(root, d, 0 if outcome == "none" else 1, over, outcome)
        after = snapshot(root)
        what = f"run {i + 1} of {steps} ({state})"
        require(snapshot(os.path.join(base, "neighbour")) == near, lambda: f"{what} changes another directory")
        rel = True if cur is None or over else relation(cur, d)
        refused = err is not None and not evals and type(err).__name__ not in ("WorkerRaiseError",)
        if rel is False or rel is None and refused:
            require(refused, lambda: f"{what}: not refused although the directory belongs to {cur}: {evals} {err!r}")
            require(after == before, lambda: f"{what}: refused, but changes {changed(before, after)}")
            continue
        require(not refused, lambda: f"{what}: refused with {err!r}")
        if over or cur is None:
            cur = d
        T = trials_of(root)
        if over:
            known, failed = {}, False
            require("notes.txt" not in after, lambda: f"{what}: overwriting keeps old files")
        else:
            for p, c in before.items():
                if p.startswith(("notes", "plots")):
                    require(after.get(p) == c, lambda: f"{what}: changes the file {p}")
            for t, v in known.items():
                require(T.get(t) == v, lambda: f"{what}: trial {t} was {v} and is {T.get(t)}")
        n = 0 if outcome == "none" else 1
        if failed:  # an earlier error of the run is raised again by every later worker
            n = 0
        new = {t: v for t, v in T.items() if t not in known}
        require(len(evals) == n and len(new) == n, lambda: f"{what}: {len(evals)} evaluations, new trials {new}")
        for t, (c, s, rep) in new.items():
            require(c["x"] == r.calls[-1], lambda: f"{what}: trial {t} is {c}")
            want = ("crashed", (None, None, "crashed")) if outcome == "fail" else ("success", (c["x"], 1.0, "success"))
            require((s, rep) == want, lambda: f"{what}: trial {t} is {s} with {rep}")
        failed = failed or outcome == "fail" and n > 0
        if failed:  # with nothing to do the worker stops before it looks at the errors
            require(err is not None or outcome == "none", lambda: f"{what}: an evaluation failed and nothing is raised")
        else:
            require(err is None, lambda: f"{what}: {err!r}")
        known, before = T, after
    return {"stats": {"runs": len(steps)}}


def changed(a, b):
    return sorted(k for k in a.keys() | b.keys() if a.get(k, 0) != b.get(k, 0))


def all_seq(quick):
    for s in seq_cases(quick):
        for state in STATES if len(s) < 3 else STATES[:1]:
            yield (s, state)


# ------------------------------------------------------------------------------------------------ tasks and stages
def task_cases(quick):
    places = [(None, None), ("a", None), ("b", None), ("a", "x"), ("a", "y"), (None, "x"), (0, 0)]
    for p, q in itertools.product(places, repeat=2):
        for over in (False, True):
            for d in ("rs", "hb"):
                yield (p, q, over, d)


def place(root, p):
    if p[0] is not None:
        root = os.path.join(root, f"task_{p[0]}")
    if p[1] is not None:
        root = os.path.join(root, f"dev_{p[1]}")
    return root


def ids(p):
    return {k: v for k, v in (("task_id", p[0]), ("development_stage_id", p[1])) if v is not None}


def task_case(case):
    p, q, over, d = case
    base = new_base()
    root = os.path.join(base, "res")
    r = Runner(base)
    r.run(root, "rs", 2, **ids(p))
    mine, other = place(root, p), place(root, q)
    first = trials_of(mine)
    require(len(first) == 2, lambda: f"trials {first} in {mine}")
    snap = snapshot(mine)
    evals, err = r.run(root, d, 1, over, **ids(q))
    if p == q and d != "rs" and not over:
        require(err is not None and not evals, "not refused")
        require(snapshot(mine) == snap, "refused, but changes the directory")
        return
    require(err is None and len(evals) == 1, lambda: f"{len(evals)} evaluations: {err!r}")
    require(evals[0].startswith(os.path.join(other, "configs")), lambda: f"evaluates in {evals[0]}, not in {other}")
    inside = p != q and (mine + os.sep).startswith(other + os.sep)
    if p == q:
        T = trials_of(mine)
        require(len(T) == (1 if over else 3), lambda: f"trials {T}")
        require(over or all(T[t] == v for t, v in first.items()), "earlier trials changed")
    elif not (over and inside):  # overwriting a directory removes what is below it
        now = snapshot(mine)
        gone = [k for k in snap if now.get(k, 0) != snap[k]]
        require(not gone, lambda: f"a run in {other} changes {gone} of {mine}")
        require(trials_of(mine) == first, lambda: f"a run in {other} changes the trials of {mine}")


# ------------------------------------------------------------------------------------------------ values of options
def some_function():
    return 1


VALUES = {
    "int": 3, "zero": 0, "negative": -4, "float": 0.1, "tiny": 1e-7, "big": 1e22, "third": 1 / 3, "inf": float("inf"), "true": True,
    "false": False, "none": None, "text": "abc", "empty": "", "number text": "1e5", "int text": "12", "null text": "null",
    "yes text": "yes", "date text": "2020-01-01", "colon text": "a: b # c", "quote": "it's \"x\"", "lines": "a\nb", "unicode": "größe",
    "list": [1, 2.5, "a", None], "dict": {"a": 1, "b": {"c": [1e-3, True]}}, "empty list": [], "empty dict": {},
    "function": some_function, "class": UserError,
}


def value_cases(quick):
    for k in VALUES:
        for how in ("name", "class", "yaml", "file"):
            for other in [v for v in VALUES if v != k][:: 5 if quick else 1]:
                yield (k, how, other)


def value_case(case):
    import neps
    import yaml
    from neps.optimizers import SearcherMapping

    k, how, other = case
    base = new_base()
    root = os.path.join(base, "res")
    calls = []

    def go(v):
        kw = {}
        if how == "name":
            kw = {"searcher": "rs_any", "option": v}
        elif how == "class":
            kw = {"searcher": make_class(), "option": v}
        if how == "yaml":
            p = os.path.join(base, "mine.yaml")
            with open(p, "w") as f:
                f.write(yaml.safe_dump({"strategy": "rs_any", "option": v}, allow_unicode=True))
            kw = {"searcher": p}
        elif how == "file":
            p = os.path.join(base, "args.yaml")
            with open(p, "w") as f:
                f.write(yaml.safe_dump({"searcher": {"strategy": "random_search", "option": v}}, allow_unicode=True))
            kw = {"run_args": p}
        elif how == "name":
            p = os.path.join(base, "rs_any.yaml")
            with open(p, "w") as f:
                f.write("strategy: rs_any\n")
            kw = {"searcher": p, "option": v}
        neps.run(run_pipeline=lambda **c: calls.append(c) or 1.0, pipeline_space=space(), root_directory=root,
                 max_evaluations_total=99, max_evaluations_per_run=1, post_run_summary=False, **kw)

    old = dict(SearcherMapping)
    rs = old["random_search"]

    class rs_any(rs):  # noqa: N801
        def __init__(self, pipeline_space, option=None, **kw):
            super().__init__(pipeline_space=pipeline_space, **kw)

    SearcherMapping["rs_any"] = SearcherMapping["random_search"] = rs_any
    try:
        if callable(VALUES[k]) and how in ("yaml", "file", "class"):
            return None
        go(VALUES[k])
        first = trials_of(root)
        require(len(calls) == 1, lambda: f"{len(calls)} evaluations")
        go(VALUES[k])
        T = trials_of(root)
        require(len(calls) == 2 and len(T) == 2 and all(T[t] == v for t, v in first.items()),
                lambda: f"continued with the same definition: {T}, before {first}")
        if callable(VALUES[other]):
            return None
        snap = snapshot(root)
        err = None
        try:
            go(VALUES[other])
        except Exception as e:  # noqa: BLE001
            err = e
        require(err is not None and len(calls) == 2,
                lambda: f"option {VALUES[k]!r} became {VALUES[other]!r} and the run is continued")
        require(snapshot(root) == snap, lambda: f"refused, but changes {changed(snap, snapshot(root))}")
    finally:
        SearcherMapping.clear()
        SearcherMapping.update(old)


# ------------------------------------------------------------------------------------------------ concurrent starts
class MixedStart(RunScenario):
    """Workers start on the same fresh directory with different definitions: one of them gets it."""

    tags = ("C22",)

    def __init__(self, name, searchers, trials=None, total=2):
        super().__init__(name, nworkers=len(searchers), trials=trials, total=total, symmetric=False)
        self.searchers = searchers

    def worker(self, ctx):
        kw = {"searcher": "random_search"}
        if self.searchers[ctx.idx] == "priors":
            kw["use_priors"] = True
        call_run(ctx, ctx.root, self.behave, max_evaluations_total=self.total, **kw)

    def check(self, ex):
        v = []
        ran = set()
        ok = [w for w in ex.workers if w.result is not None and w.result["status"] == "ok"]
        for w in ex.workers:
            evals = [e for e in ex.events if e[0] == w.idx and e[1] == "eval"]
            if w in ok:
                ran.add(self.searchers[w.idx])
            elif evals:
                v.append(f"C22: worker {w.idx} evaluates and then fails: {json.dumps(w.result)[:500]}")
            elif w.result is None or w.result["chain"][0][0] != "NePSError":
                v.append(f"C22: worker {w.idx} is not refused with an explanation: {json.dumps(w.result)[:700]}")
        if len(ran) != 1:
            v.append(f"C22: workers with {sorted(ran) or 'no'} definitions use the directory")
        elif any(w not in ok and self.searchers[w.idx] in ran for w in ex.workers):
            v.append("C22: a worker with the same definition is refused")
        s, err = see(ex.root)
        if err:
            v.append("C22: " + err)
        elif self.trials:
            for i, t in enumerate(self.trials):
                x = s["trials"].get(str(i + 1))
                if x is None or t == "s" and (x["state"] != "success" or x["report"]["loss"] != loss_of(str(i + 1))):
                    v.append(f"C22: earlier trial {i + 1} is {x}")
        return v


class OverwriteCrash(CrashScenario):
    """A run which overwrites the directory is killed; started again, it starts from scratch."""

    def check(self, ex):
        w = ex.workers[0]
        if not w.killed:
            return [] if w.result and w.result["status"] == "ok" else [f"C22: undisturbed run: {w.result}"]
        what = f"killed {ex.crash[2]} {ex.crash_op}"
        r = core._forked(self.rerun, ex.root)
        if not r["ok"]:
            return [f"C22: {what}: restart failed: {r['err']}"]
        rec = r["value"]
        if rec["result"] != "ok":
            return [f"C22: {what}: the restarted run fails: {rec['result']}"]
        s, err = see(ex.root)
        if err:
            return [f"C22: {what}: {err}"]
        v = []
        done = {json.loads(d)[0]: json.loads(d)[1] for _, t, d in rec["events"] if t == "eval"}
        if {t: x["config"].get("x") for t, x in s["trials"].items()} != done or len(done) != self.total:
            v.append(f"C22: {what}: overwritten, but the trials are {sorted(s['trials'])}, evaluated {sorted(done)}")
        elif s["errors"] or s["cost"] != sum(x["report"]["cost"] for x in s["trials"].values()):
            v.append(f"C22: {what}: overwritten, but cost {s['cost']} and errors {s['errors']} are left")
        return v


def run(ck):
    ck.rule = RULE
    ck.level = "model_checking"
    q = ck.quick
    ck.enumerate("sequences", all_seq(q), seq_case)
    ck.enumerate("tasks", task_cases(q), task_case)
    ck.enumerate("values", value_cases(q), value_case)
    b = 1 if q else 2
    explore(ck, [(MixedStart("different", ("rs", "priors")), b), (MixedStart("two_same", ("rs", "rs", "priors")), 1 if not q else 0),
                 (MixedStart("existing", ("priors", "rs"), trials="sp"), b)], ("C22",), 400 if q else 2500)
    explore_crashes(ck, [(OverwriteCrash("overwrite", trials="sfp", total=2, overwrite_working_directory=True), 0, {}),
                         (OverwriteCrash("overwrite_other", trials="se", total=1, overwrite_working_directory=True,
                                         searcher="bayesian_optimization"), 0, {})], ("C22",), 800 if q else 3400)
