import functools
import itertools
import json
import os
from pathlib import Path

from lib.harness import Violation, fresh_dir, require
from lib.runs import RunScenario, UserError, call_run, explore

RULE = ("every lineage (each trial continues any earlier trial or none) up to the bound x names x root spellings x failures x "
        "restarts, several runs in one process, every signature of the evaluation, every promotion of the real searchers; "
        "every schedule of workers with at most B pre-emptions; distinct = case or schedule")

# how the ids of trials look: plain numbers, or a configuration and a level as the multi-fidelity searchers name them
NAMES = {"plain": lambda i: str(i + 1), "level": lambda i: f"{i // 2}_{i % 2}", "long": lambda i: f"a_b_{i}_c"}


def scripted(parents, names="plain", extra=None):
    """A searcher which suggests trials with the given predecessors (index of an earlier trial or None)."""
    import neps
    from neps.optimizers.base_optimizer import BaseOptimizer, SampledConfig
    from neps.search_spaces import SearchSpace

    name = NAMES[names]

    class Scripted(BaseOptimizer):
        def ask(self, trials, budget_info):
            i = len(trials)
            p = parents[i]
            return SampledConfig(id=name(i), config={"x": i / 16, **(extra or {})},
                                 previous_config_id=None if p is None else name(p))

    return Scripted(pipeline_space=SearchSpace(x=neps.Float(0, 1)))


def first(parents, i):
    while parents[i] is not None:
        i = parents[i]
    return i


def forests(n):
    return itertools.product(*[[None, *range(i)] for i in range(n)])


class Probe:
    """The evaluation: looks at everything it gets and remembers what is wrong."""

    def __init__(self, root, parents, names="plain", outcomes="", label="", chdir=None, ask=()):
        self.root, self.parents, self.name = Path(root), parents, NAMES[names]
        self.outcomes, self.label, self.chdir, self.ask = outcomes, label, chdir, ask
        self.seen, self.wrong = [], []

    def dir(self, i):
        return self.root / "configs" / f"config_{self.name(i)}"

    def bad(self, cond, msg):
        if not cond:
            self.wrong.append(msg)

    def __call__(self, x, pipeline_directory, previous_pipeline_directory):
        import torch

        from neps.utils.common import (
            get_initial_directory,
            load_checkpoint,
            load_lightning_checkpoint,
            save_checkpoint,
        )

        i = round(x * 16)
        p = self.parents[i]
        self.seen.append(i)
        bad = self.bad
        me, prev = self.dir(i), None if p is None else self.dir(p)
        bad(same_dir(pipeline_directory, me), f"trial {i} got the directory {pipeline_directory}, not {me}")
        bad(isinstance(pipeline_directory, Path), f"pipeline_directory is a {type(pipeline_directory)}")
        bad(prev is None if previous_pipeline_directory is None else prev is not None and
            same_dir(previous_pipeline_directory, prev),
            f"trial {i} got the previous directory {previous_pipeline_directory}, not {prev}")
        bad(Path(pipeline_directory).is_dir(), f"directory of trial {i} does not exist")
        if self.chdir:
            os.chdir(self.chdir)
        # nothing of anybody is in the own directory
        bad(not list(Path(pipeline_directory).glob("*.pth")), f"checkpoints in the directory of trial {i} before it starts")
        # the lineage, also of others and in any order
        for a in self.ask:
            if a == "own":
                d, want = get_initial_directory(), first(self.parents, i)
            elif a == "path":
                d, want = get_initial_directory(pipeline_directory), first(self.parents, i)
            elif a == "str":
                d, want = get_initial_directory(str(pipeline_directory)), first(self.parents, i)
            elif a <= i:
                d, want = get_initial_directory(self.dir(a)), first(self.parents, a)
            else:
                continue
            bad(isinstance(d, Path) and same_dir(d, self.dir(want)),
                f"initial directory asked for as {a} in trial {i} is {d}, not {self.dir(want)}")
        done = p is not None and self.finished(p)
        for got in (load_checkpoint(), load_checkpoint(directory=previous_pipeline_directory)):
            want = f"{self.label}{p}" if done else None
            bad((got or {}).get("who") == want and (got is None) == (want is None),
                f"trial {i} loads the checkpoint {got}, not the one of {p}")
        bad(load_checkpoint(checkpoint_name="other") is None, f"trial {i} loads a checkpoint nobody saved")
        if p is None:
            r = load_lightning_checkpoint(checkpoint_dir=self.dir(0) / "ckpt")
            bad(r == (None, None), f"trial {i} has no predecessor and loads {r}")
        elif done:
            r = load_lightning_checkpoint(checkpoint_dir=prev / "ckpt",
                                          previous_pipeline_directory=previous_pipeline_directory)
            bad(same_dir(r[0], prev / "ckpt" / "m.ckpt") and r[1] == {"who": f"{self.label}{p}"},
                f"trial {i} loads the lightning checkpoint {r}")
        if self.outcome(i) == "x":
            raise UserError("fails before saving")
        if i % 2:
            save_checkpoint(values_to_save={"who": f"{self.label}{i}"})
        else:
            save_checkpoint(directory=pipeline_directory, values_to_save={"who": f"{self.label}{i}"})
        (Path(pipeline_directory) / "ckpt").mkdir()
        torch.save({"who": f"{self.label}{i}"}, Path(pipeline_directory) / "ckpt" / "m.ckpt")
        bad((self.dir(i) / "checkpoint.pth").exists(), f"the checkpoint of trial {i} is not in its directory")
        if self.outcome(i) == "f":
            raise UserError("fails after saving")
        return 0.5

    def outcome(self, i):
        return self.outcomes[i] if i < len(self.outcomes) else "o"

    def finished(self, i):
        return self.outcome(i) != "x"

    def verdict(self, n):
        require(not self.wrong, lambda: "; ".join(self.wrong[:3]) + f" (continues: {self.parents})")
        require(self.seen == list(range(n)), lambda: f"evaluated {self.seen}, {n} were asked for")


def same_dir(a, b):
    return a is not None and os.path.abspath(a) == os.path.abspath(b)


def evaluate(root_arg, parents, f, total, names="plain", per=None, extra=None):
    import neps

    neps.run(run_pipeline=f, root_directory=root_arg, max_evaluations_total=total, searcher=scripted(parents, names, extra),
             ignore_errors=True, post_run_summary=False, **({} if per is None else {"max_evaluations_per_run": per}))


def outside():
    """There is no trial of "this process" outside of an evaluation."""
    from neps.utils.common import load_checkpoint, save_checkpoint

    for f in (load_checkpoint, save_checkpoint):
        try:
            f()
        except Exception:  # noqa: BLE001
            continue
        raise Violation(f"{f.__name__}() outside of an evaluation uses the directories of some trial")


# ------------------------------------------------------------------------------------------------ lineages
def lineage_cases(quick):
    n = 5 if quick else 6
    asks = [("own",), ("path",), (0, 1, 2, 3, "own"), ("own", 3, 2, 1, 0), ("str", "own", 0)]
    for m in range(1, n + 1):
        for k, parents in enumerate(forests(m)):
            for j, names in enumerate(NAMES):
                yield (parents, names, "", asks[(k + j) % len(asks)], None if (k + j) % 2 else 2)
    for parents in forests(4):
        for k, o in enumerate(itertools.product("ofx", repeat=3)):
            yield (parents, "level", "".join(o), asks[k % len(asks)], 1 if k % 2 else None)


def lineage_case(case):
    parents, names, outcomes, ask, per = case
    root = os.path.abspath(fresh_dir())
    n = len(parents)
    f = Probe(root, parents, names, outcomes, ask=ask)
    for _ in range(1 if per is None else -(-n // per)):
        evaluate(root, parents, f, n, names, per)
        outside()
    f.verdict(n)
    return {"stats": {"evaluations": n}}


# ------------------------------------------------------------------------------------------------ spelling of the root
def root_cases(quick):
    for parents in ((None,), (None, 0), (None, 0, 1), (None, None, 0, 1), (None, 0, 0)):
        for how in ("abs", "rel", "dot", "up", "link", "path", "slash", "space", "uscore", "deep", "config_name"):
            for move in (False, True):
                for per in (None, 1):
                    yield (parents, how, move, per)


def root_case(case):
    parents, how, move, per = case
    base = Path(os.path.abspath(fresh_dir("base")))
    (base / "cwd" / "sub").mkdir(parents=True)
    (base / "other").mkdir()
    os.chdir(base / "cwd")
    real = {"link": base / "other" / "target", "space": base / "cwd" / "with space", "uscore": base / "cwd" / "config_7_res",
            "deep": base / "cwd" / "a" / "b" / "c", "config_name": base / "cwd" / "config_x" / "configs",
            "up": base / "other" / "r"}.get(how, base / "cwd" / "res")
    arg = {"abs": str(real), "rel": "res", "dot": "./sub/../res", "up": "../other/r", "path": Path("res"), "slash": "res/",
           "space": "with space", "uscore": "config_7_res", "deep": "a/b/c", "config_name": Path("config_x/configs"),
           "link": "ln"}[how]
    if how == "link":
        real.mkdir()
        os.symlink(real, base / "cwd" / "ln")
    n = len(parents)
    f = Probe(real, parents, "level", ask=("own", "path", 0), chdir=base / "other" if move else None)
    try:
        for _ in range(1 if per is None else n):
            evaluate(arg, parents, f, n, "level", per)
            os.chdir(base / "cwd")
        if how == "link":
            f.dir = lambda i: real / "configs" / f"config_{f.name(i)}"
        f.verdict(n)
    finally:
        os.chdir(os.path.dirname(base))


# ------------------------------------------------------------------------------------------------ several runs in one process
def multi_cases(quick):
    f3 = list(forests(3))
    for a, b in itertools.product(f3, repeat=2):
        for order in ("ab", "aba", "abab") if quick else ("ab", "aba", "abab", "abba", "aabb"):
            yield (a, b, order)


def multi_case(case):
    a, b, order = case
    base = os.path.abspath(fresh_dir("multi"))
    asks = ("own", 0, 1, 2, "path")
    probes = {k: Probe(os.path.join(base, k), p, label=k, ask=asks) for k, p in (("a", a), ("b", b))}
    left = {k: order.count(k) for k in "ab"}
    for k in order:
        f = probes[k]
        left[k] -= 1
        per = None if left[k] == 0 else 1
        evaluate(os.path.join(base, k), f.parents, f, 3, per=per)
        outside()
    for f in probes.values():
        f.verdict(3)


# ------------------------------------------------------------------------------------------------ signatures
def signatures(rec):
    """name -> (function, directories it must get)"""
    def none(x, n):
        return rec(dict(x=x, n=n))

    def own(pipeline_directory, x, n):
        return rec(dict(x=x, n=n), pipeline_directory)

    def prev(x, n, previous_pipeline_directory):
        return rec(dict(x=x, n=n), prev=previous_pipeline_directory)

    def both(previous_pipeline_directory, n, pipeline_directory, x):
        return rec(dict(x=x, n=n), pipeline_directory, previous_pipeline_directory)

    def kwonly(*, x, n, pipeline_directory, previous_pipeline_directory):
        return rec(dict(x=x, n=n), pipeline_directory, previous_pipeline_directory)

    def defaults(x, n, pipeline_directory=None, previous_pipeline_directory="nothing"):
        return rec(dict(x=x, n=n), pipeline_directory, previous_pipeline_directory)

    def rest(pipeline_directory, previous_pipeline_directory, **config):
        return rec(config, pipeline_directory, previous_pipeline_directory)

    def rest_own(pipeline_directory, **config):
        config.pop("previous_pipeline_directory", None)  # may come as one of the others, but need not
        return rec(config, pipeline_directory)

    def only_rest(**config):
        config.pop("previous_pipeline_directory", None)
        config.pop("pipeline_directory", None)
        return rec(config)

    class Method:
        def go(self, x, n, pipeline_directory, previous_pipeline_directory):
            return rec(dict(x=x, n=n), pipeline_directory, previous_pipeline_directory)

        def __call__(self, x, n, previous_pipeline_directory, pipeline_directory):
            return rec(dict(x=x, n=n), pipeline_directory, previous_pipeline_directory)

        @staticmethod
        def st(pipeline_directory, x, n):
            return rec(dict(x=x, n=n), pipeline_directory)

    def more(extra, pipeline_directory, previous_pipeline_directory, x, n):
        assert extra == 7
        return rec(dict(x=x, n=n), pipeline_directory, previous_pipeline_directory)

    @functools.wraps(both)
    def wrapped(*a, **kw):
        return both(*a, **kw)

    m = Method()
    return {
        "none": (none, ""), "own": (own, "o"), "prev": (prev, "p"), "both": (both, "op"), "kwonly": (kwonly, "op"),
        "defaults": (defaults, "op"), "rest": (rest, "op"), "rest_own": (rest_own, "o"), "only_rest": (only_rest, ""),
        "method": (m.go, "op"), "callable": (m, "op"), "static": (Method.st, "o"),
        "partial": (functools.partial(more, extra=7), "op"), "partial_pos": (functools.partial(more, 7), "op"),
        "wrapped": (wrapped, "op"),
        "lambda": (lambda x, n, pipeline_directory, previous_pipeline_directory: rec(
            dict(x=x, n=n), pipeline_directory, previous_pipeline_directory), "op"),
    }


def signature_cases(quick):
    for s in signatures(None):
        for parents in forests(4):
            yield (s, parents)


def signature_case(case):
    s, parents = case
    root = os.path.abspath(fresh_dir())
    seen = []

    def rec(config, own="-", prev="-"):
        seen.append((config, own, prev))
        return 1.0

    fn, gets = signatures(rec)[s]
    evaluate(root, parents, fn, 4, extra={"n": 3})
    require(len(seen) == 4, lambda: f"{len(seen)} evaluations of 4: the others failed")
    d = [os.path.join(root, "configs", f"config_{i + 1}") for i in range(4)]
    for i, (c, own, prev) in enumerate(seen):
        require(c == {"x": i / 16, "n": 3}, lambda: f"evaluated with {c}")
        if "o" in gets:
            require(same_dir(own, d[i]), lambda: f"pipeline_directory is {own}")
        if "p" in gets:
            p = parents[i]
            require(prev is None if p is None else same_dir(prev, d[p]),
                    lambda: f"previous_pipeline_directory of trial {i} (continues {p}) is {prev}")


# ------------------------------------------------------------------------------------------------ what checkpoints hold
def content_cases(quick):
    for values, model, opt in itertools.product((False, True), repeat=3):
        for name in (None, "best", "best.pth", "weights"):
            for where in itertools.product(("implicit", "path", "str"), repeat=2):
                yield (values, model, opt, name, where)


def content_case(case):
    import torch

    from neps.utils.common import load_checkpoint, save_checkpoint

    values, model, opt, name, (ws, wl) = case
    root = os.path.abspath(fresh_dir())
    parents = (None, 0, 0, 1)
    wrong = []
    kw = {} if name is None else {"checkpoint_name": name}
    state = {}

    def place(how, d):
        return {} if how == "implicit" or d is None else {"directory": d if how == "path" else str(d)}

    def f(x, pipeline_directory, previous_pipeline_directory):
        i = round(x * 16)
        torch.manual_seed(100 + i)
        net = torch.nn.Linear(2, 2)
        o = torch.optim.Adam(net.parameters(), lr=0.1 * (i + 1))
        c = load_checkpoint(**place(wl, previous_pipeline_directory), **kw, **({"model": net} if model else {}),
                            **({"optimizer": o} if opt else {}))
        p = parents[i]
        if p is None:
            if c is not None:
                wrong.append(f"trial {i} loads {c}")
        else:
            want = state[p]
            if c is None or (values and (c.get("epoch"), c.get("note")) != (p, "n")):
                wrong.append(f"trial {i} loads {c}")
            if model and not torch.equal(net.weight.detach(), want[0]):
                wrong.append(f"trial {i} does not continue with the weights of trial {p}")
            if opt and o.param_groups[0]["lr"] != want[1]:
                wrong.append(f"trial {i} does not continue with the optimizer of trial {p}")
        with torch.no_grad():
            net.weight += i + 1
        o.param_groups[0]["lr"] = 0.5 ** (i + 1)
        state[i] = (net.weight.detach().clone(), 0.5 ** (i + 1))
        save_checkpoint(**place(ws, pipeline_directory), **kw, **({"values_to_save": {"epoch": i, "note": "n"}} if values else {}),
                        **({"model": net} if model else {}), **({"optimizer": o} if opt else {}))
        files = sorted(str(q.relative_to(root)) for q in Path(root).rglob("*.pth"))
        if len(files) != i + 1:
            wrong.append(f"after {i + 1} evaluations there are the checkpoints {files}")
        return 1.0

    evaluate(root, parents, f, 4)
    require(not wrong, lambda: "; ".join(wrong[:3]))
    require(len(state) == 4, lambda: f"{len(state)} evaluations of 4 finished")


# ------------------------------------------------------------------------------------------------ real searchers
SEARCHERS = ("successive_halving", "hyperband", "asha", "successive_halving_prior", "asha_prior", "priorband",
             "*hyperband_custom_default", "*priorband_asha", "*priorband_asha_hyperband")


def searcher_cases(quick):
    for s in SEARCHERS:
        for order in ("up", "down", "mixed"):
            for fails in ("", "1", "3", "15"):
                for per in (None, 1) if quick else (None, 1, 3):
                    yield (s, order, fails, per)


def real_space(s):
    import neps

    prior = {"default": 0.4, "default_confidence": "medium"} if "prior" in s or "custom" in s else {}
    return {"x": neps.Float(0, 1, **prior), "e": neps.Integer(1, 9, is_fidelity=True)}


def searcher_case(case):
    import neps
    from neps.utils.common import get_initial_directory, load_checkpoint, save_checkpoint

    s, order, fails, per = case
    n = 14
    root = os.path.abspath(fresh_dir())
    log, wrong = [], []

    def f(pipeline_directory, previous_pipeline_directory, x, e):
        i = len(log)
        before = [r for r in log if r["x"] == x]
        # the configuration was trained up to some epoch by the last trial with the same values
        want = max(before, key=lambda r: r["e"]) if before else None
        if (previous_pipeline_directory is None) != (want is None) or want is not None and not same_dir(
                previous_pipeline_directory, want["dir"]):
            wrong.append(f"evaluation {i} of x={x} at {e} continues {previous_pipeline_directory}, earlier trials of the "
                         f"configuration: {[(r['e'], r['dir']) for r in before]}")
        if want is not None and want["e"] >= e:
            wrong.append(f"evaluation {i} of x={x} at {e} continues one at {want['e']}")
        if any(same_dir(r["dir"], pipeline_directory) for r in log):
            wrong.append(f"evaluation {i} gets the directory {pipeline_directory} of an earlier one")
        c = load_checkpoint()
        steps = [] if want is None else want["steps"]
        if (c or {}).get("steps", []) != steps or (c is None) != (want is None):
            wrong.append(f"evaluation {i} of x={x} at {e} loads {c}, trained before: {steps}")
        r = {"x": x, "e": e, "dir": str(pipeline_directory), "steps": [*steps, float(e)]}
        top = get_initial_directory(pipeline_directory)
        if not same_dir(top, before[0]["dir"] if before else pipeline_directory) or not same_dir(get_initial_directory(), top):
            wrong.append(f"initial directory of evaluation {i} is {top}")
        log.append(r)
        save_checkpoint(values_to_save={"steps": r["steps"]})
        if str(i) in fails:
            raise UserError("failed")
        return {"loss": {"up": x, "down": -x, "mixed": (x * 37) % 1.0}[order] - e / 100, "cost": 1.0}

    for _ in range(1 if per is None else -(-n // per)):
        if s[0] == "*":
            from neps.optimizers import SearcherMapping
            from neps.search_spaces import SearchSpace

            who = SearcherMapping[s[1:]](pipeline_space=SearchSpace(**real_space(s)), ignore_errors=True, budget=99)
        else:
            who = s
        neps.run(run_pipeline=f, pipeline_space=real_space(s), root_directory=root, max_evaluations_total=n, searcher=who,
                 ignore_errors=True, post_run_summary=False, **({} if per is None else {"max_evaluations_per_run": per}))
    require(not wrong, lambda: "; ".join(wrong[:3]))
    require(len(log) == n, lambda: f"{len(log)} evaluations of {n}")
    continued = sum(len(r["steps"]) > 1 for r in log)
    return {"stats": {"evaluations": n, "continued": continued}}


# ------------------------------------------------------------------------------------------------ concurrent workers
class LineageScenario(RunScenario):
    tags = ("C20", "C03")

    def __init__(self, name, parents, done, total, **kw):
        super().__init__(name, trials=None, total=total, **kw)
        self.parents, self.ndone = parents, done

    def template(self, root):
        import neps

        f = Probe(root, self.parents, ask=())
        neps.run(run_pipeline=f, root_directory=root, max_evaluations_total=99, max_evaluations_per_run=self.ndone,
                 searcher=scripted(self.parents), ignore_errors=True, post_run_summary=False)
        if f.wrong:
            raise RuntimeError(f.wrong[0])

    def worker(self, ctx):
        import neps
        from neps.utils.common import get_initial_directory, load_checkpoint, save_checkpoint

        def fn(pipeline_directory, previous_pipeline_directory, x):
            i = round(x * 16)
            ctx.point("start", str(i))
            c = load_checkpoint()
            ctx.log("eval", json.dumps([i, str(pipeline_directory), str(previous_pipeline_directory or ""),
                                        None if c is None else c["who"], str(get_initial_directory())]))
            save_checkpoint(values_to_save={"who": str(i)})
            return 0.5

        neps.run(run_pipeline=fn, root_directory=ctx.root, max_evaluations_total=self.total, searcher=scripted(self.parents),
                 post_run_summary=False)

    def check(self, ex):
        v = []
        for w in ex.workers:
            if w.result is None or w.result["status"] != "ok":
                v.append(f"C03: worker {w.idx}: {json.dumps(w.result)[:900]}")
        def d(i):
            return os.path.join(ex.root, "configs", f"config_{i + 1}")

        for w, tag, data in ex.events:
            if tag != "eval":
                continue
            i, own, prev, who, top = json.loads(data)
            p = self.parents[i]
            if not same_dir(own, d(i)):
                v.append(f"C20: worker {w} evaluates trial {i} in {own}")
            if (prev == "") != (p is None) or p is not None and not same_dir(prev, d(p)):
                v.append(f"C20: trial {i} continues {p} but gets {prev!r}")
            if p is not None and p < self.ndone and who != str(p) or p is None and who is not None:
                v.append(f"C20: trial {i} continues {p} but loads the checkpoint of {who}")
            if who is not None and who != str(p):
                v.append(f"C20: trial {i} continues {p} but loads the checkpoint of {who}")
            if not same_dir(top, d(first(self.parents, i))):
                v.append(f"C20: the initial directory of trial {i} is {top}")
        return v


def run(ck):
    ck.rule = RULE
    ck.level = "model_checking"
    q = ck.quick
    ck.enumerate("lineages", lineage_cases(q), lineage_case)
    ck.enumerate("roots", root_cases(q), root_case)
    ck.enumerate("runs", multi_cases(q), multi_case)
    ck.enumerate("signatures", signature_cases(q), signature_case)
    ck.enumerate("contents", content_cases(q), content_case)
    ck.enumerate("searchers", searcher_cases(q), searcher_case)
    if ck.stats.get("continued", 0) == 0 and ck.replay is None and not ck.violations:
        ck.violation("no searcher ever continued a configuration", "searchers:vacuous")
    b = 1 if q else 2
    explore(ck, [(LineageScenario("fork", (None, 0, 0, 1), 1, 4, symmetric=True), b),
                 (LineageScenario("chain", (None, 0, 1, 2), 2, 4, symmetric=True), b)], ("C20",), 400 if q else 3000)
