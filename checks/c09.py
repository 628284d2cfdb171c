import itertools
import json
import os
import random
from pathlib import Path

from fsmc import core
from lib import runs
from lib.harness import Violation, fresh_dir, keyed, require
from lib.runs import RunScenario, explore

RULE = ("every split of a run of N samples into restarts x every pattern of random numbers consumed in between x every "
        "searcher, compared with the unsplit run; every combination of random-generator states for the snapshot; every "
        "schedule of concurrent workers with at most B pre-emptions; distinct = distinct combinations / schedules")

PLAIN = ("random_search", "grid_search", "bayesian_optimization", "pibo")
FIDELITY = ("successive_halving", "successive_halving_prior", "asha", "asha_prior", "hyperband", "priorband", "mobster",
            "hyperband_custom_default", "priorband_asha", "priorband_asha_hyperband")


def noise(kind, step):
    import numpy as np
    import torch

    if kind in ("py", "all"):
        random.random()
        if step % 2:
            random.gauss(0, 1)
    if kind in ("np", "all"):
        np.random.rand()
        if step % 2:
            np.random.randn()
    if kind in ("torch", "all"):
        torch.rand(3)
        torch.randn(1)
    if kind == "reseed":
        random.seed(0)
        np.random.seed(0)
        torch.manual_seed(0)


def seed_all(s):
    import numpy as np
    import torch

    random.seed(s)
    np.random.seed(s)
    torch.manual_seed(s)


def problem(name):
    import neps

    sp = {"x": neps.Float(0.001, 1, log=True, default=0.01), "i": neps.Integer(-3, 40, default=4),
          "c": neps.Categorical(["a", "b", "d"], default="b"), "k": neps.Constant("const")}
    if name in FIDELITY:
        sp["e"] = neps.Integer(1, 9, is_fidelity=True)
    return sp


def one_run(name, root, n, kind, log, opts=(), instance=None):
    import neps
    from neps.optimizers import SearcherMapping
    from neps.search_spaces import SearchSpace

    sp = problem(name)
    searcher = name
    kw = dict(opts)
    if name in ("grid_search", "hyperband_custom_default", "priorband_asha", "priorband_asha_hyperband"):
        searcher = SearcherMapping[name](pipeline_space=SearchSpace(**sp), budget=100, **kw)
        kw = {}
    if instance is not None:
        searcher, kw = instance, {}

    def run_pipeline(pipeline_directory, **cfg):
        tid = os.path.basename(str(pipeline_directory))
        log.append((tid, {k: repr(v) for k, v in sorted(cfg.items())}))
        noise(kind, len(log))
        # deterministic, but not in the order of sampling
        return {"loss": float((7 * len(log)) % 11), "cost": 1.0}

    neps.run(run_pipeline=run_pipeline, pipeline_space=sp, root_directory=root, searcher=searcher,
             max_evaluations_total=99, max_evaluations_per_run=n, post_run_summary=False, **kw)


def variants():
    yield "random_search", ()
    yield "random_search", (("use_priors", True),)
    yield "grid_search", ()
    yield "bayesian_optimization", (("initial_design_size", 1),)
    yield "bayesian_optimization", (("initial_design_size", 3),)
    yield "pibo", (("initial_design_size", 3),)
    for n in FIDELITY:
        yield n, ()
    for n in ("successive_halving", "asha", "hyperband"):
        yield n, (("random_interleave_prob", 0.5),)


def compositions(n):
    for cut in itertools.product((0, 1), repeat=n - 1):
        parts, k = [], 1
        for c in cut:
            if c:
                parts.append(k)
                k = 1
            else:
                k += 1
        parts.append(k)
        yield tuple(parts)


KINDS = ("none", "py", "np", "torch", "all", "reseed")


def split_cases(quick):
    n = 6
    for name, opts in variants():
        slow = name in ("bayesian_optimization", "pibo")
        m = 4 if slow else n
        for parts in compositions(m):
            for kind in KINDS:
                if slow and quick and (kind not in ("none", "all")):
                    continue
                if quick and kind in ("py", "np", "torch") and len(parts) not in (1, m):
                    continue
                for s in (3,) if quick else (3, 4):
                    yield (name, opts, parts, kind, s)


_ref = {}


def reference(name, opts, n, s):
    key = (name, opts, n, s)
    if key not in _ref:
        seed_all(s)
        log = []
        one_run(name, fresh_dir("ref"), n, "none", log, opts)
        _ref[key] = log
    return _ref[key]


def split_case(case):
    name, opts, parts, kind, s = case
    tag = name + "".join(f",{k}={v}" for k, v in opts)
    n = sum(parts)
    ref = keyed(tag, reference, name, opts, n, s)
    seed_all(s)
    log = []
    root = fresh_dir("root")
    for k, p in enumerate(parts):
        if k:
            noise("all", k)
        keyed(tag, one_run, name, root, p, kind, log, opts)
    if log != ref:
        i = next((i for i, (a, b) in enumerate(zip(log, ref)) if a != b), min(len(log), len(ref)))
        if name in ("bayesian_optimization", "pibo") and len(parts) > 1 and kept(case) == ref:
            raise Violation(f"{tag}: evaluation {i} differs when run as {parts}, unless the searcher object survives the "
                            "restart", f"{name}: the initial design is kept in memory only")
        raise Violation(f"{tag}: evaluation {i} is {log[i:i + 1]} when run as {parts} with noise {kind}, {ref[i:i + 1]} "
                        "in one go", f"{tag}: sequence depends on restarts" if len(parts) > 1 else f"{tag}: sequence")
    return {"stats": {"evaluations_run": len(log)}}


def kept(case):
    """The same splits, with the searcher object carried over the restarts."""
    name, opts, parts, kind, s = case
    seed_all(s)
    log, root, obj = [], fresh_dir("root"), make(name, opts)
    for k, p in enumerate(parts):
        if k:
            noise("all", k)
        one_run(name, root, p, kind, log, opts, instance=obj)
    return log


def worker_cases(quick):
    """Which of two workers (each with its own searcher object) asks for the next sample."""
    for name, opts in variants():
        if name in ("bayesian_optimization", "pibo", "grid_search"):
            continue
        for who in itertools.product((0, 1), repeat=5 if quick else 7):
            yield (name, opts, who)


def make(name, opts):
    from neps.optimizers import SearcherMapping
    from neps.search_spaces import SearchSpace

    opts = dict(opts)
    if name == "pibo":
        opts.update(use_priors=True, sample_default_first=True)
    return SearcherMapping[name](pipeline_space=SearchSpace(**problem(name)), budget=100, **opts)


def ask_seq(name, opts, who, kind):
    from neps.state.filebased import create_or_load_filebased_neps_state
    from neps.state.optimizer import OptimizationState, OptimizerInfo

    root = Path(fresh_dir("root"))
    seed_all(11)
    st = [create_or_load_filebased_neps_state(root, optimizer_info=OptimizerInfo({}),
                                              optimizer_state=OptimizationState(budget=None, shared_state={}))
          for _ in range(2)]
    opts_ = [make(name, opts) for _ in range(2)]
    out = []
    for k, w in enumerate(who):
        t = st[w].sample_trial(opts_[w], worker_id=f"w{w}")
        out.append((t.id, {a: repr(b) for a, b in sorted(t.config.items())}))
        noise(kind, k)
        # the older half is finished, the others are pending
        if k % 2 == 0:
            t.set_evaluating(time_started=1.0, worker_id=f"w{w}")
            st[w].put_updated_trial(t)
            rep = t.set_complete(report_as="success", time_end=2.0, loss=float((5 * k) % 7), cost=1.0, learning_curve=None,
                                 err=None, tb=None, extra={}, evaluation_duration=1.0)
            st[w].report_trial_evaluation(t, rep, worker_id=f"w{w}")
    return out


def worker_case(case):
    name, opts, who = case
    tag = name + "".join(f",{k}={v}" for k, v in opts)
    key = ("ask", name, opts, len(who))
    if key not in _ref:
        _ref[key] = keyed(tag, ask_seq, name, opts, (0,) * len(who), "none")
    got = keyed(tag, ask_seq, name, opts, who, "all")
    require(got == _ref[key], lambda: f"{tag}: sampled by workers {who}: {got}, by one worker: {_ref[key]}",
            f"{tag}: sequence depends on the worker")


def snapshot_cases(quick):
    for s in (0, 1, 2 ** 31):
        for a in range(4):  # python: draws, gauss pending or not
            for b in range(4):  # numpy
                for c in range(4):  # torch
                    for d in (0, 1, 623, 624, 625):
                        yield (s, a, b, c, d)


def draw():
    import numpy as np
    import torch

    return [[random.random(), random.gauss(0, 1), random.getrandbits(70)],
            [float(np.random.rand()), float(np.random.randn()), float(np.random.randn()), int(np.random.randint(10**9))],
            [torch.rand(3).tolist(), torch.randn(17).tolist(), torch.randint(10**9, (1,)).item()]]


def snapshot_case(case):
    import numpy as np
    import torch
    from neps.state.filebased import ReaderWriterSeedSnapshot
    from neps.state.seed_snapshot import SeedSnapshot

    s, a, b, c, d = case
    seed_all(s)
    for _ in range(d):
        random.getrandbits(32)
        np.random.randint(2)
    for _ in range(a):
        random.gauss(0, 1)
    for _ in range(b):
        np.random.randn()
    for _ in range(c):
        torch.randn(1)
    snap = SeedSnapshot.new_capture()
    want = draw()
    path = Path(fresh_dir("snap"))
    path.mkdir()
    rw = ReaderWriterSeedSnapshot()
    rw.write(snap, path)
    snap.set_as_global_seed_state()
    got = draw()
    require(got == want, lambda: f"after restoring in memory: {got} instead of {want}")
    seed_all(99)
    draw()
    back = rw.read(path)
    back.set_as_global_seed_state()
    got = draw()
    require(got == want, lambda: f"after storing and reloading: {got} instead of {want}")
    seed_all(5)
    want2 = (SeedSnapshot.new_capture(), draw())[1]
    back.recapture()  # overwrites what the object held
    later = draw()
    seed_all(5)
    draw()
    require(later == draw(), "recapture() changed the random state")
    back.set_as_global_seed_state()
    require(draw() == later, "recapture() did not capture the current state")
    seed_all(5)
    require(draw() == want2, "capturing changed the random state")


class SeededScenario(RunScenario):
    """Two workers; the configuration stored under each id is the one of the sequential run."""

    def __init__(self, name, consume=False, **kw):
        super().__init__(name, **kw)
        self.consume = consume

    def template(self, root):
        seed_all(42)
        runs.prepare_dir(root, self.trials or "")

    def worker(self, ctx):
        seed_all(1000 + ctx.idx)  # what the processes have is irrelevant for an existing directory
        return super().worker(ctx)

    def check(self, ex):
        s, err = runs.see(ex.root)
        if err:
            return ["C09: " + err]
        root2 = os.path.join(os.path.dirname(ex.root), "ref")
        n = len(s["trials"])
        key = (self.name, n)
        if key not in _ref:
            r = core._forked(self.sequential, root2, n)
            if not r["ok"]:
                return [f"C09: sequential run fails: {r['err']}"]
            _ref[key] = r["value"]
        got = {tid: t["config"]["x"] for tid, t in s["trials"].items()}
        return [] if got == _ref[key] else [f"C09: configurations are {got}, the sequential run has {_ref[key]}"]

    def sequential(self, root, n):
        import shutil

        shutil.rmtree(root, ignore_errors=True)
        seed_all(42)
        runs.prepare_dir(root, self.trials or "")
        seed_all(7)
        runs.call_run(runs.NullCtx(), root, max_evaluations_total=n, continue_until_max_evaluation_completed=True)
        s = runs.view(root)
        return {tid: t["config"]["x"] for tid, t in s["trials"].items()}


def run(ck):
    ck.rule = RULE
    ck.level = "model_checking"
    q = ck.quick
    ck.enumerate("splits", split_cases(q), split_case)
    ck.enumerate("workers", worker_cases(q), worker_case)
    ck.enumerate("snapshots", snapshot_cases(q), snapshot_case)
    if ck.violations:
        return
    plan = [
        (SeededScenario("seeded", trials="s", total=3), 1 if q else 2),
        (SeededScenario("seeded_pending", trials="pp", total=4), 1 if q else 2),
        (SeededScenario("seeded_three", nworkers=3, trials="s", total=4), 0 if q else 1),
    ]
    explore(ck, plan, ("C09",), 500 if q else 4000)
