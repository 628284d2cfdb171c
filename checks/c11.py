import itertools
import os
from pathlib import Path

from fsmc import core
from lib.harness import fresh_dir, require, same

RULE = ("every ordered pair (earlier version, later version) of objects from the listed alphabets of field values is "
        "stored in the same place and read by a second, independent reader; every sequence of state transitions of a "
        "trial up to the stated length is stored after each step and compared field by field with the object in memory")


# ---- alphabets -------------------------------------------------------------------------------------
TEXTS = ("plain", "", "null", "~", "yes", "1e3", "007", "0x1F", "2020-01-01", "a: b", "- x", "#c", "{a", "'q\"", " lead",
         "trail ", "l1\nl2\n", "tab\t", "\u00e9\u4e2d\U0001f600", "nel\x85", "bell\x07", "\u2028sep", "=", "<<", "!tag",
         "config_7", "a/b", "%YAML", "---", "x" * 300)
FLOATS = (0.0, -0.0, 1.0, 0.1, 1 / 3, 1e-05, 1e-300, 1e22, 1.5e300, -2.5, float("inf"), float("-inf"), float("nan"), 123456.789,
          5e-324, 0.1 + 0.2)
INTS = (0, 1, -1, 7, 2 ** 31, -2 ** 63, 10 ** 25)


def configs():
    import numpy as np

    out = [({"x": v}, {"x": v}) for v in FLOATS + INTS + TEXTS + (True, False, None)]
    out += [({"a": 1, "b": 2.5, "c": "z", "d": None, "e": True}, {"a": 1, "b": 2.5, "c": "z", "d": None, "e": True}),
            ({}, {}),
            ({"x": np.float64(0.25), "i": np.int64(3), "b": np.bool_(False), "s": np.str_("t")},
             {"x": 0.25, "i": 3, "b": False, "s": "t"}),
            ({"e": 3, "E": 4, "y": "no", "n": "off"}, {"e": 3, "E": 4, "y": "no", "n": "off"}),
            ({f"p{i}": i / 7 for i in range(30)}, {f"p{i}": i / 7 for i in range(30)}),
            ({"null": 1, "true": 2, "1": 3}, {"null": 1, "true": 2, "1": 3}),
            ({"nested": {"a": [1, 2, {"b": None}]}, "list": [1.5, "x"]}, {"nested": {"a": [1, 2, {"b": None}]}, "list": [1.5, "x"]})]
    return out


def reports():
    """constructor arguments"""
    base = dict(trial_id="1", loss=1.5, cost=2.5, learning_curve=[1.0, 0.5], extra={"k": 1}, err=None, tb=None,
                reported_as="success", evaluation_duration=0.75)
    out = [None, base]
    for f in FLOATS:
        out += [{**base, "loss": f}, {**base, "cost": f}, {**base, "evaluation_duration": f}]
    out += [{**base, "loss": None}, {**base, "cost": None}, {**base, "evaluation_duration": None},
            {**base, "learning_curve": None}, {**base, "learning_curve": []}, {**base, "learning_curve": list(FLOATS)},
            {**base, "extra": {}}, {**base, "extra": {"t": list(TEXTS), "i": list(INTS), "n": None, "d": {"e": {}}}}]
    for t in TEXTS:
        out.append({**base, "err": ValueError(t), "tb": t, "reported_as": "crashed", "loss": None, "cost": None,
                    "learning_curve": None, "extra": {}})
    out += [{**base, "reported_as": "failed"}, {**base, "err": RuntimeError("r"), "tb": None, "reported_as": "failed"},
            {**base, "loss": 3.5, "cost": 4.5}, {**base, "loss": 4.5, "cost": 3.5}, {**base, "trial_id": "77"}]
    return out


def metas():
    base = dict(id="1", location="/some/where", previous_trial_id=None, previous_trial_location=None, sampling_worker_id="w",
                time_sampled=12.25)
    out = []
    opt = dict(evaluating_worker_id="other", evaluation_duration=0.5, time_submitted=13.5, time_started=14.5, time_end=15.5)
    for r in range(len(opt) + 1):
        for keys in itertools.combinations(opt, r):
            for prev in ((None, None), ("7_2", "/some/config_7_2")):
                out.append({**base, "previous_trial_id": prev[0], "previous_trial_location": prev[1],
                            **{k: opt[k] for k in keys}})
    for t in TEXTS:
        out.append({**base, "sampling_worker_id": t, "evaluating_worker_id": t, "location": t})
        if t:
            out.append({**base, "previous_trial_id": t, "previous_trial_location": t})
    for f in FLOATS:
        out.append({**base, "time_sampled": f, "time_started": f, "evaluation_duration": f})
    for i in ("1", "10", "3_0", "12_4", "007", "1e5", "0x10", "null"):
        out.append({**base, "id": i})
    return out


STATES = ("pending", "submitted", "evaluating", "success", "failed", "crashed", "corrupted", "unknown")


def trial_objects(quick):
    """index -> (config, meta, state, report); every alphabet complete, around rotating values of the others."""
    C, M, R = configs(), metas(), reports()
    out = []
    n = max(len(C), len(M), len(R), len(STATES))
    for shift in ((0,) if quick else (0, 3, 11)):
        for i in range(n):
            out.append((C[i % len(C)], M[(i + shift) % len(M)], STATES[(i * 3 + shift) % len(STATES)],
                        R[(i + 5 * shift) % len(R)]))
    return out


def make_trial(o):
    from neps.state.trial import Trial

    (cfg, _), meta, state, rep = o
    return Trial(config=cfg, metadata=Trial.MetaData(**meta), state=Trial.State(state),
                 report=None if rep is None else Trial.Report(**rep))


def expected(o):
    (_, cfg), meta, state, rep = o
    full = dict(evaluating_worker_id=None, evaluation_duration=None, time_submitted=None, time_started=None, time_end=None)
    full.update(meta)
    r = None
    if rep is not None:
        r = dict(rep)
        r["err"] = None if rep["err"] is None else str(rep["err"])
    return {"config": cfg, "meta": full, "state": state, "report": r}


def fields(t):
    r = None
    if t.report is not None:
        r = dict(vars(t.report))
        r["err"] = None if r["err"] is None else (str(r["err"]) if isinstance(r["err"], Exception) else ("?", r["err"]))
        r["extra"] = dict(r["extra"])
    return {"config": dict(t.config), "meta": dict(vars(t.metadata)), "state": t.state.value, "report": r}


_cache = {}


def objs(quick):
    if quick not in _cache:
        _cache[quick] = trial_objects(quick)
    return _cache[quick]


def trial_cases(quick):
    n = len(objs(quick))
    for i in range(n):
        for j in ((i, (i + 1) % n, (i * 7 + 3) % n, 0, n - 1) if quick else range(n)):
            yield (quick, i, j)


def trial_case(case):
    from neps.state.filebased import ReaderWriterTrial

    quick, i, j = case
    d = Path(fresh_dir("t"))
    d.mkdir()
    for k in (i, j):
        o = objs(quick)[k]
        t = make_trial(o)
        ReaderWriterTrial().write(t, d)
        got = fields(ReaderWriterTrial().read(d))
        want = expected(o)
        require(same(got, want), lambda: f"object {k} after {i if k == j else None}: {diff(got, want)}")
        require(same(fields(t), {**want, "config": fields(t)["config"], "report": fields(t)["report"]}),
                "writing changed the object")


def diff(got, want, path=""):
    if isinstance(got, dict) and isinstance(want, dict):
        return "; ".join(diff(got.get(k), want.get(k), f"{path}.{k}") for k in {**got, **want}
                         if not same(got.get(k, "<missing>"), want.get(k, "<missing>")))
    return f"{path} read {got!r}, stored {want!r}"


# ---- transitions through the shared state ----------------------------------------------------------
OPS = ("submit", "eval", "ok", "fail", "crash", "corrupt", "reset", "noreport")


def transition_cases(quick):
    for n in range(1, 5 if quick else 6):
        for seq_ in itertools.product(OPS, repeat=n):
            yield seq_


def apply(op, t, k, st):
    """Returns whether it was stored together with a report."""
    now = 100.0 + k
    if op == "submit":
        t.set_submitted(time_submitted=now)
    elif op == "eval":
        t.set_evaluating(time_started=now, worker_id=f"worker{k}")
    elif op == "corrupt":
        t.set_corrupted()
    elif op == "reset":
        t.reset()
    elif op == "noreport":
        t.report = None
    else:
        kind = {"ok": "success", "fail": "failed", "crash": "crashed"}[op]
        rep = t.set_complete(report_as=kind, time_end=now, loss=k + 0.5 if op != "crash" else None, cost=float(k),
                             learning_curve=[k, 0.25] if op == "ok" else None, err=None if op == "ok" else KeyError(f"e{k}"),
                             tb=None if op == "ok" else f"tb{k}", extra={f"k{k}": k} if op == "ok" else None,
                             evaluation_duration=0.5 * k)
        st.report_trial_evaluation(t, rep, worker_id=f"worker{k}")
        return
    st.put_updated_trial(t)


def model(op, m, k):
    """Independent account of what the fields are afterwards."""
    now = 100.0 + k
    meta = m["meta"]
    if op == "submit":
        meta["time_submitted"] = now
        m["state"] = "submitted"
    elif op == "eval":
        meta["time_started"] = now
        meta["evaluating_worker_id"] = f"worker{k}"
        m["state"] = "evaluating"
    elif op == "corrupt":
        m["state"] = "corrupted"
    elif op == "reset":
        m["state"] = "pending"
        for f in ("evaluating_worker_id", "evaluation_duration", "time_submitted", "time_started", "time_end"):
            meta[f] = None
    elif op == "noreport":
        m["report"] = None
    else:
        m["state"] = {"ok": "success", "fail": "failed", "crash": "crashed"}[op]
        meta["time_end"] = now
        meta["evaluation_duration"] = 0.5 * k
        m["report"] = dict(trial_id=meta["id"], loss=k + 0.5 if op != "crash" else None, cost=float(k),
                           learning_curve=[float(k), 0.25] if op == "ok" else None, extra={f"k{k}": k} if op == "ok" else {},
                           err=None if op == "ok" else repr(f"e{k}"), tb=None if op == "ok" else f"tb{k}",
                           reported_as=m["state"], evaluation_duration=0.5 * k)
        if op != "ok":
            m["errors"].append((meta["id"], f"worker{k}", "KeyError", repr(f"e{k}"), f"tb{k}"))
        m["cost"] += k


def transition_case(ops):
    from neps.state.filebased import create_or_load_filebased_neps_state, load_filebased_neps_state
    from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo
    from neps.state.trial import Trial

    root = Path(fresh_dir("root"))
    st = create_or_load_filebased_neps_state(
        root, optimizer_info=OptimizerInfo({"searcher_alg": "a", "n": 1}),
        optimizer_state=OptimizationState(budget=BudgetInfo(max_cost_budget=50.0), shared_state={"q": [1]}))
    t = Trial.new(trial_id="4_1", config={"x": 0.25, "c": "null"}, location="", previous_trial="4_0",
                  previous_trial_location="/p/config_4_0", time_sampled=9.5, worker_id=17)
    st._trials.put_new(t)
    watcher = load_filebased_neps_state(root)  # holds cached objects, has to notice every change
    m = {"config": {"x": 0.25, "c": "null"}, "state": "pending", "report": None, "errors": [], "cost": 0.0,
         "meta": dict(id="4_1", location=str(root.resolve() / "configs" / "config_4_1"), previous_trial_id="4_0",
                      previous_trial_location="/p/config_4_0", sampling_worker_id="17", time_sampled=9.5,
                      evaluating_worker_id=None, evaluation_duration=None, time_submitted=None, time_started=None,
                      time_end=None)}
    for k, op in enumerate(ops):
        apply(op, t, k, st)
        model(op, m, k)
        want = {x: m[x] for x in ("config", "meta", "state", "report")}
        for who, s in (("watcher", watcher), ("fresh", load_filebased_neps_state(root))):
            got = fields(s.get_trial_by_id("4_1"))
            require(same(got, want), lambda: f"{who} after {ops[:k + 1]}: {diff(got, want)}")
            errs = [(e.trial_id, e.worker_id, e.err_type, e.err, e.tb) for e in s.get_errors().errs]
            require(errs == m["errors"], lambda: f"{who} after {ops[:k + 1]}: errors {errs}, expected {m['errors']}")
            o = s.optimizer_state()
            require(o.budget.used_cost_budget == m["cost"] and o.budget.max_cost_budget == 50.0 and o.shared_state == {"q": [1]},
                    lambda: f"{who}: optimizer state {o}, spent {m['cost']}")
            require(s.optimizer_info().info == {"searcher_alg": "a", "n": 1}, lambda: f"{who}: {s.optimizer_info()}")


# ---- the other resources ---------------------------------------------------------------------------
def opt_states():
    out = [(None, {})]
    for mx in (None, 0.0, 10.0, float("inf")):
        for used in (0.0, 3.25, 1e-05):
            for me in (None, 0, 9):
                for ue in (0, 4):
                    out.append(((mx, used, me, ue), {}))
    vals = list(TEXTS) + list(FLOATS) + list(INTS) + [None, True, [], {}, [1, [2, {"a": None}]], {"k": {"l": [0.5]}}]
    out += [((1.0, 2.0, 3, 4), {"key": v, "other": 1}) for v in vals]
    out += [(None, {"key": "v"}), ((1.0, 2.0, 3, 4), {"budget": {"max_cost_budget": 99}, "shared_state": {"z": 1}})]
    return out


def infos():
    vals = list(TEXTS) + list(FLOATS) + list(INTS) + [None, True, [], {}, [1, [2, {"a": None}]], {"k": {"l": [0.5]}}]
    return [{}] + [{"searcher_alg": v, "z": 1} for v in vals] + [{"info": {"x": 1}, "version": "3"}]


def errs():
    one = [dict(trial_id="1", worker_id="w", err_type="ValueError", err="m", tb="t")]
    out = [[], one, one * 2, one * 3]
    for t in TEXTS:
        out += [[{**one[0], "err": t, "tb": t}], [{**one[0], "err_type": t, "worker_id": t, "trial_id": t}, one[0]],
                [one[0], {**one[0], "tb": None, "err": t}]]
    return out


def other_cases(quick):
    for kind, n in (("opt", len(opt_states())), ("info", len(infos())), ("errs", len(errs()))):
        for i in range(n):
            for j in sorted({i, (i + 1) % n, (i * 5 + 2) % n, 0, n - 1}) if quick else range(n):
                yield (kind, i, j)


def other_case(case):
    from neps.state.err_dump import ErrDump
    from neps.state.filebased import ReaderWriterErrDump, ReaderWriterOptimizationState, ReaderWriterOptimizerInfo
    from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo

    kind, i, j = case
    d = Path(fresh_dir("o"))
    d.mkdir()
    for k in (i, j):
        if kind == "opt":
            b, shared = opt_states()[k]
            rw = ReaderWriterOptimizationState()
            rw.write(OptimizationState(budget=None if b is None else BudgetInfo(*b), shared_state=shared), d)
            r = rw.read(d)
            got = (None if r.budget is None else (r.budget.max_cost_budget, r.budget.used_cost_budget,
                                                  r.budget.max_evaluations, r.budget.used_evaluations), r.shared_state)
            want = (b, shared)
        elif kind == "info":
            want = infos()[k]
            rw = ReaderWriterOptimizerInfo()
            rw.write(OptimizerInfo(want), d)
            got = rw.read(d).info
        else:
            want = errs()[k]
            rw = ReaderWriterErrDump("all")
            e = ErrDump()
            for x in want:
                e.append(ErrDump.SerializableTrialError(**x))
            rw.write(e, d)
            back = rw.read(d)
            got = [dict(vars(x)) for x in back.errs]
            require(len(back) == len(want) and bool(back) == bool(want) and back.empty() == (not want),
                    lambda: f"length {len(back)} instead of {len(want)}")
            last = back.latest_err_as_raisable()
            require((last is None) == (not want), lambda: f"latest error {last}")
            if want:
                require(want[-1]["err"] in str(last) and want[-1]["trial_id"] in str(last) and want[-1]["err_type"] in str(last),
                        lambda: f"latest error {last}")
        require(same(got, want), lambda: f"read {got!r}, stored {want!r}")


def seed_cases(quick):
    kinds = list(itertools.product((0, 1), (0, 1, 2), (0, 1)))
    for a in kinds:
        for b in kinds:
            for n in (0, 1, 2):
                yield (a, b, n)


def seed_case(case):
    import random

    import numpy as np
    import torch
    from neps.state.filebased import ReaderWriterSeedSnapshot
    from neps.state.seed_snapshot import SeedSnapshot

    a, b, n = case
    d = Path(fresh_dir("s"))
    d.mkdir()
    for has_torch, cuda, gauss in (a, b):
        for _ in range(n):
            random.random()
            np.random.rand()
            torch.rand(1)
        if gauss:
            random.gauss(0, 1)
            np.random.randn()
        s = SeedSnapshot.new_capture()
        if not has_torch:
            s.torch_rng = None
        s.torch_cuda_rng = None if not cuda else [torch.arange(5, dtype=torch.uint8) + k for k in range(cuda)]
        rw = ReaderWriterSeedSnapshot()
        rw.write(s, d)
        r = rw.read(d)
        require(r.py_rng == s.py_rng, "python state differs")
        require(r.np_rng[0] == s.np_rng[0] and np.array_equal(r.np_rng[1], s.np_rng[1]) and r.np_rng[2:] == s.np_rng[2:],
                lambda: f"numpy state differs {r.np_rng[2:]} {s.np_rng[2:]}")
        require((r.torch_rng is None) == (s.torch_rng is None) and (s.torch_rng is None or torch.equal(r.torch_rng, s.torch_rng)),
                "torch state differs")
        x, y = r.torch_cuda_rng, s.torch_cuda_rng
        require((x is None) == (y is None) and (x is None or (len(x) == len(y) and all(torch.equal(p, q) for p, q in zip(x, y)))),
                "torch cuda state differs")


# ---- another process -------------------------------------------------------------------------------
def process_cases(quick):
    n = len(objs(True))
    return [("process", i) for i in range(0, n, 4 if quick else 1)]


def process_case(case):
    """Stored by one process, read and stored by a second one, read by a third."""
    from neps.state.filebased import TrialRepoInDirectory

    o = objs(True)[case[1]]
    o = (o[0], {**o[1], "id": "5"}, o[2], o[3])
    d = Path(fresh_dir("repo"))
    d.mkdir()

    def first():
        TrialRepoInDirectory(d).put_new(make_trial(o))

    def second():
        s = TrialRepoInDirectory(d).get_by_id("5")
        s.put(s.synced())

    def third():
        r = TrialRepoInDirectory(d)
        return sorted(r.all_trial_ids()), fields(r.get_by_id("5").synced())

    for f in (first, second):
        r = core._forked(f)
        require(r["ok"], lambda: f"{f.__name__}: {r['err']} {r['tb']}")
    r = core._forked(third)
    require(r["ok"], lambda: f"third: {r['err']} {r['tb']}")
    ids, got = r["value"]
    want = expected(o)
    want["meta"]["location"] = str(d.resolve() / "config_5")
    require(ids == ["5"] and same(got, want), lambda: f"{ids} {diff(got, want)}")


def run(ck):
    ck.rule = RULE
    ck.level = "model_checking"
    q = ck.quick
    os.environ.setdefault("TZ", "UTC")
    ck.enumerate("trials", trial_cases(q), trial_case)
    ck.enumerate("transitions", transition_cases(q), transition_case)
    ck.enumerate("others", other_cases(q), other_case)
    ck.enumerate("seeds", seed_cases(q), seed_case)
    ck.enumerate("processes", process_cases(q), process_case)
