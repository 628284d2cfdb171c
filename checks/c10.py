import itertools
import os
import threading
from pathlib import Path

from lib import runs, seq
from lib.harness import fresh_dir, require, same

RULE = ("every combination of result shape, loss, cost, learning curve, extra information and default values from the "
        "listed alphabets, evaluated and reported through the real worker code and compared with an independent "
        "expectation after reloading; every exception x replacement values; every invalid result x position in a run")


# ---- alphabets: name -> (value factory, expected plain value) --------------------------------------
def numbers():
    import numpy as np
    import torch

    return {
        "int": (lambda: 3, 3.0), "zero": (lambda: 0, 0.0), "neg": (lambda: -2.5, -2.5), "float": (lambda: 0.1, 0.1),
        "tiny": (lambda: 1e-300, 1e-300), "big": (lambda: 1.5e17, 1.5e17), "exp": (lambda: 1e-05, 1e-05),
        "third": (lambda: 1 / 3, 1 / 3), "inf": (lambda: float("inf"), float("inf")), "bool": (lambda: True, 1.0),
        "ninf": (lambda: float("-inf"), float("-inf")), "nan": (lambda: float("nan"), float("nan")),
        "np64": (lambda: np.float64(0.25), 0.25), "np32": (lambda: np.float32(0.1), float(np.float32(0.1))),
        "np16": (lambda: np.float16(1.5), 1.5), "npi": (lambda: np.int64(-7), -7.0), "np0d": (lambda: np.array(4.5), 4.5),
        "np0di": (lambda: np.array(4), 4.0), "t0d": (lambda: torch.tensor(1.25), 1.25),
        "t64": (lambda: torch.tensor(0.1, dtype=torch.float64), 0.1), "ti": (lambda: torch.tensor(5), 5.0),
        "t1": (lambda: torch.tensor([2.5]), 2.5), "tgrad": (lambda: torch.tensor(0.5, requires_grad=True), 0.5),
    }


COSTS = ("int", "zero", "float", "third", "np64", "np32", "npi", "np0d", "t0d", "ti", "exp")


def curves():
    import numpy as np
    import torch

    return {
        "none": (lambda: None, None), "empty": (lambda: [], []), "floats": (lambda: [0.5, 0.25, 0.1], [0.5, 0.25, 0.1]),
        "ints": (lambda: [3, 2, 1], [3.0, 2.0, 1.0]), "tuple": (lambda: (1.5, 2), [1.5, 2.0]),
        "one": (lambda: [7], [7.0]), "nans": (lambda: [float("nan"), float("inf")], [float("nan"), float("inf")]),
        "nparr": (lambda: np.array([1.0, 0.5]), [1.0, 0.5]), "np1": (lambda: np.array([1.0]), [1.0]),
        "npempty": (lambda: np.array([]), []), "npi": (lambda: np.arange(3), [0.0, 1.0, 2.0]),
        "npels": (lambda: [np.float32(0.5), np.int64(2)], [0.5, 2.0]),
        "torch": (lambda: torch.tensor([1.0, 0.5]), [1.0, 0.5]), "torch1": (lambda: torch.tensor([2.0]), [2.0]),
        "tels": (lambda: [torch.tensor(0.5), torch.tensor(2)], [0.5, 2.0]),
    }


def extras():
    import numpy as np
    import torch

    nested = {"a": {"b": [1, 2.5, "x", None, True]}, "s": "null", "t": "1e3", "u": "\u00e9\u4e2d\U0001f600", "m": "l1\nl2: -"}
    return {
        "none": (lambda: {}, {}), "flat": (lambda: {"acc": 0.9, "n": 3, "name": "run"}, {"acc": 0.9, "n": 3, "name": "run"}),
        "nested": (lambda: {"info_dict": {**nested}}, {"info_dict": nested}),
        "emptyinfo": (lambda: {"info_dict": {}}, {"info_dict": {}}),
        "topnested": (lambda: {**nested}, nested),
        "numpy": (lambda: {"m": np.array([[1.0, 2.0], [3.0, 4.0]]), "z": np.array(2), "f": np.float32(0.5),
                           "b": np.bool_(True), "i": np.int64(3), "s": np.str_("q")},
                  {"m": [[1.0, 2.0], [3.0, 4.0]], "z": 2, "f": 0.5, "b": True, "i": 3, "s": "q"}),
        "torch": (lambda: {"info_dict": {"w": torch.tensor([[1.0], [2.0]]), "l": torch.tensor(3), "e": torch.tensor([]),
                                         "g": torch.tensor([0.5], requires_grad=True) * 2}},
                  {"info_dict": {"w": [[1.0], [2.0]], "l": 3, "e": [], "g": [1.0]}}),
        "odd": (lambda: {"tup": (1, (2, 3)), "nan": float("nan"), "inf": float("inf"), "eps": 1e-05, "neg0": -0.0,
                         "big": 10 ** 25, "empty": "", "yes": "yes", "tilde": "~", "num": "007", 5: "intkey"},
                {"tup": [1, [2, 3]], "nan": float("nan"), "inf": float("inf"), "eps": 1e-05, "neg0": -0.0,
                 "big": 10 ** 25, "empty": "", "yes": "yes", "tilde": "~", "num": "007", 5: "intkey"}),
        "names": (lambda: {"err": "not an error", "tb": "no tb", "reported_as": "failed", "trial_id": "77", "state": "x",
                           "extra": {"loss": 99.0, "cost": 98.0}, "evaluation_duration": 12.0},
                  {"err": "not an error", "tb": "no tb", "reported_as": "failed", "trial_id": "77", "state": "x",
                   "extra": {"loss": 99.0, "cost": 98.0}, "evaluation_duration": 12.0}),
    }


DEFAULTS = tuple(itertools.product((None, 1.5, 0.0), (None, "loss", (3.0, 4.0), ())))


def result_cases(quick):
    L, C, V, X = tuple(numbers()), COSTS, tuple(curves()), tuple(extras())
    # bare numbers x every default
    for loss in L:
        for d in DEFAULTS:
            yield ("bare", loss, "absent", "absent", "none", d)
    shapes = ("dict",) if quick else ("dict", "mapping")
    for shape in shapes:
        # two axes at a time complete, the other one at two representative values each
        for a, b in itertools.product(L, ("absent", "none") + C):
            for v in ("absent", "floats"):
                yield (shape, a, b, v, "flat", (1.5, "loss"))
        for b, v in itertools.product(("absent", "none") + C, ("absent",) + V):
            for d in DEFAULTS:
                yield (shape, "float", b, v, "nested", d)
        for v, x in itertools.product(("absent", "info") + V, X):
            for b in ("absent", "int"):
                for d in ((None, None), (1.5, "loss"), (0.0, (3.0, 4.0))):
                    yield (shape, "third", b, v, x, d)
        for a, x in itertools.product(L, X):
            for v in ("absent", "info"):
                yield (shape, a, "np64", v, x, (None, "loss"))
        if not quick:
            for a, b, v, x in itertools.product(L, ("absent", "none", "float", "np0d", "ti"),
                                                ("absent", "info", "none", "nparr", "torch"), X):
                for d in ((None, None), (1.5, "loss"), (0.0, (3.0, 4.0))):
                    yield (shape, a, b, v, x, d)
    yield ("mapping", "float", "int", "floats", "nested", (None, None))
    yield ("mapping", "float", "absent", "info", "none", (1.5, "loss"))


def build(case):
    """(the user's return value, expected loss, cost, learning curve, extra)"""
    import types

    shape, loss, cost, curve, extra, (dcost, dcurve) = case
    lv, le = numbers()[loss]
    if shape == "bare":
        ecurve = [le] if dcurve == "loss" else None if dcurve is None else list(dcurve)
        return lv(), le, dcost, ecurve, {}
    xv, xe = extras()[extra]
    r, e = xv(), dict(xe)
    r["loss"] = lv()
    ecost = dcost
    if cost == "none":
        r["cost"], ecost = None, None
    elif cost != "absent":
        cv, ecost = numbers()[cost]
        r["cost"] = cv()
    if curve == "absent":
        ecurve = [le] if dcurve == "loss" else None if dcurve is None else list(dcurve)
    elif curve == "info":
        r["info_dict"] = {**r.get("info_dict", {}), "learning_curve": [9, 8.5]}
        ecurve = [9.0, 8.5]
        e["info_dict"] = {**e.get("info_dict", {})}
    else:
        v, ecurve = curves()[curve]
        r["learning_curve"] = v()
    return (types.MappingProxyType(r) if shape == "mapping" else r), le, ecost, ecurve, e


_state = {}


def shared():
    """One directory per process; every case adds its own trial."""
    from neps.state.filebased import create_or_load_filebased_neps_state
    from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo

    key = os.getpid()
    if _state.get("pid") != key or _state["n"] >= 150:
        root = Path(fresh_dir("shared"))
        st = create_or_load_filebased_neps_state(
            root, optimizer_info=OptimizerInfo({}),
            optimizer_state=OptimizationState(budget=BudgetInfo(max_cost_budget=1e9, used_cost_budget=0.0), shared_state={}))
        _state.update(pid=key, root=root, st=st, n=0)
    _state["n"] += 1
    return _state["root"], _state["st"], str(_state["n"])


def evaluate(fn, defaults):
    """What a worker does with one trial. Returns (id, the report it made, reloaded trial, spent cost before, after)."""
    from neps.state._eval import evaluate_trial
    from neps.state.filebased import ReaderWriterTrial, load_filebased_neps_state
    from neps.state.settings import DefaultReportValues
    from neps.state.trial import Trial

    root, st, tid = shared()
    t = Trial.new(trial_id=tid, config={"x": 0.5}, location="", previous_trial=None, previous_trial_location=None,
                  time_sampled=1.0, worker_id="w")
    st._trials.put_new(t)
    t.set_evaluating(time_started=2.0, worker_id="w")
    st.put_updated_trial(t)
    before = st.optimizer_state().budget.used_cost_budget
    nerr = len(st.get_errors())
    t2, rep = evaluate_trial(t, evaluation_fn=fn, default_report_values=DefaultReportValues(**defaults))
    st.report_trial_evaluation(t2, rep, worker_id="w")
    back = ReaderWriterTrial().read(root / "configs" / f"config_{tid}")
    other = load_filebased_neps_state(root)
    return tid, rep, back, before, other.optimizer_state().budget.used_cost_budget, other.get_errors().errs[nerr:]


def plain(rep):
    return {"loss": rep.loss, "cost": rep.cost, "curve": rep.learning_curve, "extra": dict(rep.extra),
            "as": rep.reported_as}


def result_case(case):
    value, loss, cost, curve, extra = build(case)
    dcost, dcurve = case[5]
    defaults = dict(cost_if_not_provided=dcost, learning_curve_if_not_provided=list(dcurve) if isinstance(dcurve, tuple)
                    else dcurve, loss_value_on_error=-77.0, cost_value_on_error=-78.0, learning_curve_on_error=[-79.0])
    tid, rep, back, before, after, errs = evaluate(lambda x: value, defaults)
    want = {"loss": loss, "cost": cost, "curve": curve, "extra": extra, "as": "success"}
    got = plain(back.report)
    require(same(got, want), lambda: f"stored {got}, returned {want}")
    mine = plain(rep)
    mine.pop("extra")
    want.pop("extra")
    require(same(mine, want), lambda: f"reported {mine}, returned {want}")
    require(back.state.value == "success" and back.report.err is None and back.report.tb is None and not errs,
            lambda: f"a result is stored as {back.state} with error {back.report.err}, {errs}")
    d = back.report.evaluation_duration
    require(isinstance(d, float) and d >= 0 and back.metadata.evaluation_duration == d, lambda: f"duration {d}")
    require(back.metadata.time_started == 2.0 and back.metadata.time_end >= 2.0, lambda: f"{back.metadata}")
    require(same(after, before + (cost or 0.0)), lambda: f"spent cost {before} -> {after} for a cost of {cost}")


# ---- exceptions ------------------------------------------------------------------------------------
class Plain(Exception):
    pass


class TwoArgs(Exception):
    def __init__(self, code, msg):
        super().__init__(f"{code}: {msg}")
        self.code = code


class Holds(Exception):
    def __init__(self, msg):
        super().__init__(msg)
        self.lock = threading.Lock()


class NoStr(Exception):
    def __str__(self):
        return "shown " + "text"


class KwOnly(Exception):
    def __init__(self, *, a):
        super().__init__()
        self.a = a


def chained():
    try:
        raise KeyError("inner")
    except KeyError as e:
        raise RuntimeError("outer") from e


def raiser(e):
    def f():
        raise e()

    return f


EXC = {
    "value": raiser(lambda: ValueError("bad value")), "empty": raiser(lambda: RuntimeError()),
    "multi": raiser(lambda: OSError(2, "no file")), "key": raiser(lambda: KeyError("k")),
    "assert": raiser(lambda: AssertionError()), "unicode": raiser(lambda: ValueError("\u00e9\u4e2d\U0001f600 \x85 \x07")),
    "lines": raiser(lambda: ValueError("l1\n  l2: [\n- l3")), "null": raiser(lambda: ValueError("null")),
    "num": raiser(lambda: ValueError("123")), "int": raiser(lambda: ValueError(5)), "none": raiser(lambda: ValueError(None)),
    "long": raiser(lambda: ValueError("x" * 5000)), "plain": raiser(lambda: Plain("mine")),
    "twoargs": raiser(lambda: TwoArgs(3, "three")), "holds": raiser(lambda: Holds("has a lock")),
    "nostr": raiser(lambda: NoStr("hidden")), "kwonly": raiser(lambda: KwOnly(a=1)), "chained": chained,
    "memory": raiser(lambda: MemoryError("big")), "stop": raiser(lambda: StopIteration("s")),
    "generator": raiser(lambda: ArithmeticError("{not: [format")), "format": raiser(lambda: ValueError("%s {x}")),
    "type": lambda: len(5), "zerodiv": lambda: 1 / 0, "index": lambda: [][1],
}


def exception_cases(quick):
    for e in EXC:
        for loss in (None, 0.0, 5.5, float("inf")):
            for cost in (None, 0.0, 2.5):
                for curve in (None, (1.0,), ()):
                    yield (e, loss, cost, curve)


def exception_case(case):
    name, loss, cost, curve = case
    defaults = dict(loss_value_on_error=loss, cost_value_on_error=cost, cost_if_not_provided=-1.0,
                    learning_curve_on_error=None if curve is None else list(curve),
                    learning_curve_if_not_provided=[-2.0])
    try:
        EXC[name]()
    except Exception as e:  # noqa: BLE001
        typ, msg = type(e).__name__, str(e)

    def fn(x):
        marker = "the line that fails"
        EXC[name]()
        return marker

    tid, rep, back, before, after, errs = evaluate(fn, defaults)
    want = {"loss": loss, "cost": cost, "curve": None if curve is None else list(curve), "extra": {}, "as": "crashed"}
    got = plain(back.report)
    require(same(got, want), lambda: f"stored {got}, expected {want}")
    require(back.state.value == "crashed", lambda: f"state {back.state}")
    require(isinstance(back.report.err, Exception) and str(back.report.err) == msg,
            lambda: f"stored error {back.report.err!r}, raised {typ}: {msg!r}")
    tb = back.report.tb
    require(isinstance(tb, str) and typ in tb and "in fn" in tb, lambda: f"stored traceback {tb!r}")
    require(same(after, before + (cost or 0.0)), lambda: f"spent cost {before} -> {after} for a cost of {cost}")
    require([(x.trial_id, x.worker_id, x.err_type, x.err) for x in errs] == [(tid, "w", typ, msg)] and errs[0].tb == tb,
            lambda: f"recorded errors {errs}, raised {typ}: {msg!r} by trial {tid}")


# ---- invalid results -------------------------------------------------------------------------------
class Odd:
    pass


def recursive():
    d = {"loss": 1.0}
    d["self"] = d
    return d


BAD = {
    "none": lambda: None, "text": lambda: "abc", "list": lambda: [1.0, 2.0], "noloss": lambda: {"cost": 1.0},
    "emptydict": lambda: {}, "losstext": lambda: {"loss": "low"}, "lossnone": lambda: {"loss": None},
    "losslist": lambda: {"loss": [1.0, 2.0]}, "costtext": lambda: {"loss": 1.0, "cost": "much"},
    "costlist": lambda: {"loss": 1.0, "cost": []}, "curvenum": lambda: {"loss": 1.0, "learning_curve": 5},
    "curvetext": lambda: {"loss": 1.0, "learning_curve": ["a"]}, "object": lambda: {"loss": 1.0, "extra": Odd()},
    "function": lambda: {"loss": 1.0, "f": len}, "nested": lambda: {"loss": 1.0, "info_dict": {"a": [1, Odd()]}},
    "recursive": recursive, "objkey": lambda: {"loss": 1.0, Odd(): 1}, "complex": lambda: 1 + 2j,
}


class Interrupt(BaseException):
    pass


def _interrupt():
    raise Interrupt("user stops")


def _exit():
    raise SystemExit(3)


BAD["interrupt"] = _interrupt
BAD["exit"] = _exit


def invalid_cases(quick):
    for b in BAD:
        for init in ("", "s", "sf", "p", "sp", "pp"):
            for pos in (0, 1):
                for ign in (True, False):
                    for api in ("run", "worker"):
                        yield (b, init, pos, ign, api)


def attempt(f):
    try:
        f()
    except BaseException as e:  # noqa: BLE001
        if type(e).__name__ == "CaseTimeout":
            raise
        return e
    return None


def invalid_case(case):
    import neps
    from neps.runtime import get_in_progress_trial

    bad, init, pos, ign, api = case
    root = seq.template(init)
    before = seq.actual(root)["trials"]
    log = []

    def fn(pipeline_directory, x, **_):
        tid = os.path.basename(str(pipeline_directory)).split("config_", 1)[1]
        log.append(tid)
        if len(log) > 12:
            raise seq.Enough()
        if len(log) == pos + 1:
            return BAD[bad]()
        return {"loss": runs.loss_of(tid), "cost": runs.cost_of(tid)}

    total = len(init) + 3

    def go():
        if api == "run":
            seq.run_public(root, fn, max_evaluations_total=total, ignore_errors=ign)
        else:
            seq.run_worker(root, fn, on_error="ignore" if ign else "raise_any_error", max_evaluations_total=total)

    err = attempt(go)
    failed_before = "f" in init and not ign
    if failed_before:  # an 'any' policy stops before anything is evaluated
        require(not log, f"evaluated {log} although an error is recorded")
        return
    require(err is not None, "an invalid result was accepted", f"{bad}: accepted")
    require(len(log) == pos + 1, lambda: f"evaluated {log} after an invalid result in position {pos}")
    victim = log[-1]
    # the process is usable
    require(attempt(get_in_progress_trial) is not None, "the process still has a trial in progress")
    # the directory is intact: every other trial is unchanged, the victim is not shown as finished without a report
    a = seq.actual(root)["trials"]
    for tid, t in before.items():
        if tid not in log:
            require(a[tid] == t, lambda: f"trial {tid} changed from {t} to {a[tid]}")
    for tid in log[:-1]:
        require(a[tid]["state"] == "success" and a[tid]["report"]["loss"] == runs.loss_of(tid),
                lambda: f"trial {tid} is {a[tid]}")
    v = a[victim]
    require(v["report"] is None or v["state"] != "success", lambda: f"the invalid result is stored as {v}")
    require(v["state"] not in ("success", "failed", "crashed") or v["report"] is not None,
            lambda: f"{victim} is finished without a report: {v}")
    nerr = len(seq.actual(root)["errors"])
    st = attempt(lambda: neps.status(root))
    require(st is None, lambda: f"status fails with {st!r}")
    # and a restart with a correct function completes the run
    n = len(log)
    pos = 99
    ends = attempt(lambda: seq.run_public(root, fn, max_evaluations_total=total, ignore_errors=True))
    require(ends is None, lambda: f"restart fails with {ends!r}")
    end = seq.actual(root)
    require(set(a) <= set(end["ids"]), lambda: f"trials {set(a) - set(end['ids'])} are gone")
    waiting = [t for t in a if a[t]["state"] == "pending"]
    require(all(end["trials"][t]["state"] == "success" for t in waiting), lambda: f"{waiting} not evaluated: {end['states']}")
    require(victim not in log[n:] or v["state"] == "pending", lambda: f"trial {victim} was evaluated twice")
    done = sum(1 for s in end["states"] if s in "sf")
    held = sum(1 for s in end["states"] if s == "e")
    require(done + held == total, lambda: f"{end['states']} after the restart, total is {total}")
    require(len(end["errors"]) == nerr, lambda: f"errors {end['errors']}")


# ---- the same objects returned again ----------------------------------------------------------------
def repeated_cases(quick):
    for x in extras():
        for v in ("absent", "info", "floats", "nparr"):
            for c in ("absent", "int"):
                for n in (2, 3):
                    yield (x, v, c, n)


def repeated_case(case):
    x, v, c, n = case
    value, loss, cost, curve, extra = build(("dict", "float", c, v, x, (None, "loss")))
    root = fresh_dir("root")
    import neps

    neps.run(run_pipeline=lambda x: value, pipeline_space={"x": neps.Float(0, 1)}, root_directory=root,
             max_evaluations_total=n, searcher="random_search", post_run_summary=False)
    from neps.state.filebased import load_filebased_neps_state

    ts = load_filebased_neps_state(Path(root)).get_all_trials()
    require(len(ts) == n, lambda: f"{len(ts)} trials instead of {n}")
    want = {"loss": loss, "cost": cost, "curve": curve, "extra": extra, "as": "success"}
    for tid, t in ts.items():
        got = plain(t.report)
        require(same(got, want), lambda: f"trial {tid} stores {got}, the function always returns {want}",
                "an object returned twice is stored differently")


def run(ck):
    ck.rule = RULE
    ck.level = "model_checking"
    q = ck.quick
    ck.enumerate("result", result_cases(q), result_case)
    ck.enumerate("exception", exception_cases(q), exception_case)
    ck.enumerate("invalid", invalid_cases(q), invalid_case)
    ck.enumerate("repeated", repeated_cases(q), repeated_case)
