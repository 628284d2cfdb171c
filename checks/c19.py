import contextlib
import csv
import io
import itertools
import math
import os
import runpy
import sys
from pathlib import Path


from lib.harness import Violation, fresh_dir, require, same
from lib.runs import RunScenario, explore

RULE = ("every multiset and order of trial states and losses up to the length bound is stored with the real state API and "
        "summarised in every way; every sequence of outcomes and restarts of real runs; every schedule of concurrent workers "
        "with at most B pre-emptions, each writing a summary when it is done; distinct = (states, losses) or schedule")

LOSSES = {"a": -1.0, "b": 0.0, "c": 2.5, "d": 1e-9}
CATS = ("plain", 'quote " comma , end', "line\nbreak")


def space():
    import neps

    return {"x": neps.Float(0, 1), "cat": neps.Categorical(list(CATS)), "n": neps.Integer(1, 9), "k": neps.Constant("c"),
            "loss": neps.Float(1, 2)}


def build(root, states):
    """states: a..d success with that loss, F reported as failed, f crashed, e evaluating, p pending"""
    from neps.optimizers import SearcherMapping
    from neps.search_spaces import SearchSpace
    from neps.state.filebased import create_or_load_filebased_neps_state
    from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo

    st = create_or_load_filebased_neps_state(
        Path(root), optimizer_info=OptimizerInfo({"searcher": "x"}),
        optimizer_state=OptimizationState(budget=BudgetInfo(max_cost_budget=None), shared_state={}))
    opt = SearcherMapping["random_search"](pipeline_space=SearchSpace(**space()))
    trials = [st.sample_trial(opt, worker_id="w") for _ in states]
    want = {}
    for i, (s, t) in enumerate(zip(states, trials)):
        w = want[t.id] = {"config": dict(t.config), "kind": s, "loss": None, "cost": None, "note": None}
        if s == "p":
            continue
        t.set_evaluating(time_started=100.0 + i, worker_id="w")
        st.put_updated_trial(t)
        if s == "e":
            continue
        okay = s in LOSSES
        extra = {}
        if okay:
            w["loss"], w["cost"] = LOSSES[s], None if i % 3 == 2 else 1.5 * i
            if i % 2:
                w["note"] = f"note, {i}"
                extra = {"info_dict": {"note": w["note"]}}
        if s == "f" and i % 2:
            w["fail_loss"] = -99.0  # loss_value_on_error: never the best
        rep = t.set_complete(
            report_as="success" if okay else {"f": "crashed", "F": "failed"}[s], time_end=101.0 + i,
            loss=w["loss"] if okay else w.get("fail_loss"), cost=w["cost"], learning_curve=None,
            err=None if okay else ValueError("x, y"), tb=None if okay else "tb", extra=extra, evaluation_duration=0.5)
        st.report_trial_evaluation(t, rep, worker_id="w")
    return want


def expected(want):
    good = {t: w["loss"] for t, w in want.items() if w["kind"] in LOSSES and w["loss"] is not None}
    best = min(good.values(), default=math.inf)
    return {
        "num_evaluated_configs": sum(w["kind"] not in "ep" for w in want.values()),
        "num_pending_configs": sum(w["kind"] in "ep" for w in want.values()),
        "num_pending_configs_with_worker": sum(w["kind"] == "e" for w in want.values()),
        "num_error": sum(w["kind"] in "fF" for w in want.values()),
        "best_loss": best,
    }, {t for t, v in good.items() if v == best}


def check_summary(root, want):
    import neps
    from neps.status.status import get_summary_dict

    exp, best = expected(want)
    for details in (False, True):
        s = get_summary_dict(root, add_details=details)
        for k, v in exp.items():
            require(s[k] == v, lambda: f"{k} is {s[k]}, not {v}, for {kinds(want)}")
        b = s["best_config_id"]
        require(b in best or not best and b is None, lambda: f"best configuration is {b}, not {sorted(best)}: {kinds(want)}")
        require(s["best_config"] is None if b is None else same(dict(s["best_config"]), want[b]["config"]),
                lambda: f"best_config of {b} is {s['best_config']}")
        require(s["best_config_metadata"] is None if b is None else s["best_config_metadata"]["id"] == b,
                lambda: f"best_config_metadata of {b} is {s['best_config_metadata']}")
    done = {t for t, w in want.items() if w["kind"] not in "ep"}

    def details_ok(prev, pend, what):
        require(set(prev) == done, lambda: f"{what}: evaluated {sorted(prev)}, not {sorted(done)}")
        require(set(pend) == set(want) - done, lambda: f"{what}: pending {sorted(pend)}, not {sorted(set(want) - done)}")
        for t, c in pend.items():
            require(same(dict(c), want[t]["config"]), lambda: f"{what}: pending {t} has {c}")
        for t, r in prev.items():
            require(r.id == t and same(dict(r.config), want[t]["config"]), lambda: f"{what}: {t} has {r.config}")
            if want[t]["kind"] in LOSSES:
                require(r.result != "error" and r.result["loss"] == want[t]["loss"] and r.loss == want[t]["loss"]
                        and r.result["cost"] == want[t]["cost"], lambda: f"{what}: {t} has the result {r.result}")
            else:
                require(r.result == "error" and r.loss == "error", lambda: f"{what}: {t} failed, result {r.result}")

    details_ok(s["previous_results"], s["pending_configs"], "details")
    free = {t for t, w in want.items() if w["kind"] == "p"}
    require(set(s["pending_configs_free"]) == free, lambda: f"free: {sorted(s['pending_configs_free'])}")
    for how in ("silent", "print", "cli"):
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            if how == "cli":
                argv, sys.argv = sys.argv, ["neps.status", str(root)]
                try:
                    runpy.run_module("neps.status", run_name="__main__", alter_sys=False)
                finally:
                    sys.argv = argv
            else:
                prev, pend = neps.status(root, print_summary=how == "print")
                details_ok(prev, pend, how)
        text = out.getvalue()
        if how == "silent":
            require(text == "", lambda: f"prints {text!r}")
            continue
        lines = dict(x.split(": ", 1) for x in text.splitlines() if ": " in x)
        for label, k in (("#Evaluated configs", "num_evaluated_configs"), ("#Pending configs", "num_pending_configs"),
                         ("#Pending configs with worker", "num_pending_configs_with_worker"),
                         ("#Crashed configs", "num_error")):
            require(lines.get(label) == str(exp[k]), lambda: f"{how}: prints {label}: {lines.get(label)}, not {exp[k]}")
        if done:
            require(float(lines["Best loss"]) == exp["best_loss"], lambda: f"{how}: prints Best loss: {lines['Best loss']}")
            require(lines["Best config id"] in best or not best, lambda: f"{how}: prints best {lines['Best config id']}")
    return exp, best


def kinds(want):
    return {t: w["kind"] for t, w in want.items()}


def num(s):
    return None if s == "" else float(s)


def check_csv(config_csv, run_csv, want):
    exp, best = expected(want)
    with open(config_csv, newline="") as f:
        rows = list(csv.DictReader(f))
    require(sorted(r["config_id"] for r in rows) == sorted(want),
            lambda: f"CSV has rows for {[r['config_id'] for r in rows]}, the trials are {kinds(want)}")
    for r in rows:
        t = r["config_id"]
        w = want[t]
        st = "pending" if w["kind"] in "ep" else "complete"
        require(r["status"] == st, lambda: f"CSV: status of {t} is {r['status']}, not {st}")
        for k, v in w["config"].items():
            g = r.get(f"config.{k}")
            okay = g is not None and (g == str(v) if isinstance(v, (str, bool)) else g != "" and float(g) == v)
            require(okay, lambda: f"CSV: {k} of {t} is {g!r}, not {v!r}")
        loss, cost = num(r.get("result.loss") or ""), num(r.get("result.cost") or "")
        require(loss == w["loss"] and cost == w["cost"],
                lambda: f"CSV: {t} ({w['kind']}) has loss {loss} and cost {cost}, not {w['loss']} and {w['cost']}")
        note = r.get("result.info_dict.note") or None
        require(note == w.get("note"), lambda: f"CSV: {t} has the note {note!r}, not {w.get('note')!r}")
        if st == "complete":
            require(r.get("metadata.id") == t, lambda: f"CSV: metadata of {t} is of {r.get('metadata.id')}")
    with open(run_csv, newline="") as f:
        data = {r["description"]: r["value"] for r in csv.DictReader(f)}
    for k, v in exp.items():
        require(data.get(k, "") != "" and float(data[k]) == v, lambda: f"run CSV: {k} is {data.get(k)!r}, not {v}")
    b = data.get("best_config_id")
    require(b in best or not best and b in ("", None), lambda: f"run CSV: best is {b!r}, not {sorted(best)}")


def state_cases(quick):
    for n in range(5):
        for s in itertools.product("abfep" if n == 4 and quick else "abcfep", repeat=n):
            yield "".join(s)
    for s in ("F", "aF", "Fa", "dp", "da", "ad", "bd", "p" * 12, "c" * 11 + "a", "fepcbafepcba", "b" + "c" * 12, "e" * 11,
              "cccccccccab", "f" * 11, "fffffffffffa"):
        yield s


def state_case(states):
    from neps.status.status import post_run_csv

    root = fresh_dir()
    want = build(root, states)
    check_summary(root, want)
    before = snapshot(root)
    for _ in range(2):
        a, b = post_run_csv(root)
        check_csv(a, b, want)
    check_summary(root, want)
    after = snapshot(root)
    require(before == after, "summarising changes the directory")
    return {"stats": {"trials": len(states)}}


def snapshot(root):
    out = {}
    for d, _, files in os.walk(root):
        if "summary_csv" in d:
            continue
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[p] = fh.read()
    return out


# ------------------------------------------------------------------------------------------------ changing histories
def grow_cases(quick):
    """The state of one trial changes between two summaries in the same process."""
    for s in itertools.product("aep", repeat=3):
        for i in range(3):
            for to in {"a": "", "e": "acf", "p": "ecf"}[s[i]]:
                yield ("".join(s), i, to)


def grow_case(case):
    from neps.state.filebased import load_filebased_neps_state
    from neps.status.status import post_run_csv

    states, i, to = case
    root = fresh_dir()
    want = build(root, states)
    check_summary(root, want)
    a, b = post_run_csv(root)
    check_csv(a, b, want)
    st = load_filebased_neps_state(Path(root))
    tid = list(want)[i]
    t = st.get_trial_by_id(tid)
    if states[i] == "p":
        t.set_evaluating(time_started=7.0, worker_id="v")
        st.put_updated_trial(t)
    if to != "e":
        okay = to in LOSSES
        rep = t.set_complete(report_as="success" if okay else "crashed", time_end=9.0, loss=LOSSES.get(to), cost=None,
                             learning_curve=None, err=None if okay else ValueError("v"), tb=None, extra={},
                             evaluation_duration=1.0)
        st.report_trial_evaluation(t, rep, worker_id="v")
    want[tid].update(kind=to, loss=LOSSES.get(to))
    check_summary(root, want)
    check_csv(*post_run_csv(root), want)


# ------------------------------------------------------------------------------------------------ real runs
def run_cases(quick):
    for n in (1, 2, 3) if quick else (1, 2, 3, 4):
        for outcomes in itertools.product("acfo", repeat=n):
            for per in (None, 1):
                yield ("".join(outcomes), per)


def run_case(case):
    import neps

    outcomes, per = case
    root = fresh_dir()
    want = {}

    def f(pipeline_directory, **config):
        tid = Path(pipeline_directory).name.removeprefix("config_")
        o = outcomes[len(want)]
        w = want[tid] = {"config": config, "kind": "f" if o == "f" else "c", "loss": None, "cost": None, "note": None}
        if o == "f":
            raise ValueError("failed")
        w["loss"] = LOSSES.get(o, 0.125)
        if o == "o":
            return w["loss"]
        w["cost"], w["note"] = 2.0, f"n {tid}"
        return {"loss": w["loss"], "cost": 2.0, "info_dict": {"note": w["note"]}}

    for _ in range(1 if per is None else len(outcomes)):
        neps.run(run_pipeline=f, pipeline_space=space(), root_directory=root, max_evaluations_total=len(outcomes),
                 searcher="random_search", ignore_errors=True, post_run_summary=True,
                 **({} if per is None else {"max_evaluations_per_run": per}))
        check_csv(Path(root) / "summary_csv" / "config_data.csv", Path(root) / "summary_csv" / "run_status.csv", want)
        check_summary(root, want)
    require(len(want) == len(outcomes), lambda: f"{len(want)} evaluations")


# ------------------------------------------------------------------------------------------------ concurrent workers
def csv_check(ex, s):
    """After every worker is done, the CSV files describe the trials."""
    if any(w.killed or w.result is None or w.result["status"] != "ok" for w in ex.workers):
        return []
    want = {}
    for t, x in s["trials"].items():
        k = {"success": "c", "crashed": "f", "failed": "F", "evaluating": "e", "pending": "p"}[x["state"]]
        r = x["report"] or {}
        want[t] = {"config": x["config"], "kind": k, "loss": r.get("loss") if k == "c" else None,
                   "cost": r.get("cost") if k == "c" else None}
    d = Path(ex.root) / "summary_csv"
    try:
        check_csv(d / "config_data.csv", d / "run_status.csv", want)
    except Violation as e:
        return [f"C19: {e}"]
    except Exception as e:  # noqa: BLE001
        return [f"C19: the CSV files cannot be read: {type(e).__name__}: {e}"]
    return []


def fail_first(w, t, n):
    return "fail" if (w == 1 and n == 0) else "ok"


class SummaryScenario(RunScenario):
    tags = ("C19", "C03")


def run(ck):
    ck.rule = RULE
    ck.level = "model_checking"
    q = ck.quick
    ck.enumerate("states", state_cases(q), state_case)
    ck.enumerate("grow", grow_cases(q), grow_case)
    ck.enumerate("runs", run_cases(q), run_case)
    kw = {"post_run_summary": True}
    plan = [
        (SummaryScenario("csv_two", trials="s", total=3, kw=kw, extra_check=csv_check), 1 if q else 2),
        (SummaryScenario("csv_fail", trials="p", total=2, behave=fail_first, kw={**kw, "ignore_errors": True},
                         extra_check=csv_check), 1 if q else 2),
    ]
    explore(ck, plan, ("C19",), 400 if q else 3000)
