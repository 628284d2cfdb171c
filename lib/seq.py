"""Sequential histories: runs of one worker after the other, compared with a reference model."""
from __future__ import annotations

import json
import logging
import os

from fsmc import core
from lib import runs

CAP = 6


class Enough(BaseException):
    """More evaluations than any stopping criterion of the case allows."""


_lib = None


def advance(seconds):
    global _lib
    if _lib is None:
        import ctypes

        _lib = core.shim()
        _lib.fsmc_advance.argtypes = [ctypes.c_double]
    _lib.fsmc_advance(seconds)


UNIT = 1000.0


def function(log, behave, duration=False, cap=CAP):
    """behave(i) for the i-th evaluation of the whole history: 'o' or 'f'."""

    def run_pipeline(pipeline_directory, x, **_):
        tid = os.path.basename(str(pipeline_directory)).split("config_", 1)[1]
        if len(log) >= cap:
            raise Enough(tid)
        b = behave(len(log))
        log.append((tid, b))
        if duration:
            advance(UNIT)
        if b == "f":
            raise runs.UserError(f"evaluation of {tid} failed")
        return {"loss": runs.loss_of(tid), "cost": runs.cost_of(tid)}

    return run_pipeline


def run_public(root, fn, **kw):
    import neps

    kw.setdefault("searcher", "random_search")
    kw.setdefault("post_run_summary", False)
    neps.run(run_pipeline=fn, pipeline_space={"x": neps.Float(0, 1)}, root_directory=root, **kw)


def run_worker(root, fn, on_error="ignore", default_values=None, **kw):
    from pathlib import Path

    from neps.runtime import DefaultWorker
    from neps.state.filebased import load_filebased_neps_state
    from neps.state.settings import DefaultReportValues, OnErrorPossibilities, WorkerSettings

    base = dict(max_evaluations_total=None, include_in_progress_evaluations_towards_maximum=False,
                max_cost_total=None, max_evaluation_time_total_seconds=None, max_evaluations_for_worker=None,
                max_cost_for_worker=None, max_evaluation_time_for_worker_seconds=None,
                max_wallclock_time_for_worker_seconds=None)
    base.update(kw)
    DefaultWorker.new(
        state=load_filebased_neps_state(Path(root)), optimizer=runs.make_optimizer(), evaluation_fn=fn,
        settings=WorkerSettings(on_error=OnErrorPossibilities(on_error),
                                default_report_values=DefaultReportValues(**(default_values or {})), **base)).run()


class Model:
    """Reference: what the shared state is and which evaluations a worker has to do."""

    def __init__(self, initial):
        self.trials = []  # [state letter, cost, duration]
        for i, c in enumerate(initial):
            tid = str(i + 1)
            self.trials.append([c, runs.cost_of(tid) if c == "s" else None, 0.5 if c in "sf" else None])
        self.errors = [str(i + 1) for i, c in enumerate(initial) if c == "f"]

    def worker(self, behave, done, total=None, in_progress=True, per_run=None, cost_total=None, cost_run=None,
               time_total=None, time_run=None, wall=None, on_error="ignore", cost_on_error=None, duration=0.0, cap=CAP):
        """Returns (ids evaluated, how it ends)."""
        out = []
        n, spent, t, failed = 0, 0.0, 0.0, False
        while True:
            if failed and on_error != "ignore":
                return out, "raise" if on_error.startswith("raise") else "stop"
            if per_run is not None and n >= per_run:
                return out, "stop"
            if cost_run is not None and spent >= cost_run:
                return out, "stop"
            if wall is not None and t >= wall:
                return out, "stop"
            if time_run is not None and t >= time_run:
                return out, "stop"
            if on_error.endswith("any_error") and self.errors:
                return out, "raise" if on_error.startswith("raise") else "stop"
            rep = [x for x in self.trials if x[0] in "sf"]
            if total is not None:
                cnt = len(rep) + (sum(1 for x in self.trials if x[0] == "e") if in_progress else 0)
                if cnt >= total:
                    return out, "stop"
            if cost_total is not None and sum(x[1] for x in rep if x[1] is not None) >= cost_total:
                return out, "stop"
            if time_total is not None and sum(x[2] for x in rep) >= time_total:
                return out, "stop"
            k = next((i for i, x in enumerate(self.trials) if x[0] == "p"), None)
            if k is None:
                self.trials.append(["p", None, None])
                k = len(self.trials) - 1
            if done + len(out) >= cap:
                return out, "cap"
            tid = str(k + 1)
            b = behave(done + len(out))
            out.append(tid)
            n += 1
            t += duration
            c = runs.cost_of(tid) if b == "o" else cost_on_error
            self.trials[k] = ["s" if b == "o" else "f", c, duration]
            spent += c or 0.0
            if b == "f":
                self.errors.append(tid)
                failed = True


def actual(root):
    s = runs.view(root)
    letter = {"success": "s", "crashed": "f", "failed": "f", "evaluating": "e", "pending": "p"}
    ids = sorted(s["trials"], key=int)
    return {"ids": ids, "states": [letter.get(s["trials"][i]["state"], "?") for i in ids],
            "errors": [e[0] for e in s["errors"]], "cost": s["cost"], "trials": s["trials"]}


_templates = {}


def template(initial):
    """Directory with the given trials, prepared once per process, always restored under the same path."""
    import shutil

    from lib.harness import fresh_dir

    key = (initial, os.getpid())
    root = fresh_dir("root")
    if key not in _templates:
        r = core._forked(lambda: (runs.prepare_dir(root, initial), None)[1])
        if not r["ok"]:
            raise RuntimeError(f"preparing {initial!r}: {r['err']} {r['tb']}")
        t = fresh_dir("tpl_" + (initial or "none"))
        shutil.copytree(root, t)
        _templates[key] = t
    else:
        shutil.copytree(_templates[key], root)
    return root


def call(f, *a, **kw):
    """(how it ended, exception)"""
    try:
        f(*a, **kw)
    except Enough:
        return "cap", None
    except Exception as e:  # noqa: BLE001
        from neps.exceptions import WorkerRaiseError

        return ("raise" if isinstance(e, WorkerRaiseError) else "error"), e
    return "stop", None
