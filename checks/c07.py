import neps

from lib.runs import CrashScenario, explore_crashes

RULE = ("every (state-changing file-system operation, user-code point or unlock) of a run as crash point, killed right "
        "after it and, for data writes, with half of the data written; each followed by status and a restart of the "
        "same run; non-trivial = the worker was killed")


def fidelity_space():
    return {"x": neps.Float(0, 1), "epochs": neps.Integer(1, 3, is_fidelity=True)}


def fail_second(w, t, n):
    return "fail" if n == 0 and w == 0 else "ok"


def run(ck):
    ck.rule = RULE
    ck.level = "fault_enumeration"
    plan = [
        (CrashScenario("start", trials=None, total=2), 0, {}),
        (CrashScenario("continue_fail", trials="sfp", total=4, behave=fail_second, ignore_errors=True), 0, {}),
        (CrashScenario("halving", before=3, total=5, searcher="successive_halving", space=fidelity_space), 0, {}),
        (CrashScenario("summary", trials="sfe", total=3, ignore_errors=True, post_run_summary=True), 0, {}),
    ]
    explore_crashes(ck, plan, ("C07",), 300 if ck.quick else 3000)
