from checks.c01 import RULE
from lib.runs import ReportScenario, RunScenario, explore


def fail_first(w, t, n):
    return "fail" if (w == 1 and n == 0) else "ok"


def run(ck):
    ck.rule = RULE
    q = ck.quick
    plan = [
        (ReportScenario("report_ok_fail", "of"), 3),
        (ReportScenario("report_fail_fail", "ff"), 3),
        (ReportScenario("report_and_sample", "fo", also_sample=True), 2 if q else 3),
        (ReportScenario("report_three", "fof"), 1 if q else 2),
        (RunScenario("run_fail", trials="s", total=3, behave=fail_first, kw={"ignore_errors": True}), 1 if q else 2),
        (RunScenario("run_pending", trials="fpp", total=3, behave=fail_first, kw={"ignore_errors": True}),
         1 if q else 2),
        (RunScenario("run_cost", trials="s", total=None, kw={"max_cost_total": 9.0}), 1 if q else 2),
        (RunScenario("run_start", trials=None, total=2), 1),
    ]
    explore(ck, plan, ("C02",), 300 if q else 3000)
