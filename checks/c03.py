from checks.c01 import RULE
from lib.runs import ClaimScenario, ObserverScenario, ReportScenario, RunScenario, SampleScenario, explore


def run(ck):
    ck.rule = RULE
    q = ck.quick
    plan = [
        (RunScenario("start", trials=None, total=2), 1 if q else 2),
        (RunScenario("start_three", nworkers=3, trials=None, total=2), 1),
        (RunScenario("pending", trials="pp", total=2), 1 if q else 3),
        (RunScenario("one_done", trials="s", total=2), 1 if q else 2),
        (RunScenario("summary", trials="s", total=2, kw={"post_run_summary": True}), 1 if q else 2),
        (ObserverScenario("status", trials="sp", total=3, looks=2), 1 if q else 2),
        (SampleScenario("sample", nworkers=2, k=1), 3),
        (SampleScenario("sample_three", nworkers=3, k=1), 1 if q else 2),
        (ReportScenario("report", "of", also_sample=True), 2 if q else 3),
        (ClaimScenario("claim", trials="pp", tries=2), 2 if q else 3),
    ]
    explore(ck, plan, ("C03",), 300 if q else 3000)
