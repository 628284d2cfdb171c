from lib.runs import RunScenario, explore

RULE = ("every schedule of the real worker processes with at most B pre-emptions at operations on shared, not "
        "consistently locked files and at lock acquisitions; non-trivial = the trace contains a switch away from a "
        "worker that could have continued")


def run(ck):
    ck.rule = RULE
    q = ck.quick
    plan = [
        (RunScenario("pending2", trials="pp", total=2), 2),
        (RunScenario("mixed", trials="sepp", total=3), 1 if q else 2),
        (RunScenario("start", trials=None, total=2), 1 if q else 2),
        (RunScenario("one_done", trials="s", total=3), 1 if q else 2),
        (RunScenario("three_workers", nworkers=3, trials="pp", total=2), 1),
    ]
    explore(ck, plan, ("C01",), 300 if q else 3000)
