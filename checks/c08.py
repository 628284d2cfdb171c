from lib.runs import KillScenario, explore_crashes

RULE = ("worker 0 is killed at every (state-changing operation, user-code point or unlock) x every schedule of all "
        "workers with at most B pre-emptions; non-trivial = somebody was killed")


def relevant(op):
    """Writing the temporary copy of a file is invisible for the others until it is moved into place."""
    return not op[1].endswith(".tmp")


def fail_first(w, t, n):
    return "fail" if n == 0 and w == 0 else "ok"


def run(ck):
    ck.rule = RULE
    ck.level = "fault_enumeration"
    q = ck.quick
    opt = {"select": relevant} if q else {}
    plan = [
        (KillScenario("pending", trials="pp" if q else "spp", total=2 if q else 3), 1, opt),
        (KillScenario("sample", trials="s", total=3), 0 if q else 1, opt),
        (KillScenario("start", trials=None, total=2), 0 if q else 1, opt),
        (KillScenario("fail", trials="sp", total=3, behave=fail_first, kw={"ignore_errors": True}), 0 if q else 1, opt),
        (KillScenario("three", nworkers=3, trials="p", total=3), 0, opt),
    ]
    explore_crashes(ck, plan, ("C08",), 500 if q else 6000)
