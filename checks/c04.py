import itertools

from lib import seq
from lib.harness import Violation, require
from lib.runs import RunScenario, explore

RULE = ("every combination of initial trial states, stopping criteria, outcomes and restarts within the bounds, run "
        "by the real worker and compared with a reference count; plus every schedule of concurrent workers with at "
        "most B pre-emptions; distinct = distinct combinations / interleaved schedules")

PATTERNS = {"ok": "oooooooo", "fail1": "fooooooo", "fail2": "ofofofof", "allfail": "ffffffff"}


def public_cases(quick):
    inits = ["".join(t) for n in range(3 if quick else 4) for t in itertools.product("sfep", repeat=n)]
    if quick:
        inits += ["sfp", "ppe", "spf"]
    sets = []
    for total in (None, 1, 2, 3, 4):
        for per in (None, 0, 1, 2):
            for cost in (None, 2.0, 3.0, 7.5):
                for cont in ((False, True) if total else (False,)):
                    if total is None and cost is None:
                        continue
                    sets.append((total, per, cost, cont))
    for i in inits:
        for s in sets:
            for p in PATTERNS if not quick else ("ok", "fail2"):
                yield (i, s, p, None)
    for i in inits[:4]:
        for cost in (2.0, 5.0):
            for p in ("fail1", "fail2", "allfail"):
                yield (i, (None, None, cost, False), p, 1.5)


def public_case(case):
    init, (total, per, cost, cont), pattern, coe = case
    root = seq.template(init)
    behave = PATTERNS[pattern].__getitem__
    m = seq.Model(init)
    log = []
    nrun = 0
    for r in range(3):
        kw = dict(ignore_errors=True, continue_until_max_evaluation_completed=cont)
        if total is not None:
            kw["max_evaluations_total"] = total
        if per is not None:
            kw["max_evaluations_per_run"] = per
        if cost is not None:
            kw["max_cost_total"] = cost
        if coe is not None:
            kw["cost_value_on_error"] = coe
        before = len(log)
        exp, how = m.worker(behave, before, total=total, in_progress=not cont, per_run=per, cost_total=cost,
                            cost_on_error=coe)
        got, e = seq.call(seq.run_public, root, seq.function(log, behave), **kw)
        nrun += len(log) - before
        if e is not None:
            raise Violation(f"run {r}: {type(e).__name__}: {e}")
        require(got == how, lambda: f"run {r}: ended by {got}, expected {how} ({log[before:]}, expected {exp})")
        require(len(log) - before == len(exp),
                lambda: f"run {r}: evaluated {log[before:]}, expected {len(exp)} evaluations {exp}")
        if how == "cap":
            break
    return {"stats": {"evaluations_run": nrun}}


U = seq.UNIT


def worker_cases(quick):
    inits = ["", "s", "f", "p", "sp"] if quick else ["", "s", "f", "e", "p", "sp", "fp", "ep", "spp"]
    T = (None, 0.9 * U, 1.9 * U, 2.9 * U)
    for i in inits:
        for p in ("ok", "fail2"):
            for tt in T:
                for tr in T:
                    for wall in T:
                        for cr in (None, 2.0, 5.0):
                            if sum(x is not None for x in (tt, tr, wall, cr)) not in ((1,) if quick else (1, 2)):
                                if not (quick and sum(x is not None for x in (tt, tr, wall, cr)) == 2 and i in ("", "p")
                                        and p == "ok"):
                                    continue
                            for total in (None, 3):
                                yield (i, p, tt, tr, wall, cr, total)


def worker_case(case):
    init, pattern, tt, tr, wall, cr, total = case
    root = seq.template(init)
    behave = PATTERNS[pattern].__getitem__
    m = seq.Model(init)
    log = []
    for r in range(2):
        before = len(log)
        exp, how = m.worker(behave, before, total=total, in_progress=False, cost_run=cr, time_total=tt, time_run=tr,
                            wall=wall, duration=U)
        got, e = seq.call(seq.run_worker, root, seq.function(log, behave, duration=True), max_evaluations_total=total,
                          max_cost_for_worker=cr, max_evaluation_time_total_seconds=tt,
                          max_evaluation_time_for_worker_seconds=tr, max_wallclock_time_for_worker_seconds=wall)
        if e is not None:
            raise Violation(f"run {r}: {type(e).__name__}: {e}")
        require(got == how and len(log) - before == len(exp),
                lambda: f"run {r}: evaluated {log[before:]} ending by {got}, expected {exp} ending by {how}")
        if how == "cap":
            break
    return {"stats": {"evaluations_run": len(log)}}


def run(ck):
    ck.rule = RULE
    ck.level = "model_checking"
    q = ck.quick
    ck.enumerate("public", public_cases(q), public_case)
    ck.enumerate("worker", worker_cases(q), worker_case)
    if ck.violations:
        return
    plan = [
        (RunScenario("pending2", trials="pp", total=2), 1 if q else 2),
        (RunScenario("total", trials="s", total=3), 1 if q else 2),
        (RunScenario("per_run", trials="p", total=9, kw={"max_evaluations_per_run": 1}, extra_check=per_run,
                     reaches_total=False), 1),
        (RunScenario("cost", trials="s", total=None, kw={"max_cost_total": 5.0}, extra_check=cost_total), 1),
        (RunScenario("completed", trials="e", total=2, kw={"continue_until_max_evaluation_completed": True}), 1),
        (RunScenario("three_workers", nworkers=3, trials="", total=2), 0 if q else 1),
    ]
    explore(ck, plan, ("C04",), 500 if q else 3000)


def per_run(ex, s):
    from lib.runs import started

    v = []
    for w in ex.workers:
        n = sum(1 for x in started(ex) if x[0] == w.idx)
        if n != 1:
            v.append(f"C04: worker {w.idx} did {n} evaluations, 1 per run was asked for")
    return v


def cost_total(ex, s):
    """No evaluation starts once the finished ones (that the worker can see) cost enough."""
    from lib.runs import cost_of

    v = []
    cost = sum(t["report"]["cost"] for t in s["trials"].values() if t["report"] is not None)
    if cost < 5.0:
        v.append(f"C04: workers stopped at cost {cost}, 5 was asked for")
    spent, last = cost_of("1"), {}
    for w, tag, d in ex.events:
        if tag == "eval":
            last[w] = d
        if tag == "done":
            spent += cost_of(d)
    n = sum(1 for t in s["trials"].values() if t["report"] is not None)
    # 2 + 4 (+ 8): the second new trial is started only by a worker that does not see the result of the first
    if n > 3:
        v.append(f"C04: {n} evaluations although two already cost more than 5")
    return v
