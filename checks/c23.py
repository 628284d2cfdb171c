import itertools
import time
from pathlib import Path

from lib import runs, seq
from lib.harness import Violation, fresh_dir, require
from lib.runs import ClaimScenario, RunScenario, explore

RULE = ("every combination of trial states (up to the given length), sampling-time orders and restarts compared with a "
        "FIFO reference; plus every schedule of concurrent workers taking trials with at most B pre-emptions")


def state_cases(quick):
    for n in range(5 if quick else 6):
        for t in itertools.product("sfep", repeat=n):
            yield ("".join(t), None)
            if "p" in t:
                yield ("".join(t), 1)


def state_case(case):
    init, per = case
    root = seq.template(init)
    m = seq.Model(init)
    log = []
    waiting = [str(i + 1) for i, c in enumerate(init) if c == "p"]
    total = sum(c in "sf" for c in init) + len(waiting) + 2
    for r in range(1 if per is None else len(waiting) + 2):
        before = len(log)
        exp, how = m.worker(lambda i: "f" if i == 1 else "o", before, total=total, in_progress=False, per_run=per, cap=99)
        kw = {} if per is None else {"max_evaluations_per_run": per}
        got, e = seq.call(seq.run_public, root, seq.function(log, lambda i: "f" if i == 1 else "o", cap=99),
                          max_evaluations_total=total, ignore_errors=True,
                          continue_until_max_evaluation_completed=True, **kw)
        if e is not None:
            raise Violation(f"run {r}: {type(e).__name__}: {e}")
        ids = [t for t, _ in log[before:]]
        require(ids == exp, lambda: f"run {r}: evaluated {ids}, expected {exp}")
    return {"stats": {"evaluations_run": len(log)}}


def order_cases(quick):
    for n in (2, 3, 4):
        for perm in itertools.permutations(range(n)):
            for states in itertools.product("pe" if quick and n == 4 else "pes", repeat=n):
                if states.count("p") >= 2:
                    yield (perm, "".join(states))
    yield (tuple(range(12)), "p" * 12)
    yield (tuple(reversed(range(12))), "p" * 12)
    yield (tuple(range(11)), "spspspspspp")


def order_case(case):
    """Trial i is sampled at time perm[i]: workers on machines whose order of sampling differs from the order of ids."""
    from neps.state.filebased import load_filebased_neps_state

    perm, states = case
    root = seq.template("")
    st = load_filebased_neps_state(Path(root))
    opt = runs.make_optimizer()
    sampled = []
    off = 0.0
    for p in perm:
        seq.advance(100.0 * p - off)
        off = 100.0 * p
        sampled.append(st.sample_trial(opt, worker_id="template"))
    seq.advance(100.0 * len(perm) - off)
    for s, t in zip(states, sampled):
        if s != "p":
            t.set_evaluating(time_started=time.time(), worker_id="template")
            st.put_updated_trial(t)
            if s == "s":
                rep = t.set_complete(report_as="success", time_end=time.time(), loss=1.0, cost=1.0, learning_curve=None,
                                     err=None, tb=None, extra={}, evaluation_duration=1.0)
                st.report_trial_evaluation(t, rep, worker_id="template")
    want = [t.id for p, s, t in sorted(zip(perm, states, sampled), key=lambda x: x[0]) if s == "p"]
    st2 = load_filebased_neps_state(Path(root))
    t = st2.get_next_pending_trial()
    require(t is not None and t.id == want[0], lambda: f"next pending trial is {t and t.id}, expected {want[0]}")
    for k in range(len(want) + 2):
        got = [t.id for t in st2.get_next_pending_trial(n=k)]
        require(got == want[:k], lambda: f"next {k} pending trials are {got}, expected {want[:k]}")
    log = []
    n = len(want)
    seq.run_public(root, seq.function(log, lambda i: "o", cap=99), max_evaluations_total=99,
                   max_evaluations_per_run=n + 1)
    ids = [t for t, _ in log]
    new = str(len(perm) + 1)
    require(ids == [*want, new], lambda: f"evaluated {ids}, expected {[*want, new]}")


def run(ck):
    ck.rule = RULE
    ck.level = "model_checking"
    q = ck.quick
    ck.enumerate("states", state_cases(q), state_case)
    ck.enumerate("order", order_cases(q), order_case)
    if ck.violations:
        return
    plan = [
        (ClaimScenario("claim", trials="pp"), 3),
        (ClaimScenario("claim_twice", trials="eppp", tries=2), 1 if q else 2),
        (ClaimScenario("claim_three", nworkers=3, trials="ppp"), 1 if q else 2),
        (RunScenario("waiting", trials="sepp", total=4), 1 if q else 2),
        (RunScenario("waiting3", trials="ppp", total=4), 1 if q else 2),
    ]
    explore(ck, plan, ("C23",), 500 if q else 4000)
