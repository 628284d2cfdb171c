from checks.c12 import run_jobs, sp
from lib.halving import conform
from lib.harness import Violation

RULE = ("every state of the reference model of asynchronous halving reachable with at most N proposals, at most W pending and "
        "results from V is put in front of the real searcher (for several values of its random number where it picks a "
        "bracket by chance), whose proposal has to be one the model allows; states that differ only in results no later "
        "decision of the model looks at are represented by one of them; distinct = (searcher, settings, state, order)")

F = "F"


def jobs(quick):
    a = lambda *names, orders=("up",), seeds=(0,): [(n, (), (orders, seeds)) for n in names]  # noqa: E731
    four = (0, 1, 2, 3)
    yield sp("asha", 2, 1, 4), 7, 2, (1, 2, F), a("asha", orders=("up", "mixed"))
    yield sp("asha", 2, 1, 4), 9, 1, (1, 2, 3), a("asha", orders=("down",))
    yield sp("asha", 2, 1, 4), 7, 1, (1, 2, F), a("asha_prior", "priorband_asha", orders=("down", "mixed"))
    yield sp("asha", 3, 1, 9), 8, 2, (1, 2), a("asha", orders=("mixed",))
    yield sp("asha", 3, 1, 9), 10, 1, (1, 2), a("asha")
    yield sp("asha", 2, 1, 4, lve=1.5), 7, 1, (1, 2, F), a("asha")
    yield sp("asha", 2, 1, 4, esr=1), 7, 2, (1, 2, F), a("asha")
    yield sp("asha", 2, 1, 4, esr=2), 5, 2, (1, F), a("asha")
    yield sp("asha", 2, 1.0, 5.5), 6, 2, (1, 2, F), a("asha")
    yield sp("asha", 2, 1, 4, default="first"), 6, 1, (1, 2, F), a("asha_prior", "priorband_asha")
    yield sp("asha", 2, 1, 4, default="target"), 6, 2, (1, 2, F), a("asha_prior")
    yield sp("asha", 2, 1, 4, default="target"), 6, 1, (1, 2, F), a("priorband_asha")
    yield sp("ahb", 2, 1, 4), 5, 2, (1, 2), a("priorband_asha_hyperband", seeds=four)
    yield sp("ahb", 2, 1, 4), 5, 1, (1, 2, F), a("priorband_asha_hyperband", orders=("down",), seeds=four)
    yield sp("ahb", 2, 1, 4), 4, 2, (1, 2, F), a("mobster", seeds=four)
    yield sp("ahb", 3, 1, 3), 6, 2, (1, 2), a("priorband_asha_hyperband", orders=("mixed",), seeds=(0, 1))
    yield sp("ahb", 2, 1, 4, default="target"), 5, 1, (1, 2), a("priorband_asha_hyperband", seeds=four)
    if not quick:
        yield sp("asha", 2, 1, 4), 8, 3, (1, 2, F), a("asha", orders=("up", "mixed"))
        yield sp("asha", 2, 1, 4), 9, 2, (1, 2), a("asha_prior", "priorband_asha")
        yield sp("asha", 3, 1, 9), 10, 2, (1, 2), a("asha", orders=("up", "mixed"))
        yield sp("asha", 2, 1, 8), 11, 1, (1, 2), a("asha")
        yield sp("asha", 2, 1, 4, esr=1), 9, 2, (1, 2, F), a("asha", "asha_prior")
        yield sp("ahb", 2, 1, 4), 6, 2, (1, 2), a("priorband_asha_hyperband", seeds=four)
        yield sp("ahb", 3, 1, 3), 8, 2, (1, 2), a("priorband_asha_hyperband", seeds=(0, 1))
        yield sp("ahb", 3, 1, 3), 4, 3, (1, 2, F), a("mobster", seeds=four)


def case_fn(case):
    spec, name, options, (orders, seeds), state = case
    bad, got = conform(name, spec, options, state, orders=orders, seeds=seeds)
    if bad:
        raise Violation(f"{name} {tuple(spec)} in state {state}: {bad[0]}")
    return {"stats": {"proposals_compared": len(orders) * len(seeds), **{f"proposal:{g[0]}": 1 for g in got}}}


def run(ck):
    ck.rule = RULE
    ck.level = "model_checking"
    ck.assumptions = [
        "results are compared through a few distinct losses and failures; eta and the fidelity range are those listed in "
        "checks/c13.py",
        "a level's members are the finished configurations whose highest level it is (as in the implementation): a promoted "
        "configuration no longer counts at the level it left",
        "mobster is compared within its initial design only (its model phase is a known finding of C05)",
        "one searcher object answers many states (that a searcher keeps no hidden state is decided by C14)"]
    run_jobs(ck, jobs(ck.quick), case_fn)
