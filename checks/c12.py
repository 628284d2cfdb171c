from lib import halving
from lib.halving import Spec, conform, explore
from lib.harness import Violation

RULE = ("every state of the reference model of synchronous halving reachable with at most N proposals, at most W pending and "
        "results from V is put in front of the real searcher, whose proposal has to be one the model allows; states that "
        "differ only in results no later decision of the model looks at are represented by one of them; distinct = "
        "(searcher, settings, state, order of listing)")

F = "F"
ALL = ("up", "down", "mixed")


def sp(kind, eta, lo, hi, esr=0, default="", lve=None):
    return Spec(kind, eta, lo, hi, esr, default, lve)


def jobs(quick):
    """(spec, bound on proposals, bound on pending (negative: finished brackets collapsed), results, [(searcher, options,
    orders)])"""
    a = lambda *names, orders=("up",), options=(): [(n, options, orders) for n in names]  # noqa: E731
    sh, hb = "successive_halving", "hyperband"
    yield sp("sh", 2, 1, 4), 9, 2, (1, 2), a(sh, orders=("mixed",))
    yield sp("sh", 2, 1, 4), 8, 1, (1, 2, 3, F), a(sh, "successive_halving_prior", orders=("up", "down"))
    yield sp("sh", 2, 1, 4), 24, -1, (1, 2), a(sh, orders=ALL)
    yield sp("sh", 2, 1, 4, lve=1.5), 8, 1, (1, 2, F), a(sh)
    yield sp("sh", 2, 1, 4, lve=0.0), 8, 1, (1, 2, F), a(sh)
    yield sp("sh", 2, 1, 4, esr=1), 9, 2, (1, 2, F), a(sh, "successive_halving_prior")
    yield sp("sh", 2, 1, 4, esr=2), 5, 2, (1, F), a(sh)
    yield sp("sh", 3, 1, 3), 8, 2, (1, 2, F), a(sh)
    yield sp("sh", 2, 1.0, 5.0), 8, 1, (1, 2, F), a(sh)
    yield sp("sh", 2, 3, 13), 8, 1, (1, 2, F), a(sh)
    yield sp("sh", 4, 1, 4), 9, 1, (1, 2, F), a(sh)
    yield sp("sh", 2, 1, 4, default="first"), 8, 1, (1, 2, F), a("successive_halving_prior")
    yield sp("sh", 2, 1, 4, default="target"), 9, 2, (1, 2), a("successive_halving_prior")
    yield sp("sh", 3, 1, 9), 15, -1, (1,), a(sh, orders=("mixed",))
    yield sp("sh", 3, 1, 9), 11, 1, (1, 2), a(sh, orders=("mixed",))
    yield sp("hb", 2, 1, 4), 12, 2, (1, 2), a(hb, orders=("up",))
    yield sp("hb", 3, 1, 9), 20, -1, (1,), a(hb, orders=("mixed",))
    yield sp("hb", 2, 1, 4), 40, -1, (1, 2), a(hb, "hyperband_custom_default", orders=ALL)
    yield sp("hb", 2, 1, 4), 12, 1, (1, 2, 3, F), a(hb, orders=("down", "mixed"))
    yield sp("hb", 2, 1, 4), 12, 1, (1, 2, F), a("priorband", orders=("down", "mixed"))
    yield sp("hb", 2, 1, 4, lve=1.5), 12, 1, (1, 2, F), a(hb)
    yield sp("hb", 2, 1.0, 5.5), 12, 1, (1, 2, F), a(hb)
    yield sp("hb", 2, 1, 2), 10, 2, (1, 2, F), a(hb, "hyperband_custom_default")
    yield sp("hb", 3, 1, 3), 9, 2, (1, 2, F), a(hb)
    yield sp("hb", 2, 1, 4, default="target"), 10, 2, (1, 2), a("priorband")
    yield sp("hb", 2, 1, 4, default="first"), 12, 1, (1, 2, F), a("priorband", "hyperband_custom_default")
    if not quick:
        yield sp("sh", 2, 1, 4), 9, 2, (1, 2, F), a(sh, "successive_halving_prior", orders=("up", "mixed"))
        yield sp("sh", 2, 1, 4), 10, 3, (1, 2), a(sh)
        yield sp("sh", 3, 1, 3), 8, 3, (1, 2, F), a(sh)
        yield sp("sh", 2, 1, 8), 17, 1, (1, 2), a(sh)
        yield sp("sh", 3, 1, 9), 16, 1, (1, 2), a(sh, orders=("up", "down"))
        yield sp("hb", 2, 1, 4), 12, 2, (1, 2, F), a(hb, "priorband", "hyperband_custom_default")
        yield sp("hb", 2, 1, 4), 12, 3, (1, 2), a(hb)
        yield sp("hb", 3, 1, 9), 22, 1, (1, 2), a(hb, "priorband")
        yield sp("hb", 2, 1, 8), 14, 1, (1, 2), a(hb)
        yield sp("hb", 3, 1, 3), 12, 3, (1, 2, F), a(hb)


def case_fn(case):
    spec, name, options, orders, state = case
    bad, got = conform(name, spec, options, state, orders=orders)
    if bad:
        raise Violation(f"{name} {tuple(spec)} in state {state}: {bad[0]}")
    return {"stats": {"proposals_compared": len(orders), **{f"proposal:{g[0]}": 1 for g in got}}}


def run_jobs(ck, todo, fn):
    cases = []
    for spec, n, w, values, who in todo:
        asks, states, edges, complete = explore(spec, n, abs(w), values, limit=3 * 10 ** 6, collapse=w < 0)
        ck.add("model_states", states)
        ck.add("model_transitions", edges)
        ck.exhaustive &= complete
        cases += [(spec, *x, st) for x in who for st in asks]
    ck.enumerate("proposal", cases, fn)
    ck.extra["states"] = ck.stats.get("model_states", 0)
    ck.extra["transitions"] = ck.stats.get("model_transitions", 0)


def run(ck):
    ck.rule = RULE
    ck.level = "model_checking"
    ck.assumptions = [
        "results are compared through a few distinct losses and failures; eta and the fidelity range are those listed in "
        "checks/c12.py",
        "NaN losses returned by the user are outside the property",
        "one searcher object answers many states (that a searcher keeps no hidden state is decided by C14)"]
    run_jobs(ck, jobs(ck.quick), case_fn)
