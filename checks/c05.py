import itertools

from lib import runs, seq
from lib.harness import Violation, fresh_dir, keyed, require, reseed
from lib.runs import PolicyScenario, explore

RULE = ("every combination of error policy, initial trial states, outcome sequence and restarts within the bounds "
        "compared with a reference; every searcher x every success/failure sequence of bounded length with "
        "ignore_errors; plus every schedule of concurrent workers of each policy with at most B pre-emptions")

POLICIES = ("ignore", "raise_worker_error", "stop_worker_error", "raise_any_error", "stop_any_error")


def policy_cases(quick):
    inits = ["", "s", "f", "p", "fp", "sf", "ep"]
    n = 3 if quick else 4
    for pol in POLICIES:
        for i in inits:
            for pat in itertools.product("of", repeat=n):
                for total in (3, 5):
                    yield (pol, i, "".join(pat), total)


def check_after(root, m, what):
    a = seq.actual(root)
    require(a["states"] == [t[0] for t in m.trials],
            lambda: f"{what}: trials are {a['states']}, expected {[t[0] for t in m.trials]}")
    require(a["errors"] == m.errors, lambda: f"{what}: recorded errors {a['errors']}, expected {m.errors}")


def check_cause(e, own, model, what):
    c = e.__cause__ or e.__context__
    require(c is not None, f"{what}: the raised error does not name its cause")
    tid = own if own is not None else model.errors[-1]
    require(f"evaluation of {tid} failed" in str(c), lambda: f"{what}: caused by {c!r}, expected failure of {tid}")


def policy_case(case):
    pol, init, pat, total = case
    root = seq.template(init)
    behave = (pat + "o" * 9).__getitem__
    m = seq.Model(init)
    log = []
    for r in range(3):
        before = len(log)
        exp, how = m.worker(behave, before, total=total, in_progress=False, on_error=pol)
        got, e = seq.call(seq.run_worker, root, seq.function(log, behave), on_error=pol, max_evaluations_total=total)
        what = f"run {r}"
        if got == "error":
            raise Violation(f"{what}: unexpected {type(e).__name__}: {e}")
        require(got == how and len(log) - before == len(exp),
                lambda: f"{what}: evaluated {log[before:]} and ended by {got}, expected {exp} and {how}")
        if how == "raise":
            own = log[-1][0] if len(log) > before and log[-1][1] == "f" else None
            check_cause(e, own, m, what)
        check_after(root, m, what)
        if how == "cap":
            break
    return {"stats": {"evaluations_run": len(log)}}


def public_cases(quick):
    for ign in (True, False):
        for i in ["", "s", "f", "p", "fp", "sf"]:
            for pat in itertools.product("of", repeat=3):
                for lv in (None, 7.5):
                    yield (ign, i, "".join(pat), lv)


def public_case(case):
    ign, init, pat, lv = case
    root = seq.template(init)
    behave = (pat + "o" * 9).__getitem__
    m = seq.Model(init)
    log = []
    for r in range(2):
        before = len(log)
        exp, how = m.worker(behave, before, total=4, on_error="ignore" if ign else "raise_any_error", cost_on_error=lv)
        kw = {} if lv is None else dict(loss_value_on_error=lv, cost_value_on_error=lv)
        got, e = seq.call(seq.run_public, root, seq.function(log, behave), ignore_errors=ign, max_evaluations_total=4,
                          **kw)
        what = f"run {r}"
        if got == "error":
            raise Violation(f"{what}: unexpected {type(e).__name__}: {e}")
        require(got == how and len(log) - before == len(exp),
                lambda: f"{what}: evaluated {log[before:]} and ended by {got}, expected {exp} and {how}")
        check_after(root, m, what)
        s = seq.actual(root)["trials"]
        for tid, b in log:
            rep = s[tid]["report"]
            if b == "f":
                require(rep["loss"] == lv and rep["cost"] == lv and rep["err"] == f"evaluation of {tid} failed",
                        lambda: f"{what}: failure of {tid} is stored as {rep}")
    return {"stats": {"evaluations_run": len(log)}}


SEARCHERS = ("random_search", "grid_search", "bayesian_optimization", "bo_cost", "pibo", "successive_halving",
             "successive_halving_prior", "asha", "hyperband", "asha_prior", "priorband", "mobster", "priorband_bo",
             "hyperband_custom_default", "priorband_asha", "priorband_asha_hyperband")
NEEDS_FIDELITY = set(SEARCHERS[5:])
NO_CONFIG = ("grid_search", "hyperband_custom_default", "priorband_asha", "priorband_asha_hyperband")


def searcher_cases(quick):
    n = 5 if quick else 7
    for s in SEARCHERS:
        k = n
        if s in ("bayesian_optimization", "bo_cost", "pibo"):
            k = 4 if quick else 5
        for pat in itertools.product("of", repeat=k):
            yield (s, "".join(pat))
    for s in ("mobster", "priorband_bo"):
        yield (s, "o" * 24)
        yield (s, "f" + "o" * 23)


def searcher_case(case):
    import neps
    from neps.optimizers import SearcherMapping
    from neps.search_spaces import SearchSpace

    name, pat = case
    if len(pat) > 9:
        reseed("long", 0)
    root = fresh_dir("root")
    sp = {"x": neps.Float(0, 1, default=0.4, default_confidence="low"), "c": neps.Categorical(["a", "b"], default="b")}
    if name in NEEDS_FIDELITY:
        sp["e"] = neps.Integer(1, 3, is_fidelity=True)
    log = []
    f = seq.function(log, (pat + "o" * 20).__getitem__, cap=len(pat) + 3)
    kw = {}
    if name == "bo_cost":
        name = "bayesian_optimization"
        kw.update(use_cost=True, max_cost_total=1e6)
    if name in ("bayesian_optimization", "pibo"):
        kw["initial_design_size"] = 2
    if name in NO_CONFIG:
        searcher = SearcherMapping[name](pipeline_space=SearchSpace(**sp), ignore_errors=True, budget=100)
    else:
        searcher = name
    keyed(case[0], neps.run, run_pipeline=f, pipeline_space=sp, root_directory=root, searcher=searcher, ignore_errors=True,
             max_evaluations_total=len(pat), post_run_summary=False, **kw)
    require(len(log) == len(pat), f"{len(log)} evaluations, {len(pat)} were asked for")
    return {"stats": {"evaluations_run": len(log)}}


def run(ck):
    ck.rule = RULE
    ck.level = "model_checking"
    q = ck.quick
    ck.enumerate("policy", policy_cases(q), policy_case)
    ck.enumerate("public", public_cases(q), public_case)
    ck.enumerate("searchers", searcher_cases(q), searcher_case)
    if ck.violations:
        return
    plan = [(PolicyScenario(p, p), 1 if q else 2) for p in POLICIES]
    plan += [(PolicyScenario(p + "_waiting", p, trials="pp", total=3), 1 if q else 2) for p in POLICIES]
    explore(ck, plan, ("C05",), 500 if q else 4000)
