import itertools

from lib import halving
from lib.harness import Violation, keyed, require, reseed, same
from lib.legal import P, illegal, make_space

RULE = ("every sequence of proposals and results (two losses, failure) up to the given length with at most two pending trials, "
        "for every searcher and search space listed; every proposal is checked against the definition of the space and "
        "compared with that of a fresh searcher object and with those for other orders of the trials; distinct = "
        "(searcher, space, sequence)")

PLAIN = ("random_search", "random_prior", "grid_search", "grid_seeded", "bayesian_optimization", "bo_cost", "pibo")
HALVING = ("successive_halving", "successive_halving_prior", "asha", "asha_prior", "hyperband", "hyperband_custom_default",
           "priorband", "priorband_crossover", "priorband_asha", "priorband_asha_hyperband", "mobster", "priorband_bo",
           "hyperband_interleave")
MODEL = ("bayesian_optimization", "bo_cost", "pibo")


def spaces(name):
    fid = {} if name in PLAIN else {"e": P("int", 1, 4, fid=True)}
    ffid = {} if name in PLAIN else {"e": P("float", 1.0, 5.5, fid=True)}
    mixed = {"x": P("float", 0.0, 1.0, default=0.25), "i": P("int", 1, 1000, log=True, default=30),
             "c": P("cat", choices=("a", "b", "d"), default="b"), "k": P("const", value=5), **fid}
    tiny = {"l": P("float", 1e-4, 1e-1, log=True, default=1e-2), "j": P("int", -2, -1, default=-2),
            "b": P("cat", choices=(True, False), default=False), **ffid}
    cats = {"c": P("cat", choices=(1, 0.5, "two"), default=0.5), "d": P("cat", choices=("p", "q"), default="q"),
            "s": P("const", value="text"), **fid}
    out = {"mixed": mixed, "tiny": tiny, "cats": cats}
    if name == "cats" or name in MODEL or name in ("mobster", "priorband_bo"):
        out.pop("cats")  # the models need distinct points: decided in C17 for the encoding alone
    if name in ("random_search", "random_prior"):
        out["fidelity"] = {**mixed, "e": P("int", 1, 9, fid=True)}
    if name in ("pibo", "random_prior", "asha_prior"):  # only some of the parameters have a prior
        out["partial"] = {"b": P("cat", choices=(True, False)), "l": P("float", 1e-4, 1e-1, log=True),
                          "m": P("int", 3, 90, log=True, default=9), "z": P("cat", choices=("p", "q", "r"), default="q"), **ffid}
    return out


def make(name, space):
    from neps.optimizers import SearcherMapping

    kw = dict(pipeline_space=make_space(space))
    if name in PLAIN:
        kw["budget"] = 100
    if name == "random_prior":
        name, kw["use_priors"] = "random_search", True
    if name in ("grid_search", "grid_seeded"):
        kw["grid_step_size"] = 3
        if name == "grid_seeded":
            kw["seed"] = 7
        return SearcherMapping["grid_search"](**kw)
    if name == "random_search":
        return SearcherMapping[name](**kw)
    kw["ignore_errors"] = True
    kw["budget"] = 100
    if name in MODEL:
        kw["initial_design_size"] = 2
        if name == "bo_cost":
            name, kw["use_cost"] = "bayesian_optimization", True
        kw.pop("ignore_errors")
        return SearcherMapping[name](**kw)
    kw["eta"] = 2
    if name == "priorband_crossover":
        name, kw["inc_sample_type"] = "priorband", "crossover"
    if name == "hyperband_interleave":
        name, kw["random_interleave_prob"] = "hyperband", 0.5
    return SearcherMapping[name](**kw)


def histories(asks, workers, values, suffix=True):
    """Every word over A (ask) and o/n + value (finish the oldest/newest pending trial) with `asks` asks, ending with an ask."""
    def rec(word, n, pend):
        if n == asks:
            yield word
            return
        if pend < workers:
            yield from rec(word + ("A",), n + 1, pend + 1)
        if pend:
            for v in values:
                yield from rec(word + ("o" + v,), n, pend - 1)
                if pend > 1:
                    yield from rec(word + ("n" + v,), n, pend - 1)
    yield from rec((), 0, 0)


def words(n, k):
    """Sequential histories whose results repeat with a period of at most k."""
    for p in range(1, k + 1):
        for w in itertools.product("12F", repeat=p):
            if p == 1 or len(set(w)) > 1:
                r = list(itertools.islice(itertools.cycle(w), n))
                yield tuple(x for v in r for x in ("A", "o" + v)) + ("A",)


def cases(quick):
    for name in PLAIN + HALVING:
        for sp in spaces(name):
            if name in MODEL:
                if sp == "mixed" or not quick:
                    for h in histories(4, 1, "12F" if not quick else "1F"):
                        yield (name, sp, h)
                    for h in histories(3, 2, "1F"):
                        yield (name, sp, h)
                else:
                    for h in histories(3, 1, "1F"):
                        yield (name, sp, h)
                continue
            small = name in PLAIN or sp != "mixed"
            for h in histories(4 if small and quick else 5, 1, "12F"):
                yield (name, sp, h)
            for h in histories(3 if small and quick else 4, 2, "1F" if quick else "12F"):
                yield (name, sp, h)
            if name not in ("mobster", "priorband_bo", "grid_search", "grid_seeded"):
                for h in words(13, 2 if quick else 3):
                    yield (name, sp, h)


def new_trial(s, k):
    from neps.state.trial import Trial

    return Trial.new(trial_id=s.id, config=dict(s.config), location="/x/" + s.id, previous_trial=s.previous_config_id,
                     previous_trial_location=None, time_sampled=float(k), worker_id="w")


def report(t, v, k):
    if k % 2:
        t.set_evaluating(time_started=1.0, worker_id="w")
    ok = v != "F"
    loss = None if not ok else 0.1 * int(v) + 0.01 * ((k * 7) % 5)
    t.report = t.set_complete(report_as="success" if ok else "crashed", time_end=2.0, loss=loss,
                              cost=1.0 + k % 2 if ok else None, learning_curve=None,
                              err=None if ok else ValueError("no"), tb=None if ok else "tb", extra={}, evaluation_duration=1.0)


def ask(opt, trials, tag):
    from neps.state.optimizer import BudgetInfo

    reseed(tag)
    s = opt.ask(trials=trials, budget_info=BudgetInfo(max_cost_budget=100.0, used_cost_budget=float(len(trials))))
    return s


def plain(s):
    return (s.id, dict(s.config), s.previous_config_id)


def check_proposal(space, trials, s, spec_levels):
    require(isinstance(s.id, str) and s.id, lambda: f"id {s.id!r}")
    require(s.id not in trials, lambda: f"id {s.id!r} is used by an earlier trial")
    b = illegal(space, dict(s.config))
    require(b is None, lambda: f"proposal {s.id}: {b}")
    for k, p in space.items():
        if p.fid:
            require(any(abs(s.config[k] - x) < 1e-9 for x in spec_levels), lambda: f"proposal {s.id}: budget {s.config[k]!r} is "
                    f"not one of {spec_levels}")
    if s.previous_config_id is not None:
        require(s.previous_config_id in trials, lambda: f"{s.id} continues {s.previous_config_id}, which does not exist")
        old = trials[s.previous_config_id].config
        for k, p in space.items():
            if p.fid:
                require(old[k] < s.config[k], lambda: f"{s.id} continues {s.previous_config_id} without a larger budget")
            else:
                require(same(old[k], s.config[k]), lambda: f"{s.id} continues {s.previous_config_id} but changes {k} from "
                        f"{old[k]!r} to {s.config[k]!r}")


def levels(name, space):
    for p in space.values():
        if p.fid:
            if name in PLAIN:
                return [p.hi]
            s = halving.Spec("sh", 2, p.lo, p.hi, 0, "", None)
            return [s.budget(r) for r in range(s.smax + 1)]
    return []


def case_fn(case):
    name, spn, hist = case
    space = spaces(name)[spn]
    opt = make(name, space)
    lev = levels(name, space)
    trials, pend = {}, []
    n = 0
    asks = hist.count("A")
    long = asks > 9
    viol = []
    for step in hist:
        if step != "A":
            t = pend.pop(0 if step[0] == "o" else -1)
            report(t, step[1], n)
            continue
        n += 1
        tag = f"{name}{spn}{n}"
        what = f"{name} on {spn} after {len(trials)} trials"
        s = keyed(f"{name}", ask, opt, trials, tag)
        check_proposal(space, trials, s, lev)
        if n == asks or long and n > 9:
            compare(name, what, space, trials, s, tag, viol)
        t = new_trial(s, n)
        trials[s.id] = t
        pend.append(t)
    return {"stats": {"proposals": n}, "viol": viol}


def compare(name, what, space, trials, s, tag, viol):
    f = ask(make(name, space), trials, tag)
    if not same(plain(f), plain(s)):
        if name in MODEL:
            g = make(name, space)
            ask(g, {}, f"{tag.rstrip('0123456789')}1")
            f = ask(g, trials, tag)
            if same(plain(f), plain(s)):
                viol.append((f"{name}: the initial design is kept in memory only",
                             f"{what}: a new searcher object proposes something else than the one that drew the initial design"))
        if not same(plain(f), plain(s)):
            raise Violation(f"{what}: a new searcher object proposes {plain(f)}, one used before {plain(s)}")
    if name in MODEL and len(trials) > 2:
        return
    keys = list(trials)
    for o in (keys[::-1], sorted(keys, key=lambda k: (halving.hash_(k), k)), keys[1:] + keys[:1]):
        if o != keys and name not in MODEL:
            f = ask(make(name, space), {k: trials[k] for k in o}, tag)
            require(same(plain(f), plain(s)), lambda: f"{what}: proposes {plain(s)}, but {plain(f)} if the trials are listed as {o}")


def run(ck):
    ck.rule = RULE
    ck.level = "model_checking"
    ck.assumptions = [
        "histories start from an empty run and are produced by the searcher itself; losses are a few distinct finite numbers",
        "for the Gaussian-process searchers the order of listing is not compared (their arithmetic depends on it by rounding)",
        "ifbo is not covered (needs to download a surrogate)"]
    ck.enumerate("history", cases(ck.quick), case_fn)
