"""Reference model of the halving searchers and the conformance of the real ones with it.

A state of the model is a tuple with one entry per configuration: (level it started at, results per level reached), a
result being 'P' (pending), 'F' (failed) or a loss. decide() gives the proposals that are correct in a state; explore()
enumerates every state reachable within the bounds, from the model alone; conform() puts a state in front of the real
searcher and compares its proposal.
"""
from __future__ import annotations

import collections
import itertools
import os
import random


class Spec(collections.namedtuple("Spec", "kind eta lo hi esr default lve")):
    """kind: sh, hb, asha, ahb; default: '' | 'first' | 'target'; lve: replacement loss of a failure or None"""

    @property
    def smax(self):
        k = 0
        while self.lo * self.eta ** (k + 1) <= self.hi:
            k += 1
        return k

    def budget(self, r):
        b = self.hi / self.eta ** (self.smax - r)
        return int(b) if isinstance(self.hi, int) else b

    def sizes(self, s):
        n = (self.smax + 1) // (self.smax - s + 1) * self.eta ** (self.smax - s)
        out = {}
        for r in range(s, self.smax + 1):
            out[r] = n
            n //= self.eta
        return out

    @property
    def offset(self):
        return 1 if self.default == "target" else 0

    def perf(self, v):
        if v == "F":
            return float("inf") if self.lve is None else self.lve
        return float(v)


def cur(e):
    return e[0] + len(e[1]) - 1


def last(e):
    return e[1][-1]


def best(spec, cands, state, k):
    """Members of some correct choice of the k best."""
    p = {c: spec.perf(last(state[c])) for c in cands}
    return {c for c in cands if sum(1 for d in cands if p[d] < p[c]) < k}


def first_of(spec, cands, state):
    m = min(spec.perf(last(state[c])) for c in cands)
    return {c for c in cands if spec.perf(last(state[c])) == m}


def decide(spec, state):
    """(allowed proposals, proposals to explore); ('new', level) or ('promote', configuration, level it has)"""
    if not state and spec.default == "target":
        a = {("new", spec.smax)}
        return a, a
    if spec.kind in ("sh", "hb"):
        i, b = spec.offset, 0
        while True:
            s = spec.esr if spec.kind == "sh" else b % (spec.smax + 1)
            size = spec.sizes(s)
            ids = range(i, min(i + size[s], len(state)))
            if len(ids) < size[s]:
                a = {("new", s)}
                return a, a
            for r in range(s, spec.smax):
                up = [c for c in ids if cur(state[c]) > r]
                if len(up) < size[r + 1]:
                    here = [c for c in ids if cur(state[c]) == r]
                    if all(last(state[c]) != "P" for c in here):
                        k = size[r + 1] - len(up)
                        return ({("promote", c, r) for c in best(spec, here, state, k)},
                                {("promote", c, r) for c in first_of(spec, here, state)})
                    break
            i += size[s]
            b += 1
    brackets = [spec.esr] if spec.kind == "asha" else range(spec.smax + 1)
    allowed, explore = set(), set()
    for s in brackets:
        for r in reversed(range(s, spec.smax)):
            here = [c for c in range(spec.offset, len(state)) if cur(state[c]) == r and last(state[c]) != "P"]
            k = len(here) // spec.eta
            if k:
                allowed |= {("promote", c, r) for c in best(spec, here, state, k)}
                explore |= {("promote", c, r) for c in first_of(spec, here, state)}
                break
        else:
            allowed.add(("new", s))
            explore.add(("new", s))
    return allowed, explore


def step(state, a):
    if a[0] == "new":
        return state + ((a[1], ("P",)),)
    e = state[a[1]]
    return state[:a[1]] + ((e[0], e[1] + ("P",)),) + state[a[1] + 1:]


def finish(state, c, v):
    e = state[c]
    return state[:c] + ((e[0], e[1][:-1] + (v,)),) + state[c + 1:]


def key(spec, state, collapse=False):
    """What the future of a state depends on: results that no later decision looks at are dropped. With collapse, so is
    who was promoted in a bracket that is over."""
    out = []
    over = set()
    if spec.kind in ("sh", "hb"):
        look = set()
        i, b = spec.offset, 0
        while i < len(state):
            s = spec.esr if spec.kind == "sh" else b % (spec.smax + 1)
            size = spec.sizes(s)
            ids = range(i, min(i + size[s], len(state)))
            for r in range(s, spec.smax):
                if sum(1 for c in ids if cur(state[c]) > r) < size[r + 1]:
                    look.update(c for c in ids if cur(state[c]) >= r)
                    break
            else:
                if collapse and len(ids) == size[s] and all(last(state[c]) != "P" for c in ids):
                    over.update(ids)
            i += size[s]
            b += 1
    else:
        look = {c for c, e in enumerate(state) if c >= spec.offset and cur(e) < spec.smax}
    for c, e in enumerate(state):
        v = last(e)
        if c in over:
            out.append("over")
            continue
        out.append((e[0], cur(e), v if v == "P" or c in look and cur(e) < spec.smax else "*"))
    return tuple(out)


def explore(spec, max_trials, workers, values, limit=10 ** 6, collapse=False):
    """Every state reachable with at most max_trials proposals and at most `workers` of them pending. The result of a
    configuration is one of `values`. States that differ only in results no later decision looks at are represented by
    one of them. Returns (states in which a proposal is asked for, number of states, transitions, complete?)."""
    seen = {()}
    asks = []
    todo = collections.deque([()])
    edges = 0
    while todo:
        st = todo.popleft()
        n = sum(len(e[1]) for e in st)
        pend = [c for c, e in enumerate(st) if last(e) == "P"]
        nxt = []
        if n < max_trials and len(pend) < workers:
            nxt += [step(st, a) for a in sorted(decide(spec, st)[1])]
            asks.append(st)
        for c in pend:
            nxt += [finish(st, c, v) for v in values]
        for s in nxt:
            edges += 1
            k = key(spec, s, collapse)
            if k not in seen:
                if len(seen) >= limit:
                    return asks, len(seen), edges, False
                seen.add(k)
                todo.append(s)
    return asks, len(seen), edges, True


# ---- the real searcher -----------------------------------------------------------------------------
def space(spec, prior):
    import neps

    fid = neps.Integer if isinstance(spec.hi, int) else neps.Float
    d = dict(default=0.4) if prior else {}
    dc = dict(default="b") if prior else {}
    return {"x": neps.Float(0, 1, **d), "c": neps.Categorical(["a", "b", "q"], **dc), "k": neps.Constant(5),
            "e": fid(spec.lo, spec.hi, is_fidelity=True)}


PRIOR = {"successive_halving_prior", "asha_prior", "hyperband_custom_default", "priorband", "priorband_asha",
         "priorband_asha_hyperband", "priorband_bo"}


def make(name, spec, options=()):
    from neps.optimizers import SearcherMapping
    from neps.search_spaces import SearchSpace

    kw = dict(options)
    prior = name in PRIOR or kw.get("use_priors", False)
    if spec.kind in ("sh", "asha") and (spec.esr or name not in ("priorband",)):
        kw["early_stopping_rate"] = spec.esr
    if spec.lve is not None:
        kw["loss_value_on_error"] = spec.lve
        kw["cost_value_on_error"] = spec.lve
    return SearcherMapping[name](pipeline_space=SearchSpace(**space(spec, prior)), budget=100, eta=spec.eta,
                                 ignore_errors=spec.lve is None,
                                 sample_default_first=bool(spec.default), sample_default_at_target=spec.default == "target",
                                 **kw)


def config_of(c):
    return {"x": ((c * 37) % 101) / 100, "c": "abq"[c % 3], "k": 5}


def trials_of(spec, state):
    from neps.state.trial import Trial

    out = {}
    for c, (start, vals) in enumerate(state):
        for k, v in enumerate(vals):
            r = start + k
            tid = f"{c}_{r}"
            t = Trial.new(trial_id=tid, config={**config_of(c), "e": spec.budget(r)}, location="/x/" + tid,
                          previous_trial=f"{c}_{r - 1}" if k else None, previous_trial_location=None, time_sampled=float(c),
                          worker_id="w")
            if v != "P" or c % 2:
                t.set_evaluating(time_started=1.0, worker_id="w")
            if v != "P":
                ok = v != "F"
                t.report = t.set_complete(report_as="success" if ok else "crashed", time_end=2.0,
                                          loss=float(v) if ok else spec.lve, cost=1.0 if ok else spec.lve,
                                          learning_curve=[float(v)] if ok else None,
                                          err=None if ok else ValueError("no"), tb=None if ok else "tb",
                                          extra={}, evaluation_duration=1.0)
            out[tid] = t
    return out


def fixed_seed(k):
    """Seeds whose first uniform number of NumPy is spread over [0, 1)."""
    import numpy as np

    if not _seeds:
        want = [0.02, 0.97, 0.75, 0.5, 0.3, 0.9, 0.995, 0.1]
        for w in want:
            s = 0
            while not (w - 0.02 < np.random.RandomState(s).rand() < w + 0.004):
                s += 1
            _seeds.append(s)
    return _seeds[k]


_seeds = []


def seed(s):
    import numpy as np
    import torch

    random.seed(s)
    np.random.seed(s)
    torch.manual_seed(s)


_cache = {}


def searcher(name, spec, options=()):
    key = (os.getpid(), name, spec, options)
    if key not in _cache:
        if len(_cache) > 40:
            _cache.clear()
        _cache[key] = make(name, spec, options)
    return _cache[key]


def ask(opt, trials):
    from neps.state.optimizer import BudgetInfo

    return opt.ask(trials=trials, budget_info=BudgetInfo(max_cost_budget=100.0))


def proposal(spec, state, trials, s):
    """The proposal as ('new', level) or ('promote', configuration, level), or a description of what is wrong."""
    cid, sep, lev = s.id.partition("_")
    if not sep or not cid.isdigit() or not lev.isdigit():
        return None, f"id {s.id!r}"
    cid, lev = int(cid), int(lev)
    cfg = dict(s.config)
    if not 0 <= lev <= spec.smax:
        return None, f"level {lev} does not exist"
    b = spec.budget(lev)
    f = cfg.pop("e", None)
    if type(f) is not type(b) or abs(f - b) > 1e-9 * b:
        return None, f"{s.id} is proposed with budget {f!r}, the budget of level {lev} is {b!r}"
    if s.id in trials:
        return None, f"id {s.id} exists already"
    if s.previous_config_id is None:
        if cid != len(state):
            return None, f"a new configuration gets id {s.id}, {len(state)} configurations exist"
        ok = set(cfg) == {"x", "c", "k"} and type(cfg["x"]) is float and 0 <= cfg["x"] <= 1 and cfg["c"] in ("a", "b", "q") \
            and cfg["k"] == 5
        return (("new", lev), None) if ok else (None, f"illegal configuration {s.config}")
    if s.previous_config_id not in trials:
        return None, f"continues {s.previous_config_id}, which does not exist"
    if s.previous_config_id != f"{cid}_{lev - 1}":
        return None, f"{s.id} continues {s.previous_config_id}"
    if cfg != config_of(cid):
        return None, f"{s.id} has configuration {cfg}, its predecessor {config_of(cid)}"
    return ("promote", cid, lev - 1), None


def conform(name, spec, options, state, seeds=(0,), orders=("up",)):
    """Violations (list of texts) of the real searcher in this state, and its proposals."""
    out, got = [], set()
    allowed, _ = decide(spec, state)
    for o in orders:
        trials = trials_of(spec, state)
        keys = list(trials)
        if o == "down":
            keys.reverse()
        elif o == "mixed":
            keys.sort(key=lambda k: (hash_(k), k))
        trials = {k: trials[k] for k in keys}
        for k in seeds:
            seed(fixed_seed(k))
            p, bad = proposal(spec, state, trials, ask(searcher(name, spec, options), trials))
            if bad:
                out.append(f"{bad}; trials listed {o}")
            elif p not in allowed:
                out.append(f"proposes {p}, correct are {sorted(allowed)}; trials listed {o}")
            else:
                got.add(p)
    return out, got


def hash_(k):
    h = 7
    for ch in k:
        h = (h * 31 + ord(ch)) % 1009
    return h


def runs_of(spec, n, losses_of, asks):
    """Not used for exploration: sequential histories of larger brackets, one result order each."""
    state = ()
    for _ in range(asks):
        a = sorted(decide(spec, state)[1])[0]
        state = step(state, a)
        c = next(i for i, e in enumerate(state) if last(e) == "P")
        yield state
        state = finish(state, c, losses_of(c, cur(state[c])))
        yield state


def combos(n, k):
    return itertools.combinations(range(n), k)
