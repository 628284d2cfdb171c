import itertools
import json
import os
from pathlib import Path

from fsmc import core
from lib.harness import fresh_dir, require, same
from lib.runs import explore

RULE = ("every sequence of operations of two holders of one resource up to the given depth, for every kind of resource, "
        "compared with a versioned-register model; plus every schedule of concurrent holders with at most B "
        "pre-emptions, each history checked for linearizability by enumerating all orders of its operations")


# -- resources: build(i) gives the i-th distinct value, plain(v) its comparable content ------------
def _trial(i):
    from neps.state.trial import Trial

    t = Trial.new(trial_id="7", config={"a": i, "b": "x" * i}, location="/somewhere/config_7", previous_trial=None,
                  previous_trial_location=None, time_sampled=1.0 + i, worker_id=f"w{i}")
    if i % 3 >= 1:
        t.set_evaluating(time_started=2.0 + i, worker_id=f"e{i}")
    if i % 3 == 2:
        t.report = t.set_complete(report_as="success", time_end=3.0 + i, loss=float(i), cost=None, learning_curve=[1.0],
                                  err=None, tb=None, extra={"k": i}, evaluation_duration=0.5)
    return t


def _plain_trial(t):
    from dataclasses import asdict

    return [dict(t.config), asdict(t.metadata), t.state.value, None if t.report is None else asdict(t.report)]


def _optstate(i):
    from neps.state.optimizer import BudgetInfo, OptimizationState

    return OptimizationState(budget=BudgetInfo(max_cost_budget=10.0 + i, used_cost_budget=float(i)),
                             shared_state={"n": i, "l": list(range(i))})


def _plain_optstate(o):
    from dataclasses import asdict

    return asdict(o)


def _info(i):
    from neps.state.optimizer import OptimizerInfo

    return OptimizerInfo({"searcher": f"s{i}", "n": i})


def _errs(i):
    from neps.state.err_dump import ErrDump

    return ErrDump([ErrDump.SerializableTrialError(trial_id=str(k), worker_id=f"w{k}", err_type="E", err=f"m{i}",
                                                   tb=None if k % 2 else "t\nb") for k in range(i)])


def _plain_errs(e):
    from dataclasses import asdict

    return [asdict(x) for x in e.errs]


def _seed(i):
    import random

    import numpy as np
    import torch
    from neps.state.seed_snapshot import SeedSnapshot

    random.seed(i)
    np.random.seed(i)
    torch.manual_seed(i)
    if i % 2:
        random.gauss(0, 1)
        np.random.randn()
    return SeedSnapshot.new_capture()


def _plain_seed(s):
    return [[s.np_rng[0], s.np_rng[1].tolist(), *map(float, s.np_rng[2:])], [s.py_rng[0], list(s.py_rng[1]), s.py_rng[2]],
            s.torch_rng.tolist()]


def kinds():
    from neps.state import filebased as fb

    return {
        "trial": (fb.ReaderWriterTrial, _trial, _plain_trial),
        "optimizer_state": (fb.ReaderWriterOptimizationState, _optstate, _plain_optstate),
        "optimizer_info": (fb.ReaderWriterOptimizerInfo, _info, lambda o: dict(o.info)),
        "errors": (lambda: fb.ReaderWriterErrDump("all"), _errs, _plain_errs),
        "seeds": (fb.ReaderWriterSeedSnapshot, _seed, _plain_seed),
    }


def parts(loc, rw):
    from neps.state.filebased import FileLocker, FileVersioner

    return dict(location=loc, reader_writer=rw(), versioner=FileVersioner(loc / ".version"),
                locker=FileLocker(loc / ".lock", poll=0.01, timeout=10))


class Boom(Exception):
    pass


OPS = ("sync", "put", "rmw", "look", "boom", "twice", "new", "load", "any", "stale", "lock")


def seq_cases(quick):
    core_ops = ("sync", "put", "rmw", "boom", "new", "load")
    start = ("none", "one")
    for kind in ("trial", "optimizer_state", "optimizer_info", "errors", "seeds"):
        deep = kind == "trial" or (kind == "optimizer_state" and not quick)
        alpha = [h + ":" + o for h in "AB" for o in OPS]
        small = [h + ":" + o for h in "AB" for o in core_ops]
        for st in start:
            for first in alpha:
                yield (kind, st, first, 2 if quick and not deep else 3, "all")
            for first in small:
                yield (kind, st, first, (4 if deep else 3) if quick else (5 if deep else 4), "core")


def seq_case(case):
    """All sequences that begin with `first`, depth-first."""
    kind, st, first, depth, which = case
    rw, build, plain = kinds()[kind]
    alpha = [h + ":" + o for h in "AB" for o in (OPS if which == "all" else ("sync", "put", "rmw", "boom", "new", "load"))]
    n = 0
    for rest in itertools.product(alpha, repeat=depth - 1):
        one_sequence(kind, st, (first, *rest), rw, build, plain)
        n += 1
    return {"stats": {"operation_sequences": n, "operations": n * depth}}


_values = {}


def all_values(kind, build, plain):
    if kind not in _values:
        _values[kind] = [plain(build(i)) for i in range(12)]
    return _values[kind]


def one_sequence(kind, st, ops, rw, build, plain):
    from neps.state.protocols import Synced

    loc = Path(fresh_dir("res"))
    loc.mkdir()
    values = all_values(kind, build, plain)
    stored, version = None, 0  # index of stored value, version counter
    known = {"A": None, "B": None}
    handle = {"A": None, "B": None}
    nxt = 1
    if st == "one":
        for h in "AB":
            handle[h] = Synced.new_or_load(data=build(0), **parts(loc, rw))
            known[h] = 1
        stored, version = 0, 1
    done = []

    def fail(msg):
        return f"{kind} from {st}: {' '.join(done)}: {msg}"

    for op in ops:
        h, o = op.split(":")
        s = handle[h]
        done.append(op)
        if o in ("new", "load", "any"):
            before = snapshot(loc) if o != "any" else None
            f = {"new": Synced.new, "load": Synced.load, "any": Synced.new_or_load}[o]
            kw = parts(loc, rw) if o == "load" else dict(data=build(nxt), **parts(loc, rw))
            try:
                new = f(**kw)
                err = None
            except (Synced.VersionedResourceAlreadyExistsError, Synced.VersionedResourceDoesNotExistsError) as e:
                new, err = None, type(e).__name__
            want = None
            if o == "new" and stored is not None:
                want = "VersionedResourceAlreadyExistsError"
            if o == "load" and stored is None:
                want = "VersionedResourceDoesNotExistsError"
            require(err == want, lambda: fail(f"raised {err}, expected {want}"))
            if err is not None:
                require(snapshot(loc) == before, lambda: fail("the failed operation changed the stored files"))
                continue
            if stored is None:
                stored, version = nxt, 1
                nxt += 1
            handle[h], known[h] = new, version
            require(same(plain(new._unsynced()), values[stored]), lambda: fail("the new handle holds another value"))
            continue
        if s is None:
            done.pop()
            continue
        if o == "sync":
            got = plain(s.synced())
            require(same(got, values[stored]), lambda: fail(f"read {got}, stored is {values[stored]}"))
            known[h] = version
        elif o == "put":
            before = snapshot(loc)
            try:
                s.put(build(nxt))
                ok = True
            except Synced.VersionMismatchError:
                ok = False
            require(ok == (known[h] == version), lambda: fail(f"put {'accepted' if ok else 'rejected'}, last read is "
                                                              f"{'current' if known[h] == version else 'outdated'}"))
            if ok:
                stored, version = nxt, version + 1
                known[h] = version
                nxt += 1
            else:
                require(snapshot(loc) == before, lambda: fail("the rejected put changed the stored files"))
        elif o in ("rmw", "look", "boom", "twice"):
            try:
                with s.acquire() as (v, put):
                    require(same(plain(v), values[stored]), lambda: fail(f"acquired {plain(v)}, stored is {values[stored]}"))
                    known[h] = version
                    require(s._is_locked(), lambda: fail("the resource is not locked while acquired"))
                    for _ in range({"rmw": 1, "look": 0, "boom": 0, "twice": 2}[o]):
                        put(build(nxt))
                        stored, version = nxt, version + 1
                        known[h] = version
                        nxt += 1
                    if o == "boom":
                        raise Boom
            except Boom:
                pass
        elif o == "stale":
            require(s._is_stale() == (known[h] != version), lambda: fail(f"stale={s._is_stale()}"))
        elif o == "lock":
            require(not s._is_locked(), lambda: fail("locked although nobody holds it"))
        if nxt >= 8:
            break
    if stored is not None:
        got = plain(Synced.load(**parts(loc, rw)).synced())
        require(same(got, values[stored]), lambda: fail(f"a new process reads {got}, stored is {values[stored]}"))
        require(not handle_any(handle)._is_locked(), lambda: fail("the lock is still held"))


def handle_any(handle):
    return handle["A"] or handle["B"]


def snapshot(loc):
    return {p: (loc / p).read_bytes() for p in sorted(os.listdir(loc)) if p != ".lock"}


# -- concurrent histories -------------------------------------------------------------------------
class SyncedScenario(core.Scenario):
    """Each worker performs its program on one shared counter; the history must be linearizable."""

    def __init__(self, name, programs, template_value=True, kind="optimizer_state"):
        self.name, self.programs, self.nworkers = name, programs, len(programs)
        self.symmetric = len(set(programs)) == 1
        self.have = template_value

    @staticmethod
    def value(n):
        from neps.state.optimizer import OptimizationState

        return OptimizationState(budget=None, shared_state={"n": n, "pad": "x" * (n % 7)})

    def template(self, root):
        from neps.state.filebased import ReaderWriterOptimizationState
        from neps.state.protocols import Synced

        loc = Path(root)
        loc.mkdir(parents=True)
        if self.have:
            Synced.new(data=self.value(0), **parts(loc, ReaderWriterOptimizationState))

    def worker(self, ctx):
        from neps.state.filebased import ReaderWriterOptimizationState
        from neps.state.protocols import Synced

        loc = Path(ctx.root)
        s = None
        for k, o in enumerate(self.programs[ctx.idx]):
            mine = 100 * (ctx.idx + 1) + k
            ctx.log("inv", json.dumps([k, o]))
            try:
                if o == "c":
                    s = Synced.new(data=self.value(mine), **parts(loc, ReaderWriterOptimizationState))
                    r = mine
                elif o == "l":
                    s = Synced.load(**parts(loc, ReaderWriterOptimizationState))
                    r = s._unsynced().shared_state["n"]
                elif o == "a":
                    s = Synced.new_or_load(data=self.value(mine), **parts(loc, ReaderWriterOptimizationState))
                    r = s._unsynced().shared_state["n"]
                elif s is None:
                    r = "nohandle"
                elif o == "r":
                    r = s.synced().shared_state["n"]
                elif o == "p":
                    s.put(self.value(mine))
                    r = mine
                elif o == "i":
                    with s.acquire() as (v, put):
                        n = v.shared_state["n"] + 1
                        put(self.value(n))
                    r = n
            except (Synced.VersionMismatchError, Synced.VersionedResourceAlreadyExistsError,
                    Synced.VersionedResourceDoesNotExistsError) as e:
                r = type(e).__name__
            ctx.log("res", json.dumps([k, o, r]))

    def check(self, ex):
        v = []
        for w in ex.workers:
            if w.result is None or w.result["status"] != "ok":
                v.append(f"C06: worker {w.idx} failed: {json.dumps(w.result)[:900]}")
        if v:
            return v
        ops = {}
        for t, (w, tag, data) in enumerate(ex.events):
            if tag in ("inv", "res"):
                d = json.loads(data)
                op = ops.setdefault((w, d[0]), {"w": w, "k": d[0], "o": d[1]})
                op["t0" if tag == "inv" else "t1"] = t
                if tag == "res":
                    op["r"] = d[2]
        final = core._forked(self.final, ex.root)
        if not final["ok"]:
            return [f"C06: the resource cannot be read afterwards: {final['err']}"]
        lst = list(ops.values())
        if not linearizable(lst, 0 if self.have else None, final["value"]):
            return [f"C06: history {[(o['w'], o['o'], o['r']) for o in sorted(lst, key=lambda o: o['t0'])]} ending with "
                    f"{final['value']} has no sequential explanation"]
        return []

    @staticmethod
    def final(root):
        from neps.state.filebased import ReaderWriterOptimizationState
        from neps.state.protocols import Synced

        try:
            return Synced.load(**parts(Path(root), ReaderWriterOptimizationState)).synced().shared_state["n"]
        except Synced.VersionedResourceDoesNotExistsError:
            return None


def linearizable(ops, value, final):
    """Search for a total order that respects real time and explains every response."""
    def go(left, value, version, known):
        if not left:
            return value == final
        for i, o in enumerate(left):
            if any(p["t1"] < o["t0"] for p in left if p is not o):
                continue
            r = effect(o, value, version, known)
            if r is None:
                continue
            if go(left[:i] + left[i + 1:], *r):
                return True
        return False

    def effect(o, value, version, known):
        w, mine = o["w"], 100 * (o["w"] + 1) + o["k"]
        k = known.get(w)
        if o["o"] in ("c", "l", "a"):
            if o["o"] == "c" and value is not None:
                return (value, version, known) if o["r"] == "VersionedResourceAlreadyExistsError" else None
            if o["o"] == "l" and value is None:
                return (value, version, known) if o["r"] == "VersionedResourceDoesNotExistsError" else None
            if value is None:
                value, version = mine, version + 1
            return (value, version, {**known, w: version}) if o["r"] == value else None
        if k is None:
            return (value, version, known) if o["r"] == "nohandle" else None
        if o["o"] == "r":
            return (value, version, {**known, w: version}) if o["r"] == value else None
        if o["o"] == "p":
            if k != version:
                return (value, version, known) if o["r"] == "VersionMismatchError" else None
            return (mine, version + 1, {**known, w: version + 1}) if o["r"] == mine else None
        if o["o"] == "i":
            return (value + 1, version + 1, {**known, w: version + 1}) if o["r"] == value + 1 else None
        return None

    return go(ops, value, 0 if value is not None else -1, {})


def run(ck):
    ck.rule = RULE
    ck.level = "model_checking"
    q = ck.quick
    ck.enumerate("sequences", seq_cases(q), seq_case, timeout=600, chunk=1)
    if ck.violations:
        return
    plan = [
        (SyncedScenario("increments", ("lii", "lii")), 3 if q else 4),
        (SyncedScenario("puts", ("lpr", "lpr")), 3 if q else 4),
        (SyncedScenario("mixed", ("lrpi", "lipr")), 2 if q else 3),
        (SyncedScenario("create", ("ci", "ci"), False), 3),
        (SyncedScenario("create_any", ("ai", "ai"), False), 3),
        (SyncedScenario("create_load", ("lpc", "cpr"), False), 3),
        (SyncedScenario("three", ("li", "lp", "lr")), 2),
    ]
    explore(ck, plan, ("C06",), 500 if q else 4000)
