"""Scenarios for the file-system model checker: real workers running the real optimization loop."""
from __future__ import annotations

import json
import os
import time
from pathlib import Path

import neps
from fsmc import core
from lib.harness import NPROC


def space():
    from neps.search_spaces import FloatParameter, SearchSpace

    return SearchSpace(x=FloatParameter(0, 1))


def make_optimizer():
    from neps.optimizers import SearcherMapping

    return SearcherMapping["random_search"](pipeline_space=space())


def trial_number(tid):
    """A small number that is different for every trial id ("3" or "<config>_<rung>")."""
    a, _, b = str(tid).partition("_")
    return int(a) if not b else int(a) + 8 * int(b) + 1


def loss_of(tid):
    return 0.25 * trial_number(tid) + 1.0


def cost_of(tid):
    return float(2 ** trial_number(tid))


class UserError(Exception):
    pass


class NullCtx:
    idx = 9

    def point(self, *a):
        pass

    log = point


def evaluation(ctx, behave):
    """The user's function. behave(worker, trial id, nth evaluation of this worker) -> what happens."""
    n = [0]

    def run_pipeline(pipeline_directory, x, **_rest):
        tid = os.path.basename(str(pipeline_directory)).split("config_", 1)[1]
        ctx.point("eval", json.dumps([tid, x]))
        b = behave(ctx.idx, tid, n[0])
        n[0] += 1
        if b == "fail":
            ctx.log("failed", tid)
            raise UserError(f"evaluation of {tid} failed")
        ctx.log("done", tid)
        return {"loss": loss_of(tid), "cost": cost_of(tid)}

    return run_pipeline


def ok(_w, _t, _n):
    return "ok"


def call_run(ctx, root, behave=ok, **kw):
    kw.setdefault("searcher", "random_search")
    kw.setdefault("post_run_summary", False)
    kw.setdefault("pipeline_space", {"x": neps.Float(0, 1)})
    neps.run(run_pipeline=evaluation(ctx, behave), root_directory=root, **kw)


def call_worker(ctx, root, behave=ok, on_error="ignore", total=None, per_worker=None, cost_total=None,
                include_in_progress=False):
    """A worker with settings that neps.run does not expose."""
    from neps.runtime import DefaultWorker
    from neps.state.filebased import load_filebased_neps_state
    from neps.state.settings import DefaultReportValues, OnErrorPossibilities, WorkerSettings

    w = DefaultWorker.new(
        state=load_filebased_neps_state(Path(root)), optimizer=make_optimizer(),
        evaluation_fn=evaluation(ctx, behave),
        settings=WorkerSettings(
            on_error=OnErrorPossibilities(on_error), default_report_values=DefaultReportValues(),
            max_evaluations_total=total, include_in_progress_evaluations_towards_maximum=include_in_progress,
            max_cost_total=cost_total, max_evaluation_time_total_seconds=None,
            max_evaluations_for_worker=per_worker, max_cost_for_worker=None,
            max_evaluation_time_for_worker_seconds=None, max_wallclock_time_for_worker_seconds=None,
        ),
    )
    w.run()


def prepare_dir(root, trials="", max_cost=None, info=None):
    """Create a directory holding trials in the given states. One letter per trial, in order:
    s success, f failed, e being evaluated (by a worker that died), p pending."""
    from neps.state.filebased import create_or_load_filebased_neps_state
    from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo

    if info is None:
        # created by the real entry point, with nothing to do
        neps.run(run_pipeline=lambda x: 0.0, pipeline_space={"x": neps.Float(0, 1)}, root_directory=root,
                 max_evaluations_total=99, max_evaluations_per_run=0, searcher="random_search", post_run_summary=False)
        from neps.state.filebased import load_filebased_neps_state

        state = load_filebased_neps_state(Path(root))
    else:
        state = create_or_load_filebased_neps_state(
            Path(root), optimizer_info=OptimizerInfo(info),
            optimizer_state=OptimizationState(budget=BudgetInfo(max_cost_budget=max_cost), shared_state={}))
    opt = make_optimizer()
    out = []
    sampled = []
    for _ in trials:
        sampled.append(state.sample_trial(opt, worker_id="template"))
        time.sleep(0.002)
    for s, t in zip(trials, sampled):
        out.append(t.id)
        if s == "p":
            continue
        t.set_evaluating(time_started=time.time(), worker_id="template")
        state.put_updated_trial(t)
        if s == "e":
            continue
        okay = s == "s"
        rep = t.set_complete(
            report_as="success" if okay else "crashed", time_end=time.time(),
            loss=loss_of(t.id) if okay else None, cost=cost_of(t.id) if okay else None,
            learning_curve=[loss_of(t.id)] if okay else None,
            err=None if okay else UserError(f"evaluation of {t.id} failed"), tb=None if okay else "tb",
            extra={}, evaluation_duration=0.5)
        state.report_trial_evaluation(t, rep, worker_id="template")
    return out


def view(root):
    """Everything a user can see of the directory, from a fresh process."""
    from neps.state.filebased import load_filebased_neps_state

    st = load_filebased_neps_state(Path(root))
    trials = {}
    for tid, t in st.get_all_trials().items():
        rep = None
        if t.report is not None:
            rep = {"loss": t.report.loss, "cost": t.report.cost, "as": t.report.reported_as,
                   "err": None if t.report.err is None else str(t.report.err),
                   "trial_id": t.report.trial_id}
        trials[tid] = {
            "state": t.state.value, "report": rep, "config": dict(t.config), "id": t.metadata.id,
            "evaluator": t.metadata.evaluating_worker_id, "sampler": t.metadata.sampling_worker_id,
            "location": t.metadata.location, "time_sampled": t.metadata.time_sampled,
        }
    b = st.optimizer_state().budget
    return {
        "trials": trials, "errors": [[e.trial_id, e.worker_id, e.err_type, e.err] for e in st.get_errors().errs],
        "cost": None if b is None else b.used_cost_budget,
    }


def see(root):
    r = core._forked(view, root)
    if not r["ok"]:
        return None, f"the directory cannot be read afterwards: {r['err']}\n{r['tb']}"
    return r["value"], None


def status_of(root):
    def f():
        prev, pend = neps.status(root, print_summary=False) if True else None
        return [sorted(prev), sorted(pend)]

    return core._forked(f)


class RunScenario(core.Scenario):
    """W workers run the real loop on a prepared directory."""

    tags = ("C01", "C02", "C03", "C04", "C23")

    def __init__(self, name, nworkers=2, trials=None, total=2, behave=ok, symmetric=None, api="run", cost_total=None,
                 kw=None, expect=None, extra_check=None, tags=None, reaches_total=True):
        self.reaches_total = reaches_total
        self.name, self.nworkers, self.trials, self.total = name, nworkers, trials, total
        self.behave, self.api, self.cost_total = behave, api, cost_total
        self.kw = kw or {}
        self.symmetric = (behave is ok) if symmetric is None else symmetric
        self.expect = expect
        self.extra_check = extra_check
        if tags:
            self.tags = tags

    def template(self, root):
        if self.trials is not None:
            prepare_dir(root, self.trials)

    def worker(self, ctx):
        if self.api == "run":
            call_run(ctx, ctx.root, self.behave, max_evaluations_total=self.total, **self.kw)
        else:
            call_worker(ctx, ctx.root, self.behave, total=self.total, **self.kw)

    def check(self, ex):
        v = []
        for w in ex.workers:
            if w.killed:
                continue
            exp = self.expect(ex, w) if self.expect else "ok"
            got = "lost" if w.result is None else (
                "ok" if w.result["status"] == "ok" else w.result["chain"][0][0])
            if exp == "any":
                continue
            if got != exp and not (isinstance(exp, tuple) and got in exp):
                tag = "C03" if not self.expect else "C05"
                why = "" if w.result is None else json.dumps(w.result.get("chain"))[:900]
                v.append(f"{tag}: worker {w.idx} ended with {got}, expected {exp}: {why}")
        s, err = see(ex.root)
        if err:
            v.append("C03: " + err)
            v.append("C07: " + err)
            return v
        v += common_oracle(ex, s, self.trials or "")
        if self.reaches_total and self.total is not None and not self.expect and not any(
                x.startswith(("C03", "C05")) for x in v):
            v += total_oracle(ex, s, self.trials or "", self.total, counts_in_progress(self.api, self.kw))
        if self.extra_check:
            v += self.extra_check(ex, s)
        return v


def counts_in_progress(api, kw):
    if api == "run":
        return not kw.get("continue_until_max_evaluation_completed", False)
    return kw.get("include_in_progress", False)


def started(ex):
    out = []
    for w, tag, data in ex.events:
        if tag == "eval":
            tid, x = json.loads(data)
            out.append((w, tid, x))
    return out


def common_oracle(ex, s, initial):
    """Holds after any run, also if workers were killed (events of killed workers included)."""
    v = []
    T = s["trials"]
    ev = started(ex)
    initial_ids = [str(i + 1) for i in range(len(initial))]
    init_state = dict(zip(initial_ids, initial))
    # C01
    by = {}
    for w, tid, x in ev:
        by.setdefault(tid, []).append(w)
    for tid, ws in by.items():
        if len(ws) > 1:
            v.append(f"C01: trial {tid} was evaluated {len(ws)} times, by workers {ws}")
        if init_state.get(tid) in ("s", "f", "e"):
            v.append(f"C01: trial {tid} was evaluated again although it was {init_state[tid]} before")
            v.append(f"C23: trial {tid} was handed out again although it was {init_state[tid]} before")
    for w, tid, x in ev:
        if tid not in T:
            v.append(f"C02: evaluated trial {tid} is not in the state afterwards")
        elif T[tid]["config"].get("x") != x:
            v.append(f"C01: trial {tid} was evaluated with x={x} but is stored with {T[tid]['config']}")
    rec = {}
    for tid, ws in by.items():
        if tid in T and len(ws) == 1 and T[tid]["state"] in ("success", "crashed"):
            e = T[tid]["evaluator"]
            if e is None:
                v.append(f"C01: no evaluator recorded for trial {tid}")
            rec.setdefault(ws[0], set()).add(e)
    for w, es in rec.items():
        if len(es) > 1:
            v.append(f"C01: evaluations of worker {w} are recorded as done by {sorted(map(str, es))}")
    owners = {}
    for w, es in rec.items():
        for e in es:
            owners.setdefault(e, set()).add(w)
    for e, ws in owners.items():
        if len(ws) > 1 or e == "template":
            v.append(f"C01: worker {e} is recorded as evaluator of trials evaluated by workers {sorted(ws)}")
    for tid, t in T.items():
        if t["id"] != tid or os.path.basename(t["location"]) != f"config_{tid}":
            v.append(f"C01: trial stored as {tid} says it is {t['id']} at {t['location']}")
    missing = [i for i in initial_ids if i not in T]
    if missing:
        v.append(f"C02: trials {missing} disappeared")
    locs = [t["location"] for t in T.values()]
    if len(set(locs)) != len(locs):
        v.append("C01: two trials share a directory")
    # C02
    alive = {w.idx for w in ex.workers if not w.killed and w.result is not None}
    fin = [(w, tag, tid) for w, tag, tid in ex.events if tag in ("done", "failed")]
    cost = 0.0
    certain = True
    errs = []
    for w, tag, tid in fin:
        if w not in alive:
            certain = False
            continue
        t = T.get(tid)
        if t is None:
            continue
        want = "success" if tag == "done" else "crashed"
        if t["state"] != want:
            v.append(f"C02: trial {tid} finished as {want} but is stored as {t['state']}")
        r = t["report"]
        if r is None:
            v.append(f"C02: the result of trial {tid} is lost")
        elif tag == "done" and (r["loss"] != loss_of(tid) or r["cost"] != cost_of(tid) or r["as"] != "success"):
            v.append(f"C02: result of trial {tid} is stored as {r}")
        elif tag == "failed" and (r["as"] != "crashed" or r["err"] != f"evaluation of {tid} failed"):
            v.append(f"C02: failure of trial {tid} is stored as {r}")
        if r is not None and r["trial_id"] != tid:
            v.append(f"C02: report of trial {tid} belongs to {r['trial_id']}")
        if tag == "done":
            cost += cost_of(tid)
        else:
            errs.append(tid)
    for tid, st in init_state.items():
        if st == "s":
            cost += cost_of(tid)
        if st == "f":
            errs.append(tid)
        if tid in T and st in "sf":
            r = T[tid]["report"]
            if r is None or T[tid]["state"] != {"s": "success", "f": "crashed"}[st] or (
                    st == "s" and (r["loss"] != loss_of(tid) or r["cost"] != cost_of(tid))):
                v.append(f"C02: earlier result of trial {tid} changed to {T[tid]}")
    got = sorted(e[0] for e in s["errors"])
    if certain:
        if s["cost"] != cost:
            v.append(f"C02: spent cost is recorded as {s['cost']}, the reported costs sum to {cost}")
        if got != sorted(errs):
            v.append(f"C02: recorded errors are for trials {got}, evaluations that failed are {sorted(errs)}")
        for e in s["errors"]:
            if e[3] != f"evaluation of {e[0]} failed" or e[2] != "UserError":
                v.append(f"C02: recorded error {e} does not describe the failure")
            ws = by.get(e[0])
            if ws and e[0] in T and e[1] != T[e[0]]["evaluator"]:
                v.append(f"C02: error of trial {e[0]} is attributed to {e[1]}, evaluated by {T[e[0]]['evaluator']}")
    else:
        if len(set(got)) != len(got):
            v.append(f"C02: error recorded twice: {got}")
    # no trial looks finished without a result
    for tid, t in T.items():
        if t["state"] in ("success", "crashed", "failed") and t["report"] is None:
            v.append(f"C07: trial {tid} is {t['state']} without a result")
            v.append(f"C02: trial {tid} is {t['state']} without a result")
        if t["state"] == "success" and tid not in init_state and tid not in {x[2] for x in fin if x[1] == "done"}:
            v.append(f"C02: trial {tid} is stored as success but was never evaluated successfully")
    # C23: pending trials first, in the order they were sampled
    waiting = [i for i in initial_ids if init_state[i] == "p"]
    order = [tid for _, tid, _ in ev]
    fresh = [tid for tid in order if tid not in init_state]
    for k, tid in enumerate(order):
        if tid in fresh:
            # workers may already have claimed the others without having started the evaluation
            left = [p for p in waiting if p not in order[:k]]
            claimed = len({w.idx for w in ex.workers}) - 1
            if len(left) > claimed:
                v.append(f"C23: new trial {tid} was evaluated while {left} were waiting")
            break
    seq = [t for t in order if t in waiting]
    if len(ex.workers) == 1 and seq != waiting[: len(seq)]:
        v.append(f"C23: pending trials were taken in order {seq}, sampled in order {waiting}")
    for i in range(len(seq)):
        later = [w for w in waiting if waiting.index(w) < waiting.index(seq[i]) and w not in seq[:i]]
        if len(later) > len(ex.workers) - 1:
            v.append(f"C23: {seq[i]} was taken before {later} which waited longer")
    return v


def total_oracle(ex, s, initial, total, in_progress=True):
    v = []
    W = len(ex.workers)
    reported = sum(1 for t in s["trials"].values() if t["report"] is not None)
    before = sum(1 for c in initial if c in "sf")
    # by default, trials in evaluation count; those of dead workers never finish
    want = max(total - (sum(1 for c in initial if c == "e") if in_progress else 0), before)
    if reported < want:
        v.append(f"C04: workers stopped after {reported} evaluations in total, {total} were asked for")
    if reported > max(want, total + W - 1):
        v.append(f"C04: {reported} evaluations in total, {total} were asked for ({W} workers)")
    left = [tid for tid, t in s["trials"].items() if t["state"] == "evaluating"]
    started_e = sum(1 for c in initial if c == "e")
    if len(left) > started_e:
        v.append(f"C02: trials {left} are left in evaluation after all workers finished")
    return v


# ---------------------------------------------------------------------------------------------


def warm(base):
    call_run(NullCtx(), os.path.join(base, "warm"), max_evaluations_total=2)
    neps.status(os.path.join(base, "warm"), print_summary=False)


def guarded_warm(base):
    """Load everything once (imports, caches) in this process, before it is forked."""
    try:
        warm(base)
    except Exception:  # noqa: BLE001 - the exploration will report it
        pass


def explore(ck, scenarios_bounds, tags, deadline_s):
    """Explore all schedules of each (scenario, bound); keep violations with one of the tags."""
    scs = [s for s, _ in scenarios_bounds]
    guarded_warm(ck.base)
    E = core.Explorer(scs, os.path.join(ck.base, "fs"), nproc=NPROC)
    deadline = ck.t0 + deadline_s
    try:
        for i, (sc, bound) in enumerate(scenarios_bounds):
            if ck.replay is not None:
                if ck.replay.get("scenario") == sc.name:
                    replay_schedule(ck, E, i, tags)
                continue
            E.violations.clear()
            r = E.schedules(i, bound, deadline=deadline, keep=lambda vs: [x for x in vs if x[:3] in tags or x.split(":")[0] in PROBLEMS])
            st = E.stats[sc.name]
            ck.add("executions", st["executions"])
            ck.add("operations", st["operations"])
            ck.add("decision_points", st["decisions"])
            ck.add("distinct_schedules", len(E.sigs.get(sc.name, ())))
            ck.extra.setdefault("scenarios", {})[sc.name] = {
                "workers": sc.nworkers, "preemption_bound": bound, "executions": st["executions"],
                "complete": bool(r["complete"]), "shared_objects": st["visible_objects"],
                "shared_locks": st["visible_locks"], "max_decisions": st["max_decisions"],
            }
            if not r["complete"]:
                ck.exhaustive = False
            report(ck, E, tags)
            if ck.violations:
                return
    finally:
        E.close()
    if ck.extra.get("scenarios"):
        ck.sample({"scenario": scs[-1].name, "choices": "schedule = list of worker choices at visible points"})


PROBLEMS = ("deadlock", "livelock", "hang")


def report(ck, E, tags):
    for e in E.errors:
        ck.violation(f"exploration failed: {e}", f"explore:{e[:80]}")
    for name, o in E.violations:
        for m in o["viol"]:
            kind = m.split(":")[0]
            if kind in PROBLEMS and "C03" not in tags and "C08" not in tags:
                continue
            if kind not in tags and kind not in PROBLEMS:
                continue
            ck.violation(f"scenario {name}: {m}\nschedule {o['kw']}\n" + "\n".join((o["trace"] or [])[-120:]),
                         f"{name}:{kind}:{m.split(':', 1)[1][:80]}",
                         {"scenario": name, "kw": {k: v for k, v in o["kw"].items() if k != "visible"},
                          "visible": _jsonable(o["kw"].get("visible")), "trace": o["trace"]})


def _jsonable(vis):
    if vis is None:
        return None
    return [sorted(vis[0].items()), sorted(vis[1])]


def replay_schedule(ck, E, i, tags):
    kw = dict(ck.replay["kw"])
    vis = ck.replay["visible"]
    kw["visible"] = None if vis is None else (dict(map(tuple, vis[0])), frozenset(vis[1]))
    kw["prefix"] = tuple(kw["prefix"])
    if kw.get("crash"):
        kw["crash"] = tuple(kw["crash"])
    o = core.run_one((i, kw))
    if "error" in o:
        ck.violation(o["error"])
        return
    print("\n".join(o["trace"] or ["(no violation)"]))
    if o["viol"]:
        E.violations.append((E.scenarios[i].name, o))
        report(ck, E, tags)


class ReportScenario(core.Scenario):
    """Each worker has evaluated one trial and reports it; outcomes: string of o/f per worker."""

    symmetric = False

    def __init__(self, name, outcomes, also_sample=False):
        self.name, self.outcomes, self.nworkers = name, outcomes, len(outcomes)
        self.also_sample = also_sample

    def template(self, root):
        prepare_dir(root, "s" + "e" * self.nworkers)

    def worker(self, ctx):
        from neps.state.filebased import load_filebased_neps_state

        st = load_filebased_neps_state(Path(ctx.root))
        tid = str(ctx.idx + 2)
        t = st.get_trial_by_id(tid)
        good = self.outcomes[ctx.idx] == "o"
        rep = t.set_complete(
            report_as="success" if good else "crashed", time_end=time.time(), loss=loss_of(tid) if good else None,
            cost=cost_of(tid), learning_curve=None, extra={}, evaluation_duration=0.5,
            err=None if good else UserError(f"evaluation of {tid} failed"), tb=None if good else "tb")
        st.report_trial_evaluation(t, rep, worker_id=f"w{ctx.idx}")
        if self.also_sample:
            st.sample_trial(make_optimizer(), worker_id=f"w{ctx.idx}")

    def check(self, ex):
        v = []
        for w in ex.workers:
            if w.result is None or w.result["status"] != "ok":
                v.append(f"C03: worker {w.idx}: {json.dumps(w.result)[:900]}")
        s, err = see(ex.root)
        if err:
            return [*v, "C02: " + err]
        cost = cost_of("1")
        errs = []
        for i, o in enumerate(self.outcomes):
            tid = str(i + 2)
            t = s["trials"].get(tid)
            cost += cost_of(tid)
            if t is None or t["state"] != {"o": "success", "f": "crashed"}[o] or t["report"] is None or \
                    t["report"]["loss"] != (loss_of(tid) if o == "o" else None):
                v.append(f"C02: result of trial {tid} is stored as {t}")
            if o == "f":
                errs.append([tid, f"w{i}", "UserError", f"evaluation of {tid} failed"])
        if s["cost"] != cost:
            v.append(f"C02: spent cost is {s['cost']}, reported costs sum to {cost}")
        if sorted(s["errors"]) != sorted(errs):
            v.append(f"C02: recorded errors {s['errors']}, expected {errs}")
        n = 1 + self.nworkers * (2 if self.also_sample else 1)
        if sorted(s["trials"], key=int) != [str(i + 1) for i in range(n)]:
            v.append(f"C02: trials are {sorted(s['trials'])}, {n} were sampled")
            v.append(f"C01: trials are {sorted(s['trials'])}, {n} were sampled")
        return v


class SampleScenario(core.Scenario):
    """Each worker samples k trials; every sample must be a new trial."""

    symmetric = True

    def __init__(self, name, nworkers=2, k=1):
        self.name, self.nworkers, self.k = name, nworkers, k

    def template(self, root):
        prepare_dir(root, "s")

    def worker(self, ctx):
        from neps.state.filebased import load_filebased_neps_state

        st = load_filebased_neps_state(Path(ctx.root))
        opt = make_optimizer()
        for _ in range(self.k):
            t = st.sample_trial(opt, worker_id=f"w{ctx.idx}")
            ctx.log("sampled", json.dumps([t.id, t.config["x"]]))

    def check(self, ex):
        v = []
        for w in ex.workers:
            if w.result is None or w.result["status"] != "ok":
                v.append(f"C03: worker {w.idx}: {json.dumps(w.result)[:900]}")
        s, err = see(ex.root)
        if err:
            return [*v, "C02: " + err]
        got = [(w, *json.loads(d)) for w, t, d in ex.events if t == "sampled"]
        ids = [g[1] for g in got]
        if len(set(ids)) != len(ids):
            v.append(f"C01: trial ids handed out twice: {ids}")
        for w, tid, x in got:
            t = s["trials"].get(tid)
            if t is None:
                v.append(f"C02: sampled trial {tid} is not stored")
            elif t["config"]["x"] != x or t["sampler"] != f"w{w}":
                v.append(f"C01: trial {tid} sampled by w{w} as x={x} is stored as {t['config']} of {t['sampler']}")
            elif t["state"] != "pending":
                v.append(f"C01: new trial {tid} is {t['state']}")
        if len(s["trials"]) != 1 + self.k * self.nworkers:
            v.append(f"C01: {len(s['trials'])} trials stored, {1 + self.k * self.nworkers} sampled")
        if len({t["config"]["x"] for t in s["trials"].values()}) != len(s["trials"]):
            v.append(f"C09: the same random number was used for two trials: {[t['config'] for t in s['trials'].values()]}")
        return v


class ClaimScenario(core.Scenario):
    """Each worker tries once to take the next pending trial, as the worker loop does."""

    symmetric = True

    def __init__(self, name, nworkers=2, trials="pp", tries=1):
        self.name, self.nworkers, self.trials, self.tries = name, nworkers, trials, tries

    def template(self, root):
        prepare_dir(root, self.trials)

    def worker(self, ctx):
        from neps.exceptions import VersionMismatchError
        from neps.state.filebased import load_filebased_neps_state

        st = load_filebased_neps_state(Path(ctx.root))
        for _ in range(self.tries):
            t = st.get_next_pending_trial()
            if t is None:
                ctx.log("none", "")
                continue
            if t.state.value != "pending":
                ctx.log("notpending", t.id)
            t.set_evaluating(time_started=time.time(), worker_id=f"w{ctx.idx}")
            try:
                st.put_updated_trial(t)
            except VersionMismatchError:
                ctx.log("lost", t.id)
                continue
            ctx.log("claimed", t.id)

    def check(self, ex):
        v = []
        for w in ex.workers:
            if w.result is None or w.result["status"] != "ok":
                v.append(f"C03: worker {w.idx}: {json.dumps(w.result)[:900]}")
        s, err = see(ex.root)
        if err:
            return [*v, "C02: " + err]
        claims = {}
        for w, tag, tid in ex.events:
            if tag == "claimed":
                claims.setdefault(tid, []).append(w)
            if tag == "notpending":
                v.append(f"C23: trial {tid} was handed out although it is not pending")
        for tid, ws in claims.items():
            if len(ws) > 1:
                v.append(f"C01: trial {tid} claimed by workers {ws}")
            t = s["trials"][tid]
            if len(ws) == 1 and (t["state"] != "evaluating" or t["evaluator"] != f"w{ws[0]}"):
                v.append(f"C01: trial {tid} claimed by w{ws[0]} is stored as {t['state']} of {t['evaluator']}")
        for tid, t in s["trials"].items():
            if tid not in claims and t["state"] != {"p": "pending", "e": "evaluating", "s": "success"}[
                    self.trials[int(tid) - 1]]:
                v.append(f"C01: trial {tid} is {t['state']} but nobody claimed it")
        return v


class ObserverScenario(RunScenario):
    """Workers run while the last process repeatedly asks for the status."""

    def __init__(self, name, nworkers=2, looks=2, **kw):
        super().__init__(name, nworkers=nworkers, symmetric=False, **kw)
        self.looks = looks

    def worker(self, ctx):
        if ctx.idx < self.nworkers - 1:
            return super().worker(ctx)
        for _ in range(self.looks):
            prev, pend = neps.status(ctx.root, print_summary=False)
            ctx.log("status", json.dumps([sorted(prev), sorted(pend)]))
        return None


class PolicyScenario(RunScenario):
    """The first evaluation of worker 0 fails; all workers use the given error policy."""

    def __init__(self, name, policy, total=3, trials="s", nworkers=2):
        self.policy = policy
        super().__init__(
            name, nworkers=nworkers, trials=trials, total=total, api="worker", symmetric=False,
            behave=lambda w, t, n: "fail" if (w == 0 and n == 0) else "ok", kw={"on_error": policy},
            expect=self._expect)

    def _expect(self, ex, w):
        failed = [x for x in ex.events if x[0] == w.idx and x[1] == "failed"]
        if self.policy in ("ignore", "stop_worker_error", "stop_any_error"):
            return "ok"
        if failed:
            return "WorkerRaiseError"
        if self.policy == "raise_worker_error":
            return "ok"
        return ("ok", "WorkerRaiseError")

    def check(self, ex):
        v = super().check(ex)
        ev = ex.events
        failed_at = [i for i, x in enumerate(ev) if x[1] == "failed"]
        s, err = see(ex.root)
        if err:
            return v
        reported = sum(1 for t in s["trials"].values() if t["report"] is not None)
        if not failed_at:
            return v
        fw = ev[failed_at[0]][0]
        after = [x for x in ev[failed_at[0]:] if x[0] == fw and x[1] == "eval"]
        end = [i for i, x in enumerate(ev) if x[0] == fw and x[1] == "end"]
        if self.policy == "ignore":
            if reported < self.total:
                v.append(f"C05: policy ignore: only {reported} of {self.total} evaluations were done")
            return v
        if after:
            v.append(f"C05: policy {self.policy}: the failing worker continued with {after}")
        if not end:
            return v
        for w in ex.workers:
            if w.idx == fw or w.result is None:
                continue
            mine = [x for x in ev[end[0]:] if x[0] == w.idx and x[1] == "eval"]
            if self.policy.endswith("any_error"):
                if len(mine) > 1:
                    v.append(f"C05: policy {self.policy}: worker {w.idx} started {mine} after the error was recorded")
                if mine and self.policy == "raise_any_error" and w.result["status"] == "ok":
                    v.append(f"C05: policy {self.policy}: worker {w.idx} did not surface the error")
            elif reported < self.total:
                v.append(f"C05: policy {self.policy}: the other worker stopped after {reported} of {self.total}")
        return v


class Recorder:
    """Stands in for the explorer's context when a worker runs outside of the exploration."""

    def __init__(self, idx=0):
        self.idx, self.events = idx, []

    def point(self, tag, data=""):
        self.events.append([self.idx, tag, data])

    log = point


class CrashScenario(core.Scenario):
    """One worker is killed; afterwards the same run is started again."""

    nworkers = 1

    def __init__(self, name, trials=None, total=2, behave=ok, before=None, **kw):
        self.name, self.trials, self.total, self.behave, self.before, self.kw = name, trials, total, behave, before, kw

    def template(self, root):
        if self.trials is not None:
            prepare_dir(root, self.trials)
        if self.before:
            call_run(NullCtx(), root, ok, max_evaluations_total=self.before, **self._kw())

    def _kw(self):
        kw = dict(self.kw)
        if "space" in kw:
            kw["pipeline_space"] = kw.pop("space")()
        return kw

    def worker(self, ctx):
        call_run(ctx, ctx.root, self.behave, max_evaluations_total=self.total, **self._kw())

    def rerun(self, root, idx=1):
        rec = Recorder(idx)
        res = "ok"
        try:
            call_run(rec, root, self.behave, max_evaluations_total=self.total, **self._kw())
        except Exception as e:  # noqa: BLE001
            import traceback

            res = f"{type(e).__name__}: {e}\n{traceback.format_exc()[-2500:]}"
        return {"events": rec.events, "result": res}

    def check(self, ex):
        w = ex.workers[0]
        if not w.killed:
            return [] if w.result and w.result["status"] == "ok" else [f"C07: undisturbed run: {w.result}"]
        what = f"killed {ex.crash[2]} {ex.crash_op}"
        v = []
        has_trials = os.path.isdir(os.path.join(ex.root, "configs")) and any(
            os.path.exists(os.path.join(ex.root, "configs", d, ".version"))
            for d in os.listdir(os.path.join(ex.root, "configs")))
        mid = None
        if has_trials:
            mid, err = see(ex.root)
            if err:
                v.append(f"C07: {what}: {err}")
            r = status_of(ex.root)
            if not r["ok"]:
                v.append(f"C07: {what}: status fails: {r['err']}")
        r = core._forked(self.rerun, ex.root)
        if not r["ok"]:
            return [*v, f"C07: {what}: restart failed: {r['err']}"]
        rec = r["value"]
        if rec["result"] != "ok":
            v.append(f"C07: {what}: the restarted run fails: {rec['result']}")
            return v
        end, err = see(ex.root)
        if err:
            return [*v, f"C07: {what}: after the restart {err}"]
        r = status_of(ex.root)
        if not r["ok"]:
            v.append(f"C07: {what}: status fails after the restart: {r['err']}")
        v += [f"C07: {what}: {m}" for m in recovery_oracle(
            ex, mid, rec["events"], end, self.total, counts_in_progress("run", self.kw))]
        return v


def recovery_oracle(ex, mid, rec_events, end, total, in_progress=True):
    v = []
    T = end["trials"]
    # evaluations completely reported before the kill: the worker went on to something else
    own = [e for e in ex.events if e[0] == 0 and e[1] in ("eval", "done", "failed")]
    reported = {}
    for i, (_, tag, data) in enumerate(own):
        if tag in ("done", "failed") and any(x[1] == "eval" for x in own[i + 1:]):
            reported[data] = tag
    for tid, tag in reported.items():
        check_result(v, T, tid, tag)
    # what the victim was just reporting: its result may be there while its state still says "evaluating"
    flight = [d for _, tag, d in own if tag in ("done", "failed") and d not in reported]
    evaluated = [json.loads(d)[0] for _, t, d in ex.events if t == "eval"]
    again = [json.loads(d)[0] for _, t, d in rec_events if t == "eval"]
    twice = [t for t in again if t in evaluated or again.count(t) > 1]
    if twice:
        v.append(f"trials {twice} were evaluated again")
    for _, tag, tid in rec_events:
        if tag in ("done", "failed"):
            check_result(v, T, tid, tag)
    if mid is not None:
        for tid, t in mid["trials"].items():
            if tid not in T:
                v.append(f"trial {tid} disappeared")
                continue
            if t["config"] != T[tid]["config"]:
                v.append(f"configuration of trial {tid} changed from {t['config']} to {T[tid]['config']}")
            if t["state"] in ("success", "crashed", "failed"):
                if t["report"] is None:
                    v.append(f"trial {tid} is {t['state']} without a result")
                if (t["state"], t["report"]) != (T[tid]["state"], T[tid]["report"]):
                    v.append(f"finished trial {tid} changed from {t} to {T[tid]}")
                if tid in again:
                    v.append(f"finished trial {tid} was evaluated again")
    done = sum(1 for t in T.values() if t["report"] is not None)
    before = sum(1 for t in mid["trials"].values() if t["report"] is not None) if mid is not None else 0
    dead = sum(1 for t in mid["trials"].values() if t["state"] == "evaluating" and t["report"] is None) if mid is not None else 0
    want = max(total - (dead if in_progress else 0), before)
    if done != want:
        v.append(f"{done} finished evaluations after the restart, {total} asked for, {want} expected")
    if done > before:
        waiting = [tid for tid, t in (mid["trials"] if mid else {}).items() if t["state"] == "pending"]
        n_new = done - before
        order = sorted(waiting, key=lambda i: mid["trials"][i]["time_sampled"])[:n_new]
        notdone = [tid for tid in order if T[tid]["report"] is None]
        if notdone:
            v.append(f"waiting trials {notdone} were not evaluated")
    for tid, t in T.items():
        if t["state"] in ("success", "crashed", "failed") and t["report"] is None:
            v.append(f"trial {tid} is {t['state']} without a result")
        if t["state"] in ("pending", "evaluating") and t["report"] is not None and tid not in flight:
            v.append(f"trial {tid} is {t['state']} but has a result")
    stuck = [tid for tid, t in T.items() if t["state"] == "evaluating"]
    early = [] if mid is None else [tid for tid, t in mid["trials"].items() if t["state"] == "evaluating"]
    if [s for s in stuck if s not in early]:
        v.append(f"trials {stuck} are left in evaluation")
    # the counters may lag behind by what the victim was just reporting, by nothing else
    costs = sum(t["report"]["cost"] or 0.0 for t in T.values() if t["report"] is not None)
    allowed = {costs} | {costs - cost_of(f) for f in flight}
    if end["cost"] not in allowed:
        v.append(f"spent cost is {end['cost']}, results sum to {costs}")
    errs = sorted(e[0] for e in end["errors"])
    failed = sorted(tid for tid, t in T.items() if t["state"] == "crashed" or (
        t["report"] is not None and t["report"]["as"] == "crashed"))
    if errs != failed and sorted([*errs, *[f for f in flight if f not in errs]]) != failed:
        v.append(f"recorded errors {errs}, failed trials {failed}")
    if len({json.dumps(t["config"], sort_keys=True) for t in T.values()}) < len(T) - 1:
        v.append("several trials have the same configuration")
    return v


def check_result(v, T, tid, tag):
    t = T.get(tid)
    if t is None:
        v.append(f"trial {tid} disappeared")
        return
    want = "success" if tag == "done" else "crashed"
    r = t["report"]
    if t["state"] != want or r is None:
        v.append(f"trial {tid} was reported as {want} but is {t['state']} with result {r}")
    elif tag == "done" and (r["loss"] != loss_of(tid) or r["cost"] != cost_of(tid)):
        v.append(f"result of trial {tid} is {r}")


def explore_crashes(ck, plan, tags, deadline_s):
    """plan: (scenario, bound, options)"""
    scs = [p[0] for p in plan]
    guarded_warm(ck.base)
    E = core.Explorer(scs, os.path.join(ck.base, "fs"), nproc=NPROC)
    deadline = ck.t0 + deadline_s

    def keep(vs):
        return [x for x in vs if x[:3] in tags or x.split(":")[0] in PROBLEMS]

    try:
        for i, (sc, bound, opt) in enumerate(plan):
            if ck.replay is not None:
                if ck.replay.get("scenario") == sc.name:
                    replay_schedule(ck, E, i, tags)
                continue
            E.violations.clear()
            r = E.crashes(i, bound, deadline=deadline, keep=keep, **opt)
            st = E.stats[sc.name]
            ck.add("executions", st["executions"])
            ck.add("operations", st["operations"])
            ck.add("crash_points", st["crash_points"])
            ck.add("executions_with_a_kill", st["killed"])
            ck.add("distinct_schedules", len(E.sigs.get(sc.name, ())))
            ck.extra.setdefault("scenarios", {})[sc.name] = {
                "workers": sc.nworkers, "preemption_bound": bound, "crash_points": st["crash_points"],
                "executions": st["executions"], "killed": st["killed"], "complete": bool(r["complete"])}
            if not r["complete"]:
                ck.exhaustive = False
            report(ck, E, tags)
            if ck.violations:
                return
    finally:
        E.close()
    ck.sample({"crash point": "worker 0 is killed after its k-th state-changing operation", "example": str(
        (scs[0].name, 0, 17, "torn"))})


class KillScenario(RunScenario):
    """Several workers run; worker 0 is killed somewhere; the others must not notice."""

    def __init__(self, name, **kw):
        kw.setdefault("symmetric", False)
        super().__init__(name, **kw)

    def check(self, ex):
        victim = ex.workers[0]
        what = f"killed {ex.crash[2]} {ex.crash_op}" if victim.killed else "nobody was killed"
        v = []
        for w in ex.workers:
            if not w.killed and (w.result is None or w.result["status"] != "ok"):
                v.append(f"worker {w.idx} failed: {json.dumps((w.result or {}).get('chain'))[:900]}")
        s, err = see(ex.root)
        if err:
            return [f"C08: {what}: {m}" for m in [*v, err]]
        T = s["trials"]
        initial = self.trials or ""
        v += [m.split(": ", 1)[1] for m in common_oracle(ex, s, initial) if not m.startswith("C07")]
        own = [e for e in ex.events if e[0] == 0 and e[1] in ("eval", "done", "failed")]
        reported = {}
        for i, (_, tag, data) in enumerate(own):
            if tag in ("done", "failed") and any(x[1] == "eval" for x in own[i + 1:]):
                reported[data] = tag
        for tid, tag in reported.items():
            check_result(v, T, tid, tag)
        names = {T[tid]["evaluator"] for w, tid, _ in started(ex) if w != 0 and tid in T}
        left = [tid for tid, t in T.items() if t["state"] == "evaluating" and t["evaluator"] != "template"]
        if [tid for tid in left if T[tid]["evaluator"] in names]:
            v.append(f"trials {left} of surviving workers are left in evaluation")
        if len(left) > (1 if victim.killed else 0):
            v.append(f"trials {left} remain unfinished")
        have = sum(1 for t in T.values() if t["report"] is not None)
        busy = sum(1 for t in T.values() if t["state"] == "evaluating" and t["report"] is None)
        count = have + (busy if counts_in_progress(self.api, self.kw) else 0)
        if not v and len(ex.workers) > 1 and count < self.total:
            v.append(f"the surviving workers stopped after {have} of {self.total} evaluations")
        return [f"C08: {what}: {m}" for m in dict.fromkeys(v)]
