import contextlib
import io
import itertools
import math
import os
import re
import sys
from pathlib import Path

from lib.harness import fresh_dir, require
from lib.runs import UserError

RULE = ("every sequence of trial states and losses up to the length bound x ways of naming trials, stored with the real state API "
        "and shown by every command of the command line; every state of the directory and every way of naming it; every history "
        "of real runs up to the bound, shown after each step; distinct = case")

LOSSES = {"a": -1.5, "b": 0.25, "c": 3.0}
NAMES = {"plain": lambda i: str(i + 1), "level": lambda i: f"{i // 2}_{i % 2}", "text": lambda i: f"trial_{'cabd'[i % 4]}{i}"}
CATS = ["plain", "two words", "a: b"]


def build(root, states, names="plain"):
    """a..c success with that loss, f crashed, x crashed with a loss for errors, e evaluating, p pending"""
    import neps
    from neps.optimizers.base_optimizer import BaseOptimizer, SampledConfig
    from neps.search_spaces import SearchSpace
    from neps.state.filebased import create_or_load_filebased_neps_state
    from neps.state.optimizer import BudgetInfo, OptimizationState, OptimizerInfo

    name = NAMES[names]

    class Scripted(BaseOptimizer):
        def ask(self, trials, budget_info):
            i = len(trials)
            return SampledConfig(id=name(i), config={"lr": (i + 1) / 16, "kind": CATS[i % 3]},
                                 previous_config_id=name(i - 1) if i % 2 else None)

    st = create_or_load_filebased_neps_state(
        Path(root), optimizer_info=OptimizerInfo({"searcher_name": "some_name", "searcher_alg": "some_alg",
                                                  "searcher_args": {"eta": 3}}),
        optimizer_state=OptimizationState(budget=BudgetInfo(max_cost_budget=None), shared_state={}))
    opt = Scripted(pipeline_space=SearchSpace(lr=neps.Float(0, 1), kind=neps.Categorical(CATS)))
    trials = [st.sample_trial(opt, worker_id=f"sampler{i}") for i, _ in enumerate(states)]
    want = {}
    for i, (s, t) in enumerate(zip(states, trials)):
        w = want[t.id] = {"config": dict(t.config), "kind": s, "loss": None, "cost": None, "meta": t.metadata, "err": None}
        if s == "p":
            continue
        t.set_evaluating(time_started=1000.0 + i, worker_id=f"worker{i}")
        st.put_updated_trial(t)
        if s == "e":
            continue
        okay = s in LOSSES
        w["loss"] = LOSSES.get(s, -99.0 if s == "x" else None)
        w["cost"] = 2.0 if i % 2 else None
        err = None if okay else UserError(f"problem {i}")
        w["err"] = None if okay else f"problem {i}"
        rep = t.set_complete(report_as="success" if okay else "crashed", time_end=2000.0 + i, loss=w["loss"], cost=w["cost"],
                             learning_curve=None, err=err, tb=None if okay else f"the traceback {i}\nsecond line", extra={},
                             evaluation_duration=0.0 if i % 3 else 3661.5)
        st.report_trial_evaluation(t, rep, worker_id=f"worker{i}")
    return want


def neps_cmd(*args):
    """The output of a command; anything which is not a normal end is an error."""
    from neps.utils import cli

    argv, sys.argv = sys.argv, ["neps", *map(str, args)]
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            try:
                cli.main()
            except SystemExit as e:
                require(e.code in (0, None), lambda: f"neps {' '.join(map(str, args))} ends with status {e.code}")
    finally:
        sys.argv = argv
    return out.getvalue()


def fields(text):
    """label -> values of the lines "label: value" """
    out = {}
    for line in text.splitlines():
        if ":" in line:
            k, v = line.split(":", 1)
            out.setdefault(k.strip(), []).append(v.strip())
    return out


def number(text):
    try:
        return float(text)
    except (TypeError, ValueError):
        return None


def rows(text, ids):
    """Table lines, by the trial they are about, in the order they are printed: (id, words)"""
    out = []
    for line in text.splitlines():
        w = line.split()
        hit = [x for x in w if x in ids]
        if hit:
            out.append((hit, w))
    return out


STATE = {"a": "SUCCESS", "b": "SUCCESS", "c": "SUCCESS", "f": "CRASHED", "x": "CRASHED", "e": "EVALUATING", "p": "PENDING"}


def check_status(text, want, filt=None):
    f = fields(text)
    kinds = [w["kind"] for w in want.values()]
    n = {k: sum(x in v for x in kinds) for k, v in (("ok", "abc"), ("err", "fx"), ("e", "e"), ("p", "p"))}

    def field(label, v):
        got = f.get(label, [None])[0]
        require(number(got) == v, lambda: f"status shows {label}: {got}, not {v}, for {kinds}")

    field("Succeeded Trials", n["ok"])
    field("Failed Trials (Errors)", n["err"])
    field("Active Trials", n["e"])
    field("Pending Trials with Worker", n["e"])
    pending = number(f.get("Pending Trials", [None])[0])
    require(pending in (n["p"], n["p"] + n["e"]), lambda: f"status shows {pending} pending trials for {kinds}")
    best = min((w["loss"] for w in want.values() if w["kind"] in "abc"), default=math.inf)
    field("Best Loss Achieved", best)
    # the table
    table = text.split("Latest Trials", 1)[1]
    table = table.split("Best Trial", 1)[0]
    order = list(want)[::-1]
    if filt is None:
        sel = order[:7]
    else:
        sel = [t for t in order if STATE[want[t]["kind"]] == filt]
    shown = []
    for line in table.splitlines():
        words = line.split()
        if len(words) < 6 or words[-2] not in set(STATE.values()):
            continue
        tid = [x for x in words[3:-3] if x in want][:1]
        require(tid, lambda: f"status shows a line {line!r} which is not about a trial")
        t = tid[0]
        shown.append(t)
        w = want[t]
        require(words[-2] == STATE[w["kind"]], lambda: f"status shows trial {t} as {words[-2]}, it is {STATE[w['kind']]}")
        require(w["meta"].sampling_worker_id in words, lambda: f"status shows {line!r}")
        require(words[-1] == "N/A" if w["loss"] is None else number(words[-1]) == w["loss"],
                lambda: f"status shows the loss {words[-1]} for trial {t}, not {w['loss']}")
    require(shown == sel, lambda: f"status ({filt}) shows the trials {shown}, not {sel}")
    if filt is None:
        tail = text.split("Best Trial", 1)[1]
        g = fields(tail)
        if best == math.inf:
            require("ID" not in g, lambda: f"status shows the best trial {g['ID']} although none succeeded")
        else:
            b = g["ID"][0]
            require(b in want and want[b]["kind"] in "abc" and want[b]["loss"] == best,
                    lambda: f"status shows {b} as the best trial of {kinds}")
            require(number(g["Loss"][0]) == best, lambda: f"status shows the best loss {g['Loss']}")
            shows_config(tail, want[b]["config"], f"status of the best trial {b}")
        for k in ("some_name", "some_alg"):
            require(k in tail, lambda: f"status does not show {k}")


def shows_config(text, config, what):
    f = fields(text)
    for k, v in config.items():
        vals = f.get(k, [])
        require(any(x == str(v) or number(x) is not None and number(x) == number(v) for x in vals),
                lambda: f"{what} shows {k}: {vals}, not {v}")


def stamp(t):
    from datetime import datetime

    return datetime.fromtimestamp(t).strftime("%Y-%m-%d %H:%M:%S")


def check_info(text, t, w):
    f = fields(text)
    require(f.get("Trial ID") == [t], lambda: f"info-config {t} shows trial {f.get('Trial ID')}")
    st = STATE[w["kind"]]
    require(st.lower() in f["State"][0].lower(), lambda: f"info-config {t} shows the state {f['State']}, not {st}")
    shows_config(text, w["config"], f"info-config {t}")
    m = w["meta"]

    def field(label, v):
        require(f.get(label, [None])[0] == str(v), lambda: f"info-config {t} shows {label}: {f.get(label)}, not {v}")

    field("Previous Trial ID", m.previous_trial_id)
    field("Sampling Worker ID", m.sampling_worker_id)
    field("Location", m.location)
    field("Time Sampled", stamp(m.time_sampled))
    if w["kind"] != "p":
        field("Evaluating Worker ID", m.evaluating_worker_id)
        field("Time Started", stamp(m.time_started))
    if w["kind"] not in "ep":
        field("Time End", stamp(m.time_end))
        field("Evaluation Duration", "1:01:01" if m.evaluation_duration else "0:00:00")
        for label, v in (("Loss", w["loss"]), ("Cost", w["cost"])):
            got = f.get(label, [None])[0]
            require(got is not None and (got in ("None", "N/A") if v is None else number(got) == v),
                    lambda: f"info-config {t} shows {label}: {got}, not {v}")
        rep = f.get("Reported As", [""])[0].lower()
        require(("success" if w["kind"] in "abc" else "crashed") in rep, lambda: f"info-config {t} shows Reported As: {rep}")
    else:
        require("Loss" not in f or f["Loss"][0] in ("None", "N/A"), lambda: f"info-config {t} shows the loss {f['Loss']} of an unfinished trial")


def check_errors(text, want):
    errs = {t: w for t, w in want.items() if w["err"] is not None}
    f = fields(text)
    shown = f.get("Error in Trial ID", [])
    require(sorted(shown) == sorted(errs), lambda: f"errors shows {shown}, the failed trials are {sorted(errs)}")
    blocks = re.split(r"Error in Trial ID:", text)[1:]
    for b in blocks:
        t = b.split()[0]
        w = errs[t]
        i = w["err"].split()[-1]
        words = b.split()
        require(w["err"] in b and "UserError" in b and w["meta"].evaluating_worker_id in words
                and f"the traceback {i}\nsecond line" in b, lambda: f"errors shows for trial {t}: {b!r}")


def incumbents(want):
    best, out = math.inf, []
    for t, w in want.items():
        if w["kind"] in "abc" and w["loss"] < best:
            best = w["loss"]
            out.append(t)
    return out[::-1]


def check_results(text, want):
    exp = incumbents(want)
    shown = []
    for line in text.splitlines():
        words = line.split()
        if words and words[0] in want:
            shown.append(words[0])
            require(number(words[1]) == want[words[0]]["loss"], lambda: f"results shows {line!r}")
            for k, v in want[words[0]]["config"].items():
                require(f"{k}: {v}" in line, lambda: f"results shows {line!r} for {want[words[0]]['config']}")
    require(shown == exp, lambda: f"results shows the incumbents {shown}, not {exp}: {[(t, w['kind']) for t, w in want.items()]}")


def snapshot(*roots):
    out = {}
    for root in roots:
        for d, _, files in os.walk(root):
            for f in files:
                p = os.path.join(d, f)
                if "lock" in f:
                    continue
                with open(p, "rb") as fh:
                    out[p] = fh.read()
    return out


class Place:
    """A working directory of the user with a file of theirs in it and (maybe) a run_config.yaml"""

    def __init__(self):
        self.base = os.path.abspath(fresh_dir("base"))
        self.cwd = os.path.join(self.base, "cwd")
        os.makedirs(self.cwd)
        for f in ("cli.md", "notes.txt", "results.txt"):
            with open(os.path.join(self.cwd, f), "w") as fh:
                fh.write("mine")
        self.old = os.getcwd()
        os.chdir(self.cwd)

    def done(self):
        os.chdir(self.old)


def show_all(root, want, args, place):
    before = snapshot(place.base)
    check_status(neps_cmd("status", *args), want)
    for flag, st in (("--pending", "PENDING"), ("--evaluating", "EVALUATING"), ("--succeeded", "SUCCESS")):
        check_status(neps_cmd("status", flag, *args), want, st)
    check_errors(neps_cmd("errors", *args), want)
    check_results(neps_cmd("results", *args), want)
    for t, w in want.items():
        check_info(neps_cmd("info-config", t, *args), t, w)
    for t in ("99", "nothing"):
        text = neps_cmd("info-config", t, *args)
        require("Trial ID" not in fields(text), lambda: f"info-config {t} shows {text!r}")
    after = snapshot(place.base)
    diff = sorted(os.path.relpath(k, place.base) for k in before.keys() | after.keys() if before.get(k) != after.get(k))
    require(not diff, lambda: f"looking at the run changes the files {diff}")


def state_cases(quick):
    for n in range(4 if quick else 5):
        for s in itertools.product("abcfxep", repeat=n):
            for names in NAMES if n < 3 or not quick else ("level",):
                yield ("".join(s), names)
    for s in ("p" * 12, "cbacbacba", "fepcbafepcba", "e" * 11, "c" * 12 + "a", "x" * 9 + "a", "fxfxfxfxfxfa", "cxbxaxepepep"):
        for names in NAMES:
            yield (s, names)


def state_case(case):
    states, names = case
    p = Place()
    try:
        root = os.path.join(p.base, "results")
        want = build(root, states, names)
        show_all(root, want, ("--root-directory", root), p)
        return {"stats": {"trials": len(states), "commands": len(states) + 8}}
    finally:
        p.done()


# ------------------------------------------------------------------------------------------------ naming the directory
def where_cases(quick):
    for how in ("abs", "rel", "config abs", "config rel", "both"):
        for s in ("", "afep", "cab"):
            yield (how, s)
    for how in ("missing", "file", "empty", "foreign", "no config", "config without"):
        yield (how, "")


def where_case(case):
    how, states = case
    p = Place()
    try:
        root = os.path.join(p.cwd, "sub", "res")
        os.makedirs(os.path.dirname(root))
        cfg = os.path.join(p.cwd, "run_config.yaml")
        args = ("--root-directory", root)
        if how in ("missing", "file", "empty", "foreign", "no config", "config without"):
            if how == "file":
                Path(root).write_text("mine")
            elif how in ("empty", "foreign"):
                os.makedirs(root)
                if how == "foreign":
                    Path(root, "data.txt").write_text("mine")
            elif how == "config without":
                Path(cfg).write_text("max_evaluations_total: 3\n")
            before = snapshot(p.base)
            for cmd in (("status",), ("errors",), ("results",), ("info-config", "1")):
                if how in ("no config", "config without"):
                    try:
                        text = neps_cmd(*cmd)
                    except ValueError:
                        continue
                    require(False, lambda: f"{cmd} without a directory shows {text!r}")
                text = neps_cmd(*cmd, *args)
                require(text.strip() != "" and "Succeeded" not in text and "Trial ID" not in text and "Incumbent" not in text,
                        lambda: f"{cmd} of a place without a run ({how}) shows {text!r}")
            require(snapshot(p.base) == before, "looking changes files")
            return
        want = build(root, states)
        if how == "rel":
            args = ("--root-directory", "sub/res")
        elif how.startswith("config") or how == "both":
            Path(cfg).write_text(f"root_directory: {root if how != 'config rel' else 'sub/res'}\n")
            args = ()
        if how == "both":
            other = os.path.join(p.base, "other")
            want = build(other, states + "a")
            args = ("--root-directory", other)
        show_all(root, want, args, p)
    finally:
        p.done()


# ------------------------------------------------------------------------------------------------ init
def init_cases(quick):
    for template in (None, "basic", "complete"):
        for path in (None, "mine.yaml", "sub/c.yaml"):
            for exists in (False, True):
                for machine in (False, True):
                    yield (template, path, exists, machine)


def init_case(case):
    import yaml

    template, path, exists, machine = case
    p = Place()
    try:
        os.makedirs("sub")
        target = path or "run_config.yaml"
        if exists:
            Path(target).write_text("# my settings\nroot_directory: there\n")
        before = snapshot(p.base)
        args = [] if template is None else ["--template", template]
        args += [] if path is None else ["--config-path", path]
        args += ["--state-machine"] if machine else []
        neps_cmd("init", *args)
        after = snapshot(p.base)
        t = os.path.join(p.cwd, target)
        require({k: v for k, v in after.items() if k != t} == {k: v for k, v in before.items() if k != t},
                "init changes other files")
        if exists:
            require(after[t] == before[t], "init overwrites an existing file")
            return
        data = yaml.safe_load(after[t])
        require({"run_pipeline", "pipeline_space", "root_directory"} <= set(data), lambda: f"init writes {data}")
        if template != "complete":
            return
        # the complete template is a run, once it says where the pipeline and the results are
        Path("mod.py").write_text("def f(**config):\n    assert set(config) == {'learning_rate', 'epochs', 'optimizer', "
                                  "'batch_size'}, config\n    return 1.0 / config['epochs']\n")
        text = after[t].decode().replace("path/to/your/run_pipeline.py", "mod.py").replace("example_pipeline", "f")
        text = text.replace("path/to/results", "res").replace("max_evaluations_total: 20", "max_evaluations_total: 3")
        Path(target).write_text(text)
        neps_cmd("run", "--run-args", target)
        from neps.state.filebased import load_filebased_neps_state

        T = load_filebased_neps_state(Path("res")).get_all_trials()
        require(len(T) == 3 and all(t.state.value == "success" for t in T.values()), lambda: f"the run gives {T}")
    finally:
        p.done()


# ------------------------------------------------------------------------------------------------ real runs
def run_cases(quick):
    for searcher in ("random_search", "successive_halving", "hyperband") if quick else (
            "random_search", "successive_halving", "hyperband", "asha", "grid_search"):
        for outcomes in itertools.product("abf", repeat=4 if quick else 5):
            yield (searcher, "".join(outcomes))


def run_case(case):
    searcher, outcomes = case
    import neps
    from neps.state.filebased import load_filebased_neps_state

    p = Place()
    try:
        root = os.path.join(p.base, "results")
        n = [0]

        def f(**config):
            o = outcomes[n[0]]
            n[0] += 1
            if o == "f":
                raise UserError(f"problem {n[0]}")
            return {"loss": LOSSES[o], "cost": 1.0}

        space = {"lr": neps.Float(0, 1)}
        if searcher not in ("random_search", "grid_search"):
            space["e"] = neps.Integer(1, 9, is_fidelity=True)
        kw = {"eta": 3} if "e" in space else {}
        for k in range(1, len(outcomes) + 1):
            neps.run(run_pipeline=f, pipeline_space=space, root_directory=root, max_evaluations_total=k, searcher=searcher,
                     ignore_errors=True, post_run_summary=False, **kw)
        T = load_filebased_neps_state(Path(root)).get_all_trials()
        done = sorted(T.values(), key=lambda t: t.metadata.time_sampled)
        want = {t.id: {"config": dict(t.config), "kind": o, "loss": LOSSES.get(o), "cost": None if o == "f" else 1.0,
                       "meta": t.metadata, "err": None} for t, o in zip(done, outcomes)}
        require(len(want) == len(outcomes), lambda: f"{len(want)} trials")
        check_results(neps_cmd("results", "--root-directory", root), want)
        for t, w in want.items():
            text = neps_cmd("info-config", t, "--root-directory", root)
            require(fields(text).get("Trial ID") == [t], lambda: f"info-config {t} shows {text!r}")
            shows_config(text, w["config"], f"info-config {t}")
        text = neps_cmd("status", "--root-directory", root)
        g = fields(text)
        ok = sum(o != "f" for o in outcomes)
        require(number(g["Succeeded Trials"][0]) == ok and number(g["Failed Trials (Errors)"][0]) == len(outcomes) - ok,
                lambda: f"status shows {g}")
        shown = fields(neps_cmd("errors", "--root-directory", root)).get("Error in Trial ID", [])
        require(sorted(shown) == sorted(t for t, w in want.items() if w["kind"] == "f"), lambda: f"errors shows {shown}")
    finally:
        p.done()


# ------------------------------------------------------------------------------------------------ the plot
def plot_case(states):
    p = Place()
    try:
        root = os.path.join(p.base, "results")
        build(root, states[0], states[1])
        before = snapshot(p.base)
        neps_cmd("results", "--plot", "--root-directory", root)
        after = snapshot(p.base)
        new = sorted(k for k in after if after[k] != before.get(k))
        require(len(new) == 1 and new[0].startswith(root) and new[0].endswith(".png") and set(before) <= set(after),
                lambda: f"results --plot writes {new}")
        require(after[new[0]][:4] == b"\x89PNG", "not a picture")
    finally:
        p.done()


def run(ck):
    ck.rule = RULE
    ck.level = "exploration"
    q = ck.quick
    os.environ["MPLCONFIGDIR"] = os.path.join(ck.base, "mpl")
    os.environ["MPLBACKEND"] = "Agg"
    import neps.utils.cli  # noqa: F401

    ck.enumerate("states", state_cases(q), state_case)
    ck.enumerate("where", where_cases(q), where_case)
    ck.enumerate("init", init_cases(q), init_case)
    ck.enumerate("runs", run_cases(q), run_case)
    ck.enumerate("plot", [(s, n) for s in ("", "p", "a", "cba", "fa", "xep", "c" * 30) for n in NAMES], plot_case)
