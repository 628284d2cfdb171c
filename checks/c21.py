import contextlib
import io
import itertools
import json
import os
import shutil
import sys
from pathlib import Path

from lib import runs, seq
from lib.harness import Violation, fresh_dir, require, same

RULE = ("every setting x every source (call, command line, file, both, neither) and value, every pair of settings (thorough: "
        "triples), each observed through what the run does against a reference; every kind of search space for the default "
        "searcher; every option of every searcher x source; distinct = case")

A = object()  # not given

# ------------------------------------------------------------------------------------------------ the settings
# values for the call and for the file; the first of each is used for pairs
CALL = {
    "run_pipeline": ["fA"], "pipeline_space": ["sA"], "root_directory": ["rA"],
    "overwrite_working_directory": [True, False], "post_run_summary": [False, True],
    "development_stage_id": ["st", 0, None], "task_id": ["tk", 0, None], "max_evaluations_total": [5],
    "max_evaluations_per_run": [1, 0, None], "continue_until_max_evaluation_completed": [True, False],
    "max_cost_total": [9.0, 3, None], "ignore_errors": [True, False], "loss_value_on_error": [7.5, 0.0, None],
    "cost_value_on_error": [2.5, 0.0, None], "pre_load_hooks": ["hA", None],
}
FILE = {
    "run_pipeline": ["fB"], "pipeline_space": ["sB", "sC"], "root_directory": ["rB"],
    "overwrite_working_directory": [True, False, None], "post_run_summary": [False, True, None],
    "development_stage_id": ["fst", 0, 3, None], "task_id": ["ftk", 0, None], "max_evaluations_total": [4, None],
    "max_evaluations_per_run": [2, 0, None], "continue_until_max_evaluation_completed": [True, False, None],
    "max_cost_total": [17.5, 6, None], "ignore_errors": [True, False, None], "loss_value_on_error": [8.25, 0.0, None],
    "cost_value_on_error": [4.0, 0.0, None], "pre_load_hooks": ["hB", None],
}
DEFAULT = {"overwrite_working_directory": False, "post_run_summary": True,
           "continue_until_max_evaluation_completed": False, "ignore_errors": False}
BASE_CALL = {"run_pipeline": "fA", "pipeline_space": "sA", "root_directory": "rA", "max_evaluations_total": 5}
CLI = {k for k in CALL} - {"pre_load_hooks"}

MODULE = '''
import json, os
from pathlib import Path
import neps

def write(*what):
    with open({log!r}, "a") as f:
        f.write(json.dumps(what) + "\\n")

class UserError(Exception):
    pass

def make(label):
    def run_pipeline(pipeline_directory, x, **rest):
        tid = os.path.basename(str(pipeline_directory)).split("config_", 1)[1]
        with open({log!r}) as f:
            n = sum(json.loads(line)[0] == "eval" for line in f)
        write("eval", label, tid, x, os.path.dirname(os.path.dirname(str(pipeline_directory))))
        if n == 1:
            raise UserError("second evaluation")
        k = int(tid)
        return {{"loss": 0.25 * k + 1.0, "cost": float(2 ** k)}}
    return run_pipeline

fA, fB = make("fA"), make("fB")

def hook(label):
    def h(optimizer):
        write("hook", label)
        return optimizer
    return h

hA, hB = hook("hA"), hook("hB")
sC = {{"x": neps.Float(4, 5)}}
'''
RANGES = {"sA": (0, 1), "sB": (2, 3), "sC": (4, 5)}


def combos(k):
    for c in (A, *CALL[k]):
        for f in (A, *FILE[k]):
            yield c, f


def single_cases(quick):
    for k in CALL:
        for c, f in combos(k):
            for via in ("call", "cli"):
                yield (via, {k: (show(c), show(f))})


def pair_cases(quick):
    def four(k):
        c, f = CALL[k][0], FILE[k][0]
        return [(c, A), (A, f), (c, f if f != c else FILE[k][1])]

    for r in (2,) if quick else (2, 3):
        for i, ks in enumerate(itertools.combinations(CALL, r)):
            for vals in itertools.product(*(four(k) for k in ks)):
                yield (("call", "cli")[i % 2] if r == 3 else "call", {k: tuple(map(show, v)) for k, v in zip(ks, vals)})
                if r == 2:
                    yield ("cli", {k: tuple(map(show, v)) for k, v in zip(ks, vals)})


def all_cases(quick):
    """everything from the file, everything from the call, and each setting left out or moved to the other side"""
    for base in ("call", "file"):
        for leave in (None, *CALL):
            for moved in (None, *CALL):
                d = {}
                for k in CALL:
                    side = base if k != moved else {"call": "file", "file": "call"}[base]
                    d[k] = (A, A) if k == leave else (CALL[k][0], A) if side == "call" else (A, FILE[k][0])
                yield ("call", {k: tuple(map(show, v)) for k, v in d.items()})


def show(v):
    return "-" if v is A else v


def unshow(v):
    return A if isinstance(v, str) and v == "-" else v


def effective(case):
    call, file = dict(BASE_CALL), {}
    for k, (c, f) in case.items():
        call.pop(k, None)
        if unshow(c) is not A:
            call[k] = c
        if unshow(f) is not A:
            file[k] = f
    eff = {}
    for k in CALL:
        # nothing (null) in the file is the same as not given
        eff[k] = call[k] if k in call else file[k] if file.get(k) is not None else DEFAULT.get(k)
    return call, file, eff


def yaml_of(file, mod, nested):
    import yaml

    d = {}
    for k, v in file.items():
        if k == "run_pipeline" and v:
            v = {"path": mod, "name": v}
        elif k == "pre_load_hooks" and v:
            v = {v: mod}
        elif k == "pipeline_space":
            v = {"path": mod, "name": "sC"} if v == "sC" else {"x": {"lower": RANGES[v][0] + 0.0, "upper": RANGES[v][1] + 0.0}}
        d[k] = v
    if nested:
        e = {}
        for i, (k, v) in enumerate(d.items()):
            if i % 3 == 0:
                e[k] = v
            else:
                e.setdefault(f"group {i % 3}", {}).setdefault("inner" if i % 2 else "other", {})[k] = v
        d = e
    return yaml.safe_dump(d, sort_keys=False)


def cli_args(call, base, mod):
    """The command line for these settings, or None if it cannot express them."""
    import yaml

    out = ["run"]
    for k, v in call.items():
        if k not in CLI or v is None:
            return None
        o = "--" + k.replace("_", "-")
        if k == "run_pipeline":
            out += [o, f"{mod}:{v}"]
        elif k == "pipeline_space":
            p = os.path.join(base, "space.yaml")
            with open(p, "w") as f:
                f.write(yaml.safe_dump({"x": {"lower": RANGES[v][0] + 0.0, "upper": RANGES[v][1] + 0.0}}))
            out += [o, p]
        elif isinstance(v, bool):
            if v:
                out.append(o)
            elif k == "post_run_summary":
                out.append("--no-post-run-summary")
            else:
                return None
        else:
            out += [o, str(v)]
    return out


def start(via, call, file, base, mod, extra, nested):
    """Start the run; returns the exception it ends with."""
    import importlib.util

    import neps

    yml = None
    if file:
        yml = os.path.join(base, "args.yaml")
        with open(yml, "w") as f:
            f.write(yaml_of(file, mod, nested))
    if via == "cli":
        from neps.utils import cli

        argv = cli_args(call, base, mod)
        argv += ["--run-args", yml] if yml else []
        argv += [x for k, v in extra.items() for x in (f"--{k}", v)]
        old = sys.argv
        sys.argv = ["neps", *argv]
        try:
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                cli.main()
        except (Exception, SystemExit) as e:  # noqa: BLE001
            return e
        finally:
            sys.argv = old
        return None
    spec = importlib.util.spec_from_file_location("user_settings", mod)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    kw = dict(call)
    if "run_pipeline" in kw:
        kw["run_pipeline"] = getattr(m, kw["run_pipeline"])
    if kw.get("pre_load_hooks"):
        kw["pre_load_hooks"] = [getattr(m, kw["pre_load_hooks"])]
    if "pipeline_space" in kw:
        kw["pipeline_space"] = {"x": neps.Float(*RANGES[kw["pipeline_space"]])}
    if yml:
        kw["run_args"] = yml
    try:
        neps.run(**kw, **extra)
    except Exception as e:  # noqa: BLE001
        return e
    return None


def snapshot(top):
    out = {}
    for d, _, files in os.walk(top):
        out[d] = None
        for f in files:
            p = os.path.join(d, f)
            with open(p, "rb") as fh:
                out[p] = fh.read()
    return out


def setting_case(case):
    via, settings = case
    call, file, eff = effective(settings)
    base = os.path.abspath(fresh_dir("base"))
    os.makedirs(base)
    os.chdir(base)
    try:
        return _setting_case(via, call, file, eff, base)
    finally:
        os.chdir(os.path.dirname(base))


def _setting_case(via, call, file, eff, base):
    mod, log = os.path.join(base, "user.py"), os.path.join(base, "log")
    with open(mod, "w") as f:
        f.write(MODULE.format(log=log))
    open(log, "w").close()
    if via == "cli" and cli_args(call, base, mod) is None:
        return {"stats": {"not expressible": 1}}
    missing = [k for k in ("run_pipeline", "root_directory", "pipeline_space") if eff[k] is None]
    if not eff["max_evaluations_total"] and not eff["max_cost_total"]:
        missing.append("a budget")
    where = None
    if eff["root_directory"] is not None:
        where = Path(base) / eff["root_directory"]
        if eff["task_id"] is not None:
            where = where / f"task_{eff['task_id']}"
        if eff["development_stage_id"] is not None:
            where = where / f"dev_{eff['development_stage_id']}"
        shutil.copytree(seq.template("se"), where)
        dirs = {p: snapshot(p) for p in (where,)}
    before = set(os.listdir(base))
    err = start(via, call, file, base, mod, {"searcher": "random_search"}, nested=len(file) % 2 == 0)
    with open(log) as f:
        events = [json.loads(x) for x in f]
    if missing:
        require(isinstance(err, ValueError), lambda: f"without {missing} the run ends with {err!r}")
        require(not events, lambda: f"without {missing} the run starts: {events}")
        if where is not None:
            require(snapshot(where) == dirs[where], lambda: f"without {missing} the run changes {where}")
        return {"stats": {"refused": 1}}
    made = set(os.listdir(base)) - before - {"args.yaml", "space.yaml", "cli.md"}
    require(not made, lambda: f"the run creates {sorted(made)}, its directory is {where}")
    new = sorted({str(p.parent) for p in Path(base).rglob("configs")} - {str(where)})
    require(not new, lambda: f"trials in {new}, the directory is {where}")
    # the reference
    m = seq.Model("" if eff["overwrite_working_directory"] else "se")

    def behave(i):
        return "f" if i == 1 else "o"

    ids, end = m.worker(behave, 0, total=eff["max_evaluations_total"],
                        in_progress=not eff["continue_until_max_evaluation_completed"], per_run=eff["max_evaluations_per_run"],
                        cost_total=eff["max_cost_total"], on_error="ignore" if eff["ignore_errors"] else "raise_any_error",
                        cost_on_error=eff["cost_value_on_error"], cap=99)
    evals = [e[1:] for e in events if e[0] == "eval"]
    require([e[1] for e in evals] == ids, lambda: f"evaluates {[e[1] for e in evals]}, not {ids}: {eff}")
    ended = "stop" if err is None else "raise" if type(err).__name__ == "WorkerRaiseError" else repr(err)
    require(ended == end, lambda: f"ends with {ended}, not {end}: {eff}")
    lo, hi = RANGES[eff["pipeline_space"]]
    for label, tid, x, d in evals:
        require(label == eff["run_pipeline"], lambda: f"evaluates with {label}, not {eff['run_pipeline']}")
        require(lo <= x <= hi, lambda: f"x={x} is not of the space {eff['pipeline_space']}")
        require(d == str(where), lambda: f"evaluates in {d}, not in {where}")
    hooks = {e[1] for e in events if e[0] == "hook"}
    want = {eff["pre_load_hooks"]} if eff["pre_load_hooks"] and evals else set()
    require(hooks == want, lambda: f"calls the hooks {hooks}, not {want}")
    act = seq.actual(where)
    require(act["states"] == [t[0] for t in m.trials], lambda: f"the trials are {act['states']}, not {m.trials}")
    for i, t in enumerate(m.trials):
        if t[0] != "f":
            continue
        r = act["trials"][str(i + 1)]["report"]
        require(same(r["loss"], eff["loss_value_on_error"]) and same(r["cost"], eff["cost_value_on_error"]),
                lambda: f"failed trial is reported with loss {r['loss']} and cost {r['cost']}: {eff}")
    has = (where / "summary_csv").exists()
    require(has == (bool(eff["post_run_summary"]) and err is None), lambda: f"summary written: {has}, {eff}")
    return {"stats": {"evaluations": len(evals)}}


# ------------------------------------------------------------------------------------------------ unknown or ill-typed
def refused_cases(quick):
    wrong = {"overwrite_working_directory": ["yes please", 3], "post_run_summary": ["x"], "max_evaluations_total": ["five", 2.5],
             "max_evaluations_per_run": ["x", 1.5], "continue_until_max_evaluation_completed": ["x"], "max_cost_total": ["x"],
             "ignore_errors": ["x"], "loss_value_on_error": ["x"], "cost_value_on_error": ["x"], "root_directory": [5],
             "max_evaluation_total": [4], "budgets": [4], "max_evals": [3], "ignore_error": [True], "seed": [1]}
    for k, vs in wrong.items():
        for v in vs:
            for nested in (False, True):
                for via in ("call", "cli"):
                    yield (k, v, nested, via)


def refused_case(case):
    k, v, nested, via = case
    base = os.path.abspath(fresh_dir("base"))
    os.makedirs(base)
    os.chdir(base)
    try:
        mod, log = os.path.join(base, "user.py"), os.path.join(base, "log")
        with open(mod, "w") as f:
            f.write(MODULE.format(log=log))
        open(log, "w").close()
        before = set(os.listdir(base))
        call = dict(BASE_CALL)
        call.pop(k, None)
        err = start(via, call, {"task_id": 1, k: v, "development_stage_id": 2}, base, mod, {"searcher": "random_search"}, nested)
        require(isinstance(err, (KeyError, TypeError, ValueError)), lambda: f"{k}: {v!r} in the file: ends with {err!r}")
        require(os.path.getsize(log) == 0, lambda: f"{k}: {v!r} in the file: the run starts")
        made = set(os.listdir(base)) - before - {"args.yaml", "space.yaml", "cli.md"}
        require(not made, lambda: f"{k}: {v!r} in the file: creates {made}")
    finally:
        os.chdir(os.path.dirname(base))


# ------------------------------------------------------------------------------------------------ searchers
@contextlib.contextmanager
def captured(box, real=False):
    """Remember how the searcher is created; then really create it, or stop."""
    from neps.optimizers import SearcherMapping

    class Stop(Exception):
        pass

    def capture(name):
        class Capture:
            def __new__(cls, pipeline_space, **kw):
                box.update(name=name, space=pipeline_space, kw=dict(kw))
                if real:
                    return old[name](pipeline_space=pipeline_space, **kw)
                raise Stop
        return Capture

    old = dict(SearcherMapping)
    for k in old:
        SearcherMapping[k] = capture(k)
    try:
        with contextlib.suppress(Stop):
            yield
    finally:
        SearcherMapping.clear()
        SearcherMapping.update(old)


def spaces():
    """name -> (YAML-style definition, has prior, has fidelity)"""
    out = {}
    for prior in ("", "x", "n", "c", "xnc"):
        for fid in ("", "int", "float", "int prior"):
            d = {"x": {"lower": 0.0, "upper": 1.0}, "n": {"lower": 1, "upper": 9}, "c": {"choices": ["a", "b"]}, "k": 7}
            for p in prior:
                d[p]["default"] = {"x": 0.25, "n": 3, "c": "b"}[p]
            if fid:
                d["e"] = {"lower": 1, "upper": 9, "is_fidelity": True} if "int" in fid else {
                    "lower": 1.0, "upper": 9.0, "is_fidelity": True}
                if "prior" in fid:
                    d["e"]["default"] = 9
            out[f"{prior or 'none'}/{fid or 'none'}"] = (d, bool(prior) or "prior" in fid, bool(fid))
    return out


def python_space(d):
    import neps

    out = {}
    for k, v in d.items():
        if not isinstance(v, dict):
            out[k] = neps.Constant(v)
        elif "choices" in v:
            out[k] = neps.Categorical(**v)
        else:
            out[k] = (neps.Float if isinstance(v["lower"], float) else neps.Integer)(**v)
    return out


def configspace(d):
    import ConfigSpace as CS

    hs = []
    for k, v in d.items():
        if not isinstance(v, dict):
            hs.append(CS.Constant(k, v))
        elif "choices" in v:
            hs.append(CS.CategoricalHyperparameter(k, v["choices"], default_value=v.get("default")))
        else:
            T = CS.UniformFloatHyperparameter if isinstance(v["lower"], float) else CS.UniformIntegerHyperparameter
            hs.append(T(k, lower=v["lower"], upper=v["upper"], default_value=v.get("default")))
    cs = CS.ConfigurationSpace()
    cs.add(hs) if hasattr(cs, "add") else cs.add_hyperparameters(hs)
    return cs


def choice_cases(quick):
    for s, (d, prior, fid) in spaces().items():
        for form in ("python", "yaml", "file") + (("cs",) if not fid else ()):
            for how in ("absent", "default", "none", "file default", "file null"):
                for opts in ({}, {"eta": 2}):
                    yield (s, form, how, opts)


def launch(box, base, space, call, file, opts, real=False):
    import neps
    import yaml

    kw = {"run_pipeline": lambda **kw: 1.0, "root_directory": os.path.join(base, "res"), "max_evaluations_total": 1,
          "post_run_summary": False, **call}
    if space is not None:
        kw["pipeline_space"] = space
    if file is not None:
        y = os.path.join(base, "args.yaml")
        with open(y, "w") as f:
            f.write(yaml.safe_dump(file, sort_keys=False))
        kw["run_args"] = y
    with captured(box, real):
        neps.run(**kw, **opts)


def base_dir():
    base = os.path.abspath(fresh_dir("base"))
    os.makedirs(base)
    return base


def choice_case(case):
    import yaml

    s, form, how, opts = case
    d, prior, fid = spaces()[s]
    base = base_dir()
    if form == "cs":
        # every uniform parameter of a ConfigurationSpace has a default value: the centre, if none is given
        prior = True
    file = {"file default": {"searcher": "default"}, "file null": {"searcher": None, "task_id": 3}}.get(how)
    space = python_space(d) if form == "python" else configspace(d) if form == "cs" else None
    if form == "yaml":
        space = os.path.join(base, "space.yaml")
        with open(space, "w") as f:
            f.write(yaml.safe_dump(d))
    if form == "file":
        file = {**(file or {}), "pipeline_space": d}
    call = {"absent": {}, "default": {"searcher": "default"}, "none": {"searcher": None}}.get(how, {})
    box, evals = {}, []
    call["run_pipeline"] = lambda **kw: evals.append(kw) or 1.0
    priors_ok = prior and fid and not all(isinstance(v, dict) is False or "default" in v for v in d.values())
    real = form == "python" and not opts and not priors_ok  # priorband needs a default for every parameter
    launch(box, base, space, call, file, opts, real)
    require(len(evals) == real, lambda: f"{len(evals)} evaluations")
    want = ("priorband" if fid else "pibo") if prior else ("hyperband" if fid else "bayesian_optimization")
    got = box.get("name")
    if form == "cs" and not any(isinstance(v, dict) and "default" in v for v in d.values()):
        require(got in ("pibo", "bayesian_optimization"), lambda: f"searcher {got}")
        return
    require(got == want, lambda: f"a space with prior={prior} and fidelity={fid} is searched with {got}, not {want}")
    kw = {k: v for k, v in box["kw"].items() if k not in RUN}
    require(kw == defaults()[want], lambda: f"{want} is created with {kw}, its defaults are {defaults()[want]}")


RUN = ("budget", "loss_value_on_error", "cost_value_on_error", "ignore_errors")


def defaults():
    import yaml

    import neps.optimizers

    d = Path(neps.optimizers.__file__).parent / "default_searchers"
    out = {}
    for p in sorted(d.glob("*.yaml")):
        with p.open() as f:
            c = yaml.safe_load(f)
        c.pop("strategy")
        out[p.stem] = c
    return out


def strategies():
    import yaml

    import neps.optimizers

    d = Path(neps.optimizers.__file__).parent / "default_searchers"
    return {p.stem: yaml.safe_load(p.read_text())["strategy"] for p in d.glob("*.yaml")}


def other(v):
    """Another value for the option, for the call and for the file."""
    if isinstance(v, bool):
        return [not v, v]
    if isinstance(v, int):
        return [v + 1, v + 2, v]
    if isinstance(v, float):
        return [v + 0.5, v + 0.25, v]
    return ["one", "two", v, None]


def option_cases(quick):
    for s, c in defaults().items():
        for k, v in c.items():
            vals = other(v)
            for a in (A, *vals):
                for b in (A, *vals):
                    for src in ("dict", "yaml", "named") if b is not A else ("name", "yaml"):
                        yield (s, k, show(a), show(b), src)
        for k in ("brand_new", "verbose"):
            yield (s, k, 3, "-", "name")
            yield (s, k, 3, 4, "dict")
            yield (s, k, "-", 4, "yaml")


def option_case(case):
    import yaml

    s, k, a, b, src = case
    base = base_dir()
    custom = {} if unshow(b) is A else {k: b}
    want = {**(defaults()[s] if src != "yaml" else {}), **custom, **({} if unshow(a) is A else {k: a})}
    name = s
    call, file = {}, None
    if src == "name":
        call = {"searcher": s}
    elif src in ("dict", "named"):
        file = {"searcher": {"strategy": s, **custom}}
        name = f"custom_{s}"
        if src == "named":
            file["searcher"]["name"] = name = "my own"
    else:
        p = os.path.join(base, "my_searcher.yaml")
        own = {"strategy": strategies()[s], **custom}
        name = "my_searcher"
        if k == "eta":
            own["name"] = name = "given name"
        with open(p, "w") as f:
            f.write(yaml.safe_dump(own))
        call = {"searcher": p if k != "use_priors" else Path(p)}
    box = {}
    launch(box, base, python_space(spaces()["x/int"][0]), call, file, {} if unshow(a) is A else {k: a})
    require(box.get("name") in (strategies()[s], s), lambda: f"runs {box.get('name')}, not {s}")
    kw = {x: y for x, y in box["kw"].items() if x not in RUN}
    require(same(kw, want), lambda: f"{s} is created with {kw}, not {want}")


def precedence_cases(quick):
    srcs = ["random_search", "hyperband", "dict", "class", "yaml", "-"]
    for c in [*srcs[:2], "yaml", "instance", "class", "none", "-"]:
        for f in srcs:
            for opts in ({}, {"eta": 5}):
                for space in ("call", "yaml", "cs", "file", "both"):
                    yield (c, f, opts, space)


CLASS = '''
import json
from neps.optimizers.base_optimizer import BaseOptimizer, SampledConfig

class Mine(BaseOptimizer):
    def __init__(self, pipeline_space, **kw):
        super().__init__(pipeline_space=pipeline_space)
        self.kw = kw
        with open({log!r}, "a") as f:
            f.write(json.dumps([kw, sorted(pipeline_space)]) + "\\n")

    def ask(self, trials, budget_info):
        return SampledConfig(id=str(len(trials) + 1), config={{"x": 0.5}})
'''


def precedence_case(case):
    import importlib.util

    import yaml

    c, f, opts, space = case
    base = base_dir()
    log, mod = os.path.join(base, "log"), os.path.join(base, "own.py")
    with open(mod, "w") as fh:
        fh.write(CLASS.format(log=log))
    own = os.path.join(base, "own_yaml.yaml")
    with open(own, "w") as fh:
        fh.write(yaml.safe_dump({"strategy": "successive_halving", "eta": 9}))
    spec = importlib.util.spec_from_file_location("own", mod)
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    from neps.search_spaces import SearchSpace

    d = {"x": {"lower": 0.0, "upper": 1.0}, "e": {"lower": 1, "upper": 9, "is_fidelity": True}}
    if space == "cs":
        d.pop("e")
    file = {"searcher": {"dict": {"strategy": "asha", "eta": 7}, "class": {"path": mod, "name": "Mine", "eta": 8, "z": 1},
                         "yaml": own}.get(f, f)}
    if f == "-":
        file = {}
    arg = None
    names = sorted(d)
    if space in ("call", "both"):
        arg = python_space(d)
    elif space == "yaml":
        arg = os.path.join(base, "space.yaml")
        with open(arg, "w") as fh:
            fh.write(yaml.safe_dump(d))
    elif space == "cs":
        arg = configspace(d)
    if space == "file":
        file["pipeline_space"] = d
    elif space == "both":
        file["pipeline_space"] = {"q": {"lower": 0.0, "upper": 1.0}}
    call = {}
    inst = None
    if c == "instance":
        inst = m.Mine(SearchSpace(**python_space(d)))
        os.unlink(log)
        call = {"searcher": inst}
    elif c == "class":
        call = {"searcher": m.Mine}
    elif c == "yaml":
        call = {"searcher": own}
    elif c == "none":
        call = {"searcher": None}
    elif c != "-":
        call = {"searcher": c}
    eff = c if c != "-" else f if f != "-" else "none"
    box, asked = {}, []
    opt = dict(opts)
    if eff == "random_search":
        opt = {}
    call["run_pipeline"] = lambda **kw: asked.append(kw) or 1.0
    launch(box, base, arg, call, file or None, opt)
    made = []
    if os.path.exists(log):
        with open(log) as fh:
            made = [json.loads(x) for x in fh]
    if eff in ("instance", "class"):
        require("name" not in box, lambda: f"runs {box['name']} instead of the searcher given")
        require(asked == [{"x": 0.5}], lambda: f"evaluates {asked}")
        if eff == "class":
            given = {"eta": 8, "z": 1} if c == "-" else {}
            require(made == [[{**given, **opt}, names]], lambda: f"the searcher is created with {made}, file {file}, call {opt}")
        else:
            require(made == [], lambda: f"the searcher is created again: {made}")
        return
    require(not made, lambda: f"the searcher of the file is created: {made}")
    prior = space == "cs"
    if eff == "none":
        want = "pibo" if prior else "hyperband"
        if prior:
            require(box.get("name") in ("pibo", "bayesian_optimization"), lambda: f"runs {box.get('name')}")
            return
        kw = defaults()[want]
    elif eff == "dict":
        want, kw = "asha", {**defaults()["asha"], "eta": 7, **opt}
    elif eff == "yaml":
        want, kw = "successive_halving", {"eta": 9, **opt}
    else:
        want, kw = eff, {**defaults()[eff], **opt}
    require(box.get("name") == want, lambda: f"runs {box.get('name')}, not {want}")
    require(sorted(box["space"]) == names, lambda: f"searches {sorted(box['space'])}, not {names}")
    got = {x: y for x, y in box["kw"].items() if x not in RUN}
    require(same(got, kw), lambda: f"{want} is created with {got}, not {kw}")


def reach_cases(quick):
    """What the run is told about errors and cost reaches the searcher."""
    for s in strategies():
        for loss, cost, ign, budget in itertools.product((None, 0.0, 1.5), (None, 0.0, 2.5), (False, True), (None, 8)):
            yield (s, loss, cost, ign, budget)


def reach_case(case):
    s, loss, cost, ign, budget = case
    box = {}
    base = base_dir()
    call = {"searcher": s}
    for k, v in (("loss_value_on_error", loss), ("cost_value_on_error", cost), ("ignore_errors", ign), ("max_cost_total", budget)):
        if v is not None and (k != "ignore_errors" or v):
            call[k] = v
    launch(box, base, python_space(spaces()["x/int"][0]), call, None, {})
    kw = box["kw"]
    for k, v in (("loss_value_on_error", loss), ("cost_value_on_error", cost), ("ignore_errors", ign), ("budget", budget)):
        require(same(kw.get(k), v), lambda: f"the searcher gets {k}={kw.get(k)!r}, not {v!r}")


def info_cases(quick):
    for s in [*strategies(), "no_such", "", "as"]:
        yield s


def info_case(s):
    """The documented way to look up searchers agrees with what a run uses."""
    import yaml

    from neps.optimizers.info import SearcherConfigs

    st = strategies()
    require(sorted(SearcherConfigs.get_searchers()) == sorted(st), lambda: f"searchers {SearcherConfigs.get_searchers()}")
    require(sorted(SearcherConfigs.get_available_algorithms()) == sorted(set(st.values())),
            lambda: f"algorithms {SearcherConfigs.get_available_algorithms()}")
    require(sorted(SearcherConfigs.get_searcher_from_algorithm(s)) == sorted(k for k, v in st.items() if v == s),
            lambda: f"searchers of {s}: {SearcherConfigs.get_searcher_from_algorithm(s)}")
    try:
        c = yaml.safe_load(SearcherConfigs.get_searcher_kwargs(s))
    except FileNotFoundError:
        require(s not in st, lambda: f"{s} is not found")
        return
    require(s in st and c == {"strategy": st[s], **defaults()[s]}, lambda: f"settings shown for {s!r}: {c}")


def run(ck):
    ck.rule = RULE
    ck.level = "model_checking"
    q = ck.quick
    ck.enumerate("single", single_cases(q), setting_case)
    ck.enumerate("pairs", pair_cases(q), setting_case)
    ck.enumerate("all", all_cases(q), setting_case)
    ck.enumerate("refused", refused_cases(q), refused_case)
    ck.enumerate("choice", choice_cases(q), choice_case)
    ck.enumerate("options", option_cases(q), option_case)
    ck.enumerate("precedence", precedence_cases(q), precedence_case)
    ck.enumerate("reach", reach_cases(q), reach_case)
    ck.enumerate("info", info_cases(q), info_case)
