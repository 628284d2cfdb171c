import contextlib
import itertools
import math
import os

from lib.harness import Violation, fresh_dir, require, same
from lib.legal import P, illegal, make_space

RULE = ("every definition in the list x every way of writing it (YAML spellings of numbers and types, block/flow/alias, file or "
        "dictionary, ConfigSpace, nested ConfigSpace, Python); every malformed definition; every configuration of the listed "
        "spaces there and back; every sequence of setter calls up to the depth bound against a reference; distinct = case")

FLT = [(0.0, 1.0, False), (1e-4, 0.1, True), (-3.5, 7.25, False), (5.0, 7.0, False), (1.0, 1000.0, True), (2e-3, 0.1, True),
       (1e-8, 2.5e-5, True), (100.0, 2000.0, False)]
INT = [(0, 1, False), (1, 10, False), (-3, 30, False), (100, 30000, True), (1, 1000, True), (3, 30, False)]
CAT = [("adam", "sgd"), (2, "sgd", 0.01), (True, False), (1, 2, 3), ("a", "b", "c", "d", "e"), (0.5, 0.25), (1000.0, "1x"),
       ("yes please", "no: really", "# not a comment")]
CONST = [5, 0.5, "c", True, -3, 1e-3, 1000.0, "text with spaces", 0, False, ""]


def definitions(quick):
    for kind, table in (("float", FLT), ("int", INT)):
        for lo, hi, log in table:
            mid = float(f"{math.sqrt(lo * hi) if log else (lo + hi) / 2:.4g}")
            vals = [None, lo, hi, mid if kind == "float" else round(mid)]
            for d in vals:
                for conf in (None,) if d is None else (None, "low", "medium", "high"):
                    for fid in (False, True):
                        yield dict(kind=kind, lo=lo, hi=hi, log=log, default=d, conf=conf, fid=fid)
    for ch in CAT:
        for d in (None, *ch):
            for conf in (None,) if d is None else (None, "low", "medium", "high"):
                yield dict(kind="cat", choices=ch, default=d, conf=conf)
    for v in CONST:
        yield dict(kind="const", value=v)


SCORES = {"float": {"low": 0.5, "medium": 0.25, "high": 0.125}, "int": {"low": 0.5, "medium": 0.25, "high": 0.125},
          "cat": {"low": 2, "medium": 4, "high": 6}}


def differs(d, h):
    """None if the parameter object h is what the definition d says, else a description."""
    import neps

    cls = {"float": neps.Float, "int": neps.Integer, "cat": neps.Categorical, "const": neps.Constant}[d["kind"]]
    if type(h) is not cls:
        return f"is a {type(h).__name__}, not a {cls.__name__}"
    if d["kind"] == "const":
        want = dict(value=d["value"], default=d["value"], is_fidelity=False)
    else:
        conf = d.get("conf") or "low"
        want = dict(default=d["default"], is_fidelity=d.get("fid", False), has_prior=d["default"] is not None,
                    default_confidence_choice=conf, default_confidence_score=SCORES[d["kind"]][conf], value=d.get("value"))
        if d["kind"] == "cat":
            want["choices"] = list(d["choices"])
        else:
            want.update(lower=d["lo"], upper=d["hi"], log=d["log"])
    for k, v in want.items():
        g = getattr(h, k)
        if not same(list(g) if k == "choices" else g, v):
            return f"{k} is {g!r} ({type(g).__name__}), not {v!r}"
    return None


def py(d):
    import neps

    if d["kind"] == "const":
        return neps.Constant(d["value"])
    kw = {}
    if d["default"] is not None:
        kw["default"] = d["default"]
    if d.get("conf"):
        kw["default_confidence"] = d["conf"]
    if d["kind"] == "cat":
        return neps.Categorical(list(d["choices"]), **kw)
    if d["fid"]:
        kw["is_fidelity"] = True
    return (neps.Float if d["kind"] == "float" else neps.Integer)(d["lo"], d["hi"], log=d["log"], **kw)


# ------------------------------------------------------------------------------------------------ YAML
def spell(v, how):
    """A YAML spelling of the number v; None if this spelling would not be v."""
    if isinstance(v, bool) or not isinstance(v, (int, float)):
        import yaml

        return yaml.safe_dump(v, default_flow_style=True, width=1000).strip().removesuffix("\n...").removesuffix("...").strip()
    if how == "plain":
        r = repr(v)
        if "e" in r:  # 1e-05
            r = format(v, ".12f").rstrip("0")
        return r
    m, e = f"{v:.12e}".split("e")
    m = m.rstrip("0").rstrip(".")
    e = int(e)
    s = {"sci": f"{m}e{e}", "SCI": f"{m}E{e}", "sci+": f"{m}e{e:+d}", "dot": f"{m if '.' in m else m + '.0'}e{e:+03d}",
         "dotted": f"{m if '.' in m else m + '.0'}e{e}", "trail": f"{m if '.' in m else m + '.'}e{e}"}[how]
    return s if float(s) == v else None


NUM = ["plain", "sci", "SCI", "sci+", "dot", "dotted", "trail"]
TYPES = {"float": ["float", "FLOAT"], "int": ["int", "integer", "Int"], "cat": ["cat", "categorical"], "const": []}


def yaml_cases(quick):
    for i, d in enumerate(definitions(quick)):
        for t in (None, *TYPES[d["kind"]]):
            for how in NUM:
                for dhow in (NUM if d.get("default") is not None and d["kind"] != "cat" else (how,)):
                    if quick and dhow not in (how, "plain", "sci"):
                        continue
                    yield (i, t, how, dhow)


def yaml_fields(d, t, how, dhow):
    """Ordered key -> YAML text, or None when the spelling does not denote this definition."""
    f = {}
    if t:
        f["type"] = t
    k = d["kind"]
    if k in ("float", "int"):
        lo, hi = spell(d["lo"], how), spell(d["hi"], how)
        if lo is None or hi is None:
            return None
        sci = how != "plain"
        if k == "int" and sci and (t is None or how == "dot"):
            return None  # without a type, scientific notation means float; 1.0e+01 is a float in YAML
        f["lower"], f["upper"] = lo, hi
        if d["log"]:
            f["log"] = "true"
        if d["fid"]:
            f["is_fidelity"] = "true"
    else:
        def one(v):
            return spell(v, how if isinstance(v, float) and not isinstance(v, bool) else "plain")
        ch = [one(c) for c in d["choices"]]
        if any(c is None for c in ch):
            return None
        f["choices"] = f"[{', '.join(ch)}]"
    if d["default"] is not None:
        v = d["default"]
        if k == "cat":
            s = one(v)
        else:
            s = spell(v, dhow)
        if s is None:
            return None
        f["default"] = s
    if d["conf"]:
        f["default_confidence"] = d["conf"]
    return f


def yaml_case(case):
    import yaml
    from neps.search_spaces.search_space import SearchSpace, pipeline_space_from_yaml
    from pathlib import Path

    i, t, how, dhow = case
    d = DEFS[i]
    if d["kind"] == "const":
        v = d["value"]
        s = spell(v, how if isinstance(v, float) and not isinstance(v, bool) else "plain")
        if s is None:
            return {"stats": {"inapplicable": 1}}
        texts = {"plain": f"p: {s}\n", "wrapped": f"pipeline_space:\n  p: {s}\n", "two": f"q: 1\np: {s}\n"}
    else:
        f = yaml_fields(d, t, how, dhow)
        if f is None:
            return {"stats": {"inapplicable": 1}}
        block = "".join(f"  {k}: {v}\n" for k, v in f.items())
        flow = "{" + ", ".join(f"{k}: {v}" for k, v in f.items()) + "}"
        rev = "".join(f"  {k}: {v}\n" for k, v in reversed(f.items()))
        texts = {"block": "p:\n" + block, "flow": f"p: {flow}\n", "reversed": "p:\n" + rev,
                 "wrapped": "pipeline_space:\n  p:\n" + "".join("  " + x + "\n" for x in block.splitlines()),
                 "two": "a: 5\np:\n" + block + "z:\n  choices: [x, y]\n"}
        if not d.get("fid"):
            texts["alias"] = f"a: &x {flow}\np: *x\n"
    root = fresh_dir("y")
    os.makedirs(root)
    n = 0
    for name, text in texts.items():
        path = os.path.join(root, name + ".yaml")
        with open(path, "w") as fh:
            fh.write(text)
        for src in ("str", "path", "dict"):
            if src == "dict":
                data = yaml.safe_load(text)
                arg = data
                before = yaml.safe_load(text)
            else:
                arg = path if src == "str" else Path(path)
            try:
                got = pipeline_space_from_yaml(arg)
            except Exception as e:  # noqa: BLE001
                raise Violation(f"{text!r} ({name}, {src}) is rejected: {type(e).__name__}: {str(e)[:300]}",
                                f"yaml:{d['kind']}:{name}:{src}: rejected") from e
            n += 1
            want = {"two": {"a", "p", "z"} if d["kind"] != "const" else {"q", "p"}, "alias": {"a", "p"}}.get(name, {"p"})
            require(set(got) == want, lambda: f"{text!r}: parameters {sorted(got)}, not {sorted(want)}")
            for k in {"p", "a"} & set(got) if name == "alias" else ("p",):
                x = differs(d, got[k])
                require(x is None, lambda: f"{text!r} ({name}, {src}): {k} {x}", f"yaml:{d['kind']}:{name}: {x}")
            ref = py(d)
            require(got["p"] == ref and ref == got["p"], lambda: f"{text!r}: {got['p']} is not equal to {ref}")
            ss = SearchSpace(**got)
            require(ss.has_fidelity == bool(d.get("fid")) and
                    ss.has_prior == (d.get("default") is not None), lambda: f"{text!r}: {ss.has_fidelity=} {ss.has_prior=}")
            if src == "dict":
                require(same(data, before), lambda: f"{text!r}: the given dictionary was changed to {data}")
                again = pipeline_space_from_yaml(data)
                x = differs(d, again["p"])
                require(x is None, lambda: f"{text!r}: the same dictionary read again: {x}")
    return {"stats": {"definitions_parsed": n}}


# ------------------------------------------------------------------------------------------------ ConfigSpace, neps.run
def cs_param(name, d):
    import ConfigSpace as CS

    if d["kind"] == "const":
        return CS.Constant(name, d["value"])
    kw = {} if d["default"] is None else {"default_value": d["default"]}
    if d["kind"] == "cat":
        return CS.CategoricalHyperparameter(name, list(d["choices"]), **kw)
    if d["kind"] == "ord":
        return CS.OrdinalHyperparameter(name, list(d["choices"]), **kw)
    c = CS.UniformFloatHyperparameter if d["kind"] == "float" else CS.UniformIntegerHyperparameter
    return c(name, d["lo"], d["hi"], log=d["log"], **kw)


def cs_defs():
    for d in DEFS:
        if d.get("fid") or d.get("conf"):
            continue
        if d["kind"] == "const" and (isinstance(d["value"], bool) or d["value"] == ""):
            continue
        yield d
        if d["kind"] == "cat":
            yield {**d, "kind": "ord"}


@contextlib.contextmanager
def captured(box):
    """Instead of running, remember the search space the searcher is created with."""
    from neps.optimizers import SearcherMapping

    class Stop(Exception):
        pass

    class Capture:
        def __init__(self, pipeline_space, **kw):
            box["space"], box["kw"] = pipeline_space, kw
            raise Stop
    old = dict(SearcherMapping)
    for k in old:
        SearcherMapping[k] = Capture
    try:
        with contextlib.suppress(Stop):
            yield
    finally:
        SearcherMapping.clear()
        SearcherMapping.update(old)


def via_run(space):
    import neps

    box = {}
    with captured(box):
        neps.run(run_pipeline=lambda **kw: 0.0, pipeline_space=space, root_directory=fresh_dir("run"),
                 max_evaluations_total=1, searcher="random_search", post_run_summary=False)
    if "space" not in box:
        raise Violation("the searcher was not created")
    return box["space"]


def cs_cases(quick):
    n = len(list(cs_defs()))
    for i in range(n):
        for how in ("direct", "run", "nested", "mixed"):
            yield (i, how)


def cs_case(case):
    import ConfigSpace as CS
    import neps
    from neps.search_spaces.search_space import pipeline_space_from_configspace

    i, how = case
    d = list(cs_defs())[i]
    hp = cs_param("p", d)
    cs = CS.ConfigurationSpace()
    cs.add_hyperparameter(hp)
    cs.add_hyperparameter(CS.UniformFloatHyperparameter("a", 0.25, 2.0, default_value=1.0))
    want = dict(d)
    if d["kind"] == "ord":
        want["kind"] = "cat"
    if d["kind"] != "const" and d["default"] is None:
        want["default"] = hp.default_value  # ConfigSpace chooses a default itself
        if d["kind"] == "int":
            want["default"] = int(want["default"])
        if d["kind"] == "float":
            want["default"] = float(want["default"])
    other = dict(kind="float", lo=0.25, hi=2.0, log=False, default=1.0, conf=None)
    if how == "direct":
        got = pipeline_space_from_configspace(cs)
    elif how == "run":
        got = via_run(cs)
    elif how == "nested":
        got = via_run({"cs": cs})
    else:
        got = via_run({"x": neps.Integer(1, 3), "cs": cs, "zz": neps.Constant(1)})
    names = {"p", "a"} | ({"x", "zz"} if how == "mixed" else set())
    require(set(got) == names, lambda: f"{how}: parameters {sorted(got)}, not {sorted(names)}")
    for k, w in (("p", want), ("a", other)):
        x = differs(w, got[k])
        require(x is None, lambda: f"ConfigSpace {cs} ({how}): {k} {x}")


def run_cases(quick):
    for i, d in enumerate(DEFS):
        if not quick or i % 3 == 0 or d["kind"] in ("const", "cat"):
            yield i


def run_case_(i):
    """The definition reaches the searcher unchanged from Python objects, from a YAML file and from a run_args file."""
    import neps

    d = DEFS[i]
    if d["kind"] == "const":
        body = {"p": spell(d["value"], "plain")}
    else:
        f = yaml_fields(d, d["kind"], "plain", "plain")
        body = {"p": "{" + ", ".join(f"{k}: {v}" for k, v in f.items()) + "}"}
    root = fresh_dir("ry")
    os.makedirs(root)
    sp = os.path.join(root, "s.yaml")
    with open(sp, "w") as fh:
        fh.write(f"q: {{lower: 1, upper: 9}}\np: {body['p']}\n")
    ra = os.path.join(root, "r.yaml")
    with open(ra, "w") as fh:
        fh.write(f"pipeline_space:\n  q: {{lower: 1, upper: 9}}\n  p: {body['p']}\nmax_evaluations_total: 3\n"
                 f"root_directory: {root}/x\nsearcher: random_search\n")
    rb = os.path.join(root, "rb.yaml")
    with open(rb, "w") as fh:
        fh.write(f"pipeline_space: {sp}\nmax_evaluations_total: 3\nroot_directory: {root}/x\nsearcher: random_search\n")
    box = {}
    for how, call in (("python", lambda: via_run({"p": py(d), "q": neps.Integer(1, 9)})),
                      ("yaml", lambda: via_run(sp)),
                      ("run_args", lambda: neps.run(run_pipeline=lambda **k: 0.0, run_args=ra)),
                      ("run_args+file", lambda: neps.run(run_pipeline=lambda **k: 0.0, run_args=rb))):
        if how.startswith("run_args"):
            box.clear()
            with captured(box):
                call()
            got = box.get("space")
        else:
            got = call()
        require(got is not None and set(got) == {"p", "q"}, lambda: f"{how}: {d}: the searcher gets {got}")
        x = differs(d, got["p"])
        require(x is None, lambda: f"{how}: {d}: {x}")
        x = differs(dict(kind="int", lo=1, hi=9, log=False, default=None, conf=None, fid=False), got["q"])
        require(x is None, lambda: f"{how}: q {x}")


# ------------------------------------------------------------------------------------------------ malformed definitions
BAD_YAML = {
    "no upper": "{lower: 1}", "no lower": "{upper: 5}", "empty": "{}", "reversed": "{lower: 5, upper: 1}",
    "equal": "{lower: 2, upper: 2}", "equal float": "{lower: 2.5, upper: 2.5}", "reversed float": "{lower: 0.5, upper: 0.1}",
    "log zero": "{lower: 0, upper: 5, log: true}", "log negative": "{lower: -2.5, upper: 5.0, log: true}",
    "log of zero float": "{lower: 0.0, upper: 5.0, log: true}", "text": "{lower: abc, upper: 5}",
    "default above": "{lower: 1, upper: 5, default: 6}", "default below": "{lower: 1, upper: 5, default: 0}",
    "float default above": "{lower: 0.1, upper: 0.5, default: 0.6}",
    "float default below": "{lower: 0.1, upper: 0.5, default: 0.01}",
    "text default": "{lower: 1, upper: 5, default: abc}", "text float default": "{lower: 0.1, upper: 0.5, default: abc}",
    "fractional int default": "{lower: 1, upper: 5, default: 2.5}", "fractional int": "{type: int, lower: 1.5, upper: 5.5}",
    "fractional sci int": "{type: int, lower: 1e-1, upper: 1e1}",
    "unknown confidence": "{lower: 1, upper: 5, default: 2, default_confidence: huge}",
    "unknown cat confidence": "{choices: [a, b], default: a, default_confidence: huge}",
    "log text": "{lower: 1, upper: 5, log: maybe}", "log number": "{lower: 1, upper: 5, log: 1}",
    "fidelity text": "{lower: 1, upper: 5, is_fidelity: maybe}", "fidelity number": "{lower: 1.0, upper: 5.0, is_fidelity: 1}",
    "unknown key": "{lower: 1, upper: 5, step: 2}", "unknown cat key": "{choices: [a, b], lower: 1}",
    "unknown type": "{type: ordinal, choices: [a, b]}", "wrong type": "{type: cat, lower: 1, upper: 5}",
    "int without bounds": "{type: int}", "float without upper": "{type: float, lower: 1.0}",
    "cat without choices": "{type: cat}", "choices text": "{choices: abc}", "choices number": "{choices: 5}",
    "one choice": "{choices: [a]}", "no choice": "{choices: []}", "duplicate": "{choices: [a, b, a]}",
    "duplicate number": "{choices: [1, 1.0]}", "list choice": "{choices: [a, [b]]}", "dict choice": "{choices: [a, {b: 1}]}",
    "null choice": "{choices: [a, null]}", "default not a choice": "{choices: [a, b], default: c}",
    "list default": "{choices: [a, b], default: [a]}", "cat fidelity": "{choices: [a, b], is_fidelity: true}",
    "cat log": "{choices: [a, b], log: true}", "both": "{lower: 1, upper: 5, choices: [a, b]}", "list": "[1, 2]",
    "null": "null", "const dict": "{type: const, value: 5}", "mixed": "{lower: 1, upper: 5.5}", "type number": "{type: 5}",
}
BAD_PY = [
    "Float(1, 1)", "Float(2, 1)", "Float(0, 1, log=True)", "Float(-1, 1, log=True)", "Float(0, 1, default=2)",
    "Float(0, 1, default=-0.1)", "Float(0, 1, default=0.5, default_confidence='x')", "Float(0, 1, is_fidelity='yes')",
    "Float(1, 2, log='yes')", "Float(1, 2, log=1)", "Float(1, 2, choices=[1])", "Float('a', 1)", "Float(1)",
    "Integer(1, 1)", "Integer(2, 1)", "Integer(0, 5, log=True)", "Integer(-1, 5, log=True)", "Integer(1, 5, default=6)",
    "Integer(1, 5, default=0)", "Integer(1, 5, default=3, default_confidence='x')", "Integer(1, 5, is_fidelity=1)",
    "Integer(1, 5, log='x')", "Integer('a', 'b')", "Integer(1)",
    "Categorical([])", "Categorical(['a'])", "Categorical(['a', 'a'])", "Categorical(['a', 'b'], default='c')",
    "Categorical(['a', None])", "Categorical(['a', ['b']])", "Categorical(['a', {'b': 1}])",
    "Categorical(['a', 'b'], default='a', default_confidence='x')", "Categorical(['a', 'b'], is_fidelity=True)",
]
BAD_SPACE = [
    "dict(a=Integer(1, 5, is_fidelity=True), b=Float(0, 1, is_fidelity=True))",
    "dict(a=Float(0, 1, is_fidelity=True), b=Float(0, 1, is_fidelity=True), c=Constant(1))",
]
BAD_CS = ["condition", "forbidden", "normal float", "normal int"]


def invalid_cases(quick):
    for k in BAD_YAML:
        for how in ("dict", "file", "wrapped", "second", "run"):
            yield ("yaml", k, how)
    for x in BAD_PY:
        yield ("py", x, "")
    for x in BAD_SPACE:
        for how in ("space", "run"):
            yield ("space", x, how)
    for x in BAD_CS:
        for how in ("direct", "run", "nested"):
            yield ("cs", x, how)
    for x in ("missing file", "not yaml", "list file", "empty file", "text file"):
        yield ("file", x, "")
    for x in ("None", "5", "'text'", "[1]", "dict(a=5)", "dict(a='x')", "dict(a=dict(lower=1, upper=2))"):
        yield ("object", x, "")


def invalid_case(case):
    import ConfigSpace as CS
    import neps
    import yaml
    from neps.search_spaces.search_space import (SearchSpace, SearchSpaceFromYamlFileError, pipeline_space_from_configspace,
                                                 pipeline_space_from_yaml)

    kind, x, how = case
    env = {"Float": neps.Float, "Integer": neps.Integer, "Categorical": neps.Categorical, "Constant": neps.Constant,
           "dict": dict}
    root = fresh_dir("bad")
    os.makedirs(root)
    path = os.path.join(root, "s.yaml")
    need = Exception
    if kind == "yaml":
        text = f"p: {BAD_YAML[x]}\n"
        if how == "wrapped":
            text = "pipeline_space:\n  " + text
        if how == "second":
            text = "a: {lower: 1, upper: 3}\n" + text
        with open(path, "w") as f:
            f.write(text)
        if x != "type number":
            need = SearchSpaceFromYamlFileError
        if how == "dict":
            call = lambda: pipeline_space_from_yaml(yaml.safe_load(text))  # noqa: E731
        elif how == "run":
            need = Exception
            call = lambda: via_run(path)  # noqa: E731
        else:
            call = lambda: pipeline_space_from_yaml(path)  # noqa: E731
    elif kind == "py":
        call = lambda: eval(x, env)  # noqa: E731, S307
    elif kind == "space":
        sp = eval(x, env)  # noqa: S307
        call = (lambda: SearchSpace(**sp)) if how == "space" else (lambda: via_run(sp))
    elif kind == "cs":
        cs = CS.ConfigurationSpace()
        a = CS.CategoricalHyperparameter("a", ["x", "y"])
        b = CS.UniformIntegerHyperparameter("b", 1, 9)
        cs.add_hyperparameters([a, b])
        if x == "condition":
            cs.add_condition(CS.EqualsCondition(b, a, "x"))
        elif x == "forbidden":
            cs.add_forbidden_clause(CS.ForbiddenEqualsClause(a, "x" if a.default_value != "x" else "y"))
        elif x == "normal float":
            cs.add_hyperparameter(CS.NormalFloatHyperparameter("n", mu=0, sigma=1))
        else:
            cs.add_hyperparameter(CS.NormalIntegerHyperparameter("n", mu=0, sigma=1))
        call = {"direct": lambda: pipeline_space_from_configspace(cs), "run": lambda: via_run(cs),
                "nested": lambda: via_run({"q": neps.Integer(1, 2), "c": cs})}[how]
    elif kind == "file":
        if x != "missing file":
            with open(path, "w") as f:
                f.write({"not yaml": "a: [1, 2\nb: }", "list file": "- 1\n- 2\n", "empty file": "", "text file": "abc"}[x])
        need = SearchSpaceFromYamlFileError
        call = lambda: pipeline_space_from_yaml(path)  # noqa: E731
    else:
        sp = eval(x, env)  # noqa: S307
        call = lambda: via_run(sp)  # noqa: E731
    try:
        got = call()
    except need:
        return
    except Exception as e:
        raise Violation(f"{case}: raises {type(e).__name__}: {e} instead of {need.__name__}") from e
    raise Violation(f"{case}: accepted as {dict(got) if kind != 'py' else got}", f"invalid:{kind}:{x}: accepted")


# ------------------------------------------------------------------------------------------------ plain values and back
SPACES = [
    {"zf": P("float", -3.5, 7.25, default=1.0, conf="high"), "i": P("int", 1, 10), "c": P("cat", choices=("x", "y", "z"))},
    {"l": P("float", 1e-4, 0.1, log=True), "j": P("int", 1, 1000, log=True, default=30, conf="medium"),
     "e": P("int", 1, 9, fid=True), "k": P("const", value=5)},
    {"m": P("cat", choices=(2, "sgd", 0.01), default="sgd", conf="low"), "b": P("cat", choices=(True, False)),
     "e": P("float", 0.5, 8.0, fid=True), "w": P("const", value="text")},
]


def vals(p):
    if p.kind == "const":
        return [p.value]
    if p.kind == "cat":
        return list(p.choices)
    mid = math.sqrt(p.lo * p.hi) if p.log else (p.lo + p.hi) / 2
    v = [p.lo, p.hi, mid, p.lo + (p.hi - p.lo) / 7]
    return [float(x) for x in v] if p.kind == "float" else sorted({round(x) for x in v})


def trip_cases(quick):
    for i, s in enumerate(SPACES):
        for c in itertools.product(*(vals(p) for p in s.values())):
            yield (i, c)


def trip_case(case):
    import yaml

    i, c = case
    space = SPACES[i]
    cfg = dict(zip(space, c))
    ss = make_space(space)
    blank = ss.hp_values()
    conf = ss.from_dict(cfg)
    require(same(conf.hp_values(), {k: cfg[k] for k in conf.hp_values()}) and set(conf.hp_values()) == set(cfg),
            lambda: f"{cfg} becomes {conf.hp_values()}")
    require(same(ss.hp_values(), blank), "the search space itself was changed")
    ser = conf.serialize()
    require(illegal(space, ser) is None and same({k: ser[k] for k in cfg}, cfg), lambda: f"{cfg} is serialized as {ser}")
    text = yaml.safe_dump(ser)
    back = ss.from_dict(yaml.safe_load(text))
    require(back.is_equal_value(conf) and conf.is_equal_value(back), lambda: f"{cfg}: not equal after YAML {text}")
    copies = {"clone": conf.clone(), "from serialized": ss.from_dict(ser), "clone of clone": conf.clone().clone(),
              "from itself": conf.from_dict(cfg)}
    for name, o in copies.items():
        require(same(o.hp_values(), conf.hp_values()) and all(o[k] == conf[k] for k in conf) and list(o) == list(conf),
                lambda: f"{name} of {cfg}: {o.hp_values()}")
        require(o.fidelity_name == conf.fidelity_name and o.has_prior == conf.has_prior, lambda: f"{name}: flags")
        for k, p in space.items():
            require(o[k] is not conf[k] and o[k] is not ss[k], lambda: f"{name} shares the parameter {k}")
            if p.kind in ("float", "int"):
                require(o[k].domain == ss[k].domain, lambda: f"{name} of {k}: domain")
                require(o[k].normalized_value is not None and
                        abs(o[k].normalized_value - o[k].value_to_normalized(o[k].value)) < 1e-12,
                        lambda: f"{name} of {k}={o[k].value!r}: normalized value {o[k].normalized_value}")
        if o.fidelity is not None:
            require(o.fidelity is o[o.fidelity_name], lambda: f"{name}: the fidelity is not the parameter of the copy")
        for group in (o.categoricals, o.numerical, o.fidelities):
            require(all(group[k] is o[k] for k in group), lambda: f"{name}: parameter groups are not those of the copy")
        require(set(o.categoricals) == {k for k, p in space.items() if p.kind == "cat"} and
                set(o.numerical) == {k for k, p in space.items() if p.kind in ("float", "int") and not p.fid} and
                set(o.fidelities) == {k for k, p in space.items() if p.fid} and
                same(dict(o.constants), {k: p.value for k, p in space.items() if p.kind == "const"}),
                lambda: f"{name}: parameter groups")
    # every single change is seen, and changes the changed copy only
    for k, p in space.items():
        for v in vals(p):
            if same(v, cfg[k]):
                continue
            o = conf.clone()
            o[k].set_value(v)
            require(conf[k].value == cfg[k] and type(conf[k].value) is type(cfg[k]), lambda: f"changing a copy changes {k}")
            require(not o.is_equal_value(conf) and not conf.is_equal_value(o), lambda: f"{k}={v} counts as equal to {cfg}")
            require(o.is_equal_value(conf, include_fidelity=False) == p.fid,
                    lambda: f"{k}={v} vs {cfg}: equality without the fidelity")
            require(not (o[k] == conf[k]), lambda: f"{k}: {o[k]} == {conf[k]}")
    # values that are not legal are refused
    for k, p in space.items():
        bad = [p.lo - 1, p.hi + 1, p.hi * 1000] if p.kind in ("float", "int") else ["nope", -99] if p.kind == "cat" else ["nope"]
        for v in bad:
            for f in (lambda: ss.from_dict({**cfg, k: v}), lambda: conf.clone()[k].set_value(v)):
                try:
                    got = f()
                except ValueError:
                    continue
                raise Violation(f"{k}={v!r} is accepted: {got}")
    try:
        ss.from_dict({**cfg, "unknown": 1})
    except KeyError:
        pass
    else:
        raise Violation("an unknown parameter is accepted")
    if conf.fidelity is not None:
        o = conf.clone()
        o.set_to_max_fidelity()
        require(o.fidelity.value == space[o.fidelity_name].hi and same(conf.hp_values()[o.fidelity_name],
                                                                       cfg[o.fidelity_name]), "set_to_max_fidelity")
        require(o.is_equal_value(conf, include_fidelity=False), "set_to_max_fidelity changes other values")


# ------------------------------------------------------------------------------------------------ setters
SET = [P("float", -3.5, 7.25), P("float", 1e-4, 0.1, log=True, default=0.01, conf="medium"), P("int", 1, 10, default=4),
       P("int", 1, 1000, log=True), P("int", 2, 64, log=True, default=8, conf="high"), P("int", 3, 9, fid=True),
       P("cat", choices=("x", "y", "z"), default="y", conf="high"), P("cat", choices=(1, 2))]


def set_cases(quick):
    depth = 3 if quick else 4
    for i, p in enumerate(SET):
        v = vals(p)
        ops = [("default", x) for x in (None, v[0], v[-1])] + [("conf", x) for x in ("low", "high")] + \
              [("value", x) for x in (None, v[0], v[1])] + [("clone", None), ("load", v[-1])]
        for seq in itertools.product(ops, repeat=depth):
            yield (i, seq)


def set_case(case):
    i, seq = case
    p = SET[i]
    h = p.make()
    st = {"default": p.default, "conf": p.conf, "value": None}
    for op, x in seq:
        if op == "default":
            h.set_default(x)
            st["default"] = x
        elif op == "conf":
            h.set_default_confidence_score(x)
            st["conf"] = x
        elif op == "value":
            h.set_value(x)
            st["value"] = x
        elif op == "load":
            h.load_from(x)
            st["value"] = x
        else:
            h = h.clone()
    ref = P(p.kind, p.lo, p.hi, p.log, p.choices, fid=p.fid, default=st["default"], conf=st["conf"]).make()
    if st["value"] is not None:
        ref.set_value(st["value"])
    d = dict(kind=p.kind, lo=float(p.lo) if p.kind == "float" else p.lo, hi=float(p.hi) if p.kind == "float" else p.hi,
             log=p.log, choices=p.choices, default=st["default"], conf=st["conf"], fid=p.fid, value=st["value"])
    # a confidence only means something together with a default
    for what, o in (("", h), (" (copy)", h.clone())):
        x = differs(d, o)
        require(x is None, lambda: f"{p} after {seq}{what}: {x}")
        require(o.normalized_value == ref.normalized_value, lambda: f"{p} after {seq}{what}: normalized {o.normalized_value}")
        if st["default"] is not None:
            require(o == ref and ref == o, lambda: f"{p} after {seq}{what}: {o} != {ref}")
            for v in vals(p):
                a, b = o.clone(), ref.clone()
                o2 = o
                keep = o2.value
                o2.set_value(v)
                b.set_value(v)
                a.set_value(v)
                for log in (False, True):
                    w = b.compute_prior(log=log)
                    for n, g in (("", o2), (" (copy)", a)):
                        require(abs(g.compute_prior(log=log) - w) <= 1e-9 * max(1, abs(w)),
                                lambda: f"{p} after {seq}{what}{n}: prior of {v} is {g.compute_prior(log=log)}, not {w}")
                o2.set_value(keep)


def dict_cases(quick):
    flags = [dict(zip(("defaults", "values", "delete_previous_defaults", "delete_previous_values", "overwrite_constants"), f))
             for f in itertools.product((False, True), repeat=5)]
    for i in range(len(SPACES)):
        for f in flags:
            for conf in ("low", "high"):
                for sub in range(3):
                    yield (i, f, conf, sub)


def dict_case(case):
    i, f, confidence, sub = case
    space = SPACES[i]
    ss = make_space(space)
    first = {k: vals(p)[0] for k, p in space.items()}
    conf = ss.from_dict(first)
    names = list(space)[:: [1, 2, -1][sub]] if sub < 2 else list(space)[:2]
    new = {k: vals(space[k])[-1] for k in names}
    for k in names:
        if space[k].kind == "const" and f["overwrite_constants"]:
            new[k] = type(space[k].value)(7)
    want = {k: [p.default if p.kind != "const" else p.value, p.conf if p.kind != "const" else None, first[k]]
            for k, p in space.items()}
    err = not f["defaults"] and not f["values"]
    touched_const = any(space[k].kind == "const" for k in names) and f["overwrite_constants"]
    err = err or touched_const and not (f["defaults"] and f["values"])
    for k in names:
        if space[k].kind == "const":
            if f["overwrite_constants"]:
                want[k] = [new[k], None, new[k]]
            continue
        if f["delete_previous_defaults"]:
            want[k][0] = None
        if f["delete_previous_values"]:
            want[k][2] = None
        if f["defaults"]:
            want[k][0], want[k][1] = new[k], confidence
        if f["values"]:
            want[k][2] = new[k]
    try:
        conf.set_hyperparameters_from_dict(new, confidence=confidence, **f)
    except ValueError as e:
        require(err, lambda: f"{new} {f}: ValueError {e}")
        return
    require(not err, lambda: f"{new} {f}: accepted")
    for k, (d, c, v) in want.items():
        h = conf[k]
        got = [h.default, None if c is None else h.default_confidence_choice, h.value]
        require(same(got, [d, c, v]), lambda: f"{new} {f} confidence={confidence}: {k} has {got}, not {[d, c, v]}")
    require(same(ss.hp_values(), make_space(space).hp_values()), "the original space was changed")


def default_cases(quick):
    for i in range(len(SPACES)):
        for ign in (False, True):
            for miss in (False, True):
                yield (i, ign, miss)
    yield ("all", False, False)
    yield ("all", True, False)


def default_case(case):
    i, ign, miss = case
    space = {"a": P("float", 0.5, 2.0, default=0.75), "b": P("cat", choices=(1, 2), default=2), "k": P("const", value=3),
             "n": P("int", 1, 100, log=True, default=7)} if i == "all" else SPACES[i]
    ss = make_space(space)
    lacking = [k for k, p in space.items() if p.kind != "const" and p.default is None and not (p.fid and ign)]
    try:
        c = ss.sample_default_configuration(ignore_fidelity=ign, ignore_missing_defaults=miss)
    except ValueError as e:
        require(lacking and not miss, lambda: f"{case}: ValueError {e}")
        return
    require(miss or not lacking, lambda: f"{case}: no error although {lacking} have no default")
    for k, p in space.items():
        v = c[k].value
        if p.kind != "const" and p.default is not None and not (p.fid and ign):
            require(same(v, p.default), lambda: f"default configuration has {k}={v!r}, not {p.default!r}")
        elif p.fid and ign:
            require(v is None, lambda: f"fidelity set to {v}")
        else:
            require(p.bad(v) is None, lambda: f"{k}: {p.bad(v)}")
    require(all(h.value is None or space[k].kind == "const" for k, h in ss.items()), "the space was changed")


DEFS = list(definitions(True))


def run(ck):
    ck.rule = RULE
    ck.level = "exploration"
    q = ck.quick
    ck.assumptions = ["PyYAML reads the numbers; without a type, bounds in scientific notation denote a float (documented)",
                      "defaults that ConfigSpace chooses itself count as defaults of the space"]
    ck.enumerate("yaml", yaml_cases(q), yaml_case)
    ck.enumerate("configspace", cs_cases(q), cs_case)
    ck.enumerate("run", run_cases(q), run_case_)
    ck.enumerate("invalid", invalid_cases(q), invalid_case)
    ck.enumerate("roundtrip", trip_cases(q), trip_case)
    ck.enumerate("setters", set_cases(q), set_case)
    ck.enumerate("from_dict", dict_cases(q), dict_case)
    ck.enumerate("defaults", default_cases(q), default_case)
