"""What a legal value of a parameter is, stated from the arguments the parameter was defined with (not from the code)."""
from __future__ import annotations

import math


class P:
    """One parameter: kind (float, int, cat, const), lo, hi, log, choices, value, fid, default, conf"""

    def __init__(self, kind, lo=None, hi=None, log=False, choices=None, value=None, fid=False, default=None, conf="low"):
        self.kind, self.lo, self.hi, self.log, self.choices, self.value = kind, lo, hi, log, choices, value
        self.fid, self.default, self.conf = fid, default, conf

    def make(self):
        import neps

        if self.kind == "const":
            return neps.Constant(self.value)
        kw = {} if self.default is None else dict(default=self.default, default_confidence=self.conf)
        if self.kind == "cat":
            return neps.Categorical(list(self.choices), **kw)
        return (neps.Float if self.kind == "float" else neps.Integer)(self.lo, self.hi, log=self.log, is_fidelity=self.fid,
                                                                     **kw)

    def bad(self, v):
        """None if v is legal, else what is wrong."""
        if self.kind == "const":
            return None if type(v) is type(self.value) and v == self.value else f"{v!r} is not the constant {self.value!r}"
        if self.kind == "cat":
            if any(type(v) is type(c) and v == c for c in self.choices):
                return None
            return f"{v!r} ({type(v).__name__}) is not one of the choices {self.choices!r}"
        want = float if self.kind == "float" else int
        if type(v) is not want:
            return f"{v!r} is a {type(v).__name__}, not a {want.__name__}"
        if not (self.lo <= v <= self.hi) or isinstance(v, float) and not math.isfinite(v):
            return f"{v!r} is not in [{self.lo}, {self.hi}]"
        return None

    def __repr__(self):
        return f"P({', '.join(f'{k}={v!r}' for k, v in vars(self).items() if v is not None and v is not False)})"


def illegal(space, config):
    """space: name -> P; config: mapping. None or a description."""
    if set(config) != set(space):
        return f"assigns {sorted(config)}, the space has {sorted(space)}"
    for k, p in space.items():
        b = p.bad(config[k])
        if b:
            return f"{k}: {b}"
    return None


def make_space(space):
    from neps.search_spaces import SearchSpace

    return SearchSpace(**{k: p.make() for k, p in space.items()})
