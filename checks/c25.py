import itertools
import os
import shutil
import struct
from pathlib import Path

import checks.c20 as c20
from lib.harness import fresh_dir, require
from lib.runs import UserError

RULE = ("every lineage of trials up to the bound x what each evaluation does (logs and succeeds / fails / returns something "
        "invalid, logs nothing, has logging switched off) x how the run is split, several runs in one process, and every "
        "combination of the switches of the logger; distinct = case")

EPOCHS = 2


def loss_at(i, e):
    return 1.0 / (i + 2) + e / 8


def read_events(d):
    """(kind, tag, step, value) of all event files below d, by the directory they are in; format of TensorBoard's records"""
    from tensorboard.compat.proto.event_pb2 import Event
    from tensorboard.plugins.hparams.plugin_data_pb2 import HParamsPluginData

    out = {}
    for sub, _, files in os.walk(d):
        for f in sorted(files):
            if "tfevents" not in f:
                continue
            with open(os.path.join(sub, f), "rb") as fh:
                data = fh.read()
            pos = 0
            here = out.setdefault(os.path.relpath(sub, d), [])
            while pos + 12 <= len(data):
                (n,) = struct.unpack("<Q", data[pos:pos + 8])
                ev = Event.FromString(data[pos + 12:pos + 12 + n])
                pos += 16 + n
                for v in ev.summary.value:
                    if v.metadata.plugin_data.plugin_name == "hparams":
                        hp = HParamsPluginData.FromString(v.metadata.plugin_data.content)
                        if hp.HasField("session_start_info"):
                            c = {}
                            for k, x in hp.session_start_info.hparams.items():
                                c[k] = getattr(x, x.WhichOneof("kind"))
                            here.append(("hparams", None, None, c))
                    elif v.HasField("image"):
                        here.append(("image", v.tag, ev.step, None))
                    elif v.HasField("simple_value"):
                        here.append(("scalar", v.tag, ev.step, v.simple_value))
                    else:
                        here.append(("scalar", v.tag, ev.step, v.tensor.float_val[0] if v.tensor.float_val else None))
    return out


class Logger:
    """The evaluation. outcomes[i]: o logs and succeeds, f logs and fails, i logs and returns nonsense, n logs nothing,
    d logs while the logger is switched off, x fails before it logs"""

    def __init__(self, root, parents, outcomes, names="level", switches=(True, True, True), extra=True):
        self.root, self.parents, self.outcomes = Path(root), parents, outcomes
        self.name, self.switches, self.extra = c20.NAMES[names], switches, extra
        self.names = names
        self.want = {}
        self.results = []  # losses in the order they are recorded, None for failures
        self.points = 0
        self.i = None

    def dir(self, i):
        return f"configs/config_{self.name(i)}"

    def __call__(self, x):
        import torch
        from neps.plot.tensorboard_eval import tblogger

        i = round(x * 16)
        o = self.outcomes[i]
        self.seen = i
        base = self.dir(c20.first(self.parents, i))
        tag = base.rsplit("/", 1)[1]
        scalar, hparam, incumbent = self.switches
        if o == "x":
            self.results.append(None)
            raise UserError("before")
        if o == "d":
            tblogger.disable()
        try:
            for e in range(EPOCHS) if o != "n" else ():
                v = loss_at(i, e)
                extra = {"acc": tblogger.scalar_logging(10 * v),
                         "img": tblogger.image_logging(torch.zeros(3, 1, 4, 4), counter=2, resize_images=[4, 4],
                                                       random_images=bool(i % 2), seed=1)} if self.extra else None
                tblogger.log(loss=v, current_epoch=e, writer_config_scalar=scalar, writer_config_hparam=hparam,
                             write_summary_incumbent=incumbent, extra_data=extra)
                if o == "d":
                    continue
                w = self.want.setdefault(base + "/tbevents", [])
                if scalar:
                    w.append(("scalar", f"{tag}/Loss", e, v))
                if hparam:
                    w.append(("scalar", "Summary/Loss", e, v))
                    w.append(("hparams", None, None, {"x": x}))
                if self.extra:
                    w.append(("scalar", f"{tag}/acc", e, 10 * v))
                    if e % 2 == 0:
                        w.append(("image", f"{tag}/img", e, None))
        finally:
            tblogger.enable()
        if o == "f":
            self.results.append(None)
            raise UserError("after")
        if o == "i":
            return "nonsense"
        self.results.append(loss_at(i, EPOCHS - 1))
        return self.results[-1]

    def verdict(self):
        got = read_events(self.root)
        points = got.pop("summary", [])
        def key(v):
            return (v[0], str(v[1]), -1 if v[2] is None else v[2], repr(v[3]) if v[0] == "hparams" else 0,
                    v[3] if v[0] == "scalar" else 0)

        where = f"(continues {self.parents}, outcomes {self.outcomes})"
        require(set(got) <= set(self.want), lambda: f"logs in {sorted(set(got) - set(self.want))}, nobody logged there {where}")
        for d, w in self.want.items():
            g = sorted(got.get(d, []), key=key)
            w = sorted(w, key=key)
            same = len(g) == len(w) and all(
                a[:3] == b[:3] and (abs(a[3] - b[3]) < 1e-6 if a[0] == "scalar" else a[3] == b[3]) for a, b in zip(g, w))
            require(same, lambda: f"the log of {d} is {[x for x in g if x not in w][:6]}, not {[x for x in w if x not in g][:6]} "
                                  f"({len(g)} and {len(w)} entries) {where}")
        if not self.switches[2]:
            require(not points, lambda: f"incumbents {points} were not asked for")
        elif self.want:
            require(points, "no incumbents")
        for kind, tag, step, v in points:
            require(kind == "scalar" and step <= len(self.results), lambda: f"incumbents: {points}")
            ok = [r for r in self.results[:step] if r is not None]
            best = min(ok, default=float("inf"))
            require(v == best or abs(v - best) < 1e-6,
                    lambda: f"the best loss of the first {step} results is {best}, logged is {v}: {self.results}")

    def run(self, total, per=None, overwrite=False):
        try:
            import neps

            neps.run(run_pipeline=self, root_directory=self.root, max_evaluations_total=total,
                     searcher=c20.scripted(self.parents, self.names), ignore_errors=True, post_run_summary=False,
                     overwrite_working_directory=overwrite, **({} if per is None else {"max_evaluations_per_run": per}))
        except Exception as e:  # noqa: BLE001
            require("i" in self.outcomes, lambda: f"run raises {e!r}")


def logs_first(parents, outcomes):
    """A continuation logs only when the first of its chain logged."""
    for i, o in enumerate(outcomes):
        if o in "ofi" and outcomes[c20.first(parents, i)] in "nxd":
            return False
    return True


def lineage_cases(quick):
    n = 3 if quick else 4
    for m in range(1, n + 1):
        for parents in c20.forests(m):
            for o in itertools.product("ofnxd", repeat=m):
                if logs_first(parents, o):
                    for per in (None, 1):
                        yield (parents, "".join(o), "level" if per else "plain", per)
    for parents in c20.forests(4 if quick else 5):
        for o in itertools.product("ofn", repeat=len(parents)) if quick else itertools.product("of", repeat=len(parents)):
            if logs_first(parents, o):
                yield (parents, "".join(o), "plain", None)


def lineage_case(case):
    parents, o, names, per = case
    f = Logger(os.path.abspath(fresh_dir()), parents, o, names, extra=len(o) < 3, switches=(True, len(o) < 4, True))
    for _ in range(1 if per is None else len(parents)):
        f.run(len(parents), per)
    f.verdict()


# ------------------------------------------------------------------------------------------------ switches
def switch_cases(quick):
    for sw in itertools.product((True, False), repeat=3):
        for parents in c20.forests(3):
            for o in ("ooo", "ofo", "foo"):
                yield (parents, o, sw)


def switch_case(case):
    parents, o, sw = case
    f = Logger(os.path.abspath(fresh_dir()), parents, o, switches=sw)
    f.run(3)
    f.verdict()


# ------------------------------------------------------------------------------------------------ several runs in one process
def multi_cases(quick):
    fs = list(c20.forests(2))
    for a, b in itertools.product(fs, repeat=2):
        for oa in itertools.product("ofin", repeat=2):
            for ob in ("oo", "of", "io", "no"):
                if not (logs_first(a, oa) and logs_first(b, ob)):
                    continue
                for order in ("ab", "aba", "abab"):
                    for sw in ((True, True), (True, False), (False, True)):
                        yield (a, b, "".join(oa), ob, order, sw)


def multi_case(case):
    a, b, oa, ob, order, sw = case
    base = os.path.abspath(fresh_dir("multi"))
    L = {k: Logger(os.path.join(base, k), p, o, switches=(True, False, s), extra=False)
         for k, p, o, s in (("a", a, oa, sw[0]), ("b", b, ob, sw[1]))}
    for j, k in enumerate(order):
        f = L[k]
        last = k not in order[j + 1:]
        # a trial which returned nonsense ends its run and stays claimed: the next run goes on with the next trial
        n = f.outcomes.count("i")
        for _ in range((n + 1) if last else 1):
            f.run(2 + n if last else 99, None if last else 1)
    for k in L:
        L[k].verdict()


# ------------------------------------------------------------------------------------------------ overwriting
def over_case(case):
    parents, first, o = case
    root = os.path.abspath(fresh_dir())
    a = Logger(root, (None,), first)
    a.run(1)
    b = Logger(root, parents, o)
    b.run(len(parents), overwrite=True)
    b.verdict()


def gone_case(case):
    """The results of an earlier run in this process are deleted or moved away."""
    first, o, how = case
    base = os.path.abspath(fresh_dir("gone"))
    a = Logger(os.path.join(base, "a"), (None,), first)
    a.run(1)
    if how == "deleted":
        shutil.rmtree(a.root)
    else:
        os.rename(a.root, os.path.join(base, "moved"))
        a.root = Path(base, "moved")
    b = Logger(os.path.join(base, "b"), (None, None), o)
    b.run(2)
    b.verdict()
    if how == "moved":
        a.verdict()
    require(not os.path.exists(os.path.join(base, "a")), "the directory of the earlier run is back")


def run(ck):
    ck.rule = RULE
    ck.level = "model_checking"
    q = ck.quick
    import neps.plot.tensorboard_eval  # noqa: F401
    import tensorboard.plugins.hparams.plugin_data_pb2  # noqa: F401

    ck.enumerate("lineages", lineage_cases(q), lineage_case)
    ck.enumerate("switches", switch_cases(q), switch_case)
    ck.enumerate("several runs", multi_cases(q), multi_case)
    ck.enumerate("overwrite", [(p, f, o) for p in c20.forests(2) for f in "ofin" for o in ("oo", "of", "fo", "nn")
                               if logs_first(p, o)], over_case)
    ck.enumerate("gone", [(f, "".join(o), how) for f in "ofi" for o in itertools.product("ofnx", repeat=2)
                          for how in ("deleted", "moved")], gone_case)
