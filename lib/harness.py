"""Common machinery of all checks: environment, parallel exhaustive enumeration, evidence, findings."""
from __future__ import annotations

import argparse
import collections
import fnmatch
import gc
import hashlib
import importlib
import json
import logging
import os
import random
import shutil
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("NEPS_REPO", "/repo")
NPROC = int(os.environ.get("VERIF_NPROC", min(8, os.cpu_count() or 1)))


class Violation(Exception):
    """Raised by a case when the property does not hold. key identifies what fails (stable)."""

    def __init__(self, msg, key=None):
        super().__init__(msg)
        self.key = key


def require(cond, msg, key=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, key)


def same(a, b):
    """Equality with nan == nan, type-strict for bool/int/float, recursive."""
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    if type(a) is not type(b):
        return False
    return a == b


def root_cause(e):
    while e.__cause__ is not None:
        e = e.__cause__
    return e


def keyed(prefix, f, *a, **kw):
    """Call f; an error becomes a violation identified by prefix, error type and message (not by line)."""
    try:
        return f(*a, **kw)
    except Violation:
        raise
    except Exception as e:  # noqa: BLE001
        c = root_cause(e)
        tail = "".join(traceback.format_tb(c.__traceback__)[-4:])
        raise Violation(f"{prefix}: {type(c).__name__}: {str(c)[:300]}\n{tail}",
                        f"{prefix}: {type(c).__name__}: {str(c)[:120]}") from e


class CaseTimeout(BaseException):
    pass


class Check:
    def __init__(self, pid, tier, seed):
        self.id, self.tier, self.seed = pid, tier, seed
        self.quick = tier == "quick"
        self.base = os.environ["VERIF_BASE"]
        self.t0 = time.time()
        self.stats = collections.OrderedDict()
        self.samples = []
        self.violations = []
        self.known_hit = {}
        self.assumptions = []
        self.exhaustive = True
        self.level = "exploration"
        self.rule = ""
        self.extra = {}
        self.replay = None
        self.known = [k for k in load_known() if k["property"] == pid and k["status"] == "known"]
        self.max_viol = 5

    # -- bookkeeping -----------------------------------------------------------------------
    def elapsed(self):
        return time.time() - self.t0

    def add(self, key, n=1):
        self.stats[key] = self.stats.get(key, 0) + n

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            self.samples.append(s)

    def violation(self, msg, key=None, replay=None):
        key = key or msg
        for k in self.known:
            if fnmatch.fnmatchcase(key, k["match"]):
                self.known_hit.setdefault(k["id"], k)
                return False
        if len(self.violations) < 200:
            self.violations.append({"key": key, "msg": msg, "replay": replay})
        return True

    def too_many(self):
        return len(self.violations) >= self.max_viol

    # -- exhaustive enumeration of cases -----------------------------------------------------
    def enumerate(self, name, cases, fn, timeout=120, nproc=None, chunk=None, keep=None):
        """Run fn(case) for every case (in forked processes). fn returns None or a dict with
        optional keys: stats (counter dict), viol (list of (key, msg)), sample. A raised Violation or
        any other exception is a violation of the property on that case."""
        from fsmc import core

        cases = list(cases)
        if self.replay is not None:
            if self.replay.get("group") != name:
                return
            cases = [c for c in cases if repr(c) == self.replay["case"]]
        nproc = min(nproc or NPROC, max(1, len(cases)))
        if chunk is None:
            chunk = max(1, min(64, len(cases) // (nproc * 8) or 1))
        base = self.base

        def work(batch):
            d = os.path.join(base, f"w{os.getpid()}")
            os.makedirs(d, exist_ok=True)
            os.chdir(d)
            if not work_state:  # what the code prints is not the output of the check
                null = os.open(os.devnull, os.O_WRONLY)
                os.dup2(null, 1)
                work_state.append(null)
            out = []
            for i in batch:
                out.append((i, run_case(fn, cases[i], d, timeout)))
            return out

        work_state = []
        seen = set()
        gc.collect()
        gc.freeze()
        pool = core.Pool(nproc, work)
        idx = list(range(len(cases)))
        batches = [idx[i:i + chunk] for i in range(0, len(idx), chunk)]
        n = 0
        try:
            for o, q in pool.map(batches):
                if isinstance(o, dict) and "error" in o:
                    self.violation(f"{name}: {o['error']}", f"{name}:harness")
                    q.clear()
                    continue
                for i, r in o:
                    n += 1
                    for k, v in r.get("stats", {}).items():
                        self.add(k, v)
                    for s in r.get("sigs", ()):
                        seen.add(s)
                    if r.get("sample") is not None:
                        self.sample(r["sample"])
                    for key, msg in r.get("viol", ()):
                        new = self.violation(f"{name} case {short(cases[i])}: {msg}", key or f"{name}: {msg}",
                                             {"group": name, "case": repr(cases[i]), "detail": msg})
                        if new and self.too_many():
                            q.clear()
        finally:
            pool.close()
        self.add("cases", n)
        self.add("distinct", len(seen) if seen else len({repr(c) for c in cases}))
        if n and cases:
            self.sample({"group": name, "case": short(cases[len(cases) // 2], 600)}, limit=12)
        self.add(f"cases:{name}", n)


def short(c, n=400):
    s = repr(c)
    return s if len(s) <= n else s[:n] + "..."


def _alarm(*_):
    raise CaseTimeout()


def reseed(text, seed=None):
    """All global random states, as a function of the case and VERIF_SEED."""
    import numpy as np
    import torch

    seed = int(os.environ.get("VERIF_SEED", "1") or 1) if seed is None else seed
    h = int(hashlib.sha1(f"{seed}/{text}".encode()).hexdigest()[:8], 16)
    random.seed(h)
    np.random.seed(h)
    torch.manual_seed(h)


def run_case(fn, case, scratch, timeout):
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(timeout)
    try:
        reseed(repr(case))
        r = fn(case)
        r = dict(r or {})
        r.setdefault("viol", [])
        return r
    except Violation as e:
        return {"viol": [(e.key, str(e))]}
    except CaseTimeout:
        return {"viol": [(None, f"did not finish within {timeout} s")]}
    except Exception as e:  # noqa: BLE001
        while e.__cause__ is not None:
            e = e.__cause__
        tb = traceback.extract_tb(e.__traceback__)
        where = f"{os.path.basename(tb[-1].filename)}:{tb[-1].name}" if tb else "?"
        return {"viol": [(None, f"unexpected {type(e).__name__}: {str(e)[:300]} at {where}\n"
                          + "".join(traceback.format_tb(e.__traceback__)[-6:]))]}
    finally:
        signal.alarm(0)


def fresh_dir(name="r"):
    """A new empty place below the scratch directory of this process (path does not exist yet)."""
    d = os.path.join(os.environ["VERIF_BASE"], f"w{os.getpid()}")
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, name)
    shutil.rmtree(p, ignore_errors=True)
    return p


def load_known():
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


def quiet():
    import warnings

    warnings.filterwarnings("ignore")
    logging.disable(logging.CRITICAL)


def main(argv):
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    random.seed(seed)
    quiet()
    sys.path.insert(0, REPO)
    ck = Check(a.property, tier, seed)
    if a.replay:
        with open(a.replay) as f:
            ck.replay = json.load(f)["replay"]
    try:
        import neps

        if not os.path.abspath(neps.__file__).startswith(os.path.abspath(REPO) + os.sep):
            raise RuntimeError(f"neps imported from {neps.__file__}, not from {REPO}")
        import numpy as np
        import torch

        torch.set_num_threads(1)
        np.random.seed(seed)
        torch.manual_seed(seed)
        mod = importlib.import_module("checks." + a.property.lower())
        mod.run(ck)
    except SystemExit:
        raise
    except BaseException as e:  # noqa: BLE001
        ck.violation(f"check could not run the code: {type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}",
                     f"run:{type(e).__name__}")
    return finish(ck)


def finish(ck):
    wall = time.time() - ck.t0
    cov = dict(ck.extra)
    cov.setdefault("evaluations", int(ck.stats.get("cases", 0) + ck.stats.get("executions", 0)))
    cov.setdefault("distinct_nontrivial", int(ck.stats.get("distinct", 0) + ck.stats.get("distinct_schedules", 0)))
    cov["rule"] = ck.rule
    cov["samples"] = ck.samples or ["none"]
    cov["exhaustive"] = bool(ck.exhaustive)
    cov["counts"] = {k: v for k, v in ck.stats.items() if k not in ("cases", "distinct")}
    ev = {
        "property": ck.id, "tier": ck.tier, "seed": ck.seed, "level": ck.level, "coverage": cov,
        "assumptions": ck.assumptions, "wall_s": round(wall, 2), "violations": len(ck.violations),
    }
    if ck.replay is None:
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", f"{ck.id}.json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
    for k in ck.known_hit.values():
        print(f"KNOWN-FINDING: property={ck.id} {k['text']}")
    if not ck.violations:
        print(f"OK property={ck.id} tier={ck.tier} evaluations={cov['evaluations']} "
              f"distinct={cov['distinct_nontrivial']} exhaustive={cov['exhaustive']} wall={wall:.1f}s")
        return 0
    rd = os.path.join(HERE, "replay")
    os.makedirs(rd, exist_ok=True)
    done = set()
    for v in ck.violations:
        if len(done) >= ck.max_viol:
            break
        h = hashlib.sha1((v["key"] or v["msg"]).encode()).hexdigest()[:10]
        if h in done:
            continue
        done.add(h)
        p = os.path.join(rd, f"{ck.id}-{h}.json")
        with open(p, "w") as f:
            json.dump({"property": ck.id, "key": v["key"], "msg": v["msg"], "replay": v["replay"]}, f, indent=1,
                      default=str)
        print(f"VIOLATION property={ck.id} replay={p}")
        print("   " + v["msg"][:1500].replace("\n", "\n   "))
    return 1
