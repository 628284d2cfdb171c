"""fsmc: stateless model checker for real worker processes coordinating through a directory.

Workers are forked from the preloaded explorer process; the libc interposer (shim.c, LD_PRELOAD)
hands control to the explorer at every file-system call below the run directory, every file lock
and every sleep. Exactly one worker runs at any time, so an execution is determined by the list of
choices made at the visible points.
"""
from __future__ import annotations

import ctypes
import gc
import json
import os
import random
import shutil
import signal
import socket
import sys
import time
import traceback
from collections import defaultdict

HANG_SECONDS = 150
MAX_STEPS = 40000
MAX_IDLE_SLEEPS = 400


def shim():
    lib = ctypes.CDLL(os.environ["FSMC_LIB"])
    lib.fsmc_enable.argtypes = [ctypes.c_int, ctypes.c_char_p]
    return lib


class HarnessError(Exception):
    pass


class Ctx:
    """What a worker body sees."""

    def __init__(self, idx, root, sock):
        self.idx, self.root, self._fd = idx, root, sock

    def point(self, tag, data=""):
        """A scheduling point outside the file system (for instance: the user's code runs)."""
        os.write(self._fd, f"P\t{tag}\t{data}\n".encode())
        r = os.read(self._fd, 1)
        if r != b"g":
            os.kill(os.getpid(), signal.SIGKILL)

    def log(self, tag, data=""):
        os.write(self._fd, f"N\tlog:{tag}\t{data}\n".encode())


class Worker:
    __slots__ = ("idx", "pid", "sock", "buf", "op", "alive", "wait", "sleeping", "held", "result",
                 "nmut", "killed", "nsteps", "tail")

    def __init__(self, idx):
        self.idx = idx
        self.buf = b""
        self.op = None
        self.alive = True
        self.wait = None
        self.sleeping = False
        self.held = set()
        self.result = None
        self.nmut = 0
        self.killed = False
        self.nsteps = 0


MUT = {"W", "M", "D", "V"}


def is_mut(op):
    k, p, info = op
    if k == "O":
        return "t" in info or "c" in info
    if k == "M":
        return info == "c"
    return k in ("W", "D", "V")


def accesses(op):
    """(object, is_write) pairs touched by an operation. Per path there are two objects: its
    existence (the path) and its content (path + '#'); per directory one for its list of entries."""
    k, p, info = op
    if k == "O":
        if "c" in info:
            return [(p, True), ("dir:" + os.path.dirname(p), True)]
        if "t" in info:
            return [(p, False), (p + "#", True)]
        return [(p, False)]
    if k == "R":
        return [(p + "#", False)]
    if k == "T":
        return [(p, False)]
    if k == "W":
        return [(p + "#", True)]
    if k == "L":
        return [(p, False), ("dir:" + p, False)]
    if k == "M":
        if info == "c":
            return [(p, True), ("dir:" + os.path.dirname(p), True)]
        return [(p, False)]
    if k == "D":
        return [(p, True), (p + "#", True), ("dir:" + os.path.dirname(p), True)]
    if k == "V":
        new, src = info.split("|", 1)
        out = [(p + "#", True), (p, new == "c"), (src, True), (src + "#", False)]
        if new == "c":
            out.append(("dir:" + os.path.dirname(p), True))
        return out
    return []


class LocksetInfo:
    """Eraser-style summary over executions: which objects are shared, written and not
    consistently protected by a lock, and how often each is written at most."""

    def __init__(self):
        self.obj = {}  # name -> [writers, readers, lockset, max number of writes in one execution]
        self.locks = defaultdict(set)

    def access(self, name, w, write, held):
        o = self.obj.get(name)
        if o is None:
            o = self.obj[name] = [set(), set(), frozenset(held), 0]
        else:
            o[2] = o[2] & held
        if write:
            o[0].add(w)
            o[3] += 1
        else:
            o[1].add(w)

    def merge(self, other):
        for n, (wr, rd, ls, c) in other.obj.items():
            o = self.obj.get(n)
            if o is None:
                self.obj[n] = [set(wr), set(rd), ls, c]
            else:
                o[0] |= wr
                o[1] |= rd
                o[2] &= ls
                o[3] = max(o[3], c)
        for n, ws in other.locks.items():
            self.locks[n] |= ws

    def visible(self):
        objs = {}
        for n, (wr, rd, ls, c) in self.obj.items():
            if not wr or ls or len(wr | rd) < 2 or n.rstrip("#").endswith(".tmp"):
                continue
            if n.startswith("dir:") and not rd:
                continue  # creations of different entries commute
            objs[n] = c
        locks = frozenset(n for n, ws in self.locks.items() if len(ws) > 1)
        return objs, locks


class Execution:
    """One controlled run. prefix: choices at decision points. crash: (worker, k, mode)."""

    def __init__(self, scenario, root, prefix=(), visible=None, bound=2, crash=None, fault=None):
        self.sc = scenario
        self.root = root
        self.prefix = list(prefix)
        self.visible = visible
        self.bound = bound
        self.crash = crash
        self.fault = fault
        self.decisions = []  # (n_options, choice, preemptions before, cost of alternatives)
        self.trace = []
        self.info = LocksetInfo()
        self.holder = {}
        self.events = []
        self.problem = None
        self.steps = 0
        self.nwrites = {}
        self.diverged = False
        self.ops = [[] for _ in range(scenario.nworkers)]

    # -- process handling ------------------------------------------------------------------
    def _spawn(self, idx):
        a, b = socket.socketpair()
        w = Worker(idx)
        pid = os.fork()
        if pid == 0:
            try:
                a.close()
                self._child(idx, b)
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(3)
        b.close()
        a.settimeout(HANG_SECONDS)
        w.pid, w.sock = pid, a
        return w

    def _child(self, idx, sock):
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        dn = os.open("/dev/null", os.O_WRONLY)
        if not os.environ.get("FSMC_DEBUG"):
            os.dup2(dn, 1)
            os.dup2(dn, 2)
        fd = sock.detach()
        if hasattr(self.sc, "prepare"):
            self.sc.prepare(idx, self.root)
        lib = shim()
        ctx = Ctx(idx, self.root, fd)
        res = {"status": "ok"}
        lib.fsmc_enable(fd, str(self.root).encode())
        try:
            ctx.point("begin")
            r = self.sc.worker(ctx)
            if r is not None:
                res["value"] = r
        except BaseException as e:  # noqa: BLE001
            chain = []
            x = e
            while x is not None and len(chain) < 6:
                tb = traceback.extract_tb(x.__traceback__)
                last = f"{os.path.basename(tb[-1].filename)}:{tb[-1].name}" if tb else ""
                chain.append([type(x).__name__, str(x)[:400], last])
                x = x.__cause__ or x.__context__
            res = {"status": "exc", "type": type(e).__name__, "chain": chain}
        lib.fsmc_disable()
        os.write(fd, ("Z\t" + json.dumps(res).replace("\n", " ").replace("\t", " ") + "\t\n").encode())
        os._exit(0)

    def _line(self, w):
        while b"\n" not in w.buf:
            try:
                d = w.sock.recv(65536)
            except (ConnectionResetError, BrokenPipeError):
                d = b""
            except (TimeoutError, socket.timeout):
                return "HANG"
            if not d:
                return None
            w.buf += d
        i = w.buf.index(b"\n")
        line, w.buf = w.buf[:i], w.buf[i + 1:]
        return line.decode(errors="replace")

    def _advance(self, w):
        """Read messages of worker w until its next request (or its end)."""
        while True:
            line = self._line(w)
            if line == "HANG":
                self.problem = ("hang", f"worker {w.idx} made no file-system progress for {HANG_SECONDS}s")
                os.kill(w.pid, signal.SIGKILL)
                self._dead(w)
                return
            if line is None:
                self._dead(w)
                return
            if line.startswith("="):
                ret, err = line[1:].split()
                k, p, _ = w.op
                if k == "K":
                    if ret == "0":
                        self.holder[p] = w.idx
                        w.held.add(p)
                        self.info.locks[p].add(w.idx)
                    else:
                        self.info.locks[p].add(w.idx)
                        w.wait = p
                elif k == "U":
                    self._release(w, p)
                continue
            parts = line.split("\t")
            if parts[0] == "N":
                if parts[1] == "unlock":
                    self._release(w, parts[2])
                elif parts[1].startswith("log:"):
                    self.events.append((w.idx, parts[1][4:], parts[2]))
                continue
            if parts[0] == "Z":
                w.result = json.loads(parts[1])
                self.events.append((w.idx, "end", w.result["status"]))
                self._dead(w)
                return
            w.op = (parts[0], parts[1], parts[2] if len(parts) > 2 else "")
            w.sleeping = parts[0] == "S"
            return

    def _release(self, w, p):
        if self.holder.get(p) == w.idx:
            del self.holder[p]
        w.held.discard(p)

    def _dead(self, w):
        w.alive = False
        w.op = None
        w.sock.close()
        os.waitpid(w.pid, 0)
        for p in list(w.held):
            self._release(w, p)

    def _enabled(self, w):
        if not w.alive:
            return False
        if w.sleeping and w.wait is not None:
            return w.wait not in self.holder
        return True

    def _is_visible(self, w):
        k, p, _ = w.op
        if k == "S":
            return True
        if k == "P":
            return False
        if self.visible is None:
            return k in ("K",)
        objs, locks = self.visible
        if k == "K":
            return p in locks
        for o, wr in accesses(w.op):
            # an object whose last write has already happened in this execution is quiescent
            if o in objs and (wr or self.nwrites.get(o, 0) < objs[o]):
                return True
        return False

    def run(self):
        ws = []
        try:
            for i in range(self.sc.nworkers):
                ws.append(self._spawn(i))
            for w in ws:
                self._advance(w)
            self._loop(ws)
        finally:
            for w in ws:
                if w.alive:
                    try:
                        os.kill(w.pid, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
                    w.sock.close()
                    os.waitpid(w.pid, 0)
                    w.alive = False
        self.workers = ws
        return self

    def _loop(self, ws):
        cur = None
        npre = 0
        idle = 0
        while True:
            if self.problem:
                return
            en = [w for w in ws if self._enabled(w)]
            if not en:
                stuck = [w for w in ws if w.alive]
                if stuck:
                    self.problem = ("deadlock", "; ".join(
                        f"worker {w.idx} holds {sorted(w.held)} waits for {w.wait}" for w in stuck))
                return
            if cur is not None and cur in en and not cur.sleeping and not self._is_visible(cur):
                nxt = cur
            else:
                others = [w for w in en if w is not cur]
                if cur is not None and cur in en and not cur.sleeping:
                    opts, free = [cur, *others], False
                elif cur is not None and cur in en and cur.sleeping and not others:
                    opts, free = [cur], True
                else:
                    awake = others if others else en
                    opts, free = awake, True
                if len(opts) == 1:
                    nxt = opts[0]
                else:
                    d = len(self.decisions)
                    if d < len(self.prefix):
                        c = self.prefix[d]
                        if c >= len(opts):
                            self.diverged = True
                            c = 0
                    else:
                        c = 0
                    nxt = opts[c]
                    cost = 0 if free else 1
                    self.decisions.append((len(opts), c, npre, cost,
                                           bool(cur is None and self.sc.symmetric)))
                    if c and cost:
                        npre += 1
            if nxt is not cur and cur is not None and cur.alive and not cur.sleeping:
                self.trace.append(f"--switch to worker {nxt.idx}--")
            cur = nxt
            self.steps += 1
            cur.nsteps += 1
            if self.steps > MAX_STEPS:
                self.problem = ("livelock", f"more than {MAX_STEPS} operations without finishing")
                return
            op = cur.op
            k, p, info = op
            if k == "S":
                idle += 1
                if idle > MAX_IDLE_SLEEPS:
                    self.problem = ("livelock", f"worker {cur.idx} keeps waiting ({cur.wait})")
                    return
            else:
                if k != "K":
                    idle = 0
            if k == "P":
                self.events.append((cur.idx, p, info))
            for o, wr in accesses(op):
                self.info.access(o, cur.idx, wr, cur.held)
                if wr:
                    self.nwrites[o] = self.nwrites.get(o, 0) + 1
            if len(self.trace) < 6000:
                self.trace.append(f"{cur.idx} {k} {p} {info}")
            reply = b"g"
            crashed = False
            countable = is_mut(op) or k in ("P", "U")
            if countable:
                self.ops[cur.idx].append(op)
                if self.crash and self.crash[0] == cur.idx and cur.nmut == self.crash[1]:
                    mode = self.crash[2]
                    reply = {"after": b"d", "torn": b"p", "before": b"x"}[mode]
                    if k == "P":
                        reply = b"x"
                    crashed = True
                if self.fault and self.fault[0] == cur.idx and cur.nmut == self.fault[1]:
                    if is_mut(op):
                        reply = b"n"
                cur.nmut += 1
            cur.wait = None if k != "S" else cur.wait
            if k == "S":
                cur.wait = None
                cur.sleeping = False
            try:
                cur.sock.sendall(reply)
            except (BrokenPipeError, ConnectionResetError):
                pass
            if crashed:
                cur.killed = True
                self.trace.append(f"--KILL worker {cur.idx} ({self.crash[2]} {k} {p} {info})--")
                self.crash_op = op
            self._advance(cur)

    def signature(self):
        """(hash of the executed interleaving, whether workers really interleaved or one was killed)"""
        nontrivial = any(t.startswith("--") for t in self.trace)
        return hash("\n".join(self.trace)), nontrivial

    def summary(self):
        return {
            "prefix": [c for _, c, *_ in self.decisions],
            "steps": self.steps,
            "results": [w.result for w in self.workers],
            "problem": self.problem,
            "events": self.events,
        }


# ---------------------------------------------------------------------------------------------


class Scenario:
    """Subclass: template(root) builds the initial directory, worker(ctx) is run by each worker,
    check(ex) returns a list of violation strings."""

    name = "scenario"
    nworkers = 2
    symmetric = False

    def template(self, root):
        pass

    def worker(self, ctx):
        raise NotImplementedError

    def check(self, ex):
        return []


_STATE = {}


def _forked(fn, *a):
    """Run fn in a child process (isolation of process globals); return (ok, text)."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 0
        try:
            os.close(r)
            dn = os.open("/dev/null", os.O_WRONLY)
            if not os.environ.get("FSMC_DEBUG"):
                os.dup2(dn, 1)
                os.dup2(dn, 2)
            out = fn(*a)
            data = json.dumps({"ok": True, "value": out})
        except BaseException as e:  # noqa: BLE001
            data = json.dumps({"ok": False, "err": f"{type(e).__name__}: {e}", "tb": traceback.format_exc()[-3000:]})
        with os.fdopen(w, "w") as f:
            f.write(data)
        os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    if not data:
        return {"ok": False, "err": "child died", "tb": ""}
    return json.loads(data)


def scratch():
    d = _STATE.get("scratch")
    if d is None or _STATE.get("pid") != os.getpid():
        base = _STATE["base"]
        d = os.path.join(base, f"p{os.getpid()}")
        os.makedirs(d, exist_ok=True)
        _STATE["scratch"], _STATE["pid"] = d, os.getpid()
        _STATE["templates"] = {}
    return d


def fresh_root(sc):
    """The initial directory of the scenario, always under the same path in this process."""
    d = scratch()
    run = os.path.join(d, "run")
    shutil.rmtree(run, ignore_errors=True)
    key = sc.name
    tpl = _STATE["templates"].get(key)
    root = os.path.join(run, "root")
    if tpl is None:
        os.makedirs(run)
        r = _forked(lambda: (sc.template(root), None)[1])
        if not r["ok"]:
            raise HarnessError(f"template of {sc.name} failed: {r['err']}\n{r['tb']}")
        tpl = os.path.join(d, "tpl_" + key)
        shutil.rmtree(tpl, ignore_errors=True)
        shutil.copytree(run, tpl)
        _STATE["templates"][key] = tpl
    else:
        shutil.copytree(tpl, run)
    return root


def execute(sc, **kw):
    root = fresh_root(sc)
    ex = Execution(sc, root, **kw).run()
    return ex


def run_one(args):
    """Task executed in an explorer process: (scenario index, kwargs) -> result dict."""
    si, kw = args
    sc = _STATE["scenarios"][si]
    t = time.time()
    try:
        ex = execute(sc, **kw)
        viol = []
        if ex.problem:
            viol.append(f"{ex.problem[0]}: {ex.problem[1]}")
        viol += sc.check(ex)
    except HarnessError as e:
        return {"si": si, "kw": kw, "error": str(e)}
    except Exception as e:  # noqa: BLE001
        return {"si": si, "kw": kw, "error": f"{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}"}
    return {
        "si": si, "kw": kw, "decisions": ex.decisions, "steps": ex.steps, "viol": viol,
        "info": ex.info, "nmut": [w.nmut for w in ex.workers], "diverged": ex.diverged,
        "killed": [w.killed for w in ex.workers],
        "crash_op": getattr(ex, "crash_op", None),
        "trace": ex.trace if viol else None, "results": [w.result for w in ex.workers] if viol else None,
        "t": time.time() - t,
        "sig": ex.signature(), "ops": ex.ops if not kw.get("crash") and kw.get("bound") == 0 else None,
    }


class Pool:
    """Fork-based worker pool that hands out tasks one at a time (tasks may fork themselves)."""

    def __init__(self, n, fn):
        self.fn = fn
        self.procs = []
        for _ in range(n):
            a, b = socket.socketpair()
            pid = os.fork()
            if pid == 0:
                a.close()
                for (_, s) in self.procs:
                    s.close()
                self._serve(b)
                os._exit(0)
            b.close()
            self.procs.append((pid, a))
        self.idle = list(range(n))
        self.busy = {}

    def _serve(self, s):
        import pickle
        import struct
        f = s.makefile("rwb")
        while True:
            h = f.read(8)
            if len(h) < 8:
                return
            task = pickle.loads(f.read(struct.unpack("<Q", h)[0]))
            try:
                out = self.fn(task)
            except BaseException as e:  # noqa: BLE001
                out = {"error": f"{type(e).__name__}: {e}\n{traceback.format_exc()[-3000:]}"}
            d = pickle.dumps(out)
            f.write(struct.pack("<Q", len(d)) + d)
            f.flush()

    def submit(self, task):
        import pickle
        import struct
        i = self.idle.pop()
        d = pickle.dumps(task)
        self.procs[i][1].sendall(struct.pack("<Q", len(d)) + d)
        self.busy[self.procs[i][1]] = i

    def wait(self):
        import pickle
        import select
        import struct
        r, _, _ = select.select(list(self.busy), [], [])
        out = []
        for s in r:
            i = self.busy.pop(s)
            h = b""
            while len(h) < 8:
                x = s.recv(8 - len(h))
                if not x:
                    raise HarnessError("explorer process died")
                h += x
            n = struct.unpack("<Q", h)[0]
            buf = bytearray()
            while len(buf) < n:
                x = s.recv(min(1 << 20, n - len(buf)))
                if not x:
                    raise HarnessError("explorer process died")
                buf += x
            out.append(pickle.loads(bytes(buf)))
            self.idle.append(i)
        return out

    def map(self, tasks):
        """Unordered map over an iterable that may grow (tasks is a list used as a stack/queue)."""
        from collections import deque
        q = deque(tasks)
        while q or self.busy:
            while q and self.idle:
                self.submit(q.popleft())
            for o in self.wait():
                yield o, q

    def close(self):
        for pid, s in self.procs:
            s.close()
        for pid, s in self.procs:
            os.waitpid(pid, 0)


class Explorer:
    def __init__(self, scenarios, base, nproc=8):
        _STATE["base"] = base
        _STATE["scenarios"] = scenarios
        self.scenarios = scenarios
        gc.collect()
        gc.freeze()
        self.pool = Pool(nproc, run_one)
        self.stats = defaultdict(lambda: defaultdict(int))
        self.violations = []
        self.errors = []
        self.sigs = defaultdict(set)
        self.nmut_of = {}

    def close(self):
        self.pool.close()

    def _account(self, name, o):
        s = self.stats[name]
        s["executions"] += 1
        s["operations"] += o["steps"]
        s["decisions"] += len(o["decisions"])
        s["diverged"] += int(o["diverged"])
        s["max_decisions"] = max(s["max_decisions"], len(o["decisions"]))
        if o["sig"][1]:
            self.sigs[name].add(o["sig"][0])

    def schedules(self, si, bound, limit=None, deadline=None, max_viol=3, crash=None, start_visible=None,
                  keep=None):
        """All schedules with at most `bound` pre-emptions at the visible points."""
        sc = self.scenarios[si]
        name = sc.name
        self.keep = keep
        total = LocksetInfo()
        vis = start_visible
        passes = 0
        complete = True
        nexec = 0
        if vis is None:
            # discovery: one pre-emption at lock operations
            for b, v in ((1, None),):
                self._pass(si, b, v, total, limit, deadline, max_viol, crash)
                if self.violations:
                    return {"complete": False, "passes": 1}
            vis = total.visible()
        while True:
            passes += 1
            ok = self._pass(si, bound, vis, total, limit, deadline, max_viol, crash)
            complete = ok
            if len(self.violations) >= max_viol or not ok:
                break
            nv = total.visible()
            nv = ({o: max(nv[0].get(o, 0), vis[0].get(o, 0)) for o in {*nv[0], *vis[0]}}, nv[1] | vis[1])
            if nv == vis:
                break
            if passes >= 5:
                complete = False
                break
            vis = nv
        s = self.stats[name]
        s["bound"] = bound
        s["visible_objects"] = len(vis[0])
        s["visible_locks"] = len(vis[1])
        s["complete"] = int(bool(complete))
        return {"complete": complete, "passes": passes, "visible": vis}

    def crashes(self, si, bound, victim=0, deadline=None, max_viol=3, keep=None, select=None, vis=None, torn=True,
                step=None):
        """Every crash point of the victim x every schedule with at most `bound` pre-emptions.

        A crash point is (k, mode): the k-th state-changing operation, user-code point or unlock of
        the victim; it dies right after it, or (data writes) with only half of the data written."""
        sc = self.scenarios[si]
        self.keep = keep
        total = LocksetInfo()
        if vis is None:
            self._pass(si, 1, None, total, None, deadline, max_viol, None)
            vis = total.visible()
        # the operations of the victim, per schedule; the longest run defines the range of k
        ops = {}
        for o, q in self.pool.map([(si, {"prefix": (), "visible": vis, "bound": 0, "crash": None})]
                                  + [(si, {"prefix": (c,), "visible": vis, "bound": 0, "crash": None})
                                     for c in range(1, sc.nworkers)]):
            if "error" in o:
                self.errors.append(o["error"])
                return {"complete": False}
            self._account(sc.name, o)
            if o["viol"] and (keep is None or keep(o["viol"])):
                self.violations.append((sc.name, o))
                return {"complete": False}
            for k, op in enumerate(o["ops"][victim]):
                ops.setdefault(k, set()).add(op)
        points = []
        # pre-emptions can make the victim do more work
        self.nmut_of = {}
        if sc.nworkers > 1:
            self._pass(si, bound, vis, total, None, deadline, max_viol, None, record=victim)
            if self.violations:
                return {"complete": False}
        for k in range(max(max(ops, default=0) + 1, *self.nmut_of.values(), 0)):
            kinds = ops.get(k, set())
            if select is not None and kinds and not any(select(op) for op in kinds):
                continue
            points.append((victim, k, "after"))
            if torn and any(op[0] == "W" for op in kinds):
                points.append((victim, k, "torn"))
        if step:
            points = points[::step]
        tasks = [(si, {"prefix": (), "visible": vis, "bound": bound, "crash": p}) for p in points]
        ok = self._explore(tasks, total, None, deadline, max_viol)
        s = self.stats[sc.name]
        s["crash_points"] += len(points)
        s["bound"] = bound
        s["complete"] = int(bool(ok))
        return {"complete": ok, "points": len(points), "visible": vis}

    def _pass(self, si, bound, vis, total, limit, deadline, max_viol, crash, record=None):
        tasks = [(si, {"prefix": (), "visible": vis, "bound": bound, "crash": crash})]
        return self._explore(tasks, total, limit, deadline, max_viol, record)

    def _explore(self, tasks, total, limit, deadline, max_viol, record=None):
        name = self.scenarios[tasks[0][0]].name
        n = 0
        ok = True
        for o, q in self.pool.map(tasks):
            if "error" in o:
                self.errors.append(o["error"])
                q.clear()
                continue
            n += 1
            self._account(name, o)
            total.merge(o["info"])
            viol = o["viol"] if self.keep is None else self.keep(o["viol"])
            if viol:
                self.violations.append((name, o))
                if len(self.violations) >= max_viol:
                    q.clear()
                    ok = False
                    continue
            if limit is not None and n >= limit:
                q.clear()
                ok = False
                continue
            if deadline is not None and time.time() > deadline:
                q.clear()
                ok = False
                continue
            if any(o["killed"]):
                self.stats[name]["killed"] += 1
            si, bound = o["si"], o["kw"]["bound"]
            pre = len(o["kw"]["prefix"])
            choices = [c for _, c, *_ in o["decisions"]]
            crash = o["kw"].get("crash")
            if record is not None:
                self.nmut_of[o["kw"]["prefix"]] = o["nmut"][record]
            for i in range(pre, len(o["decisions"])):
                nopt, c, npre, cost, symm = o["decisions"][i]
                if symm:
                    continue
                if npre + cost > bound:
                    continue
                for alt in range(1, nopt):
                    child = tuple(choices[:i]) + (alt,)
                    if crash and npre + cost == bound and self.nmut_of.get(child, crash[1] + 1) <= crash[1]:
                        continue  # this schedule ends before the crash point and was explored without it
                    q.append((si, {**o["kw"], "prefix": child}))
        return ok
