"""Bounded symbolic execution of one property's scenarios over the code in
/repo, in parallel, with every path's witness replayed on the real code."""
import ast
import gc
import hashlib
import importlib
import json
import logging
import multiprocessing as mp
import os
import random
import signal
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SX_REPO", "/repo")
SITE = "/opt/venv/lib/python3.12/site-packages"
__sx__ = True


def setup_path():
    for p in (os.path.join(REPO, "src"), SITE, VERIF):
        if p not in sys.path:
            sys.path.insert(0, p)


class HangError(BaseException):
    pass


def _alarm(*_):
    raise HangError()


SYM_DEPTH = 10000
CONC_DEPTH = 1000
CONC_TIMEOUT = 6.0


PREEMPT = [None]


def _point(line):
    if PREEMPT[0] is not None:
        PREEMPT[0](line, None)


class PointFinder:
    """imports urlstd unchanged except for a call between statements, where a
    second operation can be started"""

    def find_spec(self, name, path=None, target=None):
        if name != "urlstd" and not name.startswith("urlstd."):
            return None
        from importlib.machinery import PathFinder, SourceFileLoader
        from . import instrument
        spec = PathFinder.find_spec(name, path, target)
        if spec is None or not isinstance(spec.loader, SourceFileLoader):
            return spec

        class Loader(SourceFileLoader):
            def get_code(self, fullname):
                data = self.get_data(self.path)
                return compile(instrument.add_points(ast.parse(data, self.path)), self.path, "exec", dont_inherit=True)

            def exec_module(self, module):
                module.__dict__["__sx_point__"] = _point
                SourceFileLoader.exec_module(self, module)
        spec.loader = Loader(name, spec.loader.path)
        return spec


class RealSide:
    """the real, unmodified code"""

    def __init__(self, points=False):
        setup_path()
        logging.disable(logging.CRITICAL)
        from . import icushim, instrument
        icushim.install()
        self.shim = icushim.Shim
        if points:
            sys.meta_path.insert(0, PointFinder())
        import urlstd.parse as u
        import urlstd.error as e
        from ref import whatwg
        src = os.path.realpath(u.__file__)
        if not src.startswith(os.path.realpath(os.path.join(REPO, "src"))):
            raise RuntimeError("urlstd imported from " + src)
        self.mods = {"u": u, "err": e, "ref": whatwg, "env": None}
        self.scn = {}
        self.snap = instrument.Snapshot([u, e], instrument.real_loggers)

    def scenario(self, mod, fn):
        m = self.scn.get(mod)
        if m is None:
            m = self.scn[mod] = importlib.import_module("scn." + mod)
        return getattr(m, fn)

    def run(self, mod, fn, kw, inputs, timeout=CONC_TIMEOUT):
        """-> (ConcS, hang?, uncaught exception text or None)"""
        from . import scen
        S = scen.ConcS(inputs, self.mods)
        S.snap = self.snap
        self.snap.restore()
        self.shim.current, self.shim.seen = None, []
        old = signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, timeout)
        lim = sys.getrecursionlimit()
        try:
            # the interpreter's default depth, counted from here
            sys.setrecursionlimit(CONC_DEPTH + depth())
            self.scenario(mod, fn)(S, **kw)
        except scen.Stop:
            pass
        except HangError:
            return S, True, None
        except RecursionError as e:
            if raised_inside(e):
                S.failures.append(scen.Failure("raised RecursionError", None))
            return S, False, "RecursionError"
        except Exception as e:
            # an operation the scenario takes to succeed; a parse failure of
            # text built from the source's constants is not one
            if raised_inside(e) and not isinstance(e, self.mods["err"].URLParseError):
                S.failures.append(scen.Failure("raised " + type(e).__name__, None))
            return S, False, traceback.format_exc()
        finally:
            S.release()
            PREEMPT[0] = None
            sys.setrecursionlimit(lim)
            self.shim.current = None
            signal.setitimer(signal.ITIMER_REAL, 0)
            signal.signal(signal.SIGALRM, old)
        return S, False, None


def raised_inside(e):
    """raised by the library (not by a scenario, nor by a stand-in it calls)"""
    inside = False
    root = os.path.join(REPO, "src", "urlstd") + os.sep
    for f, _ in traceback.walk_tb(e.__traceback__):
        fn = f.f_code.co_filename
        if fn.startswith(root):
            inside = True
        elif fn.startswith(VERIF + os.sep):
            inside = False
    return inside


def depth():
    f, n = sys._getframe(), 0
    while f is not None:
        n += 1
        f = f.f_back
    return n


class SymSide:
    def __init__(self, points=False):
        setup_path()
        from . import core, instrument, env
        self.C = core
        self.loader = instrument.Loader(
            {"urlstd": os.path.join(REPO, "src", "urlstd"), "ref": os.path.join(VERIF, "ref"),
             "scn": os.path.join(VERIF, "scn")}, env.proxies(), points)
        core.set_ctx(core.Ctx())
        u = self.loader.load("urlstd.parse")
        e = self.loader.load("urlstd.error")
        ref = self.loader.load("ref.whatwg")
        self.mods = {"u": u, "err": e, "ref": ref, "env": env}
        self.env = env
        self.instrument = instrument
        self.snap = None

    def prepare(self, mods):
        for m in mods:
            self.loader.load("scn." + m)
        self.snap = self.instrument.Snapshot([self.loader.mods["urlstd.parse"], self.loader.mods["urlstd.error"]],
                                            lambda: list(self.loader.proxies["logging"].reg.values()))
        gc.collect()
        gc.freeze()

    def path(self, mod, fn, kw, prefix):
        """execute one path; returns (ctx, status, detail)"""
        from . import scen
        C = self.C
        self.snap.restore()
        self.env.Nondet.current = None
        self.env.Nondet.seen = []
        c = C.Ctx(prefix)
        C.set_ctx(c)
        S = scen.SymS(c, self.mods)
        S.snap = self.snap
        f = getattr(self.loader.mods["scn." + mod], fn)
        try:
            f(S, **kw)
            return c, "ok", None
        except scen.Stop:
            return c, "ok", None
        except C.PathAbort as e:
            return c, "abort", str(e)
        except C.Unsupported as e:
            return c, "unsupported", str(e)
        except C.StepLimit as e:
            return c, "steplimit", str(e)
        except C.NeedFork:
            return c, "unsupported", "fork inside a non-forking region"
        except RecursionError:
            return c, "unsupported", "recursion"
        except Exception as e:
            return c, "error", traceback.format_exc()


def model_inputs(ctx, m):
    env = {}
    for v in ctx.vars:
        x = m.eval(v.z, model_completion=True).as_long()
        env[v] = x
    return env


def witness(ctx, extra=True):
    r, m = ctx.query(extra, all_vars=True, want_model=True)
    if r != "sat":
        return r, None, None
    return r, model_inputs(ctx, m), m


class Result(dict):
    pass


class Worker:
    def __init__(self, mods):
        self.real = RealSide("c31" in mods)
        self.sym = SymSide("c31" in mods)
        self.sym.prepare(mods)

    def concrete(self, mod, fn, kw, env):
        inputs = {v.name: x for v, x in env.items()}
        S, hang, exc = self.real.run(mod, fn, kw, inputs)
        return inputs, S, hang, exc

    def one(self, sc, prefix, acc):
        from . import scen
        mod, fn, kw = sc["mod"], sc["fn"], sc["kw"]
        C = self.sym.C
        c, st, detail = self.sym.path(mod, fn, kw, prefix)
        acc["paths"] += 1
        acc["branches"] += len(c.decisions)
        pend = c.pending
        if st == "abort":
            acc["aborted"] += 1
            return pend
        for w in c.incomplete:
            acc["incomplete"][w] = acc["incomplete"].get(w, 0) + 1
        c.nofork = 0
        c.local = None
        r, env, zm = witness(c)
        if r == "unsat":
            acc["infeasible"] += 1
            return pend
        if r == "unknown":
            acc["inconclusive"]["solver unknown"] = acc["inconclusive"].get("solver unknown", 0) + 1
            return pend
        inputs, S, hang, exc = self.concrete(mod, fn, kw, env)
        bad = S.failures
        if hang:
            acc["found"].append({"inputs": inputs, "labels": ["terminates"], "how": "witness"})
            return pend
        if exc is not None and st == "ok":
            acc["errors"].append("concrete scenario raised at %r: %s" % (inputs, exc[-400:]))
        if bad:
            acc["found"].append({"inputs": inputs, "labels": sorted({b.label for b in bad}), "how": "witness"})
            if st != "ok":
                return pend
        if st != "ok":
            k = st + ": " + (detail or "")[-160:]
            acc["inconclusive"][k] = acc["inconclusive"].get(k, 0) + 1
            if st in ("error",) and len(acc["errors"]) < 20:
                acc["errors"].append("symbolic scenario: " + detail[-600:] + " inputs=%r" % (inputs,))
            return pend
        # translation validation: the encoding agrees with the real code here
        try:
            # checking comes first: evaluating observations may need ctx intact
            so = [scen.ev(x, env, zm) for x in c.obs]
            co = [scen.canon(x) for x in S.obs]
            agree = so == co
            why = None
            if not agree:
                for i in range(max(len(so), len(co))):
                    a = so[i] if i < len(so) else "<missing>"
                    b = co[i] if i < len(co) else "<missing>"
                    if a != b:
                        why = "obs %d: sym %r real %r" % (i, a, b)
                        break
            if agree and not bad:
                for label, f in c.checks:
                    v = C.f_eval(f, env, zm)
                    if v is False:
                        agree = False
                        why = "check %s false symbolically, true on the real code" % label
                        break
        except C.EngineSignal as e:
            agree = None
            why = repr(e)
        if agree:
            acc["validated"] += 1
        else:
            k = "translation mismatch" if agree is False else "observation not evaluable"
            acc["inconclusive"][k] = acc["inconclusive"].get(k, 0) + 1
            if len(acc["errors"]) < 20:
                acc["errors"].append("%s %s %r inputs=%r: %s" % (k, fn, kw, inputs, (why or "")[:500]))
            if agree is False:
                return pend
        if len(acc["samples"]) < 2:
            acc["samples"].append({"scenario": sc["name"], "witness": show(S.shown), "decisions": len(c.decisions)})
        # the deciding query: path condition and not property
        fs = [f for _, f in c.checks]
        acc["checks"] += len(fs)
        goal = C.f_not(C.f_and(fs))
        tries = 0
        blocked = True
        while True:
            r, env2, zm2 = witness(c, goal if blocked is True else C.f_and([goal, blocked]))
            if r == "unsat":
                acc["discharged"] += 1
                break
            if r == "unknown":
                acc["inconclusive"]["solver unknown"] = acc["inconclusive"].get("solver unknown", 0) + 1
                break
            inputs2, S2, hang2, _ = self.concrete(mod, fn, kw, env2)
            if hang2:
                acc["found"].append({"inputs": inputs2, "labels": ["terminates"], "how": "solver"})
                break
            if S2.failures:
                acc["found"].append({"inputs": inputs2, "labels": sorted({b.label for b in S2.failures}), "how": "solver"})
                break
            k = "counterexample did not reproduce"
            acc["inconclusive"][k] = acc["inconclusive"].get(k, 0) + 1
            if len(acc["errors"]) < 20:
                lab = [l for l, f in c.checks if C.f_eval(f, env2, zm2) is False]
                acc["errors"].append("%s %s %r inputs=%r labels=%r" % (k, fn, kw, inputs2, lab))
            break
        return pend

    def job(self, sc, prefixes, slice_s, rnd):
        C = self.sym.C
        st = C.STATS
        q0, s0, sa, un, uk = st.queries, st.solver_s, st.sat, st.unsat, st.unknown
        st.assumed.clear()
        st.concretised.clear()
        acc = new_acc()
        stack = list(prefixes)
        t0 = time.perf_counter()
        while stack:
            p = stack.pop()
            try:
                stack.extend(self.one(sc, p, acc))
            except MemoryError:
                acc["inconclusive"]["memory"] = acc["inconclusive"].get("memory", 0) + 1
            except C.EngineSignal as e:
                k = "engine: %r" % (e,)
                acc["inconclusive"][k[:150]] = acc["inconclusive"].get(k[:150], 0) + 1
            except Exception:
                acc["inconclusive"]["engine error"] = acc["inconclusive"].get("engine error", 0) + 1
                if len(acc["errors"]) < 20:
                    acc["errors"].append("engine: " + traceback.format_exc()[-900:])
            if time.perf_counter() - t0 > slice_s or acc["found"]:
                break
        acc["cpu"] = time.perf_counter() - t0
        acc["queries"] = st.queries - q0
        acc["solver_s"] = st.solver_s - s0
        acc["sat"], acc["unsat"], acc["unknown"] = st.sat - sa, st.unsat - un, st.unknown - uk
        acc["assumed"] = dict(st.assumed)
        acc["concretised"] = dict(st.concretised)
        acc["functions"] = dict(HIT)
        HIT.clear()
        return acc, stack


def show(d):
    return {k: (v if not isinstance(v, str) else v.encode("unicode_escape").decode()) for k, v in d.items()}


COUNTS = ("paths", "branches", "aborted", "infeasible", "validated", "checks", "discharged", "queries", "sat", "unsat",
          "unknown")


def new_acc():
    return {"paths": 0, "branches": 0, "aborted": 0, "infeasible": 0, "validated": 0, "checks": 0, "discharged": 0,
            "queries": 0, "sat": 0, "unsat": 0, "unknown": 0, "solver_s": 0.0, "cpu": 0.0,
            "incomplete": {}, "inconclusive": {}, "found": [], "errors": [], "samples": [], "assumed": {},
            "concretised": {}, "functions": {}}


def merge(a, b):
    for k in COUNTS + ("solver_s", "cpu"):
        a[k] += b[k]
    for k in ("incomplete", "inconclusive", "assumed", "concretised"):
        for x, n in b[k].items():
            a[k][x] = a[k].get(x, 0) + n
    a["functions"].update(b["functions"])
    a["found"] += b["found"]
    a["errors"] += b["errors"]
    if len(a["samples"]) < 3:
        a["samples"] += b["samples"]


HIT = {}        # functions of the code under test executed symbolically: name -> source lines


def track_functions():
    """note (once) every instrumented function of the code under test that starts"""
    from . import ops
    root = os.path.join(REPO, "src") + os.sep
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, "sx")
    except ValueError:
        return

    def start(code, _):
        if code.co_filename.startswith(root):
            HIT[os.path.basename(code.co_filename) + ":" + code.co_qualname] = code.co_firstlineno
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, start)
    for co in ops.SXFUNCS:
        if co.co_filename.startswith(root) and co.co_name not in ("<module>", "<lambda>"):
            mon.set_local_events(3, co, mon.events.PY_START)


def worker_main(conn, w):
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    try:
        track_functions()
    except Exception:
        pass
    conn.send(("ready", None))
    while True:
        msg = conn.recv()
        if msg is None:
            return
        i, sc, prefixes, slice_s = msg
        try:
            conn.send(("done", (i,) + w.job(sc, prefixes, slice_s, None)))
        except BaseException:
            conn.send(("fail", (i, traceback.format_exc())))


class Explorer:
    """schedules (scenario, prefix) jobs over worker processes"""

    def __init__(self, scenarios, budget_s, nproc, seed, stop_on_found=True, verbose=False):
        self.sc = scenarios
        self.budget = budget_s
        self.nproc = nproc
        self.rnd = random.Random(seed)
        self.acc = [new_acc() for _ in scenarios]
        self.stack = [[()] for _ in scenarios]
        self.busy = [0] * len(scenarios)
        self.stop = stop_on_found
        self.verbose = verbose
        self.fatal = None
        self.crashes = 0

    def run(self):
        mods = sorted({s["mod"] for s in self.sc})
        ctx = mp.get_context("fork")
        sys.setrecursionlimit(SYM_DEPTH)
        self.wall = 0.0
        try:
            W = Worker(mods)
            from . import vals
            vals.case_tables()
        except BaseException:
            self.fatal = traceback.format_exc()
            for a in self.acc:
                a["left"] = 1
            return self

        def spawn():
            a, b = ctx.Pipe()
            p = ctx.Process(target=worker_main, args=(b, W), daemon=True)
            p.start()
            b.close()
            return [p, a, None]     # process, pipe, current job
        t_start = time.perf_counter()
        workers = [spawn() for _ in range(self.nproc)]
        t0 = None
        rr = 0
        hits = 0
        idle = []
        dead = False
        while True:
            now = time.perf_counter()
            over = (t0 is not None and now - t0 > self.budget) or dead or now - t_start > self.budget + 120
            # dispatch
            if not over:
                while idle:
                    order = [(rr + k) % len(self.sc) for k in range(len(self.sc))]
                    pick = None
                    for i in order:
                        if self.stack[i] and not (self.stop and self.acc[i]["found"]):
                            pick = i
                            break
                    if pick is None:
                        break
                    rr = pick + 1
                    w = idle.pop()
                    st = self.stack[pick]
                    if len(st) > 1:
                        j = self.rnd.randrange(len(st))
                        st[j], st[-1] = st[-1], st[j]
                    k = 1 if len(st) < 4 * self.nproc else min(len(st) // (2 * self.nproc), 64)
                    batch = [st.pop() for _ in range(max(1, k))]
                    slice_s = 0.15 if len(st) < 2 * self.nproc else 0.6
                    w[2] = (pick, batch)
                    self.busy[pick] += 1
                    w[1].send((pick, self.sc[pick], batch, slice_s))
            running = [w for w in workers if w[2] is not None]
            starting = [w for w in workers if w[2] is None and w not in idle]
            if not running and (over or (not starting and not any(
                    s and not (self.stop and a["found"]) for s, a in zip(self.stack, self.acc)))):
                break
            if not running and not idle and not starting:
                break
            ready = mp.connection.wait([w[1] for w in workers if w[0] is not None and (w[2] is not None or w in starting)],
                                       timeout=1.0)
            if over and now - (t0 or t_start) > self.budget + 60:
                break
            for w in workers:
                if w[1] not in ready:
                    continue
                try:
                    kind, msg = w[1].recv()
                except (EOFError, ConnectionResetError):
                    self.crashes += 1
                    if w[2] is not None:
                        i, batch = w[2]
                        self.busy[i] -= 1
                        a = self.acc[i]
                        a["inconclusive"]["worker died"] = a["inconclusive"].get("worker died", 0) + len(batch)
                    if self.crashes > 12:
                        dead = True
                        w[0], w[2] = None, None
                        continue
                    nw = spawn()
                    w[0], w[1], w[2] = nw
                    continue
                if kind == "fatal":
                    self.fatal = msg
                    dead = True
                    w[2] = None
                    continue
                if kind == "ready":
                    if t0 is None:
                        t0 = time.perf_counter()
                    idle.append(w)
                    continue
                i, _ = w[2]
                w[2] = None
                self.busy[i] -= 1
                idle.append(w)
                if kind == "fail":
                    a = self.acc[i]
                    a["inconclusive"]["job failed"] = a["inconclusive"].get("job failed", 0) + 1
                    a["errors"].append(msg[1][-900:])
                    continue
                _, acc, left = msg
                merge(self.acc[i], acc)
                self.stack[i].extend(left)
                if acc["found"]:
                    hits += 1
            if self.stop and hits >= 3:
                dead = True
        for w in workers:
            try:
                if w[0] is not None:
                    w[0].kill()
            except Exception:
                pass
        self.wall = time.perf_counter() - (t0 or t_start)
        for i in range(len(self.sc)):
            self.acc[i]["left"] = len(self.stack[i]) + (1 if self.busy[i] else 0)
        return self


def replay_subprocess(path, timeout=60):
    """run a replay file in a fresh process: exit 1 = reproduces"""
    try:
        r = subprocess.run([sys.executable, "-B", "-m", "sx.replay", path], cwd=VERIF, timeout=timeout,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, PYTHONHASHSEED="0"))
    except subprocess.TimeoutExpired:
        return True, "does not terminate"
    return r.returncode == 1, r.stdout.decode(errors="replace")
