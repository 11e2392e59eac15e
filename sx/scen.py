"""The scenario interface: one scenario function runs symbolically on the
instrumented code and concretely on the real code."""
import logging
import sys
import types
from . import core as C
from . import iset as I
from . import vals as V
from .instrument import changed
from .core import Term, f_and, f_not
from .iset import ISet

__sx__ = True

DOMS = {
    "scalar": I.SCALAR, "any": I.ranges((0, 0x10FFFF)), "ascii": I.ASCII, "byte": I.BYTE,
    "digit": I.DIGIT, "surr": I.SURR, "alpha": I.ALPHA,
    "hex": I.DIGIT.union(I.ranges((65, 70), (97, 102))),
}


def domain(d):
    if isinstance(d, ISet):
        return d
    if d in DOMS:
        return DOMS[d]
    if d.startswith("[") and d.endswith("]"):
        return I.chars(d[1:-1])
    raise KeyError(d)


class Outcome:
    """result of one call: ok/value or the exception"""
    __slots__ = ("ok", "value", "exc", "err")
    __sx_obs__ = True

    def __init__(self, ok, value, exc, err=None):
        self.ok = ok
        self.value = value
        self.exc = exc
        self.err = err


class Stop(Exception):
    """the scenario has nothing more to check on this path"""


def exc_name(e):
    for t in type(e).__mro__:
        if t.__name__ == "URLParseError":
            return "URLParseError"
    return type(e).__name__


class Failure:
    def __init__(self, label, info):
        self.label = label
        self.info = info


def is_obj(x):
    return x is None or isinstance(x, (bool, int, float, str, bytes))


class Base:
    sym = False

    def attempt(self, fn, *a, **k):
        try:
            v = fn(*a, **k)
        except Stop:
            raise
        except Exception as e:
            return Outcome(False, None, exc_name(e), e)
        return Outcome(True, v, None)

    def stop(self):
        raise Stop()


class SymS(Base):
    sym = True

    def __init__(self, ctx, mods):
        self.ctx = ctx
        self.u = mods["u"]
        self.err = mods["err"]
        self.ref = mods["ref"]
        self.env = mods["env"]

    # ---- inputs
    def var(self, name, dom):
        d = domain(dom) if not isinstance(dom, ISet) else dom
        return Term(self.ctx.new_var(name, d))

    def str(self, name, n, dom="scalar"):
        return V.mkstr(tuple(self.var("%s%d" % (name, i), dom) for i in range(n)))

    def bytes(self, name, n, dom="byte"):
        t = tuple(self.var("%s%d" % (name, i), dom) for i in range(n))
        return V.SymBytes.mk(t)

    def int(self, name, lo, hi):
        return V.mkint(self.var(name, I.ranges((lo, hi))))

    def bool(self, name):
        v = self.var(name, I.ranges((0, 1)))
        return V.mkbool(v.isin(I.one(1)))

    def choice(self, name, xs):
        xs = list(xs)
        if len(xs) == 1:
            return xs[0]
        t = self.var(name, I.ranges((0, len(xs) - 1)))
        return xs[self.ctx.concretise(t, "scenario choice")]

    # ---- assertions
    def formula(self, x):
        x = V.truth(x)
        return x.f if isinstance(x, V.SymBool) else bool(x)

    def assume(self, x):
        f = self.ctx.simp(self.formula(x))
        if f is False:
            raise Stop()
        if f is True:
            return
        if not self.ctx.branch(f):
            raise Stop()

    def check(self, x, label):
        self.ctx.checks.append((label, self.ctx.simp(self.formula(x))))

    def eqf(self, a, b):
        a, b = V.force(a), V.force(b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            fs = []
            for x, y in zip(a, b):
                f = self.eqf(x, y)
                if f is False:
                    return False
                fs.append(f)
            return f_and(fs)
        if a is None or b is None:
            return a is b
        if isinstance(a, bool) != isinstance(b, bool) and not isinstance(a, V.SymBool) and not isinstance(b, V.SymBool):
            return False
        ka, kb = kind(a), kind(b)
        if ka != kb:
            return False
        r = a == b
        if r is NotImplemented:
            return False
        return self.formula(r)

    def eq(self, a, b):
        return V.mkbool(self.eqf(a, b))

    def check_eq(self, a, b, label):
        self.ctx.checks.append((label, self.ctx.simp(self.eqf(a, b))))

    def implies(self, a, b):
        fa, fb = self.formula(a), self.formula(b)
        return V.mkbool(C.f_or([f_not(fa), fb]))

    def iff(self, a, b):
        return V.mkbool(V.f_iff(self.formula(a), self.formula(b)))

    def all(self, *xs):
        return V.mkbool(f_and([self.formula(x) for x in xs]))

    def any(self, *xs):
        return V.mkbool(C.f_or([self.formula(x) for x in xs]))

    def not_(self, x):
        return V.not_(x)

    def all_in(self, s, chars):
        """every element of s lies in the set of characters"""
        if isinstance(s, str):
            return all(ch in chars for ch in s)
        return V.mkbool(s.all_in(I.chars(chars)))

    def observe(self, *xs):
        self.ctx.obs.extend(xs)

    def logmode(self, m):
        self.ctx.logmode = m

    def capture(self):
        """start a fresh list of the library's log records"""
        self.ctx.logmode = "all"
        self.ctx.logs = []

    def logs(self):
        """[level, message] of the records (INFO and above) since capture()"""
        out = []
        for lv, name, msg in self.ctx.logs:
            if lv != "DEBUG" and name.replace("urlstd_sx", "urlstd").split(".")[0] == "urlstd":
                out.append([lv, msg])
        self.ctx.logs = None
        return out

    def fresh(self):
        """forget everything the module remembers"""
        self.snap.restore()

    def interleave(self, a, b, cold=True):
        """run a, with b started and completed between two statements of a
        (chosen by the solver), or after it; -> (a's result, b's result).
        Two points are equivalent, and the first stands for both, when between
        them the module's state does not change and no function is at work
        that names a part of it that b changes."""
        c = self.ctx
        cold and self.fresh()
        d0 = self.snap.digest()
        b()
        names = changed(d0, self.snap.digest())
        cold and self.fresh()
        p = Preempt(c, b, self.var("at", I.ranges((0, 1 << 40))), self.snap, names)
        c.preempt = p
        try:
            ra = a()
        finally:
            c.preempt = None
        return ra, (p.result if p.done else b())

    def maxsteps(self, n):
        """loop iterations after which a run counts as not terminating"""
        self.ctx.maxsteps = n

    def type_name(self, x):
        x = V.force(x)
        k = kind(x)
        return k

    def note(self, s):
        self.ctx.notes.append(s)

    def icu(self, result, flags, fail=False):
        """fix what ICU reports from here on (None: back to the model)"""
        self.env.Nondet.current = None if result is None else (result, flags, fail)

    def icu_calls(self):
        return [(a, int(o), s) for a, o, s in self.env.Nondet.seen]

    def flags(self, name, bits):
        """an arbitrary combination of the given flag values"""
        return V.mkflags({b.bit_length() - 1: self.var("%s%d" % (name, i), I.ranges((0, 1))).isin(I.one(1))
                          for i, b in enumerate(bits)})


def kind(x):
    if isinstance(x, (bool, V.SymBool)):
        return "bool"
    if isinstance(x, (int, V.SymInt, V.SymFlags)):
        return "int"
    if isinstance(x, float):
        return "int"
    if isinstance(x, (str, V.SymStr)):
        return "str"
    if isinstance(x, (bytes, bytearray, V.SymBytes)):
        return "bytes"
    if isinstance(x, (list, tuple)):
        return "list"
    if x is None:
        return "none"
    return "obj:" + type(x).__name__


class Preempt:
    def __init__(self, c, fn, at, snap=None, names=()):
        self.c, self.fn, self.at, self.snap, self.names = c, fn, at, snap, names
        self.done = False
        self.occ = {}
        self.last = None
        self.result = None
        self.memo = {}

    def touches(self, code):
        r = self.memo.get(code)
        if r is None:
            r = self.memo[code] = not self.names.isdisjoint(code_names(code))
        return r

    def __call__(self, line, code):
        if self.done:
            return
        c = self.c
        if c is not None and (c.local is not None or c.nofork):
            return
        n = self.occ[line] = self.occ.get(line, 0) + 1
        if n > 999:
            return
        w = line * 1000 + n
        if c is None:
            hit = w == self.at
        else:
            d = self.snap.digest()
            if d == self.last and not self.touches(code):
                return
            self.last = d
            hit = c.branch(self.at.isin(I.one(w)))
        if hit:
            self.done = True
            self.result = self.fn()


def code_names(code):
    out = set(code.co_names) | set(code.co_freevars) | set(code.co_cellvars)
    for k in code.co_consts:
        if isinstance(k, str):
            out.add(k)
        elif isinstance(k, types.CodeType):
            out |= code_names(k)
        elif isinstance(k, (tuple, frozenset)):
            out |= {x for x in k if isinstance(x, str)}
    return out


class Collect(logging.Handler):
    def __init__(self, out):
        logging.Handler.__init__(self)
        self.out = out

    def emit(self, r):
        self.out.append(r)


class ConcS(Base):
    def __init__(self, inputs, mods):
        self.inputs = inputs
        self.u = mods["u"]
        self.err = mods["err"]
        self.ref = mods["ref"]
        self.env = mods.get("env")
        self.failures = []
        self.obs = []
        self.nchecks = 0
        self.assumed_away = False
        self.shown = {}

    def val(self, name, dom):
        d = domain(dom)
        x = self.inputs.get(name)
        return d.lo() if x is None else x

    def str(self, name, n, dom="scalar"):
        s = "".join(chr(self.val("%s%d" % (name, i), dom)) for i in range(n))
        self.shown[name] = s
        return s

    def bytes(self, name, n, dom="byte"):
        s = bytes(self.val("%s%d" % (name, i), dom) for i in range(n))
        self.shown[name] = repr(s)
        return s

    def int(self, name, lo, hi):
        x = self.val(name, I.ranges((lo, hi)))
        self.shown[name] = x
        return x

    def bool(self, name):
        x = bool(self.val(name, I.ranges((0, 1))))
        self.shown[name] = x
        return x

    def choice(self, name, xs):
        xs = list(xs)
        if len(xs) == 1:
            return xs[0]
        x = xs[self.val(name, I.ranges((0, len(xs) - 1)))]
        self.shown[name] = repr(x)[:200]
        return x

    def assume(self, x):
        if not x:
            self.assumed_away = True
            raise Stop()

    def check(self, x, label):
        self.nchecks += 1
        if not x:
            self.failures.append(Failure(label, None))

    def _eq(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self._eq(x, y) for x, y in zip(a, b))
        if a is None or b is None:
            return a is b
        if kind(a) != kind(b):
            return False
        return bool(a == b)

    def eq(self, a, b):
        return self._eq(a, b)

    def check_eq(self, a, b, label):
        self.nchecks += 1
        if not self._eq(a, b):
            self.failures.append(Failure(label, (repr(a)[:600], repr(b)[:600])))

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def all(self, *xs):
        return all(xs)

    def any(self, *xs):
        return any(xs)

    def not_(self, x):
        return not x

    def all_in(self, s, chars):
        return all(ch in chars for ch in s)

    def observe(self, *xs):
        self.obs.extend(xs)

    def logmode(self, m):
        pass

    def capture(self):
        import logging
        self.records = []
        lg = logging.getLogger("urlstd")
        self.logstate = (lg, lg.level, lg.propagate, logging.root.manager.disable)
        logging.disable(logging.NOTSET)
        lg.setLevel(logging.DEBUG)
        lg.propagate = False
        self.handler = Collect(self.records)
        lg.addHandler(self.handler)

    def logs(self):
        out = [[r.levelname, r.getMessage()] for r in self.records if r.levelname != "DEBUG"]
        self.release()
        return out

    def release(self):
        import logging
        if getattr(self, "logstate", None):
            lg, level, prop, dis = self.logstate
            lg.removeHandler(self.handler)
            lg.setLevel(level)
            lg.propagate = prop
            logging.disable(dis)
            self.logstate = None

    def fresh(self):
        self.snap.restore()

    def interleave(self, a, b, cold=True):
        from . import run
        cold and self.fresh()
        b()
        cold and self.fresh()
        p = Preempt(None, b, self.inputs.get("at", 0), None)
        run.PREEMPT[0] = p
        try:
            ra = a()
        finally:
            run.PREEMPT[0] = None
        self.shown["at"] = "after line %d of parse.py reached for the %d. time" % divmod(p.at, 1000) if p.done else "afterwards"
        return ra, (p.result if p.done else b())

    def maxsteps(self, n):
        pass

    def type_name(self, x):
        return kind(x)

    def note(self, s):
        pass

    def icu(self, result, flags, fail=False):
        from . import icushim
        icushim.Shim.current = None if result is None else (result, flags, fail)

    def icu_calls(self):
        from . import icushim
        return list(icushim.Shim.seen)

    def flags(self, name, bits):
        r = 0
        for i, b in enumerate(bits):
            if self.val("%s%d" % (name, i), I.ranges((0, 1))):
                r |= b
        self.shown[name] = hex(r)
        return r


# ---------------------------------------------------------------- values
def ev_formula(f, env, zm):
    r = C.f_eval(f, env, zm)
    if r is None:
        raise C.Unsupported("formula not determined by the model")
    return r


def ev_term(t, env, zm):
    if isinstance(t, int):
        return t
    if t.base is not None:
        return t.apply(env[t.base])
    r = zm.eval(t.z, model_completion=True)
    return r.as_long()


def ev_elems(els, env, zm):
    out = []
    for x in els:
        if isinstance(x, int):
            out.append(x)
        elif isinstance(x, Term):
            out.append(ev_term(x, env, zm))
        elif isinstance(x, V.Num):
            n = ev_term(x.t, env, zm)
            out.extend(ev_num(x, n))
        else:
            for g, el in x.alts():
                if ev_formula(g, env, zm):
                    out.extend(ev_elems(el, env, zm))
                    break
            else:
                raise C.Unsupported("no alternative of an atom holds in the model")
    return out


def ev_num(x, n):
    d = ""
    m = n
    digs = "0123456789abcdef"
    while m:
        d = digs[m % x.radix] + d
        m //= x.radix
    d = d.rjust(getattr(x, "width", 1) or 1, "0") if d else "0" * max(1, getattr(x, "width", 1) or 1)
    if getattr(x, "upper", False):
        d = d.upper()
    return [ord(c) for c in d]


def ev(x, env, zm, d=0):
    """the concrete value of an observation under the model"""
    if d > 12:
        return None
    if isinstance(x, V.Phi):
        for g, v in x.alts:
            if ev_formula(g, env, zm):
                return ev(v, env, zm, d + 1)
        return None
    if x is None or isinstance(x, (bool, int, float, str, bytes)):
        return x
    if isinstance(x, V.SymBool):
        return ev_formula(x.f, env, zm)
    if isinstance(x, V.SymInt):
        return ev_term(x.t, env, zm)
    if isinstance(x, V.SymFlags):
        return sum(1 << b for b, f in x.bits.items() if ev_formula(f, env, zm))
    if isinstance(x, V.SymStr):
        return "".join(map(chr, ev_elems(x.e, env, zm)))
    if isinstance(x, V.SymBytes):
        return bytes(ev_elems(x.e, env, zm))
    if isinstance(x, (list, tuple)):
        return [ev(y, env, zm, d + 1) for y in x]
    if isinstance(x, dict):
        return {repr(ev(k, env, zm, d + 1)): ev(v, env, zm, d + 1) for k, v in x.items()}
    if isinstance(x, Outcome):
        return [x.ok, ev(x.value, env, zm, d + 1), x.exc]
    return "obj:" + type(x).__name__


def canon(x, d=0):
    if d > 12:
        return None
    if x is None or isinstance(x, (bool, int, float, str, bytes)):
        return x
    if isinstance(x, (list, tuple)):
        return [canon(y, d + 1) for y in x]
    if isinstance(x, dict):
        return {repr(canon(k, d + 1)): canon(v, d + 1) for k, v in x.items()}
    if isinstance(x, Outcome):
        return [x.ok, canon(x.value, d + 1), x.exc]
    return "obj:" + type(x).__name__
