"""Terms, formulas and the path context of the symbolic executor.

Formulas are True/False or tuples in negation normal form:
  ('in', Var, ISet)      unary constraint
  ('and', (f, ...)) / ('or', (f, ...))
  ('z', z3 BoolRef, frozenset of Var)
"""
import time
from bisect import bisect_right
import z3
from . import iset as I
from .iset import ISet

__sx__ = True

QUERY_TIMEOUT_MS = 20000


class EngineSignal(BaseException):
    """Never caught by the code under test (BaseException on purpose)."""


class NeedFork(EngineSignal):
    pass


class PathAbort(EngineSignal):
    """The path is outside the stated bound (assumed away) or infeasible."""


class Unsupported(EngineSignal):
    """The engine has no model for an operation."""


class StepLimit(EngineSignal):
    pass


class Stats:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.sat = self.unsat = self.unknown = 0
        self.branches = 0
        self.concretised = {}
        self.assumed = {}


STATS = Stats()
_ZVAR = {}
_ZIN = {}


def zvar(name):
    v = _ZVAR.get(name)
    if v is None:
        v = _ZVAR[name] = z3.Int(name)
    return v


class Var:
    __slots__ = ("name", "dom0", "z", "_h", "term")

    def __init__(self, name, dom0):
        self.name = name
        self.dom0 = dom0
        self.z = zvar(name)
        self._h = hash(name)
        self.term = None

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o

    def __repr__(self):
        return self.name


def z_in(zexpr, s):
    parts = []
    for a, b in s.r:
        if a == b:
            parts.append(zexpr == a)
        else:
            parts.append(z3.And(zexpr >= a, zexpr <= b))
    if not parts:
        return z3.BoolVal(False)
    return parts[0] if len(parts) == 1 else z3.Or(*parts)


def _z_in_var(v, s):
    k = (v.name, s)
    e = _ZIN.get(k)
    if e is None:
        if len(_ZIN) > 200000:
            _ZIN.clear()
        e = _ZIN[k] = z_in(v.z, s)
    return e


NOVARS = frozenset()


class Term:
    """An integer-valued term. base/pm: piecewise function of one variable
    (pm None = identity; pieces (lo, hi, a, b): x -> a*x+b, a in {0,1}).
    Otherwise a general z3 expression with vars and a codomain."""
    __slots__ = ("base", "pm", "_z", "vars", "codom0", "meta", "lazy", "memo")

    def __init__(self, base=None, pm=None, z=None, vars=None, codom=None, meta=None):
        self.base = base
        self.pm = pm
        self._z = z
        self.vars = vars if vars is not None else frozenset((base,))
        self.codom0 = codom
        self.meta = meta
        self.lazy = None
        self.memo = None

    @property
    def z(self):
        if self._z is None:
            if self.lazy is not None:
                src, pieces = self.lazy
                x = src.z
                r = None
                for lo, hi, a, b in reversed(pieces):
                    val = (x + b if b else x) if a else z3.IntVal(b)
                    r = val if r is None else z3.If(z3.And(x >= lo, x <= hi), val, r)
                self._z = r
            elif self.pm is None:
                self._z = self.base.z
            else:
                x = self.base.z
                e = None
                for lo, hi, a, b in reversed(self.pm):
                    val = (x + b if b else x) if a else z3.IntVal(b)
                    e = val if e is None else z3.If(z3.And(x >= lo, x <= hi), val, e)
                self._z = e
        return self._z

    def copy(self, codom=None, meta=None):
        t = Term(self.base, self.pm, self._z, self.vars,
                 self.codom0 if codom is None else codom, meta)
        t.lazy = self.lazy
        return t

    def key(self):
        if self.base is not None:
            return (self.base.name, self.pm)
        return ("z", self.z.get_id())

    def same(self, o):
        if self is o:
            return True
        if self.base is not None:
            return o.base is self.base and self.pm == o.pm
        return o.base is None and self.z.eq(o.z)

    def codom(self):
        """over-approximation of the values under the current path"""
        if self.base is None:
            return self.codom0
        d = CTX.dom_of(self.base) if CTX is not None else self.base.dom0
        if self.pm is None:
            return d
        out = []
        for lo, hi, a, b in self.pm:
            for x, y in d.r:
                p, q = max(lo, x), min(hi, y)
                if p <= q:
                    out.append((p + b, q + b) if a else (b, b))
        return ISet(I._norm(out))

    def support(self):
        """values of the base variable the term is defined for"""
        if self.pm is None:
            return self.base.dom0
        return ISet(I._norm([(lo, hi) for lo, hi, a, b in self.pm])).inter(self.base.dom0)

    def value(self):
        """concrete value if the term is a constant under the path, else None"""
        if self.base is not None:
            s = CTX.dom_of(self.base).single()
            if s is not None:
                return self.apply(s)
            if self.pm is not None:
                return self.codom().single()
        return None

    def apply(self, x):
        if self.pm is None:
            return x
        for lo, hi, a, b in self.pm:
            if lo <= x <= hi:
                return a * x + b
        raise Unsupported("piecewise map undefined at %d" % x)

    def preimage(self, s):
        if self.pm is None:
            return s
        out = []
        for lo, hi, a, b in self.pm:
            if a:
                for x, y in s.r:
                    p, q = max(lo, x - b), min(hi, y - b)
                    if p <= q:
                        out.append((p, q))
            elif s.has(b):
                out.append((lo, hi))
        return ISet(I._norm(out))

    def isin(self, s):
        if self.base is not None:
            return f_in(self.base, self.preimage(s))
        c = self.codom0
        if c is not None:
            if c.subset(s):
                return True
            s = c.inter(s)
            if not s.r:
                return False
        return ("z", z_in(self.z, s), self.vars)

    def map(self, fn_pieces, codom=None):
        """compose with a piecewise map given as pieces over the integers"""
        if self.base is None:
            if self.memo is None:
                self.memo = {}
            t = self.memo.get(fn_pieces)
            if t is not None:
                return t
            c = self.codom0
            if c is not None:
                out = []
                live = []
                for pc in fn_pieces:
                    lo, hi, a, b = pc
                    hit = False
                    for p, q in c.r:
                        p, q = max(lo, p), min(hi, q)
                        if p <= q:
                            hit = True
                            out.append((p + b, q + b) if a else (b, b))
                    if hit:
                        live.append(pc)
                cd = ISet(I._norm(out))
                if not live:
                    raise Unsupported("piecewise map undefined")
                if all(pc[2] == 1 and pc[3] == 0 for pc in live):
                    self.memo[fn_pieces] = self
                    return self
                if codom is None:
                    codom = cd
                pieces = tuple(live)
            else:
                pieces = fn_pieces
            t = Term(vars=self.vars, codom=codom)
            t.lazy = (self, pieces)
            self.memo[fn_pieces] = t
            return t
        if self.memo is None:
            self.memo = {}
        t = self.memo.get(fn_pieces)
        if t is None:
            t = self.memo[fn_pieces] = self._map(fn_pieces)
        return t

    def _map(self, fn_pieces):
        out = []
        src = self.pm
        ident, los = _pieces_info(fn_pieces)
        if src is None:
            if self.base.dom0.subset(ident):
                return self
        elif ISet(I._norm([(lo + b, hi + b) if a else (b, b) for lo, hi, a, b in src])).subset(ident):
            return self
        if src is None:
            d = self.base.dom0
            if len(d.r) <= 48 and len(fn_pieces) > 16:
                src = tuple((lo, hi, 1, 0) for lo, hi in d.r)
            else:
                src = ((d.lo(), d.hi(), 1, 0),)
        for lo, hi, a, b in src:
            if not a:
                for l2, h2, a2, b2 in fn_pieces if los is None else fn_pieces[max(0, bisect_right(los, b) - 1):bisect_right(los, b)]:
                    if l2 <= b <= h2:
                        out.append((lo, hi, 0, a2 * b + b2))
                        break
                continue    # undefined there: apply() would refuse
            for l2, h2, a2, b2 in fn_pieces if los is None else fn_pieces[max(0, bisect_right(los, lo + b) - 1):bisect_right(los, hi + b)]:
                p, q = max(lo, l2 - b), min(hi, h2 - b)
                if p <= q:
                    out.append((p, q, 1, b + b2) if a2 else (p, q, 0, b2))
        out.sort()
        # coalesce
        res = []
        for x in out:
            if res and res[-1][1] + 1 == x[0] and res[-1][2:] == x[2:]:
                res[-1] = (res[-1][0], x[1], x[2], x[3])
            else:
                res.append(x)
        res = tuple(res)
        if not res:
            raise Unsupported("piecewise map")
        if all(x[2] == 1 and x[3] == 0 for x in res):
            res = None
        return Term(self.base, res)

    def __repr__(self):
        if self.base is not None:
            return f"{self.base.name}" + ("" if self.pm is None else "~")
        return f"z({str(self.z)[:40]})"


_PINFO = {}


def _pieces_info(ps):
    """(where the map is the identity, lower bounds if the pieces are sorted and many)"""
    r = _PINFO.get(id(ps))
    if r is None or r[0] is not ps:
        ident = ISet(I._norm([(lo, hi) for lo, hi, a, b in ps if a == 1 and b == 0]))
        los = None
        if len(ps) > 16 and all(ps[i][1] < ps[i + 1][0] for i in range(len(ps) - 1)):
            los = [x[0] for x in ps]
        if len(_PINFO) > 5000:
            _PINFO.clear()
        r = _PINFO[id(ps)] = (ps, ident, los)
    return r[1], r[2]


def f_in(v, s):
    d = v.dom0
    s = s.inter(d)
    if s.r == d.r:
        return True
    if not s.r:
        return False
    return ("in", v, s)


def f_not(f):
    if f is True:
        return False
    if f is False:
        return True
    k = f[0]
    if k == "in":
        return f_in(f[1], f[1].dom0.diff(f[2]))
    if k == "and":
        return f_or([f_not(x) for x in f[1]])
    if k == "or":
        return f_and([f_not(x) for x in f[1]])
    return ("z", z3.Not(f[1]), f[2])


def f_and(fs):
    ins = {}
    rest = []
    for f in fs:
        if f is True:
            continue
        if f is False:
            return False
        k = f[0]
        if k == "in":
            v = f[1]
            o = ins.get(v)
            s = f[2] if o is None else o.inter(f[2])
            if not s.r:
                return False
            ins[v] = s
        elif k == "and":
            for g in f[1]:
                if g[0] == "in":
                    o = ins.get(g[1])
                    s = g[2] if o is None else o.inter(g[2])
                    if not s.r:
                        return False
                    ins[g[1]] = s
                else:
                    rest.append(g)
        else:
            rest.append(f)
    out = [("in", v, s) for v, s in ins.items()] + rest
    if not out:
        return True
    return out[0] if len(out) == 1 else ("and", tuple(out))


def f_or(fs):
    ins = {}
    rest = []
    for f in fs:
        if f is False:
            continue
        if f is True:
            return True
        k = f[0]
        gs = f[1] if k == "or" else (f,)
        for g in gs:
            if g[0] == "in":
                v = g[1]
                o = ins.get(v)
                s = g[2] if o is None else o.union(g[2])
                if s.r == v.dom0.r:
                    return True
                ins[v] = s
            else:
                rest.append(g)
    out = [("in", v, s) for v, s in ins.items()] + rest
    if not out:
        return False
    return out[0] if len(out) == 1 else ("or", tuple(out))


def f_vars(f, acc):
    if f is True or f is False:
        return acc
    k = f[0]
    if k == "in":
        acc.add(f[1])
    elif k == "z":
        acc.update(f[2])
    else:
        for g in f[1]:
            f_vars(g, acc)
    return acc


def f_z3(f):
    if f is True or f is False:
        return z3.BoolVal(f)
    k = f[0]
    if k == "in":
        d = f[1].dom0
        s = f[2]
        c = d.diff(s)
        if len(c.r) + 1 < len(s.r):
            return z3.Not(_z_in_var(f[1], c))
        return _z_in_var(f[1], s)
    if k == "z":
        return f[1]
    xs = [f_z3(g) for g in f[1]]
    return z3.And(*xs) if k == "and" else z3.Or(*xs)


def f_eval(f, env, zmodel=None):
    """truth of f under env: Var -> int; None if undetermined"""
    if f is True or f is False:
        return f
    k = f[0]
    if k == "in":
        x = env.get(f[1])
        return None if x is None else f[2].has(x)
    if k == "z":
        if zmodel is None:
            return None
        r = zmodel.eval(f[1], model_completion=True)
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        return None
    vals = [f_eval(g, env, zmodel) for g in f[1]]
    if k == "and":
        if False in vals:
            return False
        return None if None in vals else True
    if True in vals:
        return True
    return None if None in vals else False


_SOLVER = None


def solver():
    global _SOLVER
    if _SOLVER is None:
        _SOLVER = z3.Solver()
        _SOLVER.set("timeout", QUERY_TIMEOUT_MS)
    return _SOLVER


CTX = None


def set_ctx(c):
    global CTX
    CTX = c


class Ctx:
    """One path of one scenario."""

    def __init__(self, prefix=(), max_branches=4000):
        self.prefix = prefix
        self.decisions = list(prefix)
        self.pos = 0
        self.pending = []
        self.vars = []
        self.byname = {}
        self.dom = {}
        self.rel = []
        self.relvars = set()
        self.nofork = 0
        self.local = None
        self.max_branches = max_branches
        self.zmodel = None
        self.env = None
        self.checks = []        # (label, formula)
        self.obs = []
        self.notes = []
        self.preempt = None     # called between the statements of the code
        self.logs = None        # log records, when captured
        self.incomplete = []
        self.logmode = "skip"
        self.verr = False
        self.steps = 0
        self.maxsteps = 20000
        self.inputs = []
        self.fresh = 0
        self.expansions = {}

    # ---- variables
    def new_var(self, name, dom):
        if name in self.byname:
            raise RuntimeError("duplicate var " + name)
        v = Var(name, dom)
        self.vars.append(v)
        self.byname[name] = v
        self.dom[v] = dom
        return v

    def dom_of(self, v):
        return self.dom.get(v, v.dom0)

    # ---- simplification under domains
    def simp(self, f):
        if f is True or f is False:
            return f
        k = f[0]
        if k == "in":
            d = self.dom.get(f[1])
            if d is None:
                return f
            s = d.inter(f[2])
            if not s.r:
                return False
            if s.r == d.r:
                return True
            return f
        if k == "and":
            return f_and([self.simp(g) for g in f[1]])
        if k == "or":
            return f_or([self.simp(g) for g in f[1]])
        return f

    def _narrow(self, v, s):
        d = self.dom[v]
        n = d.inter(s)
        if not n.r:
            return False
        if n.r != d.r:
            self.dom[v] = n
        return True

    def assume(self, f):
        """add f to the path condition; False if trivially infeasible"""
        work = [f]
        changed = False
        while work:
            g = self.simp(work.pop())
            if g is True:
                continue
            if g is False:
                return False
            k = g[0]
            if k == "in":
                if not self._narrow(g[1], g[2]):
                    return False
                changed = True
            elif k == "and":
                work.extend(g[1])
            else:
                self.rel.append(g)
                self.relvars |= f_vars(g, set())
        while changed and self.rel:
            changed = False
            out = []
            for g in self.rel:
                h = self.simp(g)
                if h is True:
                    continue
                if h is False:
                    return False
                if h[0] == "in":
                    if not self._narrow(h[1], h[2]):
                        return False
                    changed = True
                elif h[0] == "and":
                    for x in h[1]:
                        if x[0] == "in":
                            if not self._narrow(x[1], x[2]):
                                return False
                            changed = True
                        else:
                            out.append(x)
                else:
                    out.append(h)
            self.rel = out
            rv = set()
            for g in out:
                f_vars(g, rv)
            self.relvars = rv
        return True

    # ---- solver
    def _closure(self, vs):
        vs = set(vs)
        rel = list(self.rel)
        used = []
        grew = True
        while grew and rel:
            grew = False
            rest = []
            for g in rel:
                gv = f_vars(g, set())
                if gv & vs:
                    used.append(g)
                    if not gv <= vs:
                        vs |= gv
                    grew = True
                else:
                    rest.append(g)
            rel = rest
        return vs, used

    def query(self, f, all_vars=False, want_model=False):
        """is PC and f satisfiable?  'sat' | 'unsat' | 'unknown' (, model)"""
        if all_vars:
            vs, used = set(self.dom), list(self.rel)
        else:
            vs, used = self._closure(f_vars(f, set()))
        s = solver()
        t0 = time.perf_counter()
        s.push()
        try:
            for v in vs:
                d = self.dom_of(v)
                s.add(_z_in_var(v, v.dom0))
                if d.r != v.dom0.r:
                    s.add(f_z3(("in", v, d)))
            for g in used:
                s.add(f_z3(g))
            s.add(f_z3(f))
            r = s.check()
            STATS.queries += 1
            m = None
            if r == z3.sat:
                STATS.sat += 1
                if want_model:
                    m = s.model()
                r = "sat"
            elif r == z3.unsat:
                STATS.unsat += 1
                r = "unsat"
            else:
                STATS.unknown += 1
                r = "unknown"
        finally:
            s.pop()
            STATS.solver_s += time.perf_counter() - t0
        return (r, m) if want_model else r

    def feasible(self, f):
        if f is True:
            return True
        if f is False:
            return False
        if f[0] == "in" and f[1] not in self.relvars:
            return True
        r = self.query(f)
        if r == "unknown":
            self.incomplete.append("solver unknown at branch")
        return r != "unsat"

    # ---- branching
    def branch(self, f):
        f = self.simp(f)
        if f is True or f is False:
            return f
        if self.nofork:
            raise NeedFork()
        if self.local is not None:
            return self.local.branch(self, f)
        STATS.branches += 1
        i = self.pos
        self.pos += 1
        if i < len(self.prefix):
            d = self.prefix[i]
            if not self.assume(f if d else f_not(f)):
                raise PathAbort("infeasible prefix")
            return d
        if i >= self.max_branches:
            raise StepLimit("branch limit")
        nf = f_not(f)
        t = self.feasible(f)
        if t:
            n = self.feasible(nf)
            if n:
                self.pending.append(tuple(self.decisions) + (False,))
            d = True
        else:
            d = False
        self.decisions.append(d)
        if not self.assume(f if d else nf):
            raise PathAbort("infeasible")
        return d

    def known(self, f):
        """True/False if decided by the domains alone, else None"""
        f = self.simp(f)
        return f if f is True or f is False else None

    def require(self, f, why):
        """restrict the claim to inputs satisfying f (recorded as a bound)"""
        f = self.simp(f)
        if f is True:
            return
        if self.nofork:
            raise NeedFork()
        STATS.assumed[why] = STATS.assumed.get(why, 0) + 1
        if f is False:
            raise PathAbort(why)
        if self.local is not None:
            raise NeedFork()
        # recorded as a decision so replays of the prefix stay aligned
        i = self.pos
        self.pos += 1
        if i < len(self.prefix):
            if not self.prefix[i] or not self.assume(f):
                raise PathAbort(why)
            return
        ok = self.feasible(f)
        self.decisions.append(ok)
        if not ok or not self.assume(f):
            raise PathAbort(why)

    def concretise(self, term, why):
        """enumerate the values of a term (complete: forks on each value)"""
        while True:
            v = term.value()
            if v is not None:
                return v
            if term.base is not None:
                d = term.codom()
                x = d.lo()
                f = term.isin(I.one(x))
            else:
                if self.local is not None or self.nofork:
                    raise NeedFork()
                i = self.pos
                if i < len(self.prefix) and isinstance(self.prefix[i], int) and not isinstance(self.prefix[i], bool):
                    x = self.prefix[i]
                    self.pos += 1
                else:
                    r, m = self.query(True, all_vars=True, want_model=True)
                    if r != "sat":
                        raise PathAbort("concretise")
                    x = m.eval(term.z, model_completion=True).as_long()
                    self.decisions.append(x)
                    self.pos += 1
                f = ("z", term.z == x, term.vars)
            STATS.concretised[why] = STATS.concretised.get(why, 0) + 1
            if self.branch(f):
                return x

    def pin(self, term):
        """one concrete value of the term; the other values are NOT explored
        (recorded as incomplete by the caller)"""
        v = term.value() if isinstance(term, Term) else term
        if v is not None:
            return v
        if self.nofork or self.local is not None:
            raise NeedFork()
        i = self.pos
        self.pos += 1
        if i < len(self.prefix):
            x = self.prefix[i]
        else:
            r, m = self.query(True, all_vars=True, want_model=True)
            if r != "sat":
                raise PathAbort("pin")
            x = m.eval(term.z, model_completion=True).as_long()
            self.decisions.append(x)
        f = term.isin(I.one(x)) if term.base is not None else ("z", term.z == x, term.vars)
        if not self.assume(f):
            raise PathAbort("pin")
        self.incomplete.append("pinned")
        return x

    # ---- local merging
    def merged(self, thunk, limit=24):
        """run thunk over all its local paths; [(guard, value)] or None"""
        if self.local is not None or self.nofork:
            return None
        save = (dict(self.dom), list(self.rel), set(self.relvars))
        out = []
        stack = [()]
        ok = True
        try:
            while stack:
                pre = stack.pop()
                self.dom, self.rel, self.relvars = dict(save[0]), list(save[1]), set(save[2])
                loc = Local(pre)
                self.local = loc
                try:
                    val = thunk()
                except (NeedFork, Exception):
                    ok = False
                    break
                stack.extend(loc.pending)
                out.append((f_and(loc.guard), val))
                if len(out) + len(stack) > limit:
                    ok = False
                    break
        finally:
            self.local = None
            self.dom, self.rel, self.relvars = save
        return out if ok else None


class Local:
    def __init__(self, prefix):
        self.prefix = prefix
        self.dec = list(prefix)
        self.pos = 0
        self.pending = []
        self.guard = []

    def branch(self, ctx, f):
        i = self.pos
        self.pos += 1
        nf = f_not(f)
        if i < len(self.prefix):
            d = self.prefix[i]
        else:
            d = True
            self.pending.append(tuple(self.dec) + (False,))
            self.dec.append(True)
        g = f if d else nf
        self.guard.append(g)
        if not ctx.assume(g):
            raise NeedFork()
        return d
