"""Symbolic values: booleans, integers, strings, byte strings.

A symbolic string is a tuple of elements: an int (code point / byte), a Term
(symbolic code point / byte) or an Atom (a piece whose length depends on the
path: percent-encoded code point, encoded bytes, decimal or hex numeral).
"""
import functools
import z3
from . import core as C
from . import iset as I
from .core import (Term, f_and, f_or, f_not, f_in, Unsupported, NeedFork)
from .iset import ISet

__sx__ = True
INF = 10 ** 400


def ctx():
    return C.CTX


# ------------------------------------------------------------------ terms
def hull(s):
    return ISet(((s.lo(), s.hi()),)) if s.r else s


def t_add(t, k):
    if k == 0:
        return t
    if t.base is not None:
        return t.map(((-INF, INF, 1, k),))
    c = t.codom0
    return Term(z=t.z + k, vars=t.vars,
                codom=None if c is None else ISet(tuple((a + k, b + k) for a, b in c.r)))


def t_plus(t, u):
    a, b = t.codom(), u.codom()
    cd = None
    if a is not None and b is not None:
        cd = ISet(((a.lo() + b.lo(), a.hi() + b.hi()),))
    return Term(z=t.z + u.z, vars=t.vars | u.vars, codom=cd)


def t_mul(t, k):
    if k == 1:
        return t
    c = t.codom()
    cd = None
    if c is not None:
        x, y = c.lo() * k, c.hi() * k
        cd = ISet(((min(x, y), max(x, y)),))
    return Term(z=t.z * k, vars=t.vars, codom=cd)


_TABS = {}


def t_tab(t, fn, codom=None, key=None):
    """tabulate fn over a piecewise term with a small domain"""
    d = t.support()
    if d.size() > 2100:
        d = d.inter(ctx().dom_of(t.base))
    if key is not None:
        key = (t.pm, d.r, key)
        r = _TABS.get(key)
        if r is not None:
            return Term(t.base, r)
    out = []
    for x in d.items():
        v = fn(t.apply(x))
        if out and out[-1][1] == x - 1 and out[-1][2] == 0 and out[-1][3] == v:
            out[-1] = (out[-1][0], x, 0, v)
        elif out and out[-1][1] == x - 1 and out[-1][2] == 1 and out[-1][3] == v - x:
            out[-1] = (out[-1][0], x, 1, v - x)
        elif out and out[-1][1] == x - 1 and out[-1][0] == out[-1][1] and out[-1][2] == 0 and v - x == out[-1][3] - out[-1][0]:
            out[-1] = (out[-1][0], x, 1, v - x)
        else:
            out.append((x, x, 0, v))
    out = tuple(out)
    if key is not None:
        if len(_TABS) > 4000:
            _TABS.clear()
        _TABS[key] = out
    return Term(t.base, out)


def small(t, n=300):
    """tabulate? decided by the term's own support where possible, so that the
    same function of a variable is always written the same way"""
    if t.base is None:
        return False
    k = t.support().size()
    return k <= n or (k > 2100 and t.support().inter(ctx().dom_of(t.base)).size() <= n)


def t_div(t, k):
    if small(t, 2048):
        return t_tab(t, lambda x: x // k, key=("/", k))
    c = t.codom()
    cd = None if c is None else ISet(((c.lo() // k, c.hi() // k),))
    return Term(z=t.z / k, vars=t.vars, codom=cd)


def t_mod(t, k):
    c = t.codom()
    if c is not None and c.r and c.lo() // k == c.hi() // k:
        return t_add(t, -(c.lo() // k) * k)
    if small(t, 2048):
        return t_tab(t, lambda x: x % k, key=("%", k))
    return Term(z=t.z % k, vars=t.vars, codom=ISet(((0, k - 1),)))


def t_ite(f, a, b):
    """if f then a else b over ints/Terms"""
    f = ctx().simp(f)
    if f is True:
        return a
    if f is False:
        return b
    if f[0] == "in" and not isinstance(a, Term) and not isinstance(b, Term):
        v = f[1]
        s = f[2].inter(v.dom0)
        pcs = [(x, y, 0, a) for x, y in s.r] + [(x, y, 0, b) for x, y in v.dom0.diff(s).r]
        pcs.sort()
        return Term(v, tuple(pcs))
    za = a.z if isinstance(a, Term) else z3.IntVal(a)
    zb = b.z if isinstance(b, Term) else z3.IntVal(b)
    vs = set()
    C.f_vars(f, vs)
    ca = a.codom() if isinstance(a, Term) else I.one(a)
    cb = b.codom() if isinstance(b, Term) else I.one(b)
    for x in (a, b):
        if isinstance(x, Term):
            vs |= x.vars
    return Term(z=z3.If(C.f_z3(f), za, zb), vars=frozenset(vs),
                codom=None if ca is None or cb is None else ca.union(cb))


def e_eq(a, b):
    """formula: element a == element b (ints or Terms)"""
    if isinstance(a, int):
        if isinstance(b, int):
            return a == b
        a, b = b, a
    if isinstance(b, int):
        return a.isin(I.one(b))
    if a.same(b):
        return True
    if a.base is not None and a.base is b.base:
        return f_in(a.base, _solve_eq(a, b))
    ca, cb = a.codom(), b.codom()
    if ca is not None and cb is not None and ca.disjoint(cb):
        return False
    return ("z", a.z == b.z, a.vars | b.vars)


def _pieces(t):
    if t.pm is not None:
        return t.pm
    return tuple((x, y, 1, 0) for x, y in t.base.dom0.r)


def _solve_eq(a, b):
    out = []
    for l1, h1, a1, b1 in _pieces(a):
        for l2, h2, a2, b2 in _pieces(b):
            lo, hi = max(l1, l2), min(h1, h2)
            if lo > hi:
                continue
            if a1 == a2:
                if b1 == b2:
                    out.append((lo, hi))
            else:
                x = (b2 - b1) // (a1 - a2)
                if lo <= x <= hi and a1 * x + b1 == a2 * x + b2:
                    out.append((x, x))
    return ISet(I._norm(out))


def e_lt(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a < b
    if isinstance(b, int):
        return a.isin(ISet(((-INF, b - 1),)))
    if isinstance(a, int):
        return b.isin(ISet(((a + 1, INF),)))
    if a.same(b):
        return False
    ca, cb = a.codom(), b.codom()
    if ca is not None and cb is not None and ca.r and cb.r:
        if ca.hi() < cb.lo():
            return True
        if ca.lo() >= cb.hi():
            return False
    return ("z", a.z < b.z, a.vars | b.vars)


def e_in(e, s):
    return s.has(e) if isinstance(e, int) else e.isin(s)


# ------------------------------------------------------------------ bool
class SymBool:
    __slots__ = ("f",)
    __hash__ = object.__hash__

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return ctx().branch(self.f)

    def __eq__(self, o):
        o = force(o)
        if isinstance(o, bool) or (isinstance(o, int) and o in (0, 1)):
            return mkbool(self.f if o else f_not(self.f))
        if isinstance(o, SymBool):
            return mkbool(f_iff(self.f, o.f))
        if isinstance(o, (int, float)):
            return False
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(f_and([self.f, fb(o)]))
        return int_(self) & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(f_or([self.f, fb(o)]))
        return int_(self) | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return mkbool(f_not(f_iff(self.f, fb(o))))
        return NotImplemented
    __rxor__ = __xor__

    def __add__(self, o):
        return int_(self) + o
    __radd__ = __add__

    def __sub__(self, o):
        return int_(self) - o

    def __rsub__(self, o):
        return o - int_(self)

    def __mul__(self, o):
        return int_(self) * o
    __rmul__ = __mul__

    def __lt__(self, o):
        return int_(self) < o

    def __le__(self, o):
        return int_(self) <= o

    def __gt__(self, o):
        return int_(self) > o

    def __ge__(self, o):
        return int_(self) >= o

    def __index__(self):
        return int(bool(self))

    def __int__(self):
        return int(bool(self))

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<SymBool>"


def int_(b):
    return mkint(t_ite(b.f, 1, 0)) if isinstance(b, SymBool) else int(b)


def fb(x):
    return x.f if isinstance(x, SymBool) else bool(x)


def f_iff(a, b):
    return f_or([f_and([a, b]), f_and([f_not(a), f_not(b)])])


def mkbool(f):
    if f is True or f is False:
        return f
    f = ctx().simp(f)
    if f is True or f is False:
        return f
    return SymBool(f)


def not_(x):
    x = force(x)
    if isinstance(x, SymBool):
        return mkbool(f_not(x.f))
    t = truth(x)
    if isinstance(t, SymBool):
        return mkbool(f_not(t.f))
    return not t


def truth(x):
    """bool or SymBool without forking where possible"""
    x = force(x)
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return x != 0
    if isinstance(x, SymSeq):
        return x.nonempty()
    if isinstance(x, SymFlags):
        return x.nonzero()
    t = getattr(type(x), "sx_truth", None)
    if t is not None:
        return t(x)
    return bool(x)


# ------------------------------------------------------------------ int
class SymInt:
    __slots__ = ("t",)
    __hash__ = object.__hash__

    def __init__(self, t):
        self.t = t

    def _bin(self, o, fconst, fterm):
        o = force(o)
        if isinstance(o, SymBool):
            o = int_(o)
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            return mkint(fconst(self.t, o))
        if isinstance(o, SymInt):
            return mkint(fterm(self.t, o.t))
        return NotImplemented

    def __add__(self, o):
        return self._bin(o, t_add, t_plus)
    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda t, k: t_add(t, -k), lambda t, u: t_plus(t, t_mul(u, -1)))

    def __rsub__(self, o):
        return (-self) + o

    def __neg__(self):
        return mkint(t_mul(self.t, -1))

    def __pos__(self):
        return self

    def __mul__(self, o):
        o = force(o)
        if isinstance(o, (str, bytes, list, tuple, SymSeq)):
            return o * self.__index__()

        def gen(t, u):
            return Term(z=t.z * u.z, vars=t.vars | u.vars)
        return self._bin(o, lambda t, k: Term_const(0) if k == 0 else t_mul(t, k), gen)
    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(t_div(self.t, o))
        return self.__index__() // idx(o)

    def __mod__(self, o):
        if isinstance(o, int) and o > 0:
            return mkint(t_mod(self.t, o))
        return self.__index__() % idx(o)

    def __divmod__(self, o):
        return self // o, self % o

    def __rfloordiv__(self, o):
        return o // self.__index__()

    def __rmod__(self, o):
        return o % self.__index__()

    def __rshift__(self, o):
        if isinstance(o, int):
            return self // (1 << o)
        return self.__index__() >> idx(o)

    def __lshift__(self, o):
        if isinstance(o, int):
            return self * (1 << o)
        return self.__index__() << idx(o)

    def __and__(self, o):
        if isinstance(o, int) and not isinstance(o, bool):
            if o >= 0 and (o + 1) & o == 0:
                return self % (o + 1) if o else 0
            # contiguous mask
            if o > 0:
                low = (o & -o)
                if ((o // low) + 1) & (o // low) == 0:
                    return (self // low) % (o // low + 1) * low
        return self.__index__() & idx(o)
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, int) and o >= 0:
            c = self.t.codom()
            if c is not None and c.r and c.lo() >= 0:
                low = o & -o
                if o == 0:
                    return self
                if c.hi() < low:
                    return self + o
        if isinstance(o, SymInt):
            a, b = self.t.codom(), o.t.codom()
            # x*2^k | y with y < 2^k is handled by the caller's ranges only
        return self.__index__() | idx(o)
    __ror__ = __or__

    def __xor__(self, o):
        return self.__index__() ^ idx(o)
    __rxor__ = __xor__

    def __pow__(self, o):
        return self.__index__() ** idx(o)

    def __rpow__(self, o):
        return o ** self.__index__()

    def __abs__(self):
        return mkint(t_ite(e_lt(self.t, 0), t_mul(self.t, -1), self.t))

    def __truediv__(self, o):
        return self.__index__() / o

    def __rtruediv__(self, o):
        return o / self.__index__()

    def _cmp(self, o, f):
        o = force(o)
        if isinstance(o, SymBool):
            o = int_(o)
        if isinstance(o, SymInt):
            return mkbool(f(self.t, o.t))
        if isinstance(o, int):
            return mkbool(f(self.t, int(o)))
        if isinstance(o, float):
            if o == int(o):
                return mkbool(f(self.t, int(o)))
        return NotImplemented

    def __eq__(self, o):
        return self._cmp(o, e_eq)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: f_not(e_eq(a, b)))

    def __lt__(self, o):
        return self._cmp(o, e_lt)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: f_not(e_lt(a, b)))

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: e_lt(b, a))

    def __le__(self, o):
        return self._cmp(o, lambda a, b: f_not(e_lt(b, a)))

    def __bool__(self):
        return ctx().branch(f_not(e_eq(self.t, 0)))

    def __index__(self):
        return ctx().concretise(self.t, "integer index")

    __int__ = __index__

    def bit_length(self):
        return self.__index__().bit_length()

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    def __repr__(self):
        return "<SymInt %r>" % (self.t,)


def Term_const(k):
    return Term(z=z3.IntVal(k), vars=frozenset(), codom=I.one(k))


def mkint(t):
    if isinstance(t, int):
        return t
    v = t.value()
    if v is not None:
        return v
    if t.base is None and t.codom0 is not None:
        s = t.codom0.single()
        if s is not None:
            return s
    return SymInt(t)


def idx(o):
    return o.__index__()


def toterm(x):
    return x.t if isinstance(x, SymInt) else x


# ------------------------------------------------------------------ phi
class Phi:
    """one of several values, selected by guards; any use resolves it"""
    __slots__ = ("alts", "val", "done")
    __hash__ = None

    def __init__(self, alts):
        self.alts = alts
        self.done = False

    def get(self):
        c = ctx()
        for g, v in self.alts[:-1]:
            if c.branch(g):
                return v
        return self.alts[-1][1]

    def __deepcopy__(self, memo):
        return self


def _phi_op(name):
    def m(self, *a):
        from . import ops
        return ops.call(getattr(self.get(), name), *a)
    return m


for _n in ("__add__ __radd__ __eq__ __ne__ __lt__ __le__ __gt__ __ge__ __getitem__ __iter__ __bool__ __sub__ "
           "__rsub__ __mul__ __rmul__ __mod__ __and__ __or__ __contains__ __index__ __len__").split():
    setattr(Phi, _n, _phi_op(_n))
Phi.__eq__ = lambda self, o: self.get() == o
Phi.__ne__ = lambda self, o: self.get() != o
Phi.__bool__ = lambda self: bool(self.get())
Phi.__iter__ = lambda self: iter(self.get())
Phi.__getitem__ = lambda self, k: self.get()[k]
Phi.__add__ = lambda self, o: self.get() + o
Phi.__radd__ = lambda self, o: o + self.get()
Phi.__getattr__ = lambda self, n: getattr(self.get(), n)


def force(x):
    while type(x) is Phi:
        x = x.get()
    return x


# ------------------------------------------------------------------ flags
class SymFlags:
    """a bit mask whose bits are formulas (known width)"""
    __slots__ = ("bits",)
    __hash__ = object.__hash__

    def __init__(self, bits):
        self.bits = bits      # dict bit -> formula

    def nonzero(self):
        return mkbool(f_or(list(self.bits.values())))

    def __bool__(self):
        return bool(self.nonzero())

    def __and__(self, o):
        if isinstance(o, SymFlags):
            return mkflags({b: f_and([f, o.bits.get(b, False)]) for b, f in self.bits.items()})
        o = int(o)
        return mkflags({b: f for b, f in self.bits.items() if o >> b & 1})
    __rand__ = __and__

    def __or__(self, o):
        d = dict(self.bits)
        if isinstance(o, SymFlags):
            for b, f in o.bits.items():
                d[b] = f_or([d.get(b, False), f])
        else:
            o = int(o)
            for b in range(o.bit_length()):
                if o >> b & 1:
                    d[b] = True
        return mkflags(d)
    __ror__ = __or__

    def __xor__(self, o):
        d = dict(self.bits)
        if isinstance(o, SymFlags):
            for b, f in o.bits.items():
                d[b] = f_not(f_iff(d.get(b, False), f))
            return mkflags(d)
        o = int(o)
        for b in range(o.bit_length()):
            if o >> b & 1:
                d[b] = f_not(d.get(b, False))
        return mkflags(d)
    __rxor__ = __xor__

    def __sub__(self, o):
        if isinstance(o, SymFlags) and all(f is self.bits.get(b) for b, f in o.bits.items()):
            return mkflags({b: f for b, f in self.bits.items() if b not in o.bits})
        return self.__index__() - int(o)

    def __rsub__(self, o):
        return o - self.__index__()

    def __ge__(self, o):
        return self.__index__() >= o

    def __le__(self, o):
        return self.__index__() <= o

    def __eq__(self, o):
        if isinstance(o, SymFlags):
            ks = set(self.bits) | set(o.bits)
            return mkbool(f_and([f_iff(self.bits.get(b, False), o.bits.get(b, False)) for b in ks]))
        if isinstance(o, int):
            fs = []
            for b in set(self.bits) | set(range(o.bit_length())):
                f = self.bits.get(b, False)
                fs.append(f if o >> b & 1 else f_not(f))
            return mkbool(f_and(fs))
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __index__(self):
        c = ctx()
        v = 0
        for b in sorted(self.bits):
            if c.branch(self.bits[b]):
                v |= 1 << b
        return v
    __int__ = __index__

    def __gt__(self, o):
        if isinstance(o, int) and o == 0:
            return self.nonzero()
        return self.__index__() > o

    def __lt__(self, o):
        return self.__index__() < o

    def __deepcopy__(self, memo):
        return self

    def __repr__(self):
        return "<flags>"


def mkflags(d):
    c = ctx()
    d = {b: c.simp(f) for b, f in d.items()}
    d = {b: f for b, f in d.items() if f is not False}
    if all(f is True for f in d.values()):
        return sum(1 << b for b in d)
    return SymFlags(d)


# ------------------------------------------------------------------ atoms
class Atom:
    __slots__ = ()
    minlen = 0
    maxlen = 10 ** 6

    def alts(self):
        """[(guard, elems)] exhaustive and mutually exclusive"""
        raise Unsupported(type(self).__name__)

    def expand(self):
        """fork: the elements on this path"""
        c = ctx()
        if c.local is None and not c.nofork:
            r = c.expansions.get(id(self))
            if r is not None:
                return r[1]
        al = self.alts()
        if not al:
            raise C.PathAbort("no alternative")
        res = al[-1][1]
        for g, el in al[:-1]:
            if c.branch(g):
                res = el
                break
        if c.local is None and not c.nofork:
            c.expansions[id(self)] = (self, res)
        return res

    def contains_only_self(self, ch):
        return None


HEXU = "0123456789ABCDEF"


def hexdig(d, upper=True):
    """char term of the digit term d (0..15)"""
    if isinstance(d, int):
        return ord(HEXU[d] if upper else HEXU[d].lower())
    off = 55 if upper else 87
    r = d.map(((0, 9, 1, 48), (10, 35, 1, off)))
    return r


def hexpair(b, upper=True):
    """two hex digit elements of a byte element"""
    if isinstance(b, int):
        s = "%02X" % b if upper else "%02x" % b
        return ord(s[0]), ord(s[1])
    h = hexdig(t_div(b, 16), upper)
    lo = hexdig(t_mod(b, 16), upper)
    if isinstance(h, Term):
        h = h.copy(meta=("hx", b, "h"))
    if isinstance(lo, Term):
        lo = lo.copy(meta=("hx", b, "l"))
    return h, lo


U8 = (I.ranges((0, 0x7F)), I.ranges((0x80, 0x7FF)),
      I.ranges((0x800, 0xD7FF), (0xE000, 0xFFFF)), I.ranges((0x10000, 0x10FFFF)))


def u8bytes(t, n):
    """byte elements of scalar t known to have an n-byte UTF-8 form"""
    if isinstance(t, int):
        return tuple(chr(t).encode("utf-8"))
    if n == 1:
        return (t,)
    tt = t
    if t.base is not None and t.pm is None:
        tt = Term(t.base, tuple((x, y, 1, 0) for x, y in U8[n - 1].inter(t.base.dom0).r))
    sm = small(tt, 2048)
    out = []
    lead = (0, 0, 0xC0, 0xE0, 0xF0)[n]
    for i in range(n):
        sh = 6 * (n - 1 - i)
        if sm:
            if i == 0:
                b = t_tab(tt, lambda x: (x >> sh) + lead, key=("u8", n, i))
            else:
                b = t_tab(tt, lambda x: ((x >> sh) & 63) + 128, key=("u8", n, i))
            b = Term(b.base, b.pm, meta=("u8", t, n, i))
        else:
            c = t.codom()
            if c is None:
                c = U8[n - 1]
            c = c.inter(U8[n - 1])
            if i == 0:
                z = t.z / (1 << sh) + lead
                cd = ISet((((c.lo() >> sh) + lead, (c.hi() >> sh) + lead),))
            else:
                z = (t.z / (1 << sh)) % 64 + 128 if sh else t.z % 64 + 128
                cd = I.ranges((128, 191))
            b = Term(z=z, vars=t.vars, codom=cd, meta=("u8", t, n, i))
        out.append(b)
    return tuple(out)


class Codec:
    """a stateless ASCII-compatible legacy codec, as tables"""
    cache = {}

    def __init__(self, name):
        self.name = name
        groups = {}
        for blk in range(0, 0x110000, 64):
            if 0xD800 <= blk < 0xE000:
                continue
            if not "".join(map(chr, range(blk, blk + 64))).encode(name, "ignore"):
                continue
            for cp in range(blk, blk + 64):
                try:
                    b = chr(cp).encode(name)
                except UnicodeEncodeError:
                    continue
                groups.setdefault(len(b), []).append((cp, b))
        self.groups = {}
        for n, lst in groups.items():
            dom = I.ints([cp for cp, _ in lst])
            maps = []
            for i in range(n):
                pcs = []
                for cp, b in lst:
                    v = b[i]
                    if pcs and pcs[-1][1] == cp - 1 and pcs[-1][2] == 1 and pcs[-1][3] == v - cp:
                        pcs[-1] = (pcs[-1][0], cp, 1, v - cp)
                    else:
                        pcs.append((cp, cp, 1, v - cp))
                maps.append(tuple(pcs))
            self.groups[n] = (dom, maps)
        d = I.EMPTY
        for n, (dom, _) in self.groups.items():
            d = d.union(dom)
        self.dom = d

    @classmethod
    def get(cls, name):
        import codecs
        name = codecs.lookup(name).name
        if name in ("iso2022_jp", "iso2022_kr", "hz", "utf-7", "utf-16", "utf-32", "utf-16-le", "utf-16-be",
                    "utf-32-le", "utf-32-be", "utf-8", "utf-8-sig", "punycode", "idna", "unicode_escape",
                    "raw_unicode_escape") or name.startswith("iso2022"):
            return None
        r = cls.cache.get(name)
        if r is None:
            try:
                r = cls.cache[name] = cls(name)
            except LookupError:
                raise
            except Exception:
                return None
        return r


def enc_dom(codec):
    if codec == "utf-8":
        return I.SCALAR
    if codec.startswith("utf-16"):
        return I.ALLCP
    return Codec.get(codec).dom


def enc_groups(codec):
    """[(domain, n)]"""
    if codec == "utf-8":
        return [(U8[i], i + 1) for i in range(4)]
    return [(d, n) for n, (d, _) in Codec.get(codec).groups.items()]


def enc_bytes(t, codec, n):
    if codec == "utf-8":
        return u8bytes(t, n)
    if isinstance(t, int):
        return tuple(chr(t).encode(codec))
    d, maps = Codec.get(codec).groups[n]
    return tuple(t.map(m) for m in maps)


class EncB(Atom):
    """bytes of code point t (encodable) in codec"""
    __slots__ = ("t", "codec")
    minlen = 1
    maxlen = 4

    def __init__(self, t, codec):
        self.t = t
        self.codec = codec

    def alts(self):
        c = ctx()
        out = []
        if self.codec == "utf-16-le" or self.codec == "utf-16-be":
            t = self.t
            if self.codec == "utf-16-le":
                two = lambda v: (t_mod(v, 256), t_div(v, 256))
            else:
                two = lambda v: (t_div(v, 256), t_mod(v, 256))
            g = c.simp(t.isin(I.ranges((0, 0xFFFF))))
            if g is not False:
                out.append((g, two(t)))
            g = c.simp(t.isin(I.ranges((0x10000, 0x10FFFF))))
            if g is not False:
                hi = t_add(t_div(t_add(t, -0x10000), 1024), 0xD800)
                lo = t_add(t_mod(t_add(t, -0x10000), 1024), 0xDC00)
                out.append((g, two(hi) + two(lo)))
            return out
        for dom, n in enc_groups(self.codec):
            g = c.simp(self.t.isin(dom))
            if g is not False:
                out.append((g, enc_bytes(self.t, self.codec, n)))
        return out

    def key(self):
        return ("encb", self.t.key(), self.codec)

    def ascii_is(self, b):
        """formula: this atom is exactly the single byte b (b < 128)"""
        return self.t.isin(I.one(b)) if self.codec == "utf-8" else None


class Enc(Atom):
    """percent-encoding of code point t with a set of safe bytes"""
    __slots__ = ("t", "safe", "plus", "codec")
    minlen = 1
    maxlen = 12

    def __init__(self, t, safe, plus, codec):
        self.t = t
        self.safe = safe      # ISet of bytes kept
        self.plus = plus      # space -> '+'
        self.codec = codec

    def key(self):
        return ("enc", self.t.key(), self.safe, self.plus, self.codec)

    def lens(self):
        """[(guard, length)] for UTF-8"""
        one = self.safe.inter(U8[0])
        if self.plus:
            one = one.union(I.one(32))
        out = []
        for d, k in ((one, 1), (U8[0].diff(one), 3), (U8[1], 6), (U8[2], 9), (U8[3], 12)):
            g = ctx().simp(self.t.isin(d))
            if g is not False:
                out.append((g, k))
        return out

    def alts(self):
        c = ctx()
        out = []
        t = self.t
        safe = self.safe
        if self.plus:
            g = c.simp(t.isin(I.one(32)))
            if g is not False:
                out.append((g, (43,)))
            if g is True:
                return out
            safe = safe.diff(I.one(32))
        for dom, n in enc_groups(self.codec):
            if self.plus:
                dom = dom.diff(I.one(32))
            if n == 1:
                if self.codec == "utf-8":
                    s = dom.inter(safe)
                    bt = t
                    inv = lambda x: x
                else:
                    m = Codec.get(self.codec).groups[1][1][0]
                    pre = []
                    for lo, hi, a, b in m:
                        for x, y in safe.r:
                            p, q = max(lo, x - b), min(hi, y - b)
                            if p <= q:
                                pre.append((p, q))
                    s = ISet(I._norm(pre)).inter(dom)
                    bt = t.map(m) if isinstance(t, Term) else None
                g = c.simp(t.isin(s))
                if g is not False:
                    out.append((g, (bt,)))
                g = c.simp(t.isin(dom.diff(s)))
                if g is not False:
                    out.append((g, (37,) + _hexpair_in(bt, t, dom.diff(s))))
                continue
            g = c.simp(t.isin(dom))
            if g is False:
                continue
            bs = enc_bytes_m(t, self.codec, n)
            if self.codec == "utf-8":
                out.append((g, enc_hex_m(t, n)))
                continue
            if all(safe.disjoint(b.codom()) for b in bs if isinstance(b, Term)):
                el = []
                for b in bs:
                    el.append(37)
                    el.extend(hexpair(b))
                out.append((g, tuple(el)))
            else:
                # some trailing bytes may be safe
                combos = [(g, ())]
                for b in bs:
                    nxt = []
                    for gg, el in combos:
                        fs = c.simp(f_and([gg, b.isin(safe)]))
                        if fs is not False:
                            nxt.append((fs, el + (b,)))
                        fn = c.simp(f_and([gg, b.isin(I.BYTE.diff(safe))]))
                        if fn is not False:
                            nxt.append((fn, el + (37,) + tuple(hexpair(b))))
                    combos = nxt
                out.extend(combos)
        return out


def _hexpair_in(b, t, s):
    """hex digits of byte b, valid only when t in s (small): tabulate"""
    if isinstance(b, int):
        return hexpair(b)
    if b.base is not None and b is t:
        pre = b.preimage(s).inter(b.base.dom0)
        if pre.size() <= 300:
            hp, lp = [], []
            for x in pre.items():
                v = b.apply(x)
                hp.append((x, x, 0, ord(HEXU[v >> 4])))
                lp.append((x, x, 0, ord(HEXU[v & 15])))
            return (Term(b.base, tuple(hp), meta=("hx", b, "h")), Term(b.base, tuple(lp), meta=("hx", b, "l")))
    return hexpair(b)


def _mkey(t, *k):
    if t.base is None or (t.pm is None and t.base.dom0.size() > 2100):
        return k
    return k + (ctx().dom_of(t.base).r,)


def enc_bytes_m(t, codec, n):
    if not isinstance(t, Term):
        return enc_bytes(t, codec, n)
    if t.memo is None:
        t.memo = {}
    k = _mkey(t, "eb", codec, n)
    r = t.memo.get(k)
    if r is None:
        r = t.memo[k] = enc_bytes(t, codec, n)
    return r


def enc_hex_m(t, n):
    if isinstance(t, Term):
        if t.memo is None:
            t.memo = {}
        k = _mkey(t, "eh", n)
        r = t.memo.get(k)
        if r is not None:
            return r
    el = []
    for b in enc_bytes_m(t, "utf-8", n):
        el.append(37)
        el.extend(hexpair(b))
    el = tuple(el)
    if isinstance(t, Term):
        t.memo[k] = el
    return el


class EncByte(Atom):
    """percent-encoding of one byte term"""
    __slots__ = ("b", "safe", "plus")
    minlen = 1
    maxlen = 3

    def __init__(self, b, safe, plus):
        self.b = b
        self.safe = safe
        self.plus = plus

    def key(self):
        return ("encbyte", self.b.key(), self.safe, self.plus)

    def alts(self):
        c = ctx()
        out = []
        safe = self.safe
        if self.plus:
            g = c.simp(self.b.isin(I.one(32)))
            if g is not False:
                out.append((g, (43,)))
            safe = safe.diff(I.one(32))
        g = c.simp(self.b.isin(safe))
        if g is not False:
            out.append((g, (self.b,)))
        rest = I.BYTE.diff(safe)
        if self.plus:
            rest = rest.diff(I.one(32))
        g = c.simp(self.b.isin(rest))
        if g is not False:
            out.append((g, (37,) + tuple(hexpair(self.b))))
        return out


class Cased(Atom):
    """lower- or upper-cased percent-encoding"""
    __slots__ = ("a", "low")
    minlen = 1
    maxlen = 12

    def __init__(self, a, low):
        self.a = a
        self.low = low

    def key(self):
        return ("cased", self.low, self.a.key())

    def alts(self):
        out = []
        m = _ASC_LOW if self.low else _ASC_UP
        for g, el in self.a.alts():
            r = []
            for x in el:
                if isinstance(x, int):
                    x = ord(chr(x).lower() if self.low else chr(x).upper())
                else:
                    x = x.map(m)
                r.append(x)
            out.append((g, tuple(r)))
        return out


def enc_match_const(a, B, j):
    """[(formula, elements consumed)]: the ways the encoding atom can equal a
    prefix of the constant elements B[j:]; None if not applicable"""
    case = None
    if type(a) is Cased:
        case = "l" if a.low else "u"
        a = a.a
    if type(a) is not Enc or a.codec != "utf-8":
        return None
    b0 = B[j]
    if not isinstance(b0, int):
        return None
    t, safe = a.t, a.safe.inter(I.ASCII)
    out = []
    if a.plus:
        if b0 == 43:
            out.append((t.isin(I.one(32)), 1))
        safe = safe.diff(I.one(32))
    cand = [b0]
    if case == "l":
        cand = [x for x in (b0, b0 - 32) if x < 128 and x >= 0 and chr(x).lower() == chr(b0)]
    elif case == "u":
        cand = [x for x in (b0, b0 + 32) if x < 128 and chr(x).upper() == chr(b0)]
    cand = [x for x in cand if safe.has(x)]
    if cand:
        out.append((t.isin(I.ints(cand)), 1))
    if b0 == 37:
        hx = "0123456789abcdef" if case == "l" else HEXU
        bs = []
        k = j
        need = 1
        ok = True
        while len(bs) < need:
            if k + 2 >= len(B):
                if any(not isinstance(x, int) for x in B[k:]):
                    return None
                ok = False
                break
            tri = B[k:k + 3]
            if any(not isinstance(x, int) for x in tri):
                return None
            if tri[0] != 37 or chr(tri[1]) not in hx or chr(tri[2]) not in hx:
                ok = False
                break
            v = int(chr(tri[1]) + chr(tri[2]), 16)
            bs.append(v)
            if len(bs) == 1:
                need = 1 if v < 0x80 else 2 if v < 0xE0 else 3 if v < 0xF0 else 4
            k += 3
        if ok:
            try:
                cp = ord(bytes(bs).decode("utf-8"))
            except UnicodeDecodeError:
                cp = None
            if cp is not None and not (cp < 128 and (safe.has(cp) or (a.plus and cp == 32))):
                out.append((t.isin(I.one(cp)), k - j))
    return out


class Num(Atom):
    """numeral of a non-negative term in base 10 or 16, minimal width"""
    __slots__ = ("t", "radix", "upper", "width")
    minlen = 1

    def __init__(self, t, radix, upper=False, width=1):
        self.t = t
        self.radix = radix
        self.upper = upper
        self.width = width

    def key(self):
        return ("num", self.t.key(), self.radix, self.upper, self.width)

    def alts(self):
        c = ctx()
        out = []
        t, r = self.t, self.radix
        cd = t.codom()
        if cd is None or not cd.r or cd.lo() < 0:
            raise Unsupported("numeral of unbounded term")
        lo = 0
        n = 1
        hi = cd.hi()
        if hi > r ** 40:
            raise Unsupported("numeral too long")
        while lo <= hi:
            top = r ** n - 1
            if n >= self.width:
                g = c.simp(t.isin(ISet(((lo, top),))))
                if g is not False and c.local is None:
                    pass
                if g is not False:
                    el = []
                    for i in range(n):
                        p = r ** (n - 1 - i)
                        d = t_div(t, p) if p > 1 else t
                        if i > 0:
                            d = t_mod(d, r)
                        elif d.base is None:
                            d = d.copy(codom=ISet(((0, r - 1),)))
                        if isinstance(d, int):
                            d = Term_const(d)
                        e = hexdig(d, self.upper) if r == 16 else t_add(d, 48)
                        el.append(e.copy(meta=("dig", t, r, n, i)))
                    out.append((g, tuple(el)))
                lo = top + 1
            n += 1
        return out


class Opaque(Atom):
    """a string the claim never looks into (log and exception messages)"""
    __slots__ = ("parts",)

    def __init__(self, *parts):
        self.parts = parts

    def key(self):
        return ("opaque", skey(self.parts))

    def alts(self):
        if self.parts[0] in ("r", "f", "s") and len(self.parts) == 2:
            ok, v = settled(self.parts[1])
            if ok:
                s = repr(v) if self.parts[0] == "r" else format(v) if self.parts[0] == "f" else str(v)
                return [(True, tuple(map(ord, s)))]
        raise Unsupported("Opaque")


def settled(v):
    """(known on this path?, concrete value)"""
    if isinstance(v, SymStr):
        out = []
        for x in v.e:
            if not isinstance(x, int):
                x = x.value() if isinstance(x, Term) else None
                if x is None:
                    return False, None
            out.append(x)
        return True, "".join(map(chr, out))
    if isinstance(v, SymInt):
        x = v.t.value()
        return x is not None, x
    if isinstance(v, (list, tuple)) and type(v) in (list, tuple):
        out = []
        for x in v:
            ok, y = settled(x)
            if not ok:
                return False, None
            out.append(y)
        return True, type(v)(out)
    if v is None or type(v) in (str, bytes, int, float, bool):
        return True, v
    return False, None


def ekey(x):
    v = x.value() if isinstance(x, Term) else None
    return v if v is not None else x.key()


def skey(v):
    """structural identity of a value"""
    if isinstance(v, SymSeq):
        return ("str" if isinstance(v, SymStr) else "bytes",) + tuple(x if isinstance(x, int) else ekey(x) for x in v.e)
    if isinstance(v, str):
        return ("str",) + tuple(map(ord, v))
    if isinstance(v, SymInt):
        return ("int", ekey(v.t))
    if isinstance(v, bool):
        return ("bool", v)
    if isinstance(v, (list, tuple)):
        return (type(v).__name__,) + tuple(skey(x) for x in v)
    if v is None or isinstance(v, (str, bytes, int, float)):
        return (type(v).__name__, v)
    return ("id", id(v))


# ------------------------------------------------------------------ sequences
def _memo_alts(a):
    return a.alts()


def seq_eq(A, B, prefix=False, depth=0):
    """formula: A == B (or B is a prefix of A), elements may be atoms"""
    i = j = 0
    na, nb = len(A), len(B)
    conj = []
    while True:
        if j == nb:
            if prefix or i == na:
                return f_and(conj)
            # remaining A must be empty
            if all(isinstance(x, Atom) and x.minlen == 0 for x in A[i:]):
                raise Unsupported("possibly empty atom")
            return False
        if i == na:
            if all(isinstance(x, Atom) and x.minlen == 0 for x in B[j:]):
                raise Unsupported("possibly empty atom")
            return False
        a, b = A[i], B[j]
        if isinstance(a, Atom) or isinstance(b, Atom):
            break
        f = e_eq(a, b)
        if f is False:
            return False
        conj.append(f)
        i += 1
        j += 1
    if depth > 60:
        raise Unsupported("sequence comparison too deep")
    base = f_and(conj)
    if ctx().simp(base) is False:
        return False
    if isinstance(a, Atom) and isinstance(b, Atom):
        if a is b or a.key() == b.key():
            return f_and([base, seq_eq(A[i + 1:], B[j + 1:], prefix, depth + 1)])
        if type(a) is Enc and type(b) is Enc and a.codec == b.codec and a.t.same(b.t) and a.codec == "utf-8":
            dis = a.safe.diff(b.safe).union(b.safe.diff(a.safe))
            if a.plus != b.plus:
                dis = dis.union(I.one(32))
            elif a.plus:
                dis = dis.diff(I.one(32))
            dis = dis.inter(I.ASCII)
            agree = f_and([base, f_not(a.t.isin(dis)), seq_eq(A[i + 1:], B[j + 1:], prefix, depth + 1)])
            fd = ctx().simp(f_and([base, a.t.isin(dis)]))
            if fd is False:
                return agree
            alt = []
            for g, el in a.alts():
                for g2, el2 in b.alts():
                    gg = ctx().simp(f_and([fd, g, g2]))
                    if gg is False:
                        continue
                    alt.append(f_and([gg, seq_eq(el + A[i + 1:], el2 + B[j + 1:], prefix, depth + 1)]))
            return f_or([agree] + alt)
        if type(a) is EncB and type(b) is EncB and a.codec == b.codec == "utf-8":
            # UTF-8 is a prefix code: equal strings iff equal code points here
            return f_and([base, e_eq(a.t, b.t), seq_eq(A[i + 1:], B[j + 1:], prefix, depth + 1)])
    if isinstance(a, Atom):
        if isinstance(a, Num) and isinstance(b, Num) and a.radix == b.radix and a.width == b.width and a.upper == b.upper \
                and _numeral_break(A[i + 1:], a.radix) and _numeral_break(B[j + 1:], a.radix) and not prefix:
            return f_and([base, e_eq(a.t, b.t), seq_eq(A[i + 1:], B[j + 1:], prefix, depth + 1)])
        outs = []
        rb = B[j:]
        mc = enc_match_const(a, B, j)
        if mc is not None:
            for f, k in mc:
                g = ctx().simp(f_and([base, f]))
                if g is not False:
                    outs.append(f_and([g, seq_eq(A[i + 1:], B[j + k:], prefix, depth + 1)]))
            return f_or(outs)
        for g, el in a.alts():
            g = ctx().simp(f_and([base, g]))
            if g is False:
                continue
            outs.append(f_and([g, seq_eq(el + A[i + 1:], rb, prefix, depth + 1)]))
        return f_or(outs)
    outs = []
    ra = A[i:]
    mc = enc_match_const(b, A, i) if not prefix else None
    if mc is not None:
        for f, k in mc:
            g = ctx().simp(f_and([base, f]))
            if g is not False:
                outs.append(f_and([g, seq_eq(A[i + k:], B[j + 1:], prefix, depth + 1)]))
        return f_or(outs)
    for g, el in b.alts():
        g = ctx().simp(f_and([base, g]))
        if g is False:
            continue
        outs.append(f_and([g, seq_eq(ra, el + B[j + 1:], prefix, depth + 1)]))
    return f_or(outs)


def _numeral_break(rest, radix):
    """the element after a numeral cannot be a digit"""
    if not rest:
        return True
    e = rest[0]
    digs = I.DIGIT if radix == 10 else I.HEX
    if isinstance(e, int):
        return not digs.has(e)
    if isinstance(e, Term):
        c = e.codom()
        return c is not None and c.disjoint(digs)
    return False


def seq_lt(A, B, orelse):
    """formula A < B lexicographically (no atoms); orelse when equal"""
    n = min(len(A), len(B))
    if len(A) < len(B):
        r = True
    elif len(A) > len(B):
        r = False
    else:
        r = orelse
    for i in range(n - 1, -1, -1):
        lt, eq = e_lt(A[i], B[i]), e_eq(A[i], B[i])
        r = f_or([lt, f_and([eq, r])])
    return r


class SymSeq:
    __slots__ = ("e",)
    __hash__ = object.__hash__

    def __init__(self, e):
        self.e = e

    # -- kind specific
    @classmethod
    def mk(cls, elems):
        raise NotImplementedError

    @classmethod
    def lift(cls, x):
        """elements of a concrete or symbolic value of this kind, else None"""
        raise NotImplementedError

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # -- structure
    def has_atoms(self):
        return any(isinstance(x, Atom) for x in self.e)

    def flat(self):
        """expand all atoms (forks)"""
        if not self.has_atoms():
            return self.e
        out = []
        for x in self.e:
            if isinstance(x, Atom):
                out.extend(_flat_atom(x))
            else:
                out.append(x)
        e = tuple(out)
        return e

    def minlen(self):
        return sum(x.minlen if isinstance(x, Atom) else 1 for x in self.e)

    def nonempty(self):
        if self.minlen() > 0:
            return True
        if not self.e:
            return False
        raise Unsupported("possibly empty atom")

    def __bool__(self):
        return bool(self.nonempty())

    def length(self):
        """int or SymInt"""
        n = 0
        extra = []
        for x in self.e:
            if isinstance(x, Atom):
                r = ctx().expansions.get(id(x)) if ctx().local is None else None
                if r is not None:
                    n += len(_flat_seq(r[1]))
                else:
                    extra.append(x)
            else:
                n += 1
        for x in extra:
            ln = None
            ls = set()
            al = x.lens() if isinstance(x, Enc) and x.codec == "utf-8" and isinstance(x.t, Term) else [
                (g, len(_flat_seq(el))) for g, el in x.alts()]
            for g, k in reversed(al):
                ls.add(k)
                ln = k if ln is None else t_ite(g, k, ln)
            n = mkint(ln) + n if not isinstance(ln, int) else n + ln
        return n

    def __len__(self):
        n = self.length()
        return n if isinstance(n, int) else n.__index__()

    def __iter__(self):
        for x in self.e:
            if isinstance(x, Atom):
                for y in _flat_atom(x):
                    yield self.item(y)
            else:
                yield self.item(x)

    def __reversed__(self):
        for x in reversed(self.flat()):
            yield self.item(x)

    def __getitem__(self, k):
        k = force(k)
        if isinstance(k, slice):
            lo, hi, st = k.start, k.stop, k.step
            lo = None if lo is None else idx(force(lo))
            hi = None if hi is None else idx(force(hi))
            st = None if st is None else idx(force(st))
            if not self.has_atoms():
                return self.mk(self.e[lo:hi:st])
            if (st is None or st == 1):
                if (lo is None or lo >= 0) and (hi is None or hi >= 0):
                    return self.mk(self._slice(lo or 0, hi))
                if (lo is None or lo == 0) and hi is not None and hi < 0:
                    return self.mk(self._dropr(-hi))
                if hi is None and lo is not None and lo < 0:
                    return self.mk(self._keepr(-lo))
            return self.mk(self.flat()[lo:hi:st])
        if not isinstance(k, (int, SymInt, SymBool)):
            raise TypeError("string indices must be integers")
        k = idx(k)
        if not self.has_atoms():
            return self.item(self.e[k])
        if k >= 0:
            s = self._slice(k, k + 1)
            if not s:
                raise IndexError("string index out of range")
            return self.item(s[0])
        s = self._keepr(-k)
        n = len(s)
        if n < -k:
            raise IndexError("string index out of range")
        return self.item(_flat_seq(s[:1])[0] if isinstance(s[0], Atom) else s[0])

    def _slice(self, lo, hi):
        """lo, hi >= 0"""
        out = []
        pos = 0
        e = list(self.e)
        i = 0
        while i < len(e):
            x = e[i]
            if hi is not None and pos >= hi:
                break
            if isinstance(x, Atom):
                if pos >= lo and hi is None:
                    out.append(x)
                    i += 1
                    continue
                e[i:i + 1] = list(_flat_atom(x))
                continue
            if pos >= lo:
                out.append(x)
            pos += 1
            i += 1
        return tuple(out)

    def _dropr(self, n):
        e = list(self.e)
        while n > 0 and e:
            x = e.pop()
            if isinstance(x, Atom):
                e.extend(_flat_atom(x))
                continue
            n -= 1
        return tuple(e)

    def _keepr(self, n):
        e = list(self.e)
        out = []
        while n > 0 and e:
            x = e.pop()
            if isinstance(x, Atom):
                e.extend(_flat_atom(x))
                continue
            out.append(x)
            n -= 1
        return tuple(reversed(out))

    def __add__(self, o):
        o = force(o)
        x = self.lift(o)
        if x is None:
            return NotImplemented
        return self.mk(self.e + x)

    def __radd__(self, o):
        o = force(o)
        x = self.lift(o)
        if x is None:
            return NotImplemented
        return self.mk(x + self.e)

    def __mul__(self, n):
        return self.mk(self.e * idx(n))
    __rmul__ = __mul__

    # -- comparison
    def eq_f(self, o):
        x = self.lift(force(o))
        if x is None:
            return None
        return seq_eq(self.e, x)

    def __eq__(self, o):
        f = self.eq_f(o)
        if f is None:
            o = force(o)
            if isinstance(o, (int, float, type(None), tuple, list, dict, bytes, str, SymInt, SymSeq)):
                return False
            return NotImplemented
        return mkbool(f)

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def _order(self, o, orelse, swap):
        x = self.lift(force(o))
        if x is None:
            return NotImplemented
        a = self.flat()
        b = x
        if any(isinstance(y, Atom) for y in x):
            b = _flat_seq(x)
        return mkbool(seq_lt(b, a, orelse) if swap else seq_lt(a, b, orelse))

    def __lt__(self, o):
        return self._order(o, False, False)

    def __le__(self, o):
        return self._order(o, True, False)

    def __gt__(self, o):
        return self._order(o, False, True)

    def __ge__(self, o):
        return self._order(o, True, True)

    # -- searching
    def contains_elem(self, f_of):
        """OR over elements of f_of(element) ; atoms by alternatives"""
        out = []
        for x in self.e:
            if isinstance(x, Atom):
                for g, el in x.alts():
                    for y in _flat_seq(el):
                        r = f_of(y)
                        if r is not False:
                            out.append(f_and([g, r]))
            else:
                r = f_of(x)
                if r is True:
                    return True
                if r is not False:
                    out.append(r)
        return f_or(out)

    def contains(self, sub):
        """formula"""
        p = self.lift(force(sub))
        if p is None:
            if isinstance(self, SymBytes) and isinstance(sub, (int, SymInt)):
                st = toterm(sub)
                return self.contains_elem(lambda y: e_eq(y, st))
            raise TypeError("'in <string>' requires string as left operand")
        if len(p) == 0:
            return True
        if len(p) == 1 and not isinstance(p[0], Atom):
            return self.contains_elem(lambda y: e_eq(y, p[0]))
        a = self.flat()
        p = _flat_seq(p)
        out = []
        for i in range(len(a) - len(p) + 1):
            out.append(f_and([e_eq(x, y) for x, y in zip(a[i:], p)]))
        return f_or(out)

    def __contains__(self, o):
        return bool(mkbool(self.contains(o)))

    def startswith(self, p, start=None, end=None):
        if start is not None or end is not None:
            return self.__getitem__(slice(start, end)).startswith(p)
        p = force(p)
        if isinstance(p, tuple):
            return mkbool(f_or([fb(self.startswith(x)) for x in p]))
        x = self.lift(p)
        if x is None:
            raise TypeError("startswith first arg must be str")
        return mkbool(seq_eq(self.e, x, prefix=True))

    def endswith(self, p, start=None, end=None):
        if start is not None or end is not None:
            return self.__getitem__(slice(start, end)).endswith(p)
        p = force(p)
        if isinstance(p, tuple):
            return mkbool(f_or([fb(self.endswith(x)) for x in p]))
        x = self.lift(p)
        if x is None:
            raise TypeError("endswith first arg must be str")
        if not x:
            return True
        if not self.has_atoms() and not any(isinstance(y, Atom) for y in x):
            if len(x) > len(self.e):
                return False
            return mkbool(f_and([e_eq(u, v) for u, v in zip(self.e[len(self.e) - len(x):], x)]))
        x = _flat_seq(x)
        t = self._keepr(len(x))
        if len(t) < len(x):
            return False
        return mkbool(f_and([e_eq(u, v) for u, v in zip(t, x)]))

    def _split_ready(self, p):
        """elements with every atom that may overlap the separator expanded"""
        if not self.has_atoms():
            return self.e
        if len(p) == 1 and isinstance(p[0], int):
            ch = p[0]
            out = []
            for x in self.e:
                if isinstance(x, Atom):
                    k = ctx().expansions.get(id(x)) if ctx().local is None else None
                    if k is not None:
                        out.extend(_flat_seq(k[1]))
                        continue
                    f = f_or([f_and([g] + [f_or([e_eq(y, ch) for y in _flat_seq(el)])]) for g, el in x.alts()])
                    if ctx().branch(f):
                        out.extend(_flat_atom(x))
                    else:
                        out.append(x)
                else:
                    out.append(x)
            return tuple(out)
        return self.flat()

    def _match_at(self, a, i, p):
        """fork: does p occur at i (elements)"""
        if i + len(p) > len(a):
            return False
        f = []
        for x, y in zip(a[i:], p):
            if isinstance(x, Atom):
                return False       # ruled out by _split_ready
            f.append(e_eq(x, y))
        return ctx().branch(f_and(f))

    def _sep(self, p):
        x = self.lift(force(p))
        if x is None:
            raise TypeError("must be str")
        return _flat_seq(x)

    def find(self, p, start=0, end=None):
        p = self._sep(p)
        start = 0 if start is None else idx(start)
        a = self.e if not self.has_atoms() else self.flat()
        n = len(a) if end is None else slice(None, idx(end)).indices(len(a))[1]
        start = slice(start, None).indices(len(a))[0]
        for i in range(start, n - len(p) + 1):
            if self._match_at(a, i, p):
                return i
        return -1

    def rfind(self, p, start=0, end=None):
        p = self._sep(p)
        a = self.flat()
        n = len(a) if end is None else slice(None, idx(end)).indices(len(a))[1]
        start = slice(idx(start or 0), None).indices(len(a))[0]
        for i in range(n - len(p), start - 1, -1):
            if self._match_at(a, i, p):
                return i
        return -1

    def index(self, *a):
        r = self.find(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, *a):
        r = self.rfind(*a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, p, *rest):
        p = self._sep(p)
        if len(p) == 1 and not rest:
            tot = 0
            for x in self.flat():
                f = e_eq(x, p[0])
                tot = tot + int_(mkbool(f))
            return tot
        n = 0
        a = self.__getitem__(slice(*rest)).flat() if rest else self.flat()
        i = 0
        while i + len(p) <= len(a):
            if self._match_at(a, i, p):
                n += 1
                i += len(p) or 1
            else:
                i += 1
        return n

    def split(self, sep=None, maxsplit=-1):
        maxsplit = idx(maxsplit)
        if sep is None:
            return self._split_ws(maxsplit)
        p = self._sep(sep)
        if not p:
            raise ValueError("empty separator")
        a = self._split_ready(p)
        out = []
        cur = []
        i = 0
        while i < len(a):
            if maxsplit != 0 and not isinstance(a[i], Atom) and self._match_at(a, i, p):
                out.append(self.mk(tuple(cur)))
                cur = []
                i += len(p)
                maxsplit -= 1
            else:
                cur.append(a[i])
                i += 1
        out.append(self.mk(tuple(cur)))
        return out

    def _split_ws(self, maxsplit):
        ws = self.WS
        a = self.flat()
        out = []
        cur = []
        i = 0
        while i < len(a):
            if ctx().branch(e_in(a[i], ws)):
                if cur:
                    out.append(self.mk(tuple(cur)))
                    cur = []
            else:
                if not cur and maxsplit == len(out):
                    rest = list(a[i:])
                    while rest and ctx().branch(e_in(rest[-1], ws)):
                        rest.pop()
                    out.append(self.mk(tuple(rest)))
                    return out
                cur.append(a[i])
            i += 1
        if cur:
            out.append(self.mk(tuple(cur)))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = idx(maxsplit)
        if sep is None or maxsplit < 0:
            return self.split(sep, maxsplit)
        p = self._sep(sep)
        a = self.flat()
        out = []
        end = len(a)
        i = len(a) - len(p)
        while i >= 0 and maxsplit != 0:
            if self._match_at(a[:end], i, p):
                out.append(self.mk(a[i + len(p):end]))
                end = i
                i -= len(p)
                maxsplit -= 1
            else:
                i -= 1
        out.append(self.mk(a[:end]))
        out.reverse()
        return out

    def partition(self, sep):
        r = self.split(sep, 1)
        if len(r) == 1:
            e = self.mk(())
            return (r[0], e, e)
        return (r[0], force(sep), r[1])

    def rpartition(self, sep):
        r = self.rsplit(sep, 1)
        if len(r) == 1:
            e = self.mk(())
            return (e, e, r[0])
        return (r[0], force(sep), r[1])

    def replace(self, old, new, count=-1):
        count = idx(count)
        p = self._sep(old)
        n = self.lift(force(new))
        if n is None:
            raise TypeError("replace() argument 2 must be str")
        if not p:
            raise Unsupported("replace of empty string")
        p, n = tuple(p), tuple(n)
        if p == n and all(isinstance(y, int) for y in p):
            return self
        if count < 0 and len(p) == 1 and isinstance(p[0], int) and len(n) == 1 and isinstance(n[0], int):
            out = []
            for x in self.e:
                if isinstance(x, int):
                    out.append(n[0] if x == p[0] else x)
                elif isinstance(x, Term):
                    k = p[0]
                    out.append(x.map(((-INF, k - 1, 1, 0), (k, k, 0, n[0]), (k + 1, INF, 1, 0))))
                else:
                    y = _replace_atom(x, p[0], n[0])
                    if y is not None:
                        out.append(y)
                    else:
                        for z in _flat_atom(x):
                            if isinstance(z, int):
                                out.append(n[0] if z == p[0] else z)
                            else:
                                k = p[0]
                                out.append(z.map(((-INF, k - 1, 1, 0), (k, k, 0, n[0]), (k + 1, INF, 1, 0))))
            return self.mk(tuple(out))
        if count < 0 and len(p) == 1 and isinstance(p[0], int) and all(isinstance(y, int) for y in n):
            k = p[0]
            pct = tuple(map(ord, "%%%02X" % k)) == tuple(n)
            out = []
            todo = list(reversed(self.e))
            while todo:
                x = todo.pop()
                if isinstance(x, int):
                    if x == k:
                        out.extend(n)
                    else:
                        out.append(x)
                elif isinstance(x, Term):
                    if ctx().branch(e_in(x, I.one(k))):
                        out.extend(n)
                    else:
                        out.append(x)
                elif isinstance(x, (Enc, EncByte)) and k != 37 and not I.HEX.has(k) and k not in (32, 43) and (
                        pct or not x.safe.has(k)):
                    if not x.safe.has(k):
                        out.append(x)
                    elif isinstance(x, Enc):
                        out.append(Enc(x.t, x.safe.diff(I.one(k)), x.plus, x.codec))
                    else:
                        out.append(EncByte(x.b, x.safe.diff(I.one(k)), x.plus))
                elif isinstance(x, Num) and not I.HEX.has(k):
                    out.append(x)
                else:
                    todo.extend(reversed(_flat_atom(x)))
            return self.mk(tuple(out))
        a = self._split_ready(p)
        out = []
        i = 0
        while i < len(a):
            if count != 0 and not isinstance(a[i], Atom) and self._match_at(a, i, p):
                out.extend(n)
                i += len(p)
                count -= 1
            else:
                out.append(a[i])
                i += 1
        return self.mk(tuple(out))

    def _stripset(self, chars):
        if chars is None:
            return self.WS
        c = self.lift(force(chars))
        c = _flat_seq(c)
        if any(not isinstance(x, int) for x in c):
            c = [idx(mkint(x)) if isinstance(x, Term) else x for x in c]
        return I.ints(c)

    def lstrip(self, chars=None):
        s = self._stripset(chars)
        e = list(self.e)
        while e:
            x = e[0]
            if isinstance(x, Atom):
                fst = f_or([f_and([g, e_in(_flat_seq(el)[0], s)]) for g, el in x.alts()])
                if not ctx().branch(fst):
                    break
                e[0:1] = list(_flat_atom(x))
                continue
            if ctx().branch(e_in(x, s)):
                del e[0]
            else:
                break
        return self.mk(tuple(e))

    def rstrip(self, chars=None):
        s = self._stripset(chars)
        e = list(self.e)
        while e:
            x = e[-1]
            if isinstance(x, Atom):
                fst = f_or([f_and([g, e_in(_flat_seq(el)[-1], s)]) for g, el in x.alts()])
                if not ctx().branch(fst):
                    break
                e[-1:] = list(_flat_atom(x))
                continue
            if ctx().branch(e_in(x, s)):
                del e[-1]
            else:
                break
        return self.mk(tuple(e))

    def strip(self, chars=None):
        r = self.lstrip(chars)
        return r.rstrip(chars)

    def removeprefix(self, p):
        p2 = self._sep(p)
        if self.startswith(p):
            return self.__getitem__(slice(len(p2), None))
        return self

    def removesuffix(self, p):
        p2 = self._sep(p)
        if p2 and self.endswith(p):
            return self.__getitem__(slice(None, -len(p2)))
        return self

    def join(self, it):
        out = ()
        first = True
        from . import ops
        for x in ops.it(it):
            y = self.lift(force(x))
            if y is None:
                raise TypeError("sequence item: expected str instance")
            if not first:
                out += self.e
            out += y
            first = False
        return self.mk(out)

    def all_in(self, s):
        out = []
        for x in self.e:
            if isinstance(x, Atom):
                for g, el in x.alts():
                    out.append(f_or([f_not(g), f_and([e_in(y, s) for y in _flat_seq(el)])]))
            else:
                out.append(e_in(x, s))
        return f_and(out)

    def _case(self, pieces, special):
        out = []
        nm = [k for k in ("upper", "lower", "casefold") if pieces is case_tables()[k][0]][0]
        for k, x in enumerate(self.e):
            if not isinstance(x, Atom):
                out.extend(_case1(x, pieces, special, nm, self.e, k))
                continue
            if isinstance(x, (Enc, EncByte)):
                out.append(Cased(x, pieces is not case_tables()["upper"][0]))
            elif isinstance(x, Cased):
                out.append(Cased(x.a, pieces is not case_tables()["upper"][0]))
            elif isinstance(x, Num) and (x.radix == 10 or pieces is not case_tables()["upper"][0]):
                out.append(Num(x.t, x.radix, False, x.width))
            elif isinstance(x, Atom):
                for y in _flat_atom(x):
                    out.extend(_case1(y, pieces, special, nm, None, 0))
        return self.mk(tuple(out))


_ASC_LOW = ((-INF, 64, 1, 0), (65, 90, 1, 32), (91, INF, 1, 0))
_ASC_UP = ((-INF, 96, 1, 0), (97, 122, 1, -32), (123, INF, 1, 0))


def _case1(x, pieces, special, nm, seq, k):
    if isinstance(x, Term):
        cd = x.codom()
        if cd is not None and cd.subset(I.ASCII):
            return [x.map(_ASC_UP if nm == "upper" else _ASC_LOW)]
        if special.r and not ctx().branch(f_not(x.isin(special))):
            x = ctx().concretise(x, "special casing")
        else:
            return [x.map(pieces)]
    if nm == "lower" and x == 0x3A3:
        if seq is None:
            raise Unsupported("special casing")
        return [0x3C2 if _final_sigma(seq, k) else 0x3C3]
    return [ord(ch) for ch in getattr(chr(x), nm)()]


_SIG = None


def _final_sigma(seq, k):
    """CPython's rule: preceded by a cased character and not followed by one (case-ignorable ones are skipped)"""
    global _SIG
    if _SIG is None:
        cased, ign = [], []
        for cp in range(0x110000):
            if cp == 0x3A3:
                cased.append(cp)
                continue
            if (chr(cp) + "\u03a3").lower()[-1] == "\u03c2":
                cased.append(cp)
            elif ("A" + chr(cp) + "\u03a3").lower()[-1] == "\u03c2":
                ign.append(cp)
        _SIG = (I.ints(cased), I.ints(ign))
    cased, ign = _SIG

    def scan(js):
        for j in js:
            y = seq[j]
            if isinstance(y, Atom):
                raise Unsupported("special casing")
            if ctx().branch(e_in(y, ign)):
                continue
            return ctx().branch(e_in(y, cased))
        return None
    if not scan(range(k - 1, -1, -1)):
        return False
    return not scan(range(k + 1, len(seq)))


def _replace_atom(x, a, b):
    if isinstance(x, EncB) and x.codec == "utf-8" and a < 128 and b < 128:
        t = x.t.map(((-INF, a - 1, 1, 0), (a, a, 0, b), (a + 1, INF, 1, 0)))
        return EncB(t, "utf-8")
    if isinstance(x, Enc) and x.codec == "utf-8":
        if a == 32 and b == 43:
            if x.safe.has(32) and not x.plus:
                return Enc(x.t, x.safe.diff(I.one(32)), True, x.codec)
            if not x.safe.has(32):
                return x
    if isinstance(x, Num) and not I.HEX.has(a):
        return x
    return None


def _flat_atom(x):
    return _flat_seq(x.expand())


def _flat_seq(el):
    if not any(isinstance(y, Atom) for y in el):
        return el
    out = []
    for y in el:
        if isinstance(y, Atom):
            out.extend(_flat_atom(y))
        else:
            out.append(y)
    return tuple(out)


def _norm_elems(elems):
    out = []
    allint = True
    for x in elems:
        if type(x) is int:
            out.append(x)
            continue
        if isinstance(x, Term):
            v = x.value()
            if v is not None:
                out.append(v)
                continue
            allint = False
            out.append(x)
        else:
            if isinstance(x, Cased):
                inner, _ = _norm_elems((x.a,))
                if len(inner) == 1 and isinstance(inner[0], Atom):
                    allint = False
                    out.append(x)
                    continue
                m = _ASC_LOW if x.low else _ASC_UP
                for y in inner:
                    if type(y) is int:
                        out.append(ord(chr(y).lower() if x.low else chr(y).upper()) if y < 128 else y)
                    else:
                        out.append(y.map(m))
                        allint = False
                continue
            if not isinstance(x, Opaque):
                t = x.b if isinstance(x, EncByte) else x.t
                v = t.value()
                if v is not None:
                    r = _concrete_atom(x, v)
                    if r is not None:
                        out.extend(r)
                        continue
                if isinstance(x, EncB) and x.codec == "utf-8":
                    c = t.codom()
                    if c is not None and c.subset(I.ASCII):
                        out.append(t)
                        allint = False
                        continue
                if isinstance(x, Enc) and not x.plus and x.codec == "utf-8":
                    c = t.codom()
                    if c is not None and c.subset(x.safe.inter(I.ASCII)):
                        out.append(t)
                        allint = False
                        continue
            allint = False
            out.append(x)
    return out, allint


def _concrete_atom(x, v):
    if isinstance(x, EncB):
        try:
            return tuple(chr(v).encode(x.codec, "surrogatepass" if x.codec.startswith("utf-16") else "strict"))
        except UnicodeEncodeError:
            return None
    if isinstance(x, Enc):
        try:
            bs = chr(v).encode(x.codec)
        except UnicodeEncodeError:
            return None
        out = []
        for b in bs:
            if x.plus and b == 32:
                out.append(43)
            elif x.safe.has(b):
                out.append(b)
            else:
                out.extend(b"%%%02X" % b)
        return out
    if isinstance(x, EncByte):
        if x.plus and v == 32:
            return [43]
        if x.safe.has(v):
            return [v]
        return list(b"%%%02X" % v)
    if isinstance(x, Num):
        if v < 0:
            return None
        s = str(v) if x.radix == 10 else ("%X" if x.upper else "%x") % v
        return [ord(ch) for ch in s.rjust(x.width, "0")]
    return None


class SymStr(SymSeq):
    __slots__ = ()

    @classmethod
    def mk(cls, elems):
        out, allint = _norm_elems(elems)
        if allint:
            return "".join(map(chr, out))
        return SymStr(tuple(out))

    @classmethod
    def lift(cls, x):
        if isinstance(x, str):
            return tuple(map(ord, x))
        if isinstance(x, SymStr):
            return x.e
        return None

    def item(self, x):
        if isinstance(x, int):
            return chr(x)
        v = x.value()
        return chr(v) if v is not None else SymStr((x,))

    def __repr__(self):
        return "<SymStr %s>" % "".join(chr(x) if isinstance(x, int) else "{%r}" % (x if isinstance(x, Term) else type(x).__name__) for x in self.e)

    def __str__(self):
        raise Unsupported("native str() of a symbolic string")

    def __format__(self, spec):
        raise Unsupported("native format of a symbolic string")

    def __mod__(self, args):
        from . import ops
        return ops.percent_format(self, args)

    def lower(self):
        p, s = case_tables()["lower"]
        return self._case(p, s)

    def upper(self):
        p, s = case_tables()["upper"]
        return self._case(p, s)

    def casefold(self):
        p, s = case_tables()["casefold"]
        return self._case(p, s)

    def _is(self, name, empty=False):
        if not self.e:
            return empty
        return mkbool(self.all_in(char_pred(name)))

    def isdigit(self):
        return self._is("isdigit")

    def isdecimal(self):
        return self._is("isdecimal")

    def isnumeric(self):
        return self._is("isnumeric")

    def isalpha(self):
        return self._is("isalpha")

    def isalnum(self):
        return self._is("isalnum")

    def isspace(self):
        return self._is("isspace")

    def isprintable(self):
        return self._is("isprintable", True)

    def isascii(self):
        return mkbool(self.all_in(I.ASCII))

    def islower(self):
        lo, up = char_pred("islower"), char_pred("isupper")
        return mkbool(f_and([self.contains_elem(lambda y: e_in(y, lo)), f_not(self.contains_elem(lambda y: e_in(y, up)))]))

    def isupper(self):
        lo, up = char_pred("islower"), char_pred("isupper")
        return mkbool(f_and([self.contains_elem(lambda y: e_in(y, up)), f_not(self.contains_elem(lambda y: e_in(y, lo)))]))

    def translate(self, table):
        keys = {}
        out = []
        for k, v in (table.items() if isinstance(table, dict) else enumerate(table)):
            keys[k] = v
        single = {k: (v if isinstance(v, int) else ord(v)) for k, v in keys.items()
                  if isinstance(k, int) and (isinstance(v, int) or (isinstance(v, str) and len(v) == 1))}
        pcs = None
        if single and len(single) == len(keys):
            pcs, nxt = [], 0
            for k in sorted(single):
                if k > nxt:
                    pcs.append((nxt, k - 1, 1, 0))
                pcs.append((k, k, 0, single[k]))
                nxt = k + 1
            pcs.append((nxt, 0x10FFFF, 1, 0))
            pcs = tuple(pcs)
        for x in self.flat():
            if pcs is not None and not isinstance(x, int):
                out.append(x.map(pcs))
                continue
            if isinstance(x, int):
                if x in keys:
                    v = keys[x]
                    if v is None:
                        continue
                    out.extend((v,) if isinstance(v, int) else map(ord, v))
                else:
                    out.append(x)
                continue
            done = False
            for k, v in keys.items():
                if ctx().branch(x.isin(I.one(k))):
                    if v is not None:
                        out.extend((v,) if isinstance(v, int) else map(ord, v))
                    done = True
                    break
            if not done:
                out.append(x)
        return SymStr.mk(tuple(out))

    def encode(self, encoding="utf-8", errors="strict"):
        from . import ops
        return ops.str_encode(self, encoding, errors)

    def format(self, *a, **k):
        from . import ops
        return ops.str_format(self, a, k)

    def splitlines(self, keepends=False):
        raise Unsupported("splitlines")

    def zfill(self, n):
        a = self.flat()
        n = idx(n)
        if len(a) >= n:
            return self
        return SymStr.mk((48,) * (n - len(a)) + a)

    def rjust(self, n, c=" "):
        a = self.flat()
        return SymStr.mk(self.lift(c) * max(0, idx(n) - len(a)) + a)

    def ljust(self, n, c=" "):
        a = self.flat()
        return SymStr.mk(a + self.lift(c) * max(0, idx(n) - len(a)))


class SymBytes(SymSeq):
    __slots__ = ()

    @classmethod
    def mk(cls, elems):
        out, allint = _norm_elems(elems)
        if allint:
            return bytes(out)
        return SymBytes(tuple(out))

    @classmethod
    def lift(cls, x):
        if isinstance(x, (bytes, bytearray)):
            return tuple(x)
        if isinstance(x, SymBytes):
            return x.e
        return None

    def item(self, x):
        return x if isinstance(x, int) else mkint(x)

    def __repr__(self):
        return "<SymBytes %d>" % len(self.e)

    def decode(self, encoding="utf-8", errors="strict"):
        from . import ops
        return ops.bytes_decode(self, encoding, errors)

    def lower(self):
        return self._case(((-INF, 64, 1, 0), (65, 90, 1, 32), (91, INF, 1, 0)), I.EMPTY)

    def upper(self):
        return self._case(((-INF, 96, 1, 0), (97, 122, 1, -32), (123, INF, 1, 0)), I.EMPTY)

    def isdigit(self):
        return mkbool(self.all_in(I.DIGIT)) if self.e else False

    def isalpha(self):
        return mkbool(self.all_in(I.ALPHA)) if self.e else False

    def isalnum(self):
        return mkbool(self.all_in(I.ALPHA.union(I.DIGIT))) if self.e else False

    def isascii(self):
        return mkbool(self.all_in(I.ASCII))

    def hex(self):
        out = ()
        for b in self.flat():
            out += tuple(hexpair(b, False))
        return SymStr.mk(out)

    def translate(self, table, delete=b""):
        t = table
        out = []
        for x in self.flat():
            if delete and ctx().branch(e_in(x, I.ints(delete))):
                continue
            if t is None:
                out.append(x)
            elif isinstance(x, int):
                out.append(t[x])
            else:
                out.append(x.map(_table_pieces(bytes(t))))
        return SymBytes.mk(tuple(out))


@functools.lru_cache(maxsize=256)
def _table_pieces(t):
    """a 256-byte translation table as maximal pieces of constant offset (or constant value)"""
    out, i = [], 0
    while i < 256:
        j = i
        while j + 1 < 256 and t[j + 1] - t[i] == j + 1 - i:
            j += 1
        k = i
        while k + 1 < 256 and t[k + 1] == t[i]:
            k += 1
        if k > j:
            out.append((i, k, 0, t[i]))
            i = k + 1
        else:
            out.append((i, j, 1, t[i] - i))
            i = j + 1
    return tuple(out)


SymBytes.WS = I.chars(" \t\n\r\x0b\x0c")
_CP = {}
_CASE = None


def char_pred(name):
    r = _CP.get(name)
    if r is None:
        out = []
        f = getattr(str, name)
        start = None
        for cp in range(0x110000):
            if f(chr(cp)):
                if start is None:
                    start = cp
            elif start is not None:
                out.append((start, cp - 1))
                start = None
        if start is not None:
            out.append((start, 0x10FFFF))
        r = _CP[name] = ISet(tuple(out))
    return r


class _WS:
    def __get__(self, o, t):
        return char_pred("isspace")


SymStr.WS = _WS()


def case_tables():
    global _CASE
    if _CASE is None:
        _CASE = {}
        for name in ("lower", "upper", "casefold"):
            f = getattr(str, name)
            pcs = []
            special = []
            for cp in range(0x110000):
                s = f(chr(cp))
                if len(s) != 1 or (name == "lower" and cp == 0x3A3):
                    special.append(cp)
                    d = 0
                else:
                    d = ord(s) - cp
                if pcs and pcs[-1][3] == d:
                    pcs[-1] = (pcs[-1][0], cp, 1, d)
                else:
                    pcs.append((cp, cp, 1, d))
            pcs[0] = (-INF,) + pcs[0][1:]
            pcs[-1] = (pcs[-1][0], INF) + pcs[-1][2:]
            _CASE[name] = (tuple(pcs), I.ints(special))
    return _CASE


def mkstr(elems):
    return SymStr.mk(elems)


def issym(x):
    return isinstance(x, (SymSeq, SymInt, SymBool, Phi, SymFlags))


def deepsym(x, d=0):
    if issym(x):
        return True
    if d > 4:
        return False
    if isinstance(x, (list, tuple, set, frozenset)):
        return any(deepsym(y, d + 1) for y in x)
    if isinstance(x, dict):
        return any(deepsym(k, d + 1) or deepsym(v, d + 1) for k, v in x.items())
    return False
