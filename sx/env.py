"""Stand-ins for the environment of the code under test: logging, ICU."""
import functools
import logging
import types
import icupy.icu as icu
from . import core as C
from . import iset as I
from . import ops
from . import vals as V
from .core import Term, f_and, f_or, f_not, Unsupported
from .rex import ReProxy
from .vals import SymStr, mkbool, mkint, e_in, e_eq, mkflags, SymBool, force, mkstr

__sx__ = True


def ctx():
    return C.CTX


# ------------------------------------------------------------ logging
class FakeLogger:
    def __init__(self, name, level=0):
        self.name = name
        self.level = level
        self.handlers = []
        self.propagate = True
        self.disabled = False

    def _noop(self, *a, **k):
        return None

    def _record(level):
        def emit(self, msg, *args, **k):
            c = C.CTX
            if c is not None and c.logs is not None:
                n = k.keys() - {"stacklevel", "exc_info", "extra", "stack_info"}
                if n:
                    raise TypeError("unexpected keyword argument %r" % sorted(n)[0])
                c.logs.append([level, self.name, ops.mod(msg, args) if args else msg])
        return emit
    debug, info, warning = _record("DEBUG"), _record("INFO"), _record("WARNING")
    error, critical, exception = _record("ERROR"), _record("CRITICAL"), _record("ERROR")
    del _record
    log = _noop
    addHandler = removeHandler = setLevel = _noop

    def isEnabledFor(self, level):
        return level >= logging.WARNING

    def getEffectiveLevel(self):
        return logging.WARNING


class FakeLogging:
    __name__ = "logging"

    def __init__(self):
        self.cls = FakeLogger
        self.reg = {}

    def __getattr__(self, n):
        return getattr(logging, n)

    Logger = FakeLogger

    def getLoggerClass(self):
        return self.cls

    def setLoggerClass(self, c):
        self.cls = c

    def getLogger(self, name=None):
        k = name
        if k not in self.reg or not isinstance(self.reg[k], self.cls):
            self.reg[k] = self.cls(name)
        return self.reg[k]


class FakeFunctools:
    __name__ = "functools"

    def __getattr__(self, n):
        return getattr(functools, n)

    lru_cache = staticmethod(ops.lru_cache_)
    cache = staticmethod(ops.cache_)


# ------------------------------------------------------------ ICU
class FakeUS:
    """icu.UnicodeString"""
    __hash__ = None

    def __init__(self, s="", n=None):
        s = force(s)
        if isinstance(s, FakeUS):
            s = s.s
        if n is not None:
            s = cut16(s, n)
        self.s = s

    def __str__(self):
        return self.s

    def _ranks(self):
        e = SymStr.lift(self.s)
        e = V._flat_seq(e)
        out = []
        for x in e:
            if isinstance(x, int):
                if 0xD800 <= x < 0xE000:
                    raise Unsupported("surrogate in UnicodeString order")
                out.append(x + 0x110000 if 0xE000 <= x <= 0xFFFF else x)
            else:
                if not ctx().branch(f_not(x.isin(I.SURR))):
                    raise Unsupported("surrogate in UnicodeString order")
                out.append(x.map(((-V.INF, 0xDFFF, 1, 0), (0xE000, 0xFFFF, 1, 0x110000), (0x10000, V.INF, 1, 0))))
        return tuple(out)

    def _ord(self, o, orelse, swap):
        if not isinstance(o, FakeUS):
            return NotImplemented
        a, b = self._ranks(), o._ranks()
        if swap:
            a, b = b, a
        return mkbool(V.seq_lt(a, b, orelse))

    def __lt__(self, o):
        return self._ord(o, False, False)

    def __le__(self, o):
        return self._ord(o, True, False)

    def __gt__(self, o):
        return self._ord(o, False, True)

    def __ge__(self, o):
        return self._ord(o, True, True)

    def __eq__(self, o):
        if isinstance(o, FakeUS):
            return self.s == o.s
        return self.s == o

    def __ne__(self, o):
        return ops.not_(self.__eq__(o))

    def __len__(self):
        return idx16(self.s)

    def length(self):
        return u16len(self.s)

    def __getattr__(self, n):
        raise Unsupported("UnicodeString.%s" % n)


def u16len(s):
    n = 0
    for x in V._flat_seq(SymStr.lift(s)):
        if isinstance(x, int):
            n = n + (2 if x > 0xFFFF else 1)
        else:
            n = n + mkint(V.t_ite(x.isin(I.ranges((0, 0xFFFF))), 1, 2))
    return n


def idx16(s):
    n = u16len(s)
    return n if isinstance(n, int) else n.__index__()


def cut16(s, n):
    """the first n UTF-16 code units of s"""
    n = force(n)
    tot = u16len(s)
    eq = n == tot
    if bool(eq):
        return s
    if not bool(n < tot):
        raise Unsupported("UnicodeString longer than its text")
    if bool(n < 0):
        return s
    n = n if isinstance(n, int) else n.__index__()
    out = []
    for x in V._flat_seq(SymStr.lift(s)):
        if n <= 0:
            break
        big = x > 0xFFFF if isinstance(x, int) else ctx().branch(x.isin(I.ranges((0x10000, 0x10FFFF))))
        if big:
            if n == 1:
                raise Unsupported("UnicodeString cut inside a surrogate pair")
            n -= 2
        else:
            n -= 1
        out.append(x)
    return mkstr(tuple(out))


class FakeInfo:
    def __init__(self):
        self.err = 0

    def get_errors(self):
        return self.err

    def has_errors(self):
        return V.truth(self.err)

    def __getattr__(self, n):
        raise Unsupported("IDNAInfo.%s" % n)


BIT = {}
for _nm in dir(icu):
    if _nm.startswith("UIDNA_ERROR_"):
        BIT[_nm] = int(getattr(icu, _nm))
FULLW = I.ranges((0xFF01, 0xFF5E))
DOTS = I.ints([0x3002, 0xFF61])
MODELLED = I.ASCII.union(FULLW).union(DOTS).union(I.one(0xAD))
# code points every UTS #46 version rejects: C1 controls, private use, noncharacters, specials
DISALLOWED = I.ranges((0x80, 0x9F), (0xE000, 0xF8FF), (0xFDD0, 0xFDEF), (0xFFF9, 0xFFFF), (0xF0000, 0x10FFFF))
MODELLED_D = MODELLED.union(DISALLOWED)
MAP = ((-V.INF, 64, 1, 0), (65, 90, 1, 32), (91, 0x3001, 1, 0), (0x3002, 0x3002, 0, 46), (0x3003, 0xFF00, 1, 0),
       (0xFF01, 0xFF20, 1, -0xFEE0), (0xFF21, 0xFF3A, 1, -0xFEE0 + 32), (0xFF3B, 0xFF5E, 1, -0xFEE0),
       (0xFF5F, 0xFF60, 1, 0), (0xFF61, 0xFF61, 0, 46), (0xFF62, V.INF, 1, 0))
LDH = I.ALPHA.union(I.DIGIT).union(I.chars("-."))
STD3 = []
for _c in range(128):
    _p = (1, 0) if LDH.has(_c) else (0, 0xFFFD)
    if STD3 and STD3[-1][2:] == _p:
        STD3[-1] = (STD3[-1][0], _c) + _p
    else:
        STD3.append((_c, _c) + _p)
STD3[0] = (-V.INF,) + STD3[0][1:]
STD3 = tuple(STD3 + [(128, V.INF, 1, 0)])
WHY_IDNA = ("IDNA: only ASCII, fullwidth ASCII forms, ideographic/halfwidth full stops, U+00AD, C1 controls, private use, "
            "noncharacters and specials are symbolic in domains")
WHY_XN = "IDNA: labels starting with xn-- are outside the symbolic claim"


def uts46(s, options, ascii_):
    """UTS #46 processing restricted to the modelled code points"""
    c = ctx()
    std3 = bool(int(options) & int(icu.UIDNA_USE_STD3_RULES))
    out = []
    dis = []
    for x in V._flat_seq(SymStr.lift(s)):
        if isinstance(x, int):
            if DISALLOWED.has(x):
                out.append(0xFFFD)
                dis.append(True)
                continue
            if not MODELLED.has(x):
                c.require(False, WHY_IDNA)
            if x == 0xAD:
                continue
            for lo, hi, a, b in MAP:
                if lo <= x <= hi:
                    x = a * x + b
                    break
            if std3 and not LDH.has(x):
                dis.append(True)
                x = 0xFFFD
            out.append(x)
        else:
            c.require(x.isin(MODELLED_D), WHY_IDNA)
            if c.branch(x.isin(DISALLOWED)):
                out.append(0xFFFD)
                dis.append(True)
                continue
            if c.branch(x.isin(I.one(0xAD))):
                continue
            y = x.map(MAP)
            if std3:
                dis.append(f_not(y.isin(LDH)))
                y = y.map(STD3)
            out.append(y)
    # label boundaries are needed for length and xn-- checks
    n = len(out)
    starts = []
    for i in range(n):
        at = True if i == 0 else e_eq(out[i - 1], 46)
        if i + 4 <= n:
            f = f_and([at, e_eq(out[i], 120), e_eq(out[i + 1], 110), e_eq(out[i + 2], 45), e_eq(out[i + 3], 45)])
            if f is not False:
                c.require(f_not(f), WHY_XN)
    bits = {}

    def setbit(name, f):
        b = BIT["UIDNA_ERROR_" + name].bit_length() - 1
        bits[b] = f_or([bits.get(b, False), f])
    dots = [e_eq(x, 46) for x in out]
    if ascii_:
        # an empty label that is not the last one, or an empty domain
        em = []
        for i in range(n):
            prev = True if i == 0 else dots[i - 1]
            em.append(f_and([dots[i], prev]))
        if n == 0:
            em.append(True)
        setbit("EMPTY_LABEL", f_or(em))
        tl = []
        for i in range(n - 63):
            tl.append(f_and([f_not(d) for d in dots[i:i + 64]]))
        setbit("LABEL_TOO_LONG", f_or(tl))
        if n >= 254:
            setbit("DOMAIN_NAME_TOO_LONG", True if n > 254 else f_not(dots[-1]))
    if n:
        hy = [e_eq(x, 45) for x in out]
        lead, trail, h34 = [], [], []
        for i in range(n):
            prev = True if i == 0 else dots[i - 1]
            nxt = True if i == n - 1 else dots[i + 1]
            lead.append(f_and([hy[i], prev]))
            trail.append(f_and([hy[i], nxt]))
            if i + 3 < n:
                h34.append(f_and([prev, f_not(dots[i]), f_not(dots[i + 1]), hy[i + 2], hy[i + 3]]))
        setbit("LEADING_HYPHEN", f_or(lead))
        setbit("TRAILING_HYPHEN", f_or(trail))
        setbit("HYPHEN_3_4", f_or(h34))
    if dis:
        setbit("DISALLOWED", f_or(dis))
    return mkstr(tuple(out)), mkflags(bits)


class Nondet:
    """arbitrary ICU outcome chosen by the scenario (C11): (result, flags, raises)"""
    current = None
    seen = []


class FakeIDNA:
    @staticmethod
    def create_uts46_instance(options):
        return FakeUTS46(options)


class FakeUTS46:
    def __init__(self, options):
        self.options = options

    def _do(self, src, dest, info, ascii_):
        nd = Nondet.current
        if nd is not None:
            Nondet.seen.append((ascii_, self.options, src.s if isinstance(src, FakeUS) else src))
            res, flags, fail = nd
            info.err = flags
            if fail:
                raise icu.ICUError(icu.ErrorCode() if hasattr(icu, "ErrorCode") else 1)
            dest.s = res
            return dest
        s = src.s if isinstance(src, FakeUS) else force(src)
        if isinstance(s, str):
            inst = _inst(int(self.options))
            ii = icu.IDNAInfo()
            d = icu.UnicodeString()
            n = sum(2 if ch > "\uffff" else 1 for ch in s)
            (inst.name_to_ascii if ascii_ else inst.name_to_unicode)(icu.UnicodeString(s, n), d, ii)
            info.err = int(ii.get_errors())
            dest.s = str(d)
            return dest
        r, fl = uts46(s, self.options, ascii_)
        info.err = fl
        dest.s = r
        return dest

    def name_to_ascii(self, src, dest, info):
        return self._do(src, dest, info, True)

    def name_to_unicode(self, src, dest, info):
        return self._do(src, dest, info, False)

    def __getattr__(self, n):
        raise Unsupported("IDNA.%s" % n)


_INST = {}


def _inst(o):
    r = _INST.get(o)
    if r is None:
        r = _INST[o] = icu.IDNA.create_uts46_instance(o)
    return r


class FakeICU:
    __name__ = "icupy.icu"
    UnicodeString = FakeUS
    IDNAInfo = FakeInfo
    IDNA = FakeIDNA
    ICUError = icu.ICUError

    def __getattr__(self, n):
        v = getattr(icu, n)
        if n.startswith("UIDNA_"):
            return int(v)
        return v


def proxies():
    return {"re": ReProxy(), "logging": FakeLogging(), "functools": FakeFunctools(), "icupy.icu": FakeICU()}
