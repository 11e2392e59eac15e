"""Operations inserted by the instrumentation, and models of builtins."""
import builtins
import codecs
import copy
import re as _re
import string as _string
import types
import unicodedata
import urllib.parse as up
import z3
from . import core as C
from . import iset as I
from . import vals as V
from .core import Term, f_and, f_or, f_not, Unsupported, NeedFork
from .iset import ISet
from .vals import (SymBool, SymInt, SymStr, SymBytes, SymSeq, SymFlags, Phi, Atom, Enc, EncB, EncByte, Num, Opaque,
                   mkbool, mkint, mkstr, force, fb, e_eq, e_in, issym, idx, not_, truth, toterm, deepsym)

__sx__ = True
INF = V.INF


def ctx():
    return C.CTX


# ------------------------------------------------------------ boolean operators
def or_(*th):
    """a or b or c ...; th: thunks, with th[-1] possibly marked pure"""
    return _boolop(th, True)


def and_(*th):
    return _boolop(th, False)


def _boolop(th, is_or):
    """th = (pure_flag, thunk, thunk...)"""
    pure = th[0]
    ths = th[1:]
    n = len(ths)
    i = 0
    while i < n:
        v = force(ths[i]())
        if i == n - 1:
            return v
        t = truth(v)
        if not isinstance(t, SymBool):
            if bool(t) == is_or:
                return v
            i += 1
            continue
        # undecided symbolic condition
        if pure and isinstance(v, SymBool):
            acc = [v.f]
            c = ctx()
            c.nofork += 1
            ok = True
            try:
                for j in range(i + 1, n):
                    w = ths[j]()
                    if type(w) is Phi:
                        ok = False
                        break
                    if isinstance(w, SymBool):
                        acc.append(w.f)
                    elif isinstance(w, bool):
                        acc.append(w)
                        if w == is_or:
                            break
                    else:
                        if j == n - 1 or True:
                            ok = False
                            break
            except (NeedFork, Unsupported, Exception):
                ok = False
            finally:
                c.nofork -= 1
            if ok:
                return mkbool(f_or(acc) if is_or else f_and(acc))
        b = ctx().branch(t.f)
        if b == is_or:
            return True if isinstance(v, SymBool) and is_or else (False if isinstance(v, SymBool) else v)
        i += 1
    return v


def ifexp(pure, cond, a, b):
    v = force(cond())
    t = truth(v)
    if not isinstance(t, SymBool):
        return a() if t else b()
    if pure:
        c = ctx()
        c.nofork += 1
        r = None
        try:
            x, y = a(), b()
            r = _merge2(t.f, x, y)
        except (NeedFork, Unsupported, Exception):
            r = None
        finally:
            c.nofork -= 1
        if r is not None:
            return r[0]
    return a() if ctx().branch(t.f) else b()


def _merge2(f, x, y):
    if isinstance(x, (bool, SymBool)) and isinstance(y, (bool, SymBool)):
        return (mkbool(f_or([f_and([f, fb(x)]), f_and([f_not(f), fb(y)])])),)
    if isinstance(x, (int, SymInt)) and isinstance(y, (int, SymInt)) and not isinstance(x, bool) and not isinstance(y, bool):
        return (mkint(V.t_ite(f, toterm(x), toterm(y))),)
    return None


def merge_values(alts):
    """[(guard, value)] -> one value, or None"""
    v0 = alts[0][1]
    if all(type(v) is tuple and len(v) == len(v0) for _, v in alts) and type(v0) is tuple:
        out = []
        for i in range(len(v0)):
            out.append(merge_values([(g, v[i]) for g, v in alts]))
        return tuple(out)
    if all(isinstance(v, (bool, SymBool)) for _, v in alts):
        return mkbool(f_or([f_and([g, fb(v)]) for g, v in alts]))
    if all(_ident(v, v0) for _, v in alts):
        return v0
    return Phi(alts)


def _ident(a, b):
    if a is b:
        return True
    if isinstance(a, (str, int, type(None))) and type(a) is type(b):
        return a == b
    if isinstance(a, SymStr) and isinstance(b, SymStr):
        return len(a.e) == len(b.e) and all(x is y for x, y in zip(a.e, b.e))
    return False


# ------------------------------------------------------------ membership / subscripts
def _eq_f(a, b):
    """formula for a == b for membership tests"""
    r = a == b
    r = force(r)
    if isinstance(r, SymBool):
        return r.f
    if isinstance(r, bool):
        return r
    return bool(r)


def in_(x, c):
    x = force(x)
    c = force(c)
    tc = type(c)
    if tc in (SymStr, SymBytes):
        return mkbool(c.contains(x))
    if issym(x):
        if tc is str:
            if isinstance(x, SymStr):
                if len(x.e) == 1 and isinstance(x.e[0], Term):
                    return mkbool(x.e[0].isin(I.chars(c)))
                return mkbool(_sub_of_const(x, c))
            raise TypeError("'in <string>' requires string as left operand, not int")
        if tc in (bytes, bytearray):
            if isinstance(x, SymInt):
                return mkbool(x.t.isin(I.ints(c)))
            return mkbool(SymBytes(tuple(c)).contains(x))
        if tc is range and isinstance(x, SymInt) and c.step == 1:
            return mkbool(x.t.isin(I.ranges((c.start, c.stop - 1))))
        if isinstance(c, (list, tuple, set, frozenset, dict)) or tc in (type({}.keys()), type({}.values())):
            items = list(c)
            if isinstance(x, SymInt) and all(type(y) is int for y in items):
                return mkbool(x.t.isin(I.ints(items)))
            return mkbool(f_or([_eq_f(x, y) for y in items]))
    if isinstance(c, (list, tuple, set, frozenset, dict)) and tc not in (str,):
        if isinstance(c, (set, frozenset, dict)):
            if any(issym(k) for k in c):
                return mkbool(f_or([_eq_f(y, x) for y in c]))
            try:
                return x in c
            except TypeError:
                raise
        if any(issym(y) for y in c):
            return mkbool(f_or([_eq_f(y, x) for y in c]))
        return x in c
    m = getattr(tc, "__contains__", None)
    if m is not None and isinstance(m, types.FunctionType):
        r = m(c, x)
        return truth(r)
    if isinstance(c, types.GeneratorType) or m is None:
        for y in c:
            if _eq_f(x, y) is not False and bool(mkbool(_eq_f(x, y))):
                return True
        return False
    return x in c


def _sub_of_const(x, c):
    """formula: symbolic string x is a substring of the constant c"""
    if x.has_atoms() or len(x.e) > 1:
        subs = set()
        lo = x.minlen()
        for n in range(lo, len(c) + 1):
            for i in range(len(c) - n + 1):
                subs.add(c[i:i + n])
        return f_or([x.eq_f(s) for s in subs])
    return True


def notin(x, c):
    return not_(in_(x, c))


def is_(a, b):
    if type(a) is Phi and type(b) is not Phi and not any(type(v) in (Phi, SymBool) for _, v in a.alts):
        fs = []
        none = True
        for g, v in a.alts[:-1]:
            if v is b:
                fs.append(f_and([none, g]))
            none = f_and([none, f_not(g)])
        if a.alts[-1][1] is b:
            fs.append(none)
        return mkbool(f_or(fs))
    a, b = force(a), force(b)
    if isinstance(a, SymBool) and isinstance(b, bool):
        return a if b else not_(a)
    if isinstance(b, SymBool) and isinstance(a, bool):
        return b if a else not_(b)
    return a is b


def isnot(a, b):
    return not_(is_(a, b))


def getitem(o, k):
    if type(k) is slice or type(k) is int:
        return o[k]
    k = force(k)
    o = force(o)
    if isinstance(o, dict):
        if issym(k) or any(issym(q) for q in o):
            hit, v = dict_find(o, k)
            if hit:
                return v
            if hasattr(type(o), "__missing__"):
                return type(o).__missing__(o, k)
            raise KeyError(k if not issym(k) else "<symbolic>")
    return o[k]


def dict_find(d, k):
    c = ctx()
    for q, v in list(d.items()):
        f = _eq_f(q, k) if issym(q) else _eq_f(k, q)
        if f is False:
            continue
        if f is True or c.branch(f):
            return True, v
    return False, None


def dict_key(d, k):
    """the existing key equal to k, or None"""
    c = ctx()
    for q in list(d):
        f = _eq_f(q, k) if issym(q) else _eq_f(k, q)
        if f is False:
            continue
        if f is True or c.branch(f):
            return (q,)
    return None


def setitem(o, k, v):
    k = force(k)
    if isinstance(o, dict) and (issym(k) or any(issym(q) for q in o)):
        q = dict_key(o, k)
        o[q[0] if q else k] = v
        return
    o[k] = v


def delitem(o, k):
    k = force(k)
    if isinstance(o, dict) and (issym(k) or any(issym(q) for q in o)):
        q = dict_key(o, k)
        if q is None:
            raise KeyError("<symbolic>")
        del o[q[0]]
        return
    del o[k]


# ------------------------------------------------------------ formatting
def fmt(v, conv=-1, spec=""):
    """elements of a formatted value"""
    v = force(v)
    if conv in (114, "r") or conv in (97, "a"):
        if deepsym(v) or _has_sx_repr(v):
            return (Opaque("r", v),)
        return tuple(map(ord, repr(v)))
    if isinstance(spec, SymStr):
        raise Unsupported("symbolic format spec")
    if conv in (115, "s"):
        v = str_(v)
    if isinstance(v, SymStr):
        if spec in ("", "s"):
            return v.e
        m = _re.fullmatch(r"(.?)([<>])(\d+)s?", spec)
        if m:
            n = int(m.group(3))
            e = v.flat()
            pad = tuple(map(ord, m.group(1) or " ")) * max(0, n - len(e))
            return e + pad if m.group(2) == "<" else pad + e
        raise Unsupported("format spec %r" % spec)
    if isinstance(v, SymBool):
        v = bool(v)
    if isinstance(v, SymInt):
        return fmt_int(v, spec)
    if isinstance(v, SymFlags):
        return (Opaque("flags", v),)
    if deepsym(v):
        return (Opaque("f", v),)
    if spec == "" and type(v) not in (str, int, float, bytes, bool, type(None)):
        r = str_(v)
        return SymStr.lift(r)
    if type(v) is str and spec == "":
        return tuple(map(ord, v))
    return tuple(map(ord, format(v, spec)))


def _has_sx_repr(v):
    return type(v).__module__.startswith(("urlstd_sx", "sxref", "sxscn"))


def fmt_int(v, spec):
    t = v.t
    cd = t.codom()
    neg = ()
    if cd is None or not cd.r or cd.lo() < 0:
        if ctx().branch(V.e_lt(t, 0)):
            neg = (45,)
            t = toterm(-v)
            if isinstance(t, int):
                return neg + tuple(map(ord, format(t, spec)))
        if isinstance(t, Term) and t.base is None:
            hi = t.codom0.hi() if t.codom0 is not None and t.codom0.r else None
            if hi is None or hi < 0:
                raise Unsupported("unbounded numeral")
            t = t.copy(codom=ISet(((0, hi),)))
    m = _re.fullmatch(r"(0?)(\d*)([dxX]?)", spec)
    if not m:
        raise Unsupported("int format spec %r" % spec)
    width = int(m.group(2) or 1)
    ty = m.group(3) or "d"
    if width > 1 and not m.group(1):
        raise Unsupported("space padded int")
    if ty == "d":
        return neg + (Num(t, 10, False, max(width, 1)),)
    cd = t.codom()
    if width == 2 and cd is not None and cd.hi() < 256:
        return neg + tuple(V.hexpair(t, ty == "X"))
    return neg + (Num(t, 16, ty == "X", max(width, 1)),)


def fstr(*parts):
    """parts: str constants or (value, conv, spec)"""
    out = []
    sym = False
    for p in parts:
        if type(p) is str:
            out.append(p)
        else:
            v, conv, spec = p
            v = force(v)
            if type(v) in (str, int) and type(spec) is str:
                if conv == 114:
                    v = repr(v)
                out.append(format(v, spec))
                continue
            e = fmt(v, conv, spec)
            if all(type(x) is int for x in e):
                out.append("".join(map(chr, e)))
            else:
                sym = True
                out.append(e)
    if not sym:
        return "".join(out)
    el = ()
    for p in out:
        el += tuple(map(ord, p)) if type(p) is str else p
    return mkstr(el)


_PF = _re.compile(r"%(?:\((\w+)\))?([-#0 +]*)(\*|\d+)?(?:\.(\d+))?([diouxXeEfFgGcrsa%])|%")


def percent_format(f, args):
    f = force(f)
    if isinstance(f, SymStr):
        raise Unsupported("symbolic format string")
    if isinstance(f, bytes):
        if not deepsym(args):
            return f % args
        r = percent_format(f.decode("latin-1"), args)
        return SymBytes.mk(SymStr.lift(r))
    args = force(args)
    isd = isinstance(args, dict)
    al = args if isinstance(args, tuple) else (args,)
    n = 0
    out = ()
    pos = 0
    for m in _PF.finditer(f):
        out += tuple(map(ord, f[pos:m.start()]))
        pos = m.end()
        ty = m.group(5)
        if ty == "%":
            out += (37,)
            continue
        if ty is None:
            raise ValueError("unsupported format character")
        if m.group(1):
            v = args[m.group(1)]
        else:
            if n >= len(al):
                raise TypeError("not enough arguments for format string")
            v = force(al[n])
            n += 1
        fl, w = m.group(2) or "", m.group(3)
        if ty in "diouxX":
            if isinstance(v, SymBool):
                v = bool(v)
            if isinstance(v, (SymSeq, str, bytes, list, tuple, type(None))):
                raise TypeError("%%%s format: a real number is required, not str" % ty)
            if isinstance(v, SymFlags):
                out += (Opaque("flags", v),)
            elif isinstance(v, SymInt):
                if ty in "di" or ty == "u":
                    spec = "d"
                else:
                    spec = ty
                out += fmt_int(v, (("0" if "0" in fl else "") + w if w else "") + spec)
            else:
                out += tuple(map(ord, m.group().replace("(%s)" % m.group(1), "") % (v,)))
        elif ty == "s":
            out += fmt(str_(v), -1, "")
        elif ty in "ra":
            out += fmt(v, 114)
        elif ty == "c":
            out += SymStr.lift(v if isinstance(v, (str, SymStr)) else chr_(v))
        else:
            if issym(v):
                raise Unsupported("float format")
            out += tuple(map(ord, m.group() % (v,)))
    out += tuple(map(ord, f[pos:]))
    if n < len(al) and not isd and isinstance(args, tuple):
        raise TypeError("not all arguments converted during string formatting")
    return mkstr(out)


def mod(a, b):
    a = force(a)
    if isinstance(a, (str, bytes)):
        if deepsym(b) or _obj_args(b):
            return percent_format(a, b)
        return a % b
    return a % b


def _obj_args(b):
    bs = b if isinstance(b, tuple) else (b,)
    return any(_has_sx_repr(x) for x in bs)


def str_format(f, args, kw):
    if isinstance(f, SymStr):
        raise Unsupported("symbolic format string")
    out = ()
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(f):
        out += tuple(map(ord, lit))
        if field is None:
            continue
        first = _re.match(r"[^.\[]*", field).group()
        rest = field[len(first):]
        if first == "":
            v = args[auto]
            auto += 1
        elif first.isdigit():
            v = args[int(first)]
        else:
            v = kw[first]
        for m in _re.finditer(r"\.(\w+)|\[(\w+)\]", rest):
            v = getattr(v, m.group(1)) if m.group(1) else v[int(m.group(2)) if m.group(2).isdigit() else m.group(2)]
        out += fmt(v, conv or -1, spec or "")
    return mkstr(out)


# ------------------------------------------------------------ str / int / conversions
def str_(x="", *rest):
    x = force(x)
    if rest:
        return x.decode(*rest) if isinstance(x, SymBytes) else str(x, *rest)
    if isinstance(x, (str, SymStr)):
        return x
    if isinstance(x, SymBool):
        return str(bool(x))
    if isinstance(x, SymInt):
        return mkstr(fmt_int(x, ""))
    if isinstance(x, SymBytes):
        return mkstr((Opaque("bytes", x),))
    m = type(x).__str__
    if isinstance(m, types.FunctionType):
        return m(x)
    if deepsym(x):
        return mkstr((Opaque("s", x),))
    m = type(x).__repr__
    if m is not object.__repr__ and type(x).__str__ is object.__str__ and isinstance(m, types.FunctionType):
        return m(x)
    return str(x)


def repr_(x):
    x = force(x)
    if deepsym(x):
        return mkstr((Opaque("r", x),))
    m = type(x).__repr__
    if isinstance(m, types.FunctionType) and _has_sx_repr(x):
        return m(x)
    return repr(x)


def len_(x):
    x = force(x)
    if isinstance(x, SymSeq):
        return x.length()
    return len(x)


def ord_(x):
    x = force(x)
    if isinstance(x, SymSeq):
        e = x.flat()
        if len(e) != 1:
            raise TypeError("ord() expected a character, but string of length %d found" % len(e))
        return mkint(e[0]) if isinstance(e[0], Term) else e[0]
    return ord(x)


def chr_(x):
    x = force(x)
    if isinstance(x, SymBool):
        x = V.int_(x)
    if isinstance(x, SymInt):
        if not ctx().branch(x.t.isin(I.ALLCP)):
            raise ValueError("chr() arg not in range(0x110000)")
        return mkstr((x.t,))
    return chr(x)


_DIGVAL = None


def unicode_digits():
    """pieces mapping every decimal digit code point to its value"""
    global _DIGVAL
    if _DIGVAL is None:
        pcs = []
        for cp in range(0x110000):
            d = unicodedata.decimal(chr(cp), None)
            if d is None:
                continue
            d = int(d)
            if pcs and pcs[-1][1] == cp - 1 and pcs[-1][3] == d - cp:
                pcs[-1] = (pcs[-1][0], cp, 1, d - cp)
            else:
                pcs.append((cp, cp, 1, d - cp))
        _DIGVAL = (tuple(pcs), I.ranges(*[(a, b) for a, b, _, _ in pcs]))
    return _DIGVAL


def digset(base):
    n = min(base, 10)
    rs = [(48, 47 + n)]
    if base > 10:
        rs += [(65, 54 + base), (97, 86 + base)]
    return I.ranges(*rs)


def digval(e):
    if isinstance(e, int):
        return int(chr(e), 36)
    m = e.meta
    return e.map(((48, 57, 1, -48), (65, 90, 1, -55), (97, 122, 1, -87)))


def digits_value(es, base):
    # the numeral of a known term
    if es and isinstance(es[0], Term) and es[0].meta and es[0].meta[0] == "dig":
        _, t, r, n, _i = es[0].meta
        if r == base and n == len(es) and all(
                isinstance(x, Term) and x.meta and x.meta[0] == "dig" and x.meta[1] is t and x.meta[2:] == (r, n, k)
                for k, x in enumerate(es)):
            return mkint(t)
    if all(isinstance(x, int) for x in es):
        v = 0
        for x in es:
            v = v * base + digval(x)
        return v
    const = 0
    parts = []
    vs = set()
    hi = 0
    lo = 0
    p = 1
    single = None
    for x in reversed(es):
        d = digval(x)
        if isinstance(d, int):
            const += d * p
        else:
            c = d.codom()
            if c is not None and c.r:
                c = c.inter(ISet(((0, base - 1),)))
            if c is None or not c.r:
                c = ISet(((0, base - 1),))
            hi += c.hi() * p
            lo += c.lo() * p
            parts.append((d, p))
            vs |= d.vars
        p *= base
    if len(parts) == 1 and parts[0][1] == 1:
        return mkint(V.t_add(parts[0][0], const))
    z = None
    for d, p in parts:
        e = d.z * p if p != 1 else d.z
        z = e if z is None else z + e
    if const:
        z = z + const
    return mkint(Term(z=z, vars=frozenset(vs), codom=ISet(((lo + const, hi + const),))))


MAXDIG = 4300


def int_of(x=0, base=None):
    x = force(x)
    base = force(base) if base is not None else None
    if base is None:
        if isinstance(x, SymInt):
            return x
        if isinstance(x, SymBool):
            return V.int_(x)
        if isinstance(x, SymFlags):
            return x
        if not isinstance(x, SymSeq):
            m = getattr(type(x), "__int__", None) or getattr(type(x), "__index__", None)
            return int(x)
        base = 10
    elif not isinstance(x, SymSeq):
        return int(x, idx(base))
    base = idx(base)
    e = list(x.flat())
    c = ctx()
    ds = digset(base) if base else None

    def bad():
        raise ValueError("invalid literal for int()")
    if base and e:
        allf = f_and([e_in(y, ds) for y in e])
        if c.branch(allf):
            if len(e) > MAXDIG and base & (base - 1):
                raise ValueError("Exceeds the limit (4300 digits) for integer string conversion")
            return digits_value(e, base)
    # general syntax
    ws = SymStr.WS
    while e and c.branch(e_in(e[0], ws)):
        del e[0]
    while e and c.branch(e_in(e[-1], ws)):
        del e[-1]
    if not e:
        bad()
    sign = 1
    if c.branch(e_eq(e[0], 45)):
        sign = -1
        del e[0]
    elif c.branch(e_eq(e[0], 43)):
        del e[0]
    pre = {16: "xX", 8: "oO", 2: "bB"}
    usable = False
    if base == 0:
        if len(e) >= 2 and c.branch(e_eq(e[0], 48)):
            for b in (16, 8, 2):
                if c.branch(e_in(e[1], I.chars(pre[b]))):
                    base = b
                    del e[:2]
                    usable = True
                    break
            else:
                if not c.branch(f_and([f_or([e_eq(y, 48), e_eq(y, 95)]) for y in e])):
                    bad()
                base = 10
        else:
            base = 10
        ds = digset(base)
    elif base in pre and len(e) >= 2 and c.branch(e_eq(e[0], 48)) and c.branch(e_in(e[1], I.chars(pre[base]))):
        del e[:2]
        usable = True
    if usable and e and c.branch(e_eq(e[0], 95)):
        del e[0]
    if not e:
        bad()
    out = []
    prev_us = True
    pcs, uset = unicode_digits()
    for y in e:
        if c.branch(e_in(y, ds)):
            out.append(y)
            prev_us = False
        elif c.branch(e_eq(y, 95)):
            if prev_us:
                bad()
            prev_us = True
        elif isinstance(x, SymStr) and c.branch(e_in(y, uset)):
            d = int(unicodedata.decimal(chr(y))) if isinstance(y, int) else y.map(pcs)
            if not c.branch(e_in(d, ISet(((0, base - 1),)))):
                bad()
            out.append(d + 48 if isinstance(d, int) else V.t_add(d, 48))
            prev_us = False
        else:
            bad()
    if prev_us:
        bad()
    if len(out) > MAXDIG and base & (base - 1):
        raise ValueError("Exceeds the limit (4300 digits) for integer string conversion")
    r = digits_value(out, base)
    return -r if sign < 0 else r


def bool_(x=False):
    return truth(x)


def isinstance_(x, cls):
    x = force(x)
    if isinstance(x, SymStr):
        return _subc(str, cls)
    if isinstance(x, SymBytes):
        return _subc(bytes, cls)
    if isinstance(x, SymBool):
        return _subc(bool, cls)
    if isinstance(x, (SymInt, SymFlags)):
        return _subc(int, cls)
    if isinstance(x, SymByteArray):
        return _subc(bytearray, cls)
    if isinstance(cls, tuple):
        return any(isinstance_(x, k) for k in cls)
    w = WRAPPED_TYPES.get(cls) if isinstance(cls, type) else None
    return isinstance(x, w or cls)


def subject(x):
    """the subject of a match statement"""
    x = force(x)
    if type(x) in (tuple, list):
        return type(x)(force(y) for y in x)
    return x


class _PatternMeta(type):
    def __instancecheck__(cls, x):
        return bool(isinstance_(x, cls.sx_type))


def pattern_class(t):
    return _PatternMeta("M" + t.__name__, (), {"sx_type": t})


def _subc(t, cls):
    if isinstance(cls, tuple):
        return any(_subc(t, k) for k in cls)
    return issubclass(t, cls) if isinstance(cls, type) else isinstance(t(), cls)


WRAPPED_TYPES = {}


def type_(x, *rest):
    if rest:
        return type(x, *rest)
    x = force(x)
    if isinstance(x, SymStr):
        return str
    if isinstance(x, SymBytes):
        return bytes
    if isinstance(x, SymBool):
        return bool
    if isinstance(x, (SymInt, SymFlags)):
        return int
    return type(x)


def it(x):
    return iter(force(x))


def any_(xs):
    return _anyall(xs, True)


def all_(xs):
    return _anyall(xs, False)


def _anyall(xs, is_any):
    xs = force(xs)
    if isinstance(xs, (list, tuple)):
        acc = []
        for v in xs:
            v = truth(v)
            if isinstance(v, SymBool):
                acc.append(v.f)
            elif bool(v) == is_any:
                acc.append(is_any)
                break
        return mkbool(f_or(acc) if is_any else f_and(acc))
    return _anyall_fork(it(xs), is_any)


def _anyall_fork(g, is_any):
    for v in g:
        v = truth(v)
        if isinstance(v, SymBool):
            v = ctx().branch(v.f)
        if bool(v) == is_any:
            return is_any
    return not is_any


def anygen(is_any, thunk):
    """any/all over a generator expression, combined into one formula when
    no element needs a fork of its own"""
    c = ctx()
    acc = []
    ok = True
    c.nofork += 1
    try:
        for v in thunk():
            v = truth(v)
            if isinstance(v, SymBool):
                acc.append(v.f)
            elif bool(v) == is_any:
                acc.append(is_any)
                break
    except (NeedFork, Unsupported, Exception):
        ok = False
    finally:
        c.nofork -= 1
    if ok:
        return mkbool(f_or(acc) if is_any else f_and(acc))
    return _anyall_fork(thunk(), is_any)


def sum_(xs, start=0):
    r = start
    for x in it(xs):
        x = force(x)
        r = r + x
    return r


def map_(f, *its):
    for a in zip(*[it(x) for x in its]):
        yield call(f, *a)


def filter_(f, xs):
    for x in it(xs):
        if (truth(x) if f is None else call(f, x)):
            yield x


def sorted_(xs, *, key=None, reverse=False):
    return sorted(it(xs), key=wrapc(key), reverse=bool(reverse))


def minmax(fn):
    def m(*a, **k):
        if k.get("key") is not None:
            k["key"] = wrapc(k["key"])
        return fn(*a, **k)
    return m


def wrapc(f):
    if f is None or isinstance(f, (types.FunctionType, types.MethodType)):
        return f
    if callable(f):
        return lambda *a, **k: call(f, *a, **k)
    return f


def hex_(x):
    x = force(x)
    if isinstance(x, SymFlags):
        return mkstr((Opaque("hex", x),))
    if isinstance(x, SymInt):
        return mkstr((48, 120) + fmt_int(x, "x"))
    return hex(x)


def bytes_(x=b"", *rest):
    x = force(x)
    if isinstance(x, SymBytes):
        return x
    if isinstance(x, SymStr):
        return x.encode(*rest)
    if isinstance(x, SymByteArray):
        return SymBytes.mk(tuple(x.e))
    if isinstance(x, (list, tuple, types.GeneratorType, map)) and not rest:
        out = []
        for y in x:
            y = force(y)
            if isinstance(y, SymInt):
                if not ctx().branch(y.t.isin(I.BYTE)):
                    raise ValueError("bytes must be in range(0, 256)")
                out.append(y.t)
            else:
                if not 0 <= y < 256:
                    raise ValueError("bytes must be in range(0, 256)")
                out.append(int(y))
        return SymBytes.mk(tuple(out))
    if isinstance(x, SymInt):
        return bytes(idx(x))
    return bytes(x, *rest)


class SymByteArray:
    """bytearray whose bytes may be symbolic"""
    __hash__ = None

    def __init__(self, e=()):
        self.e = list(e)

    def append(self, b):
        b = force(b)
        self.e.append(b.t if isinstance(b, SymInt) else int(b))

    def extend(self, o):
        x = SymBytes.lift(o)
        if x is not None:
            self.e.extend(x)
        elif isinstance(o, SymByteArray):
            self.e.extend(o.e)
        else:
            for b in o:
                self.append(b)

    def __iadd__(self, o):
        self.extend(o)
        return self

    def _b(self):
        return SymBytes(tuple(self.e))

    def __getattr__(self, n):
        return getattr(self._b(), n)

    def __len__(self):
        return len(self._b())

    def __iter__(self):
        return iter(self._b())

    def __getitem__(self, k):
        return self._b()[k]

    def __eq__(self, o):
        return self._b() == (o._b() if isinstance(o, SymByteArray) else o)

    def __bool__(self):
        return bool(self.e)

    def __add__(self, o):
        r = SymByteArray(self.e)
        r.extend(o)
        return r


def bytearray_(x=b"", *rest):
    x = force(x)
    if isinstance(x, int) and not isinstance(x, bool):
        return SymByteArray((0,) * x)
    return SymByteArray(SymBytes.lift(bytes_(x, *rest)))


def fromhex(s):
    s = force(s)
    if not isinstance(s, SymStr):
        return bytes.fromhex(s)
    e = [x for x in s.flat()]
    if len(e) % 2 or not ctx().branch(f_and([e_in(x, I.HEX) for x in e])):
        raise ValueError("non-hexadecimal number found in fromhex() arg")
    out = []
    for i in range(0, len(e), 2):
        out.append(_hexbyte(e[i], e[i + 1]))
    return SymBytes.mk(tuple(out))


def dict_(*a, **k):
    d = {}
    if a:
        src = force(a[0])
        if isinstance(src, dict):
            d.update(src)
        elif hasattr(src, "keys"):
            for q in src.keys():
                setitem(d, q, src[q])
        else:
            for q, v in it(src):
                setitem(d, q, v)
    d.update(k)
    return d


class SymSet:
    """a set whose members may be symbolic: guarded candidates, possibly equal; the member list is decided only on demand"""
    __hash__ = None
    __slots__ = ("raw", "done")

    def __init__(self, xs=(), raw=None):
        self.raw = [(True, force(x)) for x in xs] if raw is None else raw
        self.done = False

    @property
    def l(self):
        if not self.done:
            out = []
            for g, x in self.raw:
                if (g is True or bool(mkbool(g))) and not bool(in_(x, out)):
                    out.append(x)
            self.raw = [(True, x) for x in out]
            self.done = True
        return [x for _, x in self.raw]

    def has(self, x):
        return f_or([f_and([g, _eq_f(y, x)]) for g, y in self.raw])

    def sx_truth(self):
        return mkbool(f_or([g for g, _ in self.raw]))

    def __bool__(self):
        return bool(self.sx_truth())

    def add(self, x):
        self.raw = self.raw + [(True, force(x))]
        self.done = False

    def discard(self, x):
        self.raw = [(g, y) for g, y in ((f_and([g, f_not(_eq_f(y, x))]), y) for g, y in self.raw) if g is not False]
        self.done = False

    def remove(self, x):
        if not bool(mkbool(self.has(x))):
            raise KeyError("<symbolic>")
        self.discard(x)

    def pop(self):
        l = self.l
        if not l:
            raise KeyError("pop from an empty set")
        if len(l) > 1:
            raise Unsupported("set.pop order")
        self.raw = []
        return l[0]

    def clear(self):
        self.raw = []

    def __iter__(self):
        return iter(self.l)

    def __len__(self):
        return len(self.l)

    def __contains__(self, x):
        return mkbool(self.has(x))

    def update(self, *o):
        for q in o:
            self.raw = self.raw + _guarded(q)
        self.done = False

    def copy(self):
        return SymSet(raw=list(self.raw))

    def issubset(self, o):
        o = SymSet(raw=_guarded(o)) if not isinstance(o, SymSet) else o
        return mkbool(f_and([f_or([f_not(g), o.has(x)]) for g, x in self.raw]))
    __le__ = issubset

    def issuperset(self, o):
        return mkbool(f_and([f_or([f_not(g), self.has(x)]) for g, x in _guarded(o)]))
    __ge__ = issuperset

    def __eq__(self, o):
        if not isinstance(o, (SymSet, set, frozenset)):
            return NotImplemented
        return mkbool(f_and([fb(self.issubset(o)), fb(self.issuperset(o))]))

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else not_(r)

    def __lt__(self, o):
        return mkbool(f_and([fb(self.issubset(o)), f_not(fb(self.issuperset(o)))]))

    def __gt__(self, o):
        return mkbool(f_and([fb(self.issuperset(o)), f_not(fb(self.issubset(o)))]))

    def isdisjoint(self, o):
        return mkbool(f_not(f_or([f_and([g, self.has(x)]) for g, x in _guarded(o)])))

    def __or__(self, o):
        return SymSet(raw=self.raw + _guarded(o))
    __ror__ = __or__

    def union(self, *o):
        r = self.copy()
        r.update(*o)
        return r

    def _filter(self, o, keep):
        cs = o if not isinstance(o, SymSet) else None
        if isinstance(cs, (set, frozenset)) and all(isinstance(c, str) and len(c) == 1 for c in cs):
            cs = "".join(sorted(cs))
        elif cs is not None and not isinstance(cs, (str, set, frozenset, dict)):
            cs = list(cs)
        raw = []
        for g, x in self.raw:
            if cs is None:
                h = o.has(x)
            elif isinstance(cs, str) and isinstance(x, (str, SymStr)) and len(x) != 1:
                h = f_or([_eq_f(x, c) for c in cs])
            elif isinstance(cs, str) and not isinstance(x, (str, SymStr)):
                h = False
            else:
                h = fb(in_(x, cs))
            g = f_and([g, h if keep else f_not(h)])
            if g is not False:
                raw.append((g, x))
        return SymSet(raw=raw)

    def __and__(self, *o):
        r = self
        for q in o:
            r = r._filter(q, True)
        return r
    __rand__ = __and__
    intersection = __and__

    def __sub__(self, *o):
        r = self
        for q in o:
            r = r._filter(q, False)
        return r
    difference = __sub__

    def __rsub__(self, o):
        return SymSet(raw=_guarded(o))._filter(self, False)

    def __xor__(self, o):
        return (self - o) | (SymSet(raw=_guarded(o)) - self)
    __rxor__ = __xor__
    symmetric_difference = __xor__


def _guarded(o):
    return list(o.raw) if isinstance(o, SymSet) else [(True, force(x)) for x in it(o)]


def set_(xs=()):
    xs = force(xs)
    if isinstance(xs, SymSeq):
        return SymSet(xs)
    l = list(xs)
    if any(issym(x) for x in l) or any(isinstance(x, tuple) and deepsym(x) for x in l):
        return SymSet(l)
    return set(l)


def frozenset_(xs=()):
    r = set_(xs)
    return r if isinstance(r, SymSet) else frozenset(r)


# ------------------------------------------------------------ codecs
def norm_codec(enc):
    enc = force(enc)
    if isinstance(enc, SymStr):
        raise Unsupported("symbolic codec name")
    n = codecs.lookup(enc).name
    return n


def cps_normalise(elems, replace=True, errors="replace"):
    """UTF-16 round trip: join surrogate pairs, replace lone surrogates"""
    c = ctx()
    out = []
    i = 0
    n = len(elems)
    while i < n:
        x = elems[i]
        if isinstance(x, Atom):
            # atoms in strings hold ASCII only
            out.append(x)
            i += 1
            continue
        if not c.branch(e_in(x, I.SURR)):
            out.append(x)
            i += 1
            continue
        if c.branch(e_in(x, I.HIGH)) and i + 1 < n and not isinstance(elems[i + 1], Atom) and c.branch(e_in(elems[i + 1], I.LOW)):
            y = elems[i + 1]
            if isinstance(x, int) and isinstance(y, int):
                out.append(0x10000 + ((x - 0xD800) << 10) + (y - 0xDC00))
            else:
                v = (mkint(x) - 0xD800) * 1024 + (mkint(y) - 0xDC00) + 0x10000
                t = toterm(v)
                if isinstance(t, Term) and t.base is None:
                    t = t.copy(codom=t.codom0.inter(I.ranges((0x10000, 0x10FFFF))))
                out.append(t)
            i += 2
            continue
        if errors == "replace":
            out.append(0xFFFD)
        elif errors == "ignore":
            pass
        elif errors in ("surrogatepass",):
            out.append(x)
        else:
            raise UnicodeDecodeError("utf-16", b"", 0, 1, "illegal encoding")
        i += 1
    return tuple(out)


def str_encode(s, encoding="utf-8", errors="strict"):
    name = norm_codec(encoding)
    errors = force(errors)
    c = ctx()
    if name == "utf-8":
        out = []
        for x in s.e:
            if isinstance(x, int):
                out.extend(chr(x).encode("utf-8", errors))
                continue
            if isinstance(x, Atom):
                out.append(x)       # ASCII text: same bytes
                continue
            if errors == "surrogatepass":
                raise Unsupported("utf-8 surrogatepass")
            if not c.branch(x.isin(I.SCALAR)):
                if errors == "strict":
                    raise UnicodeEncodeError("utf-8", "\ud800", 0, 1, "surrogates not allowed")
                if errors == "replace":
                    out.append(63)
                elif errors == "ignore":
                    pass
                elif errors == "xmlcharrefreplace":
                    out += [38, 35, Num(x, 10), 59]
                else:
                    raise Unsupported("utf-8 errors=%s" % errors)
                continue
            out.append(EncB(x, "utf-8"))
        return SymBytes.mk(tuple(out))
    if name in ("utf-16", "utf-16-le", "utf-16-be"):
        out = [0xFF, 0xFE] if name == "utf-16" else []
        cname = "utf-16-be" if name == "utf-16-be" else "utf-16-le"
        for x in s.flat():
            if isinstance(x, int):
                out.extend(chr(x).encode(cname, errors))
                continue
            if errors != "surrogatepass" and not c.branch(x.isin(I.SCALAR)):
                if errors == "strict":
                    raise UnicodeEncodeError("utf-16", "\ud800", 0, 1, "surrogates not allowed")
                if errors == "replace":
                    out.extend("?".encode(cname))
                    continue
                if errors == "ignore":
                    continue
                raise Unsupported("utf-16 errors=%s" % errors)
            out.append(EncB(x, cname))
        return SymBytes.mk(tuple(out))
    if name == "ascii" or name == "iso8859-1":
        dom = I.ASCII if name == "ascii" else I.BYTE
        out = []
        for x in s.flat():
            if not c.branch(e_in(x, dom)):
                if errors == "strict":
                    raise UnicodeEncodeError(name, "\u0100", 0, 1, "ordinal not in range")
                if errors == "replace":
                    out.append(63)
                    continue
                if errors == "ignore":
                    continue
                if errors == "xmlcharrefreplace":
                    out += [38, 35, Num(x, 10), 59]
                    continue
                raise Unsupported("errors=%s" % errors)
            out.append(x)
        return SymBytes.mk(tuple(out))
    cd = V.Codec.get(name)
    if cd is None:
        raise Unsupported("codec %s" % name)
    out = []
    for x in s.flat():
        if isinstance(x, int):
            out.extend(chr(x).encode(name, errors))
            continue
        if not c.branch(x.isin(cd.dom)):
            if errors == "strict":
                raise UnicodeEncodeError(name, "\ud800", 0, 1, "cannot encode")
            if errors == "replace":
                out.append(63)
            elif errors == "ignore":
                pass
            elif errors == "xmlcharrefreplace":
                out += [38, 35, Num(x, 10), 59]
            else:
                raise Unsupported("errors=%s" % errors)
            continue
        out.append(EncB(x, name))
    return SymBytes.mk(tuple(out))


def bytes_decode(b, encoding="utf-8", errors="strict"):
    name = norm_codec(encoding)
    errors = force(errors)
    c = ctx()
    if name in ("utf-16", "utf-16-le", "utf-16-be"):
        cname = "utf-16-be" if name == "utf-16-be" else "utf-16-le"
        e = list(b.e)
        if name == "utf-16":
            if e[:2] == [0xFF, 0xFE]:
                e = e[2:]
            else:
                raise Unsupported("utf-16 decode without BOM")
        units = []
        i = 0
        while i < len(e):
            x = e[i]
            if isinstance(x, EncB) and x.codec == cname:
                units.append(x.t)
                i += 1
            elif isinstance(x, int) and i + 1 < len(e) and isinstance(e[i + 1], int):
                units.append(x << 8 | e[i + 1] if cname == "utf-16-be" else x | e[i + 1] << 8)
                i += 2
            else:
                raise Unsupported("utf-16 decode")
        # concrete pairs were split into units; cps_normalise joins them
        return mkstr(cps_normalise(units, errors=errors))
    if name == "utf-8":
        return mkstr(utf8_decode(b.e, errors))
    if name in ("ascii", "iso8859-1"):
        dom = I.ASCII if name == "ascii" else I.BYTE
        out = []
        for x in b.flat():
            if not c.branch(e_in(x, dom)):
                if errors == "strict":
                    raise UnicodeDecodeError(name, b"\xff", 0, 1, "ordinal not in range")
                if errors == "replace":
                    out.append(0xFFFD)
                    continue
                if errors == "ignore":
                    continue
                raise Unsupported("errors")
            out.append(x)
        return mkstr(tuple(out))
    raise Unsupported("decode %s" % name)


# lead byte -> (length, allowed second byte range)
_U8L = [(I.ranges((0xC2, 0xDF)), 2, I.ranges((0x80, 0xBF))),
        (I.one(0xE0), 3, I.ranges((0xA0, 0xBF))),
        (I.ranges((0xE1, 0xEC), (0xEE, 0xEF)), 3, I.ranges((0x80, 0xBF))),
        (I.one(0xED), 3, I.ranges((0x80, 0x9F))),
        (I.one(0xF0), 4, I.ranges((0x90, 0xBF))),
        (I.ranges((0xF1, 0xF3)), 4, I.ranges((0x80, 0xBF))),
        (I.one(0xF4), 4, I.ranges((0x80, 0x8F)))]
_CONT = I.ranges((0x80, 0xBF))


def utf8_decode(elems, errors="strict"):
    c = ctx()
    out = []
    e = list(elems)
    i = 0

    def err():
        if errors == "replace":
            out.append(0xFFFD)
        elif errors == "ignore":
            pass
        elif errors == "strict":
            raise UnicodeDecodeError("utf-8", b"\xff", 0, 1, "invalid start byte")
        else:
            raise Unsupported("utf-8 decode errors=%s" % errors)
    while i < len(e):
        x = e[i]
        if isinstance(x, EncB) and x.codec == "utf-8":
            out.append(x.t)
            i += 1
            continue
        if isinstance(x, Num) or isinstance(x, Enc) or isinstance(x, EncByte):
            out.append(x)       # ASCII text
            i += 1
            continue
        if isinstance(x, Atom):
            e[i:i + 1] = list(V._flat_atom(x))
            continue
        if isinstance(x, Term) and x.meta and x.meta[0] == "u8" and x.meta[3] == 0:
            t, n = x.meta[1], x.meta[2]
            seq = e[i:i + n]
            if len(seq) == n and all(isinstance(y, Term) and y.meta and y.meta[0] == "u8" and y.meta[1] is t and y.meta[3] == k
                                     for k, y in enumerate(seq)):
                out.append(t)
                i += n
                continue
        if c.branch(e_in(x, I.ASCII)):
            out.append(x)
            i += 1
            continue
        for lead, n, second in _U8L:
            if c.branch(e_in(x, lead)):
                break
        else:
            err()
            i += 1
            continue
        got = [x]
        ok = True
        for k in range(1, n):
            if i + k >= len(e):
                ok = False
                break
            y = e[i + k]
            if isinstance(y, Atom):
                if isinstance(y, EncB):
                    # may only continue the sequence if it is not a lead/ASCII: never
                    ok = False
                    break
                e[i + k:i + k + 1] = list(V._flat_atom(y))
                y = e[i + k]
            if c.branch(e_in(y, second if k == 1 else _CONT)):
                got.append(y)
            else:
                ok = False
                break
        if not ok:
            err()
            i += len(got)
            continue
        lead0 = (0, 0, 0xC0, 0xE0, 0xF0)[n]
        v = mkint(got[0]) - lead0 if isinstance(got[0], Term) else got[0] - lead0
        for y in got[1:]:
            v = v * 64 + ((mkint(y) if isinstance(y, Term) else y) - 0x80)
        t = toterm(v)
        if isinstance(t, Term) and t.base is None and t.codom0 is not None:
            t = t.copy(codom=t.codom0.inter(V.U8[n - 1]))
        out.append(t)
        i += n
    return tuple(out)


def bytes_const_decode(b, *a, **k):
    return b.decode(*a, **k)


# ------------------------------------------------------------ percent coding
ALWAYS_SAFE = I.chars("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-~")


def _safe_set(safe):
    safe = force(safe)
    if isinstance(safe, SymSeq):
        raise Unsupported("symbolic safe set")
    if isinstance(safe, str):
        safe = safe.encode("ascii", "ignore")
    else:
        safe = bytes(c for c in safe if c < 128)
    return ALWAYS_SAFE.union(I.ints(safe)) if safe else ALWAYS_SAFE


def quote_(s, safe="/", encoding=None, errors=None):
    return _quote(s, safe, encoding, errors, False)


def quote_plus_(s, safe="", encoding=None, errors=None):
    return _quote(s, safe, encoding, errors, True)


def _quote(s, safe, encoding, errors, plus):
    s = force(s)
    if isinstance(s, SymStr):
        if len(s.e) == 0:
            return s
        enc = norm_codec(encoding if encoding is not None else "utf-8")
        err = force(errors) if errors is not None else "strict"
        c = ctx()
        ss = _safe_set(safe)
        if enc == "utf-8" or (enc not in ("ascii", "iso8859-1") and V.Codec.get(enc) is not None):
            dom = V.enc_dom(enc)
            if err == "strict":
                if not c.branch(s.all_in(dom) if not s.has_atoms() else f_and([e_in(x, dom) for x in s.e if not isinstance(x, Atom)])):
                    raise UnicodeEncodeError(enc, "\ud800", 0, 1, "cannot encode")
                out = []
                for x in s.e:
                    if isinstance(x, int):
                        out.extend(_q_const(chr(x).encode(enc), ss, plus))
                    elif isinstance(x, Term):
                        out.append(Enc(x, ss, plus, enc))
                    else:
                        for y in V._flat_atom(x):
                            if isinstance(y, int):
                                out.extend(_q_const(bytes((y,)), ss, plus))
                            else:
                                out.append(Enc(y, ss, plus, enc))
                return mkstr(tuple(out))
        b = str_encode(s, enc, err)
        return _quote_bytes(b, ss, plus)
    if isinstance(s, SymBytes):
        if encoding is not None or errors is not None:
            raise TypeError("quote() doesn't support 'encoding' for bytes")
        return _quote_bytes(s, _safe_set(safe), plus)
    fn = up.quote_plus if plus else up.quote
    return fn(s, safe, encoding, errors)


def _q_const(bs, ss, plus):
    out = []
    for b in bs:
        if plus and b == 32:
            out.append(43)
        elif ss.has(b):
            out.append(b)
        else:
            out.extend(b"%%%02X" % b)
    return out


def _quote_bytes(b, ss, plus):
    if isinstance(b, (bytes, bytearray)):
        return "".join(map(chr, _q_const(b, ss, plus)))
    out = []
    for x in b.e:
        if isinstance(x, int):
            out.extend(_q_const((x,), ss, plus))
        elif isinstance(x, EncB) and not x.codec.startswith("utf-16"):
            out.append(Enc(x.t, ss, plus, x.codec))
        elif isinstance(x, Num):
            out.append(x)
        elif isinstance(x, Term):
            out.append(EncByte(x, ss, plus))
        else:
            for y in V._flat_atom(x):
                if isinstance(y, int):
                    out.extend(_q_const((y,), ss, plus))
                else:
                    out.append(EncByte(y, ss, plus))
    return mkstr(tuple(out))


def quote_from_bytes_(bs, safe="/"):
    bs = force(bs)
    if isinstance(bs, SymBytes):
        return _quote_bytes(bs, _safe_set(safe), False)
    return up.quote_from_bytes(bs, safe)


def _hexbyte(h, lo):
    """byte element of two hex digit elements"""
    if isinstance(h, int) and isinstance(lo, int):
        return int(chr(h) + chr(lo), 16)
    if isinstance(h, Term) and isinstance(lo, Term) and h.meta and lo.meta and h.meta[0] == lo.meta[0] == "hx" \
            and h.meta[1] is lo.meta[1] and h.meta[2] == "h" and lo.meta[2] == "l":
        return h.meta[1]
    if isinstance(h, int) and isinstance(lo, Term) and lo.meta and lo.meta[0] == "hx" and lo.meta[2] == "l":
        b = lo.meta[1]
        if isinstance(b, Term):
            d = int(chr(h), 16) * 16
            cd = b.codom()
            if cd is not None and cd.subset(ISet(((d, d + 15),))):
                return b
    v = digits_value([h, lo], 16)
    return toterm(v)


def unquote_to_bytes_(s):
    s = force(s)
    if isinstance(s, SymStr):
        s = s.encode("utf-8")
    if not isinstance(s, SymBytes):
        return up.unquote_to_bytes(s)
    c = ctx()
    e = list(s.e)
    out = []
    i = 0

    def may(x, st):
        """formula: atom or element x is a single byte in st"""
        if isinstance(x, EncB) and x.codec == "utf-8":
            return x.t.isin(st)
        if isinstance(x, Atom):
            return None
        return e_in(x, st)
    while i < len(e):
        x = e[i]
        f = may(x, I.one(37))
        if f is None:
            e[i:i + 1] = list(V._flat_atom(x))
            continue
        if not c.branch(f):
            out.append(x)
            i += 1
            continue
        # '%'
        k = 1
        hs = []
        while k <= 2 and i + k < len(e):
            y = e[i + k]
            g = may(y, I.HEX)
            if g is None:
                e[i + k:i + k + 1] = list(V._flat_atom(y))
                continue
            if not c.branch(g):
                break
            hs.append(y.t if isinstance(y, EncB) else y)
            k += 1
        if len(hs) == 2:
            out.append(_hexbyte(hs[0], hs[1]))
            i += 3
        else:
            out.append(37)
            i += 1
    return SymBytes.mk(tuple(out))


def unquote_(s, encoding="utf-8", errors="replace"):
    s = force(s)
    if isinstance(s, SymStr):
        # str: non-ASCII runs pass through, ASCII runs are decoded as bytes
        c = ctx()
        out = ()
        run = []

        def flush():
            nonlocal out, run
            if run:
                b = unquote_to_bytes_(SymBytes.mk(tuple(run)))
                d = b.decode(encoding, errors)
                out += SymStr.lift(d)
                run = []
        for x in s.flat():
            if c.branch(e_in(x, I.ASCII)):
                run.append(x)
            else:
                flush()
                out += (x,)
        flush()
        return mkstr(out)
    if isinstance(s, SymBytes):
        return unquote_to_bytes_(s).decode(encoding, errors)
    return up.unquote(s, encoding, errors)


def unquote_plus_(s, encoding="utf-8", errors="replace"):
    s = force(s)
    return unquote_(s.replace("+", " "), encoding, errors)


def iterencode_(iterator, encoding, errors="strict", **kw):
    iterator = force(iterator)
    if not isinstance(iterator, SymStr) and not deepsym(iterator):
        yield from codecs.iterencode(iterator, encoding, errors, **kw)
        return
    name = norm_codec(encoding)
    if name != "utf-8" and V.Codec.get(name) is None:
        raise Unsupported("stateful codec")
    for ch in it(iterator):
        b = ch.encode(encoding, errors) if isinstance(ch, SymStr) else ch.encode(encoding, errors)
        if isinstance(b, SymSeq) or b:
            yield b


# ------------------------------------------------------------ lru_cache
class SxCache:
    instances = []

    def __init__(self, f, maxsize=128):
        self.f = f
        self.__wrapped__ = f
        self.__name__ = getattr(f, "__name__", "cached")
        self.__doc__ = getattr(f, "__doc__", None)
        self.entries = []
        SxCache.instances.append(self)

    def __call__(self, *a, **k):
        a = tuple(force(x) for x in a)
        ks = tuple(sorted(k.items()))
        for a2, k2, r in self.entries:
            if len(a2) == len(a) and len(k2) == len(ks) and tuple(x for x, _ in ks) == tuple(x for x, _ in k2):
                fs = []
                for x, y in zip(a + tuple(v for _, v in ks), a2 + tuple(v for _, v in k2)):
                    if type_(x) is not type_(y):
                        fs.append(False)
                        break
                    fs.append(_eq_f(x, y))
                f = f_and(fs)
                if f is not False and ctx_branch(f):
                    return r
        r = self.f(*a, **k)
        self.entries.append((a, ks, r))
        return r

    def __get__(self, o, t=None):
        if o is None:
            return self
        return types.MethodType(self, o)

    def cache_clear(self):
        self.entries.clear()

    def cache_info(self):
        return (0, 0, None, len(self.entries))


def ctx_branch(f):
    if f is True or f is False:
        return f
    return ctx().branch(f)


def lru_cache_(maxsize=128, typed=False):
    if callable(maxsize):
        return SxCache(maxsize)
    return lambda f: SxCache(f)


def cache_(f):
    return SxCache(f)


# ------------------------------------------------------------ pinning
def pin_value(x, d=0):
    """replace symbolic parts by one concrete value of the path (incomplete)"""
    x = force(x)
    c = ctx()
    if isinstance(x, SymSeq):
        e = x.flat()
        out = [c.pin(y) if isinstance(y, Term) else y for y in e]
        return "".join(map(chr, out)) if isinstance(x, SymStr) else bytes(out)
    if isinstance(x, SymInt):
        return c.pin(x.t)
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymFlags):
        return idx(x)
    if d < 4:
        if type(x) in (list, tuple):
            return type(x)(pin_value(y, d + 1) for y in x)
        if type(x) is dict:
            return {pin_value(k, d + 1): pin_value(v, d + 1) for k, v in x.items()}
    return x


# ------------------------------------------------------------ call dispatch
MODELS = {}
SXFUNCS = set()       # code objects of instrumented functions
PURE = set()          # code objects of statically pure instrumented functions
STRM = (str, bytes, bytearray)


def count_sym(args):
    n = 0
    for a in args:
        if isinstance(a, SymSeq):
            if a.has_atoms():
                return 99
            n += sum(1 for x in a.e if not isinstance(x, int))
        elif isinstance(a, (SymInt, SymBool)):
            n += 1
        elif issym(a):
            return 99
        elif not isinstance(a, (str, int, type(None), bytes, type)):
            return 99
    return n


_MCACHE = {}


def call_pure(f, fn, args, kw):
    """merge the local paths of a pure function of one symbolic character"""
    c = ctx()
    if c.local is not None or c.nofork:
        return f(*args, **kw)
    allargs = args + tuple(kw.values())
    n = count_sym(allargs)
    if n == 0 or n > 2:
        return f(*args, **kw)
    r = c.merged(lambda: f(*args, **kw))
    if r is None or not r:
        return f(*args, **kw)
    if len(r) == 1:
        return r[0][1]
    return merge_values(r)


def call(f, *args, **kw):
    tf = type(f)
    if tf is types.FunctionType:
        co = f.__code__
        if co in SXFUNCS:
            if co in PURE:
                return call_pure(f, f, args, kw)
            return f(*args, **kw)
        m = MODELS.get(f)
        if m is not None:
            return m(*args, **kw)
        if getattr(f, "__module__", "").startswith("sx.") or f.__globals__.get("__sx__"):
            return f(*args, **kw)
        return foreign(f, args, kw)
    if tf is types.MethodType:
        fn = f.__func__
        co = getattr(fn, "__code__", None)
        if co in SXFUNCS:
            if co in PURE:
                return call_pure(f, fn, args, kw)
            return f(*args, **kw)
        if co is None:
            return f(*args, **kw)
        if fn.__globals__.get("__sx__"):
            return f(*args, **kw)
        return foreign(f, args, kw)
    if tf is types.BuiltinFunctionType:
        s = f.__self__
        if s is None or isinstance(s, types.ModuleType):
            m = MODELS.get(f)
            if m is not None:
                return m(*args, **kw)
            return foreign(f, args, kw)
        return call_method(f, s, args, kw)
    if tf is type or isinstance(f, type):
        m = MODELS.get(f)
        if m is not None:
            return m(*args, **kw)
        return f(*args, **kw)
    if tf is types.MethodDescriptorType:
        if args and (deepsym(args) or deepsym(tuple(kw.values()))):
            a0 = force(args[0])
            oc = f.__objclass__
            if oc in (str, bytes) and (isinstance(a0, (SymSeq, str, bytes))):
                if not isinstance(a0, SymSeq):
                    a0 = SymStr(SymStr.lift(a0)) if isinstance(a0, str) else SymBytes(tuple(a0))
                return getattr(a0, f.__name__)(*args[1:], **kw)
            return call(getattr(a0, f.__name__), *args[1:], **kw)
        return f(*args, **kw)
    if tf is Phi:
        return call(f.get(), *args, **kw)
    m = None
    try:
        m = MODELS.get(f)
    except TypeError:
        pass
    if m is not None:
        return m(*args, **kw)
    if getattr(tf, "__module__", "").startswith(("sx.", "urlstd_sx", "sxref", "sxscn")):
        return f(*args, **kw)
    if tf.__name__ in ("wrapper", "partial", "_lru_cache_wrapper"):
        return f(*args, **kw)
    return foreign(f, args, kw)


NAT_LIST = {"append", "extend", "insert", "clear", "reverse", "pop", "copy", "items", "keys", "values", "popitem"}


def call_method(f, s, args, kw):
    ts = type(s)
    name = f.__name__
    if ts is str or ts is bytes:
        for a in args:
            if issym(a) or (type(a) is not str and type(a) is not int and type(a) is not bytes):
                break
        else:
            if not kw or not deepsym(kw):
                return f(*args, **kw)
        if name == "format":
            return str_format(s, args, kw)
        if name == "join":
            xs = [force(x) for x in it(args[0])]
            if not any(issym(x) for x in xs):
                return s.join(xs)
            return (SymStr(SymStr.lift(s)) if ts is str else SymBytes(tuple(s))).join(xs)
        if not deepsym(args) and not deepsym(kw):
            return f(*args, **kw)
        return getattr(SymStr(SymStr.lift(s)) if ts is str else SymBytes(tuple(s)), name)(*args, **kw)
    if ts is type and s in (str, bytes, dict):
        if s is bytes and name == "fromhex":
            return fromhex(*args)
        if deepsym(args):
            return foreign(f, args, kw)
        return f(*args, **kw)
    if isinstance(s, dict):
        if name in ("get", "setdefault", "pop", "__contains__", "__getitem__", "update", "__setitem__"):
            k = force(args[0]) if args else None
            if name == "update":
                for a in args:
                    for q, v in (a.items() if isinstance(a, dict) else a):
                        setitem(s, q, v)
                for q, v in kw.items():
                    s[q] = v
                return None
            if issym(k) or any(issym(q) for q in s):
                if name == "__contains__":
                    return in_(k, s)
                if name == "__getitem__":
                    return getitem(s, k)
                if name == "__setitem__":
                    return setitem(s, k, args[1])
                hit, v = dict_find(s, k)
                if name == "get":
                    return v if hit else (args[1] if len(args) > 1 else None)
                if name == "setdefault":
                    if hit:
                        return v
                    v = args[1] if len(args) > 1 else None
                    s[k] = v
                    return v
                if hit:
                    q = dict_key(s, k)
                    return s.pop(q[0])
                if len(args) > 1:
                    return args[1]
                raise KeyError("<symbolic>")
        return f(*args, **kw)
    if isinstance(s, list):
        if name == "sort":
            if kw.get("key") is not None:
                kw["key"] = wrapc(kw["key"])
            return f(*args, **kw)
        if name in ("index", "remove", "count") and (deepsym(args) or deepsym(s)):
            x = args[0]
            c = ctx()
            if name == "count":
                r = 0
                for y in s:
                    r = r + V.int_(mkbool(_eq_f(x, y)))
                return r
            lo = args[1] if len(args) > 1 else 0
            for i in range(lo, len(s)):
                if bool(mkbool(_eq_f(x, s[i]))):
                    if name == "index":
                        return i
                    del s[i]
                    return None
            raise ValueError("not in list")
        return f(*[force(a) if type(a) is Phi else a for a in args], **kw)
    if isinstance(s, tuple) and name in ("index", "count"):
        return call_method(getattr(list(s), name), list(s), args, kw)
    if isinstance(s, (set, frozenset)):
        if deepsym(args):
            if name in ("issubset", "issuperset", "isdisjoint", "union", "intersection", "difference", "symmetric_difference"):
                return getattr(SymSet(s), name)(*args)
            if name == "issuperset":
                return set_(args[0]).issubset(s)
            raise Unsupported("set.%s with symbolic argument" % name)
        return f(*args, **kw)
    if isinstance(s, (types.GeneratorType, types.ModuleType)):
        return f(*args, **kw)
    if isinstance(s, BaseException) or isinstance(getattr(f, "__self__", None), BaseException):
        return f(*args, **kw)
    return foreign(f, args, kw)


NATURAL = {builtins.iter, builtins.next, builtins.enumerate, builtins.zip, builtins.reversed, builtins.range,
           builtins.list, builtins.tuple, builtins.getattr, builtins.setattr, builtins.hasattr, builtins.delattr,
           builtins.callable, builtins.id, builtins.super, builtins.object, builtins.issubclass, builtins.vars,
           builtins.dir, builtins.slice, builtins.abs, builtins.divmod, builtins.pow,
           copy.copy, copy.deepcopy, builtins.property, builtins.classmethod, builtins.staticmethod,
           builtins.__import__}


def foreign(f, args, kw):
    """a function with no model"""
    try:
        if f in NATURAL:
            return f(*args, **kw)
    except TypeError:
        pass
    if isinstance(getattr(f, "__self__", None), BaseException):
        return f(*args, **kw)
    mod = getattr(f, "__module__", None) or ""
    if mod in ("itertools", "functools", "operator", "_operator", "collections", "typing", "dataclasses", "enum",
               "contextlib", "_functools", "_collections"):
        return f(*[wrapc(a) if callable(a) and not isinstance(a, type) else a for a in args], **kw)
    if deepsym(args) or deepsym(kw):
        ctx().incomplete.append("pinned arguments of %s" % getattr(f, "__qualname__", f))
        args = tuple(pin_value(a) for a in args)
        kw = {k: pin_value(v) for k, v in kw.items()}
    return f(*args, **kw)


def print_(*a, **k):
    return None


def hash_(x):
    x = force(x)
    if deepsym(x):
        return hash(pin_value(x))
    return hash(x)


def round_(x, *a):
    return x if isinstance(x, SymInt) else round(x, *a)


def float_(x=0.0):
    x = force(x)
    if issym(x):
        return float(pin_value(x))
    return float(x)


def format_(x, spec=""):
    return mkstr(fmt(x, -1, spec))


def list_(x=()):
    return list(it(x))


def tuple_(x=()):
    return tuple(it(x))


def iter_(x, *a):
    return iter(force(x), *a)


MODELS.update({
    str: str_, repr: repr_, len: len_, ord: ord_, chr: chr_, int: int_of, bool: bool_, isinstance: isinstance_,
    type: type_, any: any_, all: all_, sum: sum_, map: map_, filter: filter_, sorted: sorted_, hex: hex_,
    bytes: bytes_, bytearray: bytearray_, dict: dict_, set: set_, frozenset: frozenset_, min: minmax(min),
    max: minmax(max), print: print_, hash: hash_, round: round_, float: float_, format: format_, list: list_,
    tuple: tuple_, iter: iter_,
    up.quote: quote_, up.quote_plus: quote_plus_, up.quote_from_bytes: quote_from_bytes_,
    up.unquote_to_bytes: unquote_to_bytes_, up.unquote: unquote_, up.unquote_plus: unquote_plus_,
    codecs.iterencode: iterencode_,
})
