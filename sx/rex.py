"""Regular expressions over symbolic strings (pattern tree from re._parser)."""
import re
import re._parser as sp
import re._constants as sc
from . import core as C
from . import iset as I
from . import vals as V
from .core import f_and, f_or, f_not, Unsupported
from .vals import SymStr, SymBytes, SymSeq, e_in, e_eq, force, mkbool

__sx__ = True
ALL = I.ALLCP
NL = I.one(10)
_WORD = _WORDA = None


def ctx():
    return C.CTX


def category(cat, ascii_only):
    if cat in (sc.CATEGORY_DIGIT, sc.CATEGORY_NOT_DIGIT):
        s = I.DIGIT if ascii_only else V.char_pred("isdecimal")
        return ALL.diff(s) if cat == sc.CATEGORY_NOT_DIGIT else s
    if cat in (sc.CATEGORY_SPACE, sc.CATEGORY_NOT_SPACE):
        s = I.chars(" \t\n\r\x0b\x0c") if ascii_only else V.char_pred("isspace")
        return ALL.diff(s) if cat == sc.CATEGORY_NOT_SPACE else s
    if cat in (sc.CATEGORY_WORD, sc.CATEGORY_NOT_WORD):
        s = I.ALPHA.union(I.DIGIT).union(I.one(95)) if ascii_only else V.char_pred("isalnum").union(I.one(95))
        return ALL.diff(s) if cat == sc.CATEGORY_NOT_WORD else s
    raise Unsupported("regex category")


class Compiled:
    def __init__(self, pat, flags):
        self.pat = pat
        t = sp.parse(pat, flags)
        self.flags = t.state.flags
        self.groups = t.state.groups
        self.groupdict = dict(t.state.groupdict)
        self.tree = list(t)
        self.ascii = isinstance(pat, bytes) or bool(self.flags & re.ASCII)
        self.icase = bool(self.flags & re.IGNORECASE)
        self.sets = {}

    def cset(self, op, av):
        if op == sc.LITERAL:
            s = I.one(av)
        elif op == sc.NOT_LITERAL:
            s = ALL.diff(self._ic(I.one(av)))
            return s
        elif op == sc.ANY:
            return ALL if self.flags & re.DOTALL else ALL.diff(NL)
        else:
            s = I.EMPTY
            neg = False
            for o, a in av:
                if o == sc.NEGATE:
                    neg = True
                elif o == sc.LITERAL:
                    s = s.union(I.one(a))
                elif o == sc.RANGE:
                    s = s.union(I.ranges((a[0], a[1])))
                elif o == sc.CATEGORY:
                    s = s.union(category(a, self.ascii))
                else:
                    raise Unsupported("regex set item")
            s = self._ic(s)
            return ALL.diff(s) if neg else s
        return self._ic(s)

    def _ic(self, s):
        if not self.icase:
            return s
        up, lo = I.ranges((65, 90)), I.ranges((97, 122))
        a = s.inter(up)
        b = s.inter(lo)
        s = s.union(I.ISet(tuple((x + 32, y + 32) for x, y in a.r))).union(I.ISet(tuple((x - 32, y - 32) for x, y in b.r)))
        if not self.ascii:
            # the two non-ASCII case partners of ASCII letters
            if s.has(ord("s")):
                s = s.union(I.one(0x17F))
            if s.has(ord("k")):
                s = s.union(I.one(0x212A))
        return s

    def setof(self, node):
        k = id(node)
        r = self.sets.get(k)
        if r is None:
            r = self.sets[k] = (node, self.cset(*node))
        return r[1]


CHARS = (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN)


class Runner:
    """match nodes over elements; mode 'f': formulas, 'x': forking"""

    def __init__(self, comp, e):
        self.c = comp
        self.e = e
        self.n = len(e)

    def at(self, av, i):
        e, n = self.e, self.n
        if av in (sc.AT_BEGINNING_STRING,) or (av == sc.AT_BEGINNING and not self.c.flags & re.MULTILINE):
            return i == 0
        if av == sc.AT_END_STRING:
            return i == n
        if av == sc.AT_END and not self.c.flags & re.MULTILINE:
            if i == n:
                return True
            if i == n - 1:
                return e_in(e[i], NL)
            return False
        if av == sc.AT_BEGINNING:
            return True if i == 0 else e_in(e[i - 1], NL)
        if av == sc.AT_END:
            return True if i == n else e_in(e[i], NL)
        if av in (sc.AT_BOUNDARY, sc.AT_NON_BOUNDARY):
            w = category(sc.CATEGORY_WORD, self.c.ascii)
            a = e_in(e[i - 1], w) if i > 0 else False
            b = e_in(e[i], w) if i < n else False
            f = f_not(V.f_iff(a, b))
            return f if av == sc.AT_BOUNDARY else f_not(f)
        raise Unsupported("regex anchor")

    # ---- existence formula
    def facc(self, nodes, p, i, k):
        """formula: nodes[p:] matches at i and then k(j)"""
        while p < len(nodes):
            op, av = nodes[p]
            if op in CHARS:
                if i >= self.n:
                    return False
                f = e_in(self.e[i], self.c.setof(nodes[p]))
                if f is False:
                    return False
                if f is True:
                    i += 1
                    p += 1
                    continue
                return f_and([f, self.facc(nodes, p + 1, i + 1, k)])
            if op == sc.AT:
                f = self.at(av, i)
                if f is False:
                    return False
                if f is True:
                    p += 1
                    continue
                return f_and([f, self.facc(nodes, p + 1, i, k)])
            if op == sc.SUBPATTERN:
                g, add, dele, sub = av
                if add or dele:
                    raise Unsupported("inline flags")
                q = p + 1
                return self.facc(list(sub), 0, i, lambda j: self.facc(nodes, q, j, k))
            if op == sc.BRANCH:
                q = p + 1
                return f_or([self.facc(list(b), 0, i, lambda j: self.facc(nodes, q, j, k)) for b in av[1]])
            if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                lo, hi, sub = av
                sub = list(sub)
                q = p + 1
                if len(sub) == 1 and sub[0][0] in CHARS:
                    # one-character body: fold from the longest repeat back
                    st = self.c.setof(sub[0])
                    fs = []
                    j = i
                    while j < self.n and len(fs) < hi:
                        f = e_in(self.e[j], st)
                        if f is False:
                            break
                        fs.append(f)
                        j += 1
                    if len(fs) < lo:
                        return False
                    acc = self.facc(nodes, q, i + len(fs), k)
                    for m in range(len(fs) - 1, -1, -1):
                        acc = f_and([fs[m], acc])
                        if m >= lo and acc is not True:
                            acc = f_or([self.facc(nodes, q, i + m, k), acc])
                    return acc

                def rep(cnt, j):
                    out = []
                    if cnt >= lo:
                        out.append(self.facc(nodes, q, j, k))
                    if cnt < hi and out != [True]:
                        out.append(self.facc(sub, 0, j, lambda j2: rep(cnt + 1, j2) if j2 > j or cnt < lo else False))
                    return f_or(out)
                return rep(0, i)
            if op in (sc.ASSERT, sc.ASSERT_NOT):
                d, sub = av
                if d < 0:
                    raise Unsupported("lookbehind")
                f = self.facc(list(sub), 0, i, lambda j: True)
                if op == sc.ASSERT_NOT:
                    f = f_not(f)
                if f is False:
                    return False
                return f_and([f, self.facc(nodes, p + 1, i, k)])
            raise Unsupported("regex op %s" % op)
        return k(i)

    def exists_at(self, i, full=False):
        n = self.n
        return self.facc(self.c.tree, 0, i, (lambda j: j == n) if full else (lambda j: True))

    # ---- forking match: returns (end, groups) or None
    def xm(self, nodes, p, i, gr, k):
        c = ctx()
        while p < len(nodes):
            op, av = nodes[p]
            if op in CHARS:
                if i >= self.n or not _br(e_in(self.e[i], self.c.setof(nodes[p]))):
                    return None
                i += 1
                p += 1
                continue
            if op == sc.AT:
                if not _br(self.at(av, i)):
                    return None
                p += 1
                continue
            if op == sc.SUBPATTERN:
                g, add, dele, sub = av
                q = p + 1
                st = i

                def after(j, gr2):
                    if g is not None:
                        gr2 = dict(gr2)
                        gr2[g] = (st, j)
                    return self.xm(nodes, q, j, gr2, k)
                return self.xm(list(sub), 0, i, gr, after)
            if op == sc.BRANCH:
                q = p + 1
                for b in av[1]:
                    r = self.xm(list(b), 0, i, gr, lambda j, g2: self.xm(nodes, q, j, g2, k))
                    if r is not None:
                        return r
                return None
            if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
                lo, hi, sub = av
                sub = list(sub)
                q = p + 1
                greedy = op == sc.MAX_REPEAT
                if greedy and len(sub) == 1 and sub[0][0] in CHARS:
                    st = self.c.setof(sub[0])
                    j = i
                    while j < self.n and j - i < hi and _br(e_in(self.e[j], st)):
                        j += 1
                    while j - i >= lo:
                        r = self.xm(nodes, q, j, gr, k)
                        if r is not None:
                            return r
                        j -= 1
                    return None

                def rep(cnt, j, g2):
                    def more():
                        if cnt < hi:
                            return self.xm(sub, 0, j, g2, lambda j2, g3: rep(cnt + 1, j2, g3) if j2 > j or cnt < lo else None)
                        return None

                    def stop():
                        if cnt >= lo:
                            return self.xm(nodes, q, j, g2, k)
                        return None
                    if greedy:
                        r = more()
                        return r if r is not None else stop()
                    r = stop()
                    return r if r is not None else more()
                return rep(0, i, gr)
            if op in (sc.ASSERT, sc.ASSERT_NOT):
                d, sub = av
                if d < 0:
                    raise Unsupported("lookbehind")
                r = self.xm(list(sub), 0, i, gr, lambda j, g2: (j, g2))
                if (r is None) == (op == sc.ASSERT):
                    return None
                p += 1
                continue
            if op == sc.GROUPREF:
                if av not in gr:
                    return None
                a, b = gr[av]
                L = b - a
                if i + L > self.n or not _br(f_and([e_eq(x, y) for x, y in zip(self.e[a:b], self.e[i:i + L])])):
                    return None
                i += L
                p += 1
                continue
            raise Unsupported("regex op %s" % op)
        return k(i, gr)

    def match_at(self, i, full=False):
        n = self.n
        return self.xm(self.c.tree, 0, i, {}, (lambda j, g: (j, g) if j == n else None) if full else (lambda j, g: (j, g)))


def _br(f):
    if f is True or f is False:
        return f
    return ctx().branch(f)


class SymMatch:
    def __init__(self, pat, s, run, start, full=False, span=None):
        self.re = pat
        self.string = s
        self._run = run
        self._start = start      # None: to be found (search)
        self._full = full
        self._res = span

    def _get(self):
        if self._res is None:
            if self._start is not None:
                r = self._run.match_at(self._start, self._full)
                if r is None:
                    raise C.PathAbort("regex")
                self._res = (self._start, r[0], r[1])
            else:
                for i in range(self._run.n + 1):
                    if _br(self._run.exists_at(i)):
                        r = self._run.match_at(i)
                        if r is None:
                            raise C.PathAbort("regex")
                        self._res = (i, r[0], r[1])
                        break
                else:
                    raise C.PathAbort("regex")
        return self._res

    def __bool__(self):
        return True

    def span(self, g=0):
        a, b, gr = self._get()
        if g == 0:
            return (a, b)
        if isinstance(g, str):
            g = self._run.c.groupdict[g]
        return gr.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def group(self, *gs):
        if not gs:
            gs = (0,)
        out = []
        for g in gs:
            a, b = self.span(g)
            out.append(None if a < 0 else _mk(self.string, self._run.e[a:b]))
        return out[0] if len(out) == 1 else tuple(out)

    def __getitem__(self, g):
        return self.group(g)

    def groups(self, default=None):
        r = [self.group(g) for g in range(1, self._run.c.groups)]
        return tuple(default if x is None else x for x in r)

    def groupdict(self, default=None):
        return {k: (default if self.group(v) is None else self.group(v)) for k, v in self._run.c.groupdict.items()}

    def expand(self, t):
        raise Unsupported("Match.expand")


def _mk(s, e):
    return SymBytes.mk(e) if isinstance(s, (SymBytes, bytes)) else SymStr.mk(e)


class SxPattern:
    def __init__(self, real):
        self.real = real
        self.pattern = real.pattern
        self.flags = real.flags
        self.groups = real.groups
        self._c = None

    def _run(self, s):
        if self._c is None:
            self._c = Compiled(self.real.pattern, self.real.flags & ~re.UNICODE if isinstance(self.real.pattern, str) else self.real.flags)
        return Runner(self._c, s.flat())

    def _sl(self, s, pos, endpos):
        return s if pos == 0 and endpos is None else None

    def search(self, s, pos=0, endpos=None):
        s = force(s)
        if not isinstance(s, SymSeq):
            return self.real.search(s, pos, *(() if endpos is None else (endpos,)))
        run = self._run(s)
        if endpos is not None:
            raise Unsupported("regex endpos")
        f = f_or([run.exists_at(i) for i in range(pos, run.n + 1)])
        if not _br(f):
            return None
        if pos:
            for i in range(pos, run.n + 1):
                if _br(run.exists_at(i)):
                    return SymMatch(self, s, run, i)
        return SymMatch(self, s, run, None)

    def match(self, s, pos=0, endpos=None):
        s = force(s)
        if not isinstance(s, SymSeq):
            return self.real.match(s, pos, *(() if endpos is None else (endpos,)))
        run = self._run(s)
        return SymMatch(self, s, run, pos) if _br(run.exists_at(pos)) else None

    def fullmatch(self, s, pos=0, endpos=None):
        s = force(s)
        if not isinstance(s, SymSeq):
            return self.real.fullmatch(s, pos, *(() if endpos is None else (endpos,)))
        run = self._run(s)
        return SymMatch(self, s, run, pos, True) if _br(run.exists_at(pos, True)) else None

    def finditer(self, s, pos=0, endpos=None):
        s = force(s)
        if not isinstance(s, SymSeq):
            yield from self.real.finditer(s)
            return
        run = self._run(s)
        i = pos
        last = -1
        while i <= run.n:
            if _br(run.exists_at(i)):
                r = run.match_at(i)
                if r is None:
                    raise C.PathAbort("regex")
                if r[0] == i and last == i:
                    i += 1
                    continue
                yield SymMatch(self, s, run, i, span=(i, r[0], r[1]))
                last = r[0]
                i = r[0] if r[0] > i else i + 1
            else:
                i += 1

    def findall(self, s, *a):
        s = force(s)
        if not isinstance(s, SymSeq):
            return self.real.findall(s, *a)
        out = []
        for m in self.finditer(s):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                out.append(m.group(1) if m.group(1) is not None else "")
            else:
                out.append(tuple("" if x is None else x for x in m.groups()))
        return out

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def subn(self, repl, s, count=0):
        s = force(s)
        repl = force(repl)
        if not isinstance(s, SymSeq):
            if callable(repl):
                from . import ops
                if all(True for _ in ()):
                    parts = []
                    sym = False
                    last = 0
                    n = 0
                    for m in self.real.finditer(s):
                        if count and n >= count:
                            break
                        parts.append(s[last:m.start()])
                        parts.append(ops.call(repl, m))
                        last = m.end()
                        n += 1
                    parts.append(s[last:])
                    cls = SymStr if isinstance(s, str) else SymBytes
                    e = ()
                    for q in parts:
                        e += cls.lift(q)
                    return cls.mk(e), n
            if isinstance(repl, SymSeq):
                raise Unsupported("symbolic replacement")
            return self.real.subn(repl, s, count)
        run = self._run(s)
        from . import ops
        out = ()
        last = 0
        n = 0
        lift = type(s).lift
        for m in self.finditer(s):
            if count and n >= count:
                break
            a, b = m.span()
            out += run.e[last:a]
            if callable(repl):
                out += lift(ops.call(repl, m))
            else:
                if not isinstance(repl, SymSeq) and ("\\" if isinstance(repl, str) else b"\\") in repl:
                    out += self._template(repl, m, lift)
                else:
                    out += lift(repl)
            last = b
            n += 1
        out += run.e[last:]
        return type(s).mk(out), n

    def _template(self, repl, m, lift):
        t = sp.parse_template(repl, self.real)
        out = ()
        for x in t:
            if isinstance(x, int):
                g = m.group(x)
                out += lift(g) if g is not None else ()
            elif x:
                out += lift(x)
        return out

    def split(self, s, maxsplit=0):
        s = force(s)
        if not isinstance(s, SymSeq):
            return self.real.split(s, maxsplit)
        run = self._run(s)
        out = []
        last = 0
        n = 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            a, b = m.span()
            out.append(type(s).mk(run.e[last:a]))
            out.extend(m.groups())
            last = b
            n += 1
        out.append(type(s).mk(run.e[last:]))
        return out


class ReProxy:
    """stand-in for the re module"""
    __name__ = "re"
    _cache = {}

    def __getattr__(self, n):
        return getattr(re, n)

    def compile(self, p, flags=0):
        if isinstance(p, SxPattern):
            return p
        if isinstance(p, re.Pattern):
            return SxPattern(p)
        if isinstance(p, SymSeq):
            raise Unsupported("symbolic pattern")
        return SxPattern(re.compile(p, flags))

    def _p(self, p, flags=0):
        k = (p, flags)
        r = self._cache.get(k)
        if r is None:
            r = self._cache[k] = self.compile(p, flags)
        return r

    def search(self, p, s, flags=0):
        return self._p(p, flags).search(s)

    def match(self, p, s, flags=0):
        return self._p(p, flags).match(s)

    def fullmatch(self, p, s, flags=0):
        return self._p(p, flags).fullmatch(s)

    def sub(self, p, r, s, count=0, flags=0):
        return self._p(p, flags).sub(r, s, count)

    def subn(self, p, r, s, count=0, flags=0):
        return self._p(p, flags).subn(r, s, count)

    def findall(self, p, s, flags=0):
        return self._p(p, flags).findall(s)

    def finditer(self, p, s, flags=0):
        return self._p(p, flags).finditer(s)

    def split(self, p, s, maxsplit=0, flags=0):
        return self._p(p, flags).split(s, maxsplit)

    def escape(self, s):
        from . import ops
        if isinstance(s, SymSeq):
            s = ops.pin_value(s)
        return re.escape(s)
