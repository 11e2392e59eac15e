"""Immutable sets of integers as sorted disjoint closed intervals."""
from bisect import bisect_right

__sx__ = True
MAXCP = 0x10FFFF


class ISet:
    __slots__ = ("r", "_h", "_los")

    def __init__(self, ranges):
        self.r = ranges
        self._h = hash(ranges)
        self._los = None

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, ISet) and self.r == o.r)

    def __bool__(self):
        return bool(self.r)

    def __repr__(self):
        return "{" + ",".join(f"{a:x}" if a == b else f"{a:x}-{b:x}" for a, b in self.r[:12]) + ("..." if len(self.r) > 12 else "") + "}"

    def has(self, x):
        if len(self.r) <= 4:
            for a, b in self.r:
                if a <= x <= b:
                    return True
            return False
        if self._los is None:
            self._los = [a for a, _ in self.r]
        i = bisect_right(self._los, x) - 1
        return i >= 0 and x <= self.r[i][1]

    def size(self):
        return sum(b - a + 1 for a, b in self.r)

    def lo(self):
        return self.r[0][0]

    def hi(self):
        return self.r[-1][1]

    def single(self):
        return self.r[0][0] if len(self.r) == 1 and self.r[0][0] == self.r[0][1] else None

    def items(self):
        for a, b in self.r:
            yield from range(a, b + 1)

    def inter(self, o):
        if self is o:
            return self
        k = (self, o)
        v = _INTER.get(k)
        if v is None:
            v = _INTER[k] = ISet(_inter(self.r, o.r))
        return v

    def diff(self, o):
        k = (self, o)
        v = _DIFF.get(k)
        if v is None:
            v = _DIFF[k] = ISet(_diff(self.r, o.r))
        return v

    def union(self, o):
        k = (self, o)
        v = _UNION.get(k)
        if v is None:
            v = _UNION[k] = ISet(_norm(self.r + o.r))
        return v

    def subset(self, o):
        return not self.diff(o).r

    def disjoint(self, o):
        return not self.inter(o).r

    def compl(self, uni):
        return uni.diff(self)


_INTER = {}
_DIFF = {}
_UNION = {}


def trim_caches():
    for c in (_INTER, _DIFF, _UNION):
        if len(c) > 400000:
            c.clear()


def _norm(rs):
    rs = sorted(r for r in rs if r[0] <= r[1])
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            if b > out[-1][1]:
                out[-1] = (out[-1][0], b)
        else:
            out.append((a, b))
    return tuple(out)


def _inter(x, y):
    out = []
    i = j = 0
    while i < len(x) and j < len(y):
        a = max(x[i][0], y[j][0])
        b = min(x[i][1], y[j][1])
        if a <= b:
            out.append((a, b))
        if x[i][1] < y[j][1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def _diff(x, y):
    out = []
    j = 0
    for a, b in x:
        cur = a
        while j < len(y) and y[j][1] < cur:
            j += 1
        k = j
        while k < len(y) and y[k][0] <= b:
            if y[k][0] > cur:
                out.append((cur, y[k][0] - 1))
            cur = max(cur, y[k][1] + 1)
            k += 1
        if cur <= b:
            out.append((cur, b))
    return tuple(out)


def ranges(*rs):
    return ISet(_norm(list(rs)))


_CH = {}


def chars(s):
    v = _CH.get(s)
    if v is None:
        v = ISet(_norm([(ord(c), ord(c)) for c in s]))
        if len(_CH) < 100000:
            _CH[s] = v
    return v


def ints(xs):
    return ISet(_norm([(x, x) for x in xs]))


_ONE = {}


def one(x):
    v = _ONE.get(x)
    if v is None:
        v = _ONE[x] = ISet(((x, x),))
    return v


EMPTY = ISet(())
ALLCP = ranges((0, MAXCP))
SURR = ranges((0xD800, 0xDFFF))
HIGH = ranges((0xD800, 0xDBFF))
LOW = ranges((0xDC00, 0xDFFF))
SCALAR = ALLCP.diff(SURR)
ASCII = ranges((0, 0x7F))
DIGIT = ranges((48, 57))
HEX = ranges((48, 57), (65, 70), (97, 102))
UHEX = ranges((48, 57), (65, 70))
LHEX = ranges((48, 57), (97, 102))
ALPHA = ranges((65, 90), (97, 122))
BYTE = ranges((0, 255))
