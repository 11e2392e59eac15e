"""C09: IP address serialisation is canonical and lossless"""

HEXD = "0123456789abcdef"


def ipv4(S, lo, hi, rt=True):
    v = S.int("v", lo, hi)
    s = S.u.Host.serialize(v)
    S.observe(s)
    a, b, c, e = S.int("a", 0, 255), S.int("b", 0, 255), S.int("c", 0, 255), S.int("e", 0, 255)
    S.assume(S.eq(a * 16777216 + b * 65536 + c * 256 + e, v))
    S.check_eq(s, str(a) + "." + str(b) + "." + str(c) + "." + str(e), "dotted decimal of the four bytes")


def ipv4_bytes(S, fixed, rt):
    """the four bytes are the inputs"""
    p = []
    for i in range(4):
        p.append(S.int("p%d" % i, 0, 255) if fixed[i] is None else fixed[i])
    v = ((p[0] * 256 + p[1]) * 256 + p[2]) * 256 + p[3]
    s = S.u.Host.serialize(v)
    S.observe(s)
    S.check_eq(s, ".".join([str(x) for x in p]), "dotted decimal")
    if rt:
        o = S.attempt(S.u.Host.parse, s)
        S.check(o.ok, "serialised address parses")
        if o.ok:
            S.check_eq(o.value, v, "parsing gives back the address")


def ipv6(S, pat, rt):
    """pat: '0' zero piece, 'x' any non-zero piece, '*' any piece"""
    a = []
    for i, c in enumerate(pat):
        if c == "0":
            a.append(0)
        elif c == "x":
            a.append(S.int("p%d" % i, 1, 0xffff))
        elif c == "*":
            a.append(S.int("p%d" % i, 0, 0xffff))
        else:
            a.append(int(c, 16))
    s = S.u.Host.serialize(tuple(a))
    S.observe(s)
    S.check_eq(s, "[" + S.ref.ipv6_serialize(a) + "]", "canonical form")
    if rt:
        o = S.attempt(S.u.Host.parse, s)
        S.check(o.ok, "serialised address parses")
        if o.ok:
            S.check_eq(list(o.value), a, "parsing gives back the pieces")


def scenarios(tier):
    d = 1 if tier == "thorough" else 0
    out = []
    for i in range(4):
        f = [0, 1, 10, 255]
        f[i] = None
        out.append(("v4-one%d" % i, "ipv4_bytes", dict(fixed=f, rt=True)))
    out.append(("v4-all", "ipv4_bytes", dict(fixed=[None] * 4, rt=False)))
    out.append(("v4-two", "ipv4_bytes", dict(fixed=[None, 0, 0, None], rt=True)))
    out.append(("v4-two2", "ipv4_bytes", dict(fixed=[1, None, None, 2], rt=True)))
    if d:
        out.append(("v4-all-rt", "ipv4_bytes", dict(fixed=[None] * 4, rt=True)))
    # every zero / non-zero pattern; each piece unconstrained otherwise
    for m in range(256):
        pat = "".join("0" if (m >> (7 - i)) & 1 else "x" for i in range(8))
        out.append(("v6-" + pat, "ipv6", dict(pat=pat, rt=False)))
    for pat in ("*0000001", "1*000000", "000000*1", "10*00003", "00*00*00", "1002*003", "ffff*fff", "0000000*", "*0000000",
                "12345*78", "1*3*5*7*", "**000001", "1000**00"):
        out.append(("v6rt-" + pat, "ipv6", dict(pat=pat, rt=True)))
    for m in range(256):
        pat = "".join("0" if (m >> (7 - i)) & 1 else "a" for i in range(8))
        i = pat.find("a")
        if i >= 0:
            pat = pat[:i] + "x" + pat[i + 1:]
        out.append(("v6rt-%d" % m, "ipv6", dict(pat=pat, rt=True)))
    out.append(("v6-any", "ipv6", dict(pat="********", rt=False)))
    return out
