"""C08: IPv6 hosts are accepted and evaluated as the Standard says"""
from .common import build, diff_parse

CH = "[01faF:.]"


def host(S, tmpl, opaque=False):
    s = build(S, tmpl)
    o = S.attempt(S.u.Host.parse, s, opaque)
    r = S.ref.host_parse(s, opaque)
    if o.ok:
        v = o.value
        S.observe(v)
        if r == S.ref.FAIL:
            S.check(False, "accepted an address the standard rejects")
            return
        S.check(isinstance(v, (tuple, list)) == (r[0] == "ipv6"), "is an IPv6 address")
        S.check_eq(v, r[1], "pieces")
    else:
        S.observe(o.exc)
        S.check_eq(o.exc, "URLParseError", "a rejection is a URLParseError")
        S.check(r == S.ref.FAIL, "rejected an address the standard accepts")


def url(S, tmpl):
    diff_parse(S, tmpl)


def pieces(S, pat, n):
    """pat: P = symbolic hex piece, C = ::, '.' literal etc."""
    t = []
    k = 0
    for c in pat:
        if c == "P":
            t.append(("p%d" % k, n, "hex"))
            k += 1
        elif c == "D":
            t.append(("d%d" % k, n, "digit"))
            k += 1
        else:
            t.append(c)
    s = "[" + build(S, t) + "]"
    o = S.attempt(S.u.Host.parse, s)
    r = S.ref.host_parse(s, False)
    if o.ok:
        S.observe(o.value)
        if r == S.ref.FAIL:
            S.check(False, "accepted an address the standard rejects")
            return
        S.check_eq(o.value, r[1], "pieces")
    else:
        S.observe(o.exc)
        S.check_eq(o.exc, "URLParseError", "a rejection is a URLParseError")
        S.check(r == S.ref.FAIL, "rejected an address the standard accepts")


def scenarios(tier):
    d = 1 if tier == "thorough" else 0
    out = []
    for n in range(0, 6 + d):
        out.append(("chars/%d" % n, "host", dict(tmpl=["[", ("x", n, CH), "]"])))
    for n in range(0, 3 + d):
        out.append(("any/%d" % n, "host", dict(tmpl=["[", ("x", n), "]"])))
        out.append(("any-tail/%d" % n, "host", dict(tmpl=["[::", ("x", n), "]"])))
        out.append(("any-mid/%d" % n, "host", dict(tmpl=["[1:", ("x", n), ":2]"])))
        out.append(("any-head/%d" % n, "host", dict(tmpl=["[", ("x", n), "::2]"])))
        out.append(("any-7/%d" % n, "host", dict(tmpl=["[1:2:3:4:5:6:", ("x", n), "]"])))
        out.append(("any-8/%d" % n, "host", dict(tmpl=["[1:2:3:4:5:6:7:", ("x", n), "]"])))
        out.append(("any-9/%d" % n, "host", dict(tmpl=["[1:2:3:4:5:6:7:8", ("x", n), "]"])))
        out.append(("any-v4/%d" % n, "host", dict(tmpl=["[::1.2.", ("x", n), ".4]"])))
        out.append(("any-v4b/%d" % n, "host", dict(tmpl=["[::1.2.3.", ("x", n), "]"])))
        out.append(("unclosed/%d" % n, "host", dict(tmpl=["[::1", ("x", n)])))
        out.append(("opaque/%d" % n, "host", dict(tmpl=["[", ("x", n), "::]"], opaque=True)))
        out.append(("url/%d" % n, "url", dict(tmpl=["http://[1:", ("x", n), "]/"])))
        out.append(("weburl/%d" % n, "url", dict(tmpl=["web://[::", ("x", n), "]:1/"])))
    for n in range(1, 5 + d):
        out.append(("tail/%d" % n, "host", dict(tmpl=["[1:2:3:4:5:6", ("x", n, CH), "]"])))
        out.append(("tail7/%d" % n, "host", dict(tmpl=["[1:2:3:4:5:6:7", ("x", n, CH), "]"])))
        out.append(("head/%d" % n, "host", dict(tmpl=["[", ("x", n, CH), "2:3:4:5:6:7:8]"])))
        out.append(("mid/%d" % n, "host", dict(tmpl=["[1:2:", ("x", n, CH), ":7:8]"])))
        out.append(("colons/%d" % n, "host", dict(tmpl=["[", ("x", n + 3, "[1:]"), "]"])))
    for n in (1, 2, 3):
        out.append(("v4/%d" % n, "pieces", dict(pat=["::", "D", ".", "D", ".", "D", ".", "D"], n=n)))
        out.append(("v4-6/%d" % n, "pieces", dict(pat=["P", ":2:3:4:5:6:", "D", ".", "D", ".", "D", ".", "D"], n=n)))
    # embedded IPv4 at every piece index, compressed before, just before it, or not at all
    for left in range(0, 9):
        for comp in range(-1, left + 1):
            ps = []
            for i in range(left):
                ps.append(("::" if i == comp else ":" if i else "") + "%x" % (i + 1))
            pre = "".join(ps) + ("::" if comp == left else ":" if left else "")
            out.append(("v4-at%d-c%d" % (left, comp), "host", dict(tmpl=["[", pre, ("x", 1, CH), "2.3.4.", ("y", 1), "]"])))
            out.append(("v4-at%d-c%db" % (left, comp), "host", dict(tmpl=["[", pre, "1.2.3.", ("y", 1, "digit"), ("z", 1, "[:.1]"), "]"])))
    out.append(("v4-few", "pieces", dict(pat=["::", "D", ".", "D", ".", "D"], n=2)))
    out.append(("v4-many", "pieces", dict(pat=["::", "D", ".", "D", ".", "D", ".", "D", ".", "D"], n=1)))
    out.append(("v4-7", "pieces", dict(pat=["1:2:3:4:5:6:7:", "D", ".", "D", ".2.3"], n=1)))
    out.append(("v4-chars", "host", dict(tmpl=["[::1", ("x", 5 + d, "[.012:]"), "]"])))
    out.append(("v4-chars2", "host", dict(tmpl=["[::1.1.1", ("x", 4 + d, "[.029:5]"), "]"])))
    out.append(("v4-mid", "host", dict(tmpl=["[1.2.3.4", ("x", 3 + d, "[.:1a]"), "]"])))
    # every position of the compression, symbolic pieces
    for n in (1, 4, 5):
        for left in range(0, 8):
            for right in ((0, 1, 7 - left) if not d else range(0, 8 - left)):
                if right < 0:
                    continue
                pat = []
                for i in range(left):
                    pat += (["P"] if i < 3 else ["a"]) + ([":"] if i < left - 1 else [])
                pat += ["::"]
                for i in range(right):
                    pat += (["P"] if i < 3 else ["b"]) + ([":"] if i < right - 1 else [])
                if n == 1 or (left <= 2 and right <= 2):
                    out.append(("c%d-%d/%d" % (left, right, n), "pieces", dict(pat=pat, n=n)))
        out.append(("full/%d" % n, "pieces", dict(pat=["P", ":", "P", ":3:4:5:", "P", ":7:", "P"], n=n)))
    out.append(("nine", "pieces", dict(pat=["P", ":2:3:4:5:6:7:8:", "P"], n=1)))
    out.append(("seven", "pieces", dict(pat=["P", ":2:3:4:5:6:", "P"], n=1)))
    out.append(("eightc", "pieces", dict(pat=["P", ":2:3:4:5:6:7::", "P"], n=1)))
    # every number of pieces before and after the compression (or none), ragged ends
    for i in range(0, 9):
        for j in range(-1, 10 - i):
            left = ":".join("%x" % (k + 1) for k in range(i))
            a = left if j < 0 else left + "::" + ":".join("%x" % (k + 9) for k in range(j))
            out.append(("ragged-end%d,%d/1" % (i, j), "host", dict(tmpl=["[", a, ("x", 1, CH), "]"])))
            out.append(("ragged-end%d,%d/2" % (i, j), "host", dict(tmpl=["[", a, ("x", 2, "[:.0f]"), "]"])))
            if i:
                out.append(("ragged-head%d,%d/2" % (i, j), "host", dict(tmpl=["[", ("x", 2, "[:.0f]"), a, "]"])))
            if j >= 0:
                b = ":".join("%x" % (k + 9) for k in range(j))
                out.append(("ragged-mid%d,%d/2" % (i, j), "host", dict(tmpl=["[", left, ("x", 2 + d, "[:.0]"), b, "]"])))
    for i, pre in enumerate(("[::1%", "[::1%25", "[fe80::1%25", "[1:2:3:4:5:6:7:8%", "[::1.2.3.4%25", "[fe80::%", "[%")):
        for n in range(0, 3):
            out.append(("zone%d/%d" % (i, n), "host", dict(tmpl=[pre, ("x", n), "]"])))
            out.append(("zone-url%d/%d" % (i, n), "url", dict(tmpl=["http://", pre, ("x", n), "]:8/"])))
            out.append(("zone-opaque%d/%d" % (i, n), "host", dict(tmpl=[pre, ("x", n, "[a0%]]"), "]"], opaque=True)))
    F = "0123:4567:89ab:cdef:FEDC:ba98:7654:3210"
    for i, t in enumerate(([F[:-1], ("x", 1)], [("x", 1), F[1:]], [F[:20], ("x", 1), F[21:]], [F, ("x", 1)], [("x", 1), F],
                           [F[:30], "192.168.100.22", ("x", 1)], [F[:30], "255.255.255.2", ("x", 2, "digit")], [F[:30], ("x", 1), "00.200.200.200"], [F[:30], "100.100", ("x", 1), "100.100"],
                           [F[:35], "100.100.100.10", ("x", 1)], ["0000:0000:0000:0000:0000:ffff:192.168.100.22", ("x", 1)], ["::", F[:24], ":192.168.100.22", ("x", 1)],
                           [F[:24], "::192.168.100.22", ("x", 1)], ["0000:0000:0000:0000:0000:0000:0000:000", ("x", 1)], ["ffff:ffff:ffff:ffff:ffff:ffff:ffff:fff", ("x", 1)],
                           ["ffff:ffff:ffff:ffff:ffff:ffff:255.255.255.25", ("x", 1)], [F[:34], ("x", 2, CH)], ["::", F[:34], ("x", 1)])):
        out.append(("wide/%d" % i, "host", dict(tmpl=["["] + t + ["]"])))
        out.append(("wide-url/%d" % i, "url", dict(tmpl=["http://["] + t + ["]:81/"])))
        out.append(("wide-web/%d" % i, "url", dict(tmpl=["web://u@["] + t + ["]"])))
    for k in (5000,):
        out.append(("longpiece", "host", dict(tmpl=["[::", "0" * k, ("x", 1, CH), "]"])))
        out.append(("longv4", "host", dict(tmpl=["[::1.", "1" * k, ("x", 1, "[.1:]"), "1.1]"])))
        out.append(("longv4z", "host", dict(tmpl=["[::1.1.1.", "0" * k, ("x", 1, "[.1:]"), "]"])))
    return out
