"""C07: IPv4 hosts are recognised and evaluated as the Standard says"""
from .common import build, diff_parse

V4 = "[0123456789abfx.X]"


def host(S, tmpl):
    s = build(S, tmpl)
    o = S.attempt(S.u.Host.parse, s)
    r = S.ref.host_parse(s, False)
    if o.ok:
        v = o.value
        S.observe(v)
        if r == S.ref.FAIL:
            S.check(False, "accepted a host the standard rejects")
            return
        isint = not isinstance(v, (str, tuple, list))
        S.check(isint == (r[0] == "ipv4"), "recognised as an IPv4 address exactly when the standard does")
        S.check_eq(v, r[1], "value")
        if isint:
            S.check(S.all(v >= 0, v <= 0xffffffff), "value in range")
    else:
        S.observe(o.exc)
        S.check_eq(o.exc, "URLParseError", "a rejection is a URLParseError")
        S.check(r == S.ref.FAIL, "rejected a host the standard accepts")


def url(S, tmpl):
    diff_parse(S, tmpl)


def scenarios(tier):
    d = 1 if tier == "thorough" else 0
    out = []
    for n in range(1, 5 + d):
        out.append(("chars/%d" % n, "host", dict(tmpl=[("x", n, "[0123456789abcdefABCDEF.xX-+_oOg ]")])))
    for n in range(1, 3 + d):
        out.append(("any/%d" % n, "host", dict(tmpl=[("x", n)])))
        out.append(("last-any/%d" % n, "host", dict(tmpl=["a.", ("x", n)])))
        out.append(("last-any-num/%d" % n, "host", dict(tmpl=["1.", ("x", n)])))
        out.append(("mid-any/%d" % n, "host", dict(tmpl=["1.", ("x", n), ".3"])))
        out.append(("first-any/%d" % n, "host", dict(tmpl=[("x", n), ".3"])))
        out.append(("digit-any/%d" % n, "host", dict(tmpl=["1", ("x", n), "0"])))
        out.append(("zero-any/%d" % n, "host", dict(tmpl=["0", ("x", n), "1"])))
        out.append(("hex-any/%d" % n, "host", dict(tmpl=["0x", ("x", n), "1"])))
        out.append(("url-any/%d" % n, "url", dict(tmpl=["http://1.2.", ("x", n), "/"])))
    for n in range(1, 7 + d):
        out.append(("last-chars/%d" % n, "host", dict(tmpl=["a.", ("x", n, "[019xXafg.]")])) if n < 6 else
                   ("last-digits/%d" % n, "host", dict(tmpl=["a.", ("x", n, "digit")])))
    D = "digit"
    out += [
        ("dec10", "host", dict(tmpl=[("a", 10, D)])), ("dec11", "host", dict(tmpl=["4", ("a", 10, D)])),
        ("decdot", "host", dict(tmpl=[("a", 10, D), "."])),
        ("hex8", "host", dict(tmpl=["0x", ("a", 8, "hex")])), ("hex9", "host", dict(tmpl=["0X", ("a", 9, "hex")])),
        ("oct11", "host", dict(tmpl=["0", ("a", 11, "[01234567]")])), ("oct12", "host", dict(tmpl=["0", ("a", 12, "[01234567]")])),
        ("oct89", "host", dict(tmpl=["0", ("a", 3, D)])),
        ("two", "host", dict(tmpl=[("a", 3, D), ".", ("b", 8, D)])),
        ("twohex", "host", dict(tmpl=["0x", ("a", 3, "hex"), ".0x", ("b", 7, "hex")])),
        ("three", "host", dict(tmpl=[("a", 3, D), ".", ("b", 3, D), ".", ("c", 5, D)])),
        ("four", "host", dict(tmpl=[("a", 3, D), ".", ("b", 3, D), ".", ("c", 3, D), ".", ("e", 3, D)])),
        ("fourdot", "host", dict(tmpl=[("a", 2, D), ".", ("b", 2, D), ".", ("c", 2, D), ".", ("e", 3, D), "."])),
        ("five", "host", dict(tmpl=["1.", ("a", 1, D), ".", ("b", 1), ".", ("c", 1), ".", ("e", 1, D)])),
        ("mixed", "host", dict(tmpl=["0x", ("a", 2, "hex"), ".0", ("b", 3, "[01234567]"), ".", ("c", 3, D)])),
        ("dots", "host", dict(tmpl=[("x", 5, "[1.]")])),
        ("dots2", "host", dict(tmpl=["1.", ("x", 5, "[0.]"), "1"])),
        ("emptyhex", "host", dict(tmpl=["0x.", ("x", 2, "[0xX.1]")])),
        ("pct", "host", dict(tmpl=["%", ("x", 2, "[0123e]"), ".1"])),
        ("full", "host", dict(tmpl=["1.", ("x", 2)])),
    ]
    for k, s in enumerate(("0" * 5000, "9" * 5000, "0x" + "f" * 5000, "0" * 5000 + "7", "0x" + "0" * 5000 + "a")):
        out.append(("long%d" % k, "host", dict(tmpl=["1.", s, ("x", 1, "[.7a]")])))
    if d:
        out += [("four-mix", "host", dict(tmpl=[("a", 2, V4), ".", ("b", 2, V4), ".", ("c", 2, V4), ".", ("e", 2, V4)])),
                ("chars6", "host", dict(tmpl=[("x", 6, "[0x.179]")]))]
    return out
