"""C10: host parsing rejects forbidden characters and normalises domains"""
from .common import build, diff_parse

FORBIDDEN = "\x00\t\n\r #/:<>?@[\\]^|"


def host(S, tmpl, opaque=False):
    s = build(S, tmpl)
    o = S.attempt(S.u.Host.parse, s, opaque)
    if s == "":
        S.observe(o.ok)
        S.check_eq(o.ok, True, "the empty string is a host")
        S.check_eq(o.value, "", "the empty string is the empty host")
        return
    if o.ok:
        v = o.value
        S.observe(v)
        r = S.ref.host_parse(s, opaque)
        if r == S.ref.FAIL:
            S.check(False, "accepted a host the standard rejects")
            return
        S.check_eq(v, r[1], "host")
        if isinstance(v, str):
            for c in FORBIDDEN:
                S.check(c not in v, "no forbidden host code point in an accepted host")
            S.check(v != "", "non-empty")
    else:
        S.observe(o.exc)
        S.check_eq(o.exc, "URLParseError", "failure is a URLParseError")
        r = S.ref.host_parse(s, opaque)
        S.check(r == S.ref.FAIL, "rejected a host the standard accepts")


def url(S, tmpl):
    diff_parse(S, tmpl)


def scenarios(tier):
    from sx.dictionary import values
    d = 1 if tier == "thorough" else 0
    out = []
    for n in range(0, 4 + d):
        out.append(("domain/%d" % n, "host", dict(tmpl=[("x", n)])))
        out.append(("opaque/%d" % n, "host", dict(tmpl=[("x", n)], opaque=True)))
    for n in range(1, 3 + d):
        out.append(("domain-mid/%d" % n, "host", dict(tmpl=["ab", ("x", n), "cd"])))
        out.append(("domain-end/%d" % n, "host", dict(tmpl=["Ab.", ("x", n)])))
        out.append(("opaque-mid/%d" % n, "host", dict(tmpl=["aB", ("x", n), "cd"], opaque=True)))
        out.append(("pct/%d" % n, "host", dict(tmpl=["a%", ("x", n)])))
        out.append(("pct-opaque/%d" % n, "host", dict(tmpl=["a%", ("x", n)], opaque=True)))
        out.append(("url-http/%d" % n, "url", dict(tmpl=["http://h", ("x", n), "h/"])))
        out.append(("url-web/%d" % n, "url", dict(tmpl=["web://h", ("x", n), "h/"])))
        out.append(("url-file/%d" % n, "url", dict(tmpl=["file://h", ("x", n), "h/"])))
    out.append(("pct2", "host", dict(tmpl=["%", ("x", 2), "a"])))
    out.append(("pct-hex", "host", dict(tmpl=["a%", ("x", 2, "hex"), "b"])))
    out.append(("pct-hex2", "host", dict(tmpl=["%", ("x", 2, "hex"), "%", ("y", 2, "hex")])))
    out.append(("pct-utf8", "host", dict(tmpl=["%c3%", ("x", 2, "hex"), "b"])))
    out.append(("pct-pct", "host", dict(tmpl=["%2", ("x", 1, "hex"), "4", ("y", 1, "hex")])))
    for i, pre in enumerate(("%25", "a%25", "%252", "a%2525", "%2541%", "%25%", "%255")):
        for n in (1, 2):
            out.append(("pct-twice%d/%d" % (i, n), "host", dict(tmpl=[pre, ("x", n, "hex"), "b"])))
            out.append(("pct-twice-opaque%d/%d" % (i, n), "host", dict(tmpl=[pre, ("x", n, "hex"), "b"], opaque=True)))
            out.append(("pct-twice-url%d/%d" % (i, n), "url", dict(tmpl=["http://", pre, ("x", n), "/"])))
    out.append(("dots", "host", dict(tmpl=[("x", 4 + d, "[.a-]")])))
    out.append(("labels", "host", dict(tmpl=[("x", 4, "[.aA-_]"), "z"])))
    out.append(("long-label", "host", dict(tmpl=["a" * 62, ("x", 2, "[a.]"), "z"])))
    out.append(("long-name", "host", dict(tmpl=[("a" * 49 + ".") * 5, ("x", 4, "[a.]")])))
    for N in (60, 255, 300, 1000):
        for op in (False, True):
            t = "opaque" if op else "domain"
            out.append(("long-%s-%d" % (t, N), "host", dict(tmpl=["a" * N, ("x", 1), "b"], opaque=op)))
            out.append(("long-head-%s-%d" % (t, N), "host", dict(tmpl=[("x", 1), "a" * N], opaque=op)))
            out.append(("long-pct-%s-%d" % (t, N), "host", dict(tmpl=["a" * N, "%", ("x", 2, "hex")], opaque=op)))
        out.append(("long-url-%d" % N, "url", dict(tmpl=["web://", "a" * N, ("x", 1), "/"])))
        out.append(("long-url-http-%d" % N, "url", dict(tmpl=["http://", "a." * N, ("x", 1), "/"])))
    out.append(("bracket", "host", dict(tmpl=["a", ("x", 1, "[[]]"), "b"])))
    out.append(("ace", "host", dict(tmpl=["xn", ("x", 2, "[-a]"), "a"])))
    for nm, t in values():
        for op in (False, True):
            out.append(("%s-%d" % (nm, op), "host", dict(tmpl=t, opaque=op)))
    return out
