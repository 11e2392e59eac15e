"""C26: validation reports are consistent and never leak between runs"""
from .common import build, rec_tuple

KINDS = ("url", "canparse", "host", "domain", "ipv4", "ipv6", "opaque", "scheme", "urlbase", "canparsebase")


def call(S, kind, s, **kw):
    U = S.u
    if kind == "url":
        return U.URLValidator.is_valid(s, **kw)
    if kind == "urlbase":
        return U.URLValidator.is_valid(s, "http://h/a/b?q", **kw)
    if kind == "canparse":
        return U.URL.can_parse(s, **kw)
    if kind == "canparsebase":
        return U.URL.can_parse(s, U.URL("http://h/a/b?q"), **kw)
    if kind == "host":
        return U.HostValidator.is_valid(s, **kw)
    if kind == "domain":
        return U.HostValidator.is_valid_domain(s, **kw)
    if kind == "ipv4":
        return U.HostValidator.is_valid_ipv4_address(s, **kw)
    if kind == "ipv6":
        return U.HostValidator.is_valid_ipv6_address(s, **kw)
    if kind == "opaque":
        return U.HostValidator.is_valid_opaque_host(s, **kw)
    return U.URLValidator.is_valid_url_scheme(s, **kw)


def view(v):
    return [v.valid, v.validation_errors, list(v.error_types), len(v.descriptions), v.disable_logging]


def consistent(S, v, label=""):
    n = v.validation_errors
    S.check(S.iff(v.valid, n == 0), label + "valid exactly when there are no errors")
    S.check_eq(len(v.error_types), n, label + "one type per error")
    S.check_eq(len(v.descriptions), n, label + "one description per error")
    for t, m in zip(v.error_types, v.descriptions):
        if t != "undefined":
            S.check(m.startswith(t + ":"), label + "each description goes with its type")


def dirty(S, v, how):
    """earlier uses of the report object"""
    U = S.u
    if how == "many":
        U.URLValidator.is_valid("http:\\\\u@h\\%zz? <", validity=v)
    elif how == "fail":
        U.URL.can_parse("http://a b/", validity=v)
    elif how == "host":
        U.HostValidator.is_valid("a..b", validity=v)
        U.HostValidator.is_valid("[1::1::1]", validity=v)
    elif how == "ok":
        U.URLValidator.is_valid("http://h/", validity=v)
    elif how == "leftover":
        v.error_types[:] = ["IPv4-empty-part", "undefined"]
        v.descriptions[:] = ["IPv4-empty-part: left over"]
    elif how == "count":
        v.validation_errors = 7
    elif how == "flag":
        v.valid = False
    elif how == "by-hand":
        v.prepend("IPv4-empty-part: by hand")
        v.prepend("no type here %s", "x")


def report(S, kind, tmpl, how):
    """the report after a call depends on that call alone"""
    S.logmode("all")
    s = build(S, tmpl)
    fresh = S.u.ValidityState()
    r1 = call(S, kind, s, validity=fresh)
    consistent(S, fresh, "fresh: ")
    if kind not in ("canparse", "canparsebase"):
        S.check(S.iff(r1, fresh.valid), "the verdict agrees with the report")
    else:
        S.check(S.implies(fresh.valid, r1), "nothing to report when parsing fails")
    S.check_eq(fresh.disable_logging, True, "the logging flag is left alone")
    used = S.u.ValidityState()
    dirty(S, used, how)
    r2 = call(S, kind, s, validity=used)
    consistent(S, used, "used: ")
    S.check_eq(r2, r1, "same verdict with a used report")
    S.check_eq(view(used), view(fresh), "a used report describes only the last call")
    r3 = call(S, kind, s)
    S.check_eq(r3, r1, "same verdict without a report")
    other = S.u.ValidityState()
    S.check_eq(view(other), [True, 0, [], 0, True], "a new report is empty")
    S.observe(r1, list(fresh.error_types), fresh.validation_errors)


def twice(S, kind, t1, t2):
    """two reports of two calls are separate"""
    S.logmode("all")
    a, b = build(S, t1), build(S, t2)
    v, w = S.u.ValidityState(), S.u.ValidityState()
    call(S, kind, a, validity=v)
    v0 = view(v)
    call(S, kind, b, validity=w)
    w0 = view(w)
    S.check_eq(view(v), v0, "the first report is kept")
    call(S, kind, b, validity=v)
    S.check_eq(view(v), w0, "the first report now describes the second call")
    S.check_eq(view(w), w0, "the second report is kept")
    S.observe(v0[1], w0[1])


def parse_result(S, tmpl, base=None):
    """collecting a report changes neither the outcome nor the result"""
    s = build(S, tmpl)
    a = S.attempt(S.u.parse_url, s, base)
    S.logmode("all")
    v = S.u.ValidityState()
    b = S.attempt(S.u.parse_url, s, base, validity=v)
    S.check_eq(b.ok, a.ok, "same outcome with a report")
    w = S.u.ValidityState(disable_logging=False)
    c = S.attempt(S.u.parse_url, s, base, validity=w)
    S.check_eq(c.ok, a.ok, "same outcome with a logging report")
    if a.ok and b.ok and c.ok:
        S.check_eq(rec_tuple(b.value), rec_tuple(a.value), "same result with a report")
        S.check_eq(rec_tuple(c.value), rec_tuple(a.value), "same result with a logging report")
        S.observe(rec_tuple(a.value))
    else:
        S.check(not v.valid, "a failure is reported")
        S.observe(a.exc)
    consistent(S, v)
    consistent(S, w)
    S.check_eq(view(v)[:4], view(w)[:4],
               "logging does not change the report")
    S.observe(v.validation_errors)


def flag(S, kind, tmpl):
    """a caller's choice to keep logging on survives"""
    S.logmode("all")
    s = build(S, tmpl)
    w = S.u.ValidityState(disable_logging=False)
    v = S.u.ValidityState()
    r = call(S, kind, s, validity=w)
    q = call(S, kind, s, validity=v)
    S.check_eq(r, q, "same verdict")
    S.check_eq(w.disable_logging, False, "the flag is left alone")
    S.check_eq(view(w)[:4], view(v)[:4], "same report")
    S.observe(r, w.validation_errors)


def order(S, tmpl, n):
    """newest first: errors of later parts of the URL come before those of earlier parts"""
    S.logmode("all")
    x = S.str("x", 1, "[a<\x7f^]")
    y = S.str("y", 1, "[a<\x7f^]")
    z = S.str("z", 1, "[a<\x7f^]")
    at = S.choice("at", ["", "u@"])
    v = S.u.ValidityState()
    S.u.URLValidator.is_valid("http://" + at + "h/" + x + "?" + y + "#" + z, validity=v)
    S.observe(list(v.error_types))
    want = []
    for c in (z, y, x):
        if c != "a":
            want.append("invalid-URL-unit")
    if at != "":
        want.append("invalid-credentials")
    S.check_eq(list(v.error_types), want, "newest first")


def combine(S, kinds, t1, t2):
    """the sum of two reports, and a report another one is added to"""
    S.logmode("all")
    a, b = build(S, t1), build(S, t2)
    v, w = S.u.ValidityState(), S.u.ValidityState()
    call(S, kinds[0], a, validity=v)
    call(S, kinds[1], b, validity=w)
    v0, w0 = full(v), full(w)
    z = v + w
    want = [v0[0] and w0[0], v0[1] + w0[1], v0[2] + w0[2], v0[3] + w0[3], v0[4]]
    S.check_eq(full(z), want, "sum")
    S.check_eq(full(v), v0, "a sum leaves its left operand alone")
    S.check_eq(full(w), w0, "a sum leaves its right operand alone")
    consistent(S, z, "sum: ")
    z.prepend("by hand")
    S.check_eq(full(v), v0, "a sum is separate from its left operand")
    S.check_eq(full(w), w0, "a sum is separate from its right operand")
    same = v
    v += w
    S.check(v is same, "+= updates in place")
    S.check_eq(full(v), want, "+=")
    S.check_eq(full(w), w0, "+= leaves its right operand alone")
    consistent(S, v, "+=: ")
    v.prepend("by hand")
    S.check_eq(full(w), w0, "+= keeps the reports separate")
    S.observe(want[1], want[2])


def full(v):
    return [v.valid, v.validation_errors, list(v.error_types), list(v.descriptions), v.disable_logging]


HOW = ("many", "fail", "host", "ok", "by-hand")
ODD = ("leftover", "count", "flag")
T = {"url": [("", 3), ("http://h/", 2), ("http:", 2), ("mailto:", 2), ("http://", 1), ("http://1.2.3.", 1), ("ldap://", 2), ("http://[::", 2)],
     "urlbase": [("", 2), ("//", 1)], "canparse": [("", 2), ("http://h/", 1), ("http://", 1), ("http://[::", 2), ("ldap://", 2)],
     "canparsebase": [("", 2), ("http:", 1)], "host": [("", 2), ("1.2.3.", 2), ("[::", 2), ("a.", 2)], "domain": [("", 2), ("a", 2)],
     "ipv4": [("", 2), ("1.2.3.", 3)], "ipv6": [("", 3), ("1:", 2), ("::1.2.3.", 2)], "opaque": [("", 3), ("[", 2), ("a%", 2)],
     "scheme": [("", 2), ("htt", 2)]}


# the same text twice in one input
R = {"url": [("http://h/", "", ""), ("http:", "h", ""), ("http://", "@", "@h"), ("http://h/?", "/", ""), ("http://0", ".0", ""), ("http://h/%", "%", ""),
             ("web://h", "/", "#"), ("http://[::", ".", "]")],
     "canparse": [("http://0", ".0", ""), ("http://", "@", "@h"), ("http:", "", "h/"), ("http://", ".", ""), ("file:", "/", "")],
     "host": [("0", ".0", ""), ("", ".", ""), ("a", ".a", ""), ("[", ":", "]"), ("09", ".09", ".1")],
     "domain": [("", ".", ""), ("a", ".a", "")], "ipv4": [("0", ".0", ".1.1"), ("", ".", "")], "ipv6": [("1", ":1", ""), ("::1", ".1", "")],
     "opaque": [("", "", ""), ("a%", "%", ""), ("[1", ":1", "]")], "urlbase": [("", "/", ""), ("//", "@", "@h")]}


def scenarios(tier):
    d = 1 if tier == "thorough" else 0
    out = []
    k = 0
    for kind in KINDS:
        for pre, n in T[kind]:
            for m in range(0, n + 1 + d):
                k += 1
                hows = HOW if d else (HOW[k % 5],) if m < n else HOW[:2] + HOW[4:]
                for h in hows:
                    out.append(("report-%s-%s-%s/%d" % (kind, pre, h, m), "report", dict(kind=kind, tmpl=[pre, ("x", m)], how=h)))
            out.append(("flag-%s-%s" % (kind, pre), "flag", dict(kind=kind, tmpl=[pre, ("x", 1 + d)])))
            for h in ODD:
                out.append(("report-%s-%s-%s/1" % (kind, pre, h), "report", dict(kind=kind, tmpl=[pre, ("x", 1)], how=h)))
        for j, (a, b, c) in enumerate(R.get(kind, ())):
            for n in (1, 2):
                out.append(("repeat-%s-%d/%d" % (kind, j, n), "report", dict(kind=kind, tmpl=[a, ("x", n, "ascii"), b, ("x", n, "ascii"), c], how=HOW[(j + n) % 5])))
        pre = T[kind][0][0]
        out.append(("twice-%s" % kind, "twice", dict(kind=kind, t1=[T[kind][-1][0], ("x", 1, "ascii")], t2=[pre, ("y", 1, "ascii")])))
    for pre, post, n in (("", "", 3), ("http:", "h", 2), ("http://", "/", 2), ("http://h/", "", 2), ("file:", "", 2), ("web://", "", 2), ("web:", "", 2),
                         ("http://[", "]", 3), ("http://h:", "/", 2)):
        for m in range(1, n + 1 + d):
            out.append(("parse-%s-%s/%d" % (pre, post, m), "parse_result", dict(tmpl=[pre, ("x", m), post])))
    for b in ("http://u@h/a?q", "file:///C:/a", "web:o"):
        out.append(("parse-base-%s" % b, "parse_result", dict(tmpl=[("x", 1 + d)], base=b)))
    out.append(("order", "order", dict(tmpl=[], n=1)))
    for i, (k, a, b) in enumerate(((("url", "url"), "http://h/", "http://u@h/"), (("host", "url"), "a.", "http:"), (("canparse", "ipv6"), "http://h:", "1:"),
                                   (("ipv4", "domain"), "1.2.3.", "a."), (("scheme", "opaque"), "htt", "a%"), (("domain", "canparse"), "", "http://1.2."))):
        for n, m in ((0, 1), (1, 1), (1, 0)):
            out.append(("combine%d/%d,%d" % (i, n, m), "combine", dict(kinds=k, t1=[a, ("x", n)], t2=[b, ("y", m, "[a<:9. ]")])))
    return out
