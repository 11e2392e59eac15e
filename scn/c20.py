"""C20: parsing is total and can_parse is consistent"""
from .common import build


def ok_or_parse_error(S, o, what):
    if not o.ok:
        S.check_eq(o.exc, "URLParseError", what + " raises only URLParseError")
    return o.ok


def total(S, tmpl, base=None, objbase=False):
    """every entry point agrees on whether the input parses"""
    s = build(S, tmpl)
    c = S.attempt(S.u.URL, s, base)
    ok = ok_or_parse_error(S, c, "URL()")
    S.observe(ok)
    p = S.attempt(S.u.parse_url, s, base)
    S.check_eq(ok_or_parse_error(S, p, "parse_url"), ok, "parse_url agrees with URL()")
    S.logmode("all")
    q = S.attempt(S.u.URL.can_parse, s, base)
    S.check(q.ok, "can_parse never raises")
    if q.ok:
        S.check_eq(q.value, ok, "can_parse agrees with URL()")
    v = S.u.ValidityState()
    w = S.attempt(S.u.URL.can_parse, s, base, validity=v)
    S.check(w.ok, "can_parse with a report never raises")
    if w.ok:
        S.check_eq(w.value, ok, "can_parse with a report agrees with URL()")
    x = S.attempt(S.u.URLValidator.is_valid, s, base)
    S.check(x.ok, "is_valid never raises")
    if x.ok:
        S.check(S.implies(x.value, ok), "a valid URL parses")
    S.logmode("skip")
    if objbase and base is not None:
        b = S.u.URL(base)
        r = S.attempt(S.u.URL, s, b)
        S.check_eq(ok_or_parse_error(S, r, "URL() with a URL base"), ok, "a URL object as base is the same")
        q = S.attempt(S.u.URL.can_parse, s, b)
        S.check(q.ok and q.value == ok, "can_parse with a URL object as base")
    y = S.attempt(S.u.urlparse, s, base)
    S.check_eq(ok_or_parse_error(S, y, "urlparse"), ok, "urlparse agrees with URL()")
    if base is None:
        h = S.u.URL("http://keep/")
        z = S.attempt(setattr, h, "href", s)
        S.check_eq(ok_or_parse_error(S, z, "the href setter"), ok, "the href setter agrees with URL()")
        if not z.ok:
            S.check_eq(h.href, "http://keep/", "a failed href assignment changes nothing")
        else:
            S.check_eq(h.href, c.value.href if ok else None, "the href setter gives the same URL")
        b = S.attempt(S.u.BasicURLParser.parse, s)
        S.check_eq(ok_or_parse_error(S, b, "BasicURLParser"), ok, "BasicURLParser agrees with URL()")
    if ok:
        S.check(len(c.value.href) > 0, "href exists")


def longrun(S, tmpl):
    """longer than Python's limit for int(): 4300 digits"""
    s = build(S, tmpl)
    c = S.attempt(S.u.URL, s)
    ok = ok_or_parse_error(S, c, "URL()")
    S.observe(ok)
    S.logmode("all")
    q = S.attempt(S.u.URLValidator.is_valid, s)
    S.check(q.ok, "is_valid never raises")
    if q.ok:
        S.check(S.implies(q.value, ok), "a valid URL parses")


def deep(S, tmpl, k, base=None):
    """thousands of parts: every reader and every operation works"""
    s = build(S, tmpl)
    U = S.u
    S.maxsteps(900000)
    c = S.attempt(U.URL, s, base)
    ok = ok_or_parse_error(S, c, "URL()")
    S.check(ok, "parses")
    if not ok:
        return
    u = c.value
    S.observe(u.href)
    for f in (lambda: [u.href, u.pathname, u.search, u.hash, u.host, u.origin, str(u), u == u], lambda: U.URL(u.href), lambda: U.URL("../x", u.href).href,
              lambda: list(u.search_params), lambda: str(u.search_params), lambda: u.search_params.sort(), lambda: u.search_params.get_all("a"),
              lambda: u.search_params.append("b", "c"), lambda: u.search_params.delete("a"), lambda: list(U.urlparse(s, base)),
              lambda: setattr(u, "pathname", u.pathname + "/../b"), lambda: setattr(u, "search", "?d"), lambda: U.parse_url(s, base).href):
        ok_or_parse_error(S, S.attempt(f), "an operation")


def badbase(S, tmpl, rel):
    """a base that does not parse is a parse error, whatever the input is"""
    b = build(S, tmpl)
    pb = S.attempt(S.u.URL, b)
    o = S.attempt(S.u.URL, rel, b)
    ok_or_parse_error(S, pb, "URL()")
    ok_or_parse_error(S, o, "URL() with a base")
    S.observe(pb.ok, o.ok)
    S.check(S.implies(o.ok, pb.ok), "an invalid base is an error")
    q = S.attempt(S.u.URL.can_parse, rel, b)
    S.check(q.ok and q.value == o.ok, "can_parse agrees")


def setter(S, url, name, tmpl):
    """a setter works, or raises the parse error and leaves the URL usable"""
    s = build(S, tmpl)
    u = S.u.URL(url)
    o = S.attempt(setattr, u, name, s)
    ok_or_parse_error(S, o, "the setter")
    h = u.href
    S.observe(h)
    r = S.attempt(S.u.URL, h)
    S.check(r.ok, "the result still parses")


def host(S, tmpl, opaque):
    s = build(S, tmpl)
    o = S.attempt(S.u.Host.parse, s, opaque)
    ok_or_parse_error(S, o, "Host.parse")
    S.observe(o.ok)
    if o.ok:
        t = S.attempt(S.u.Host.serialize, o.value)
        S.check(t.ok, "a parsed host serialises")
    S.logmode("all")
    v = S.u.ValidityState()
    o2 = S.attempt(S.u.Host.parse, s, opaque, validity=v)
    S.check_eq(o2.ok, o.ok, "collecting a report does not change the outcome")
    if not o2.ok:
        S.check_eq(o2.exc, "URLParseError", "only URLParseError")
        S.check(not v.valid, "a failure is reported")


def codec(S, n, dom):
    """the string helpers accept every string"""
    s = S.str("x", n, dom)
    for f in (S.u.utf8_encode, S.u.string_percent_decode, S.u.URLSearchParams):
        o = S.attempt(f, s)
        S.check(o.ok, "no exception")
    o = S.attempt(S.u.utf8_percent_encode, s, "a")
    S.check(o.ok, "no exception")
    o = S.attempt(S.u.string_percent_encode, s, "a")
    S.check(o.ok, "no exception")
    S.observe(o.value)
    o = S.attempt(S.u.urlencode, [(s, s)])
    S.check(o.ok, "no exception")


def rawbytes(S, n):
    b = S.bytes("b", n)
    o = S.attempt(S.u.utf8_decode, b)
    S.check(o.ok, "utf8_decode accepts every byte string")
    p = S.attempt(S.u.parse_qsl, b)
    S.check(p.ok, "parse_qsl accepts every byte string")
    S.observe(o.value)


def up(name, pre, post, n, lo=0, dom="any", **kw):
    return [("%s/%d" % (name, k), "total", dict(tmpl=[pre, ("x", k, dom), post], **kw)) for k in range(lo, n + 1)]


LONG = 4400


def scenarios(tier):
    from sx.dictionary import urls
    d = 1 if tier == "thorough" else 0
    out = []
    out += up("free", "", "", 3 + d)
    for pre, post, n in (("http:", "", 2), ("http://", "/p", 2), ("http://u:p", "@h", 2), ("http://h", "", 2), ("http://h:", "/", 2),
                         ("http://h/", "", 2), ("http://h?", "", 2), ("http://h#", "", 2), ("file:", "", 2), ("file://", "/", 2),
                         ("file:///", "", 2), ("web:", "", 2), ("web://", "/p", 2), ("web://h/", "", 2), ("web:o", "", 2),
                         ("http://[", "]/", 3), ("http://[::", "", 2), ("http://1.2.", "/", 2), ("web://h:", "", 2), ("http://h%", "/", 2)):
        out += up("at-%s-%s" % (pre, post), pre, post, n + d, lo=1)
    for b in ("http://u@h:8/a/b?q#f", "file:///C:/a", "web://h/a", "web:o", "web:/a"):
        out += up("base-%s" % b, "", "", 2 + d, base=b, objbase=True)
        out += up("base-scheme-%s" % b, b.split(":")[0] + ":", "", 1 + d, base=b)
    for nm, pre, post in (("spaces", "http://h/" + " x" * 100, ""), ("pct", "http://h/?" + "%" * 120, "#"), ("back", "http:" + "\\" * 100, "h/p"), ("frag", "web:o#" + "<" * 100, ""),
                          ("ats", "http://" + "@" * 80, "@h/"), ("tabs", "http://h/" + "\t" * 100, "x"), ("opaque", "web:o" + "^" * 100, " "), ("fail", "http://h/" + "/`" * 70 + "\x7f", "")):
        out.append(("errors-" + nm, "total", dict(tmpl=[pre, ("x", 1, "any"), post])))
        out.append(("errors-base-" + nm, "total", dict(tmpl=[pre, ("x", 1, "any"), post], base="http://b/c")))
    out.append(("errors-badhost", "total", dict(tmpl=["http://" + "@" * 80, "a", ("x", 1, "any"), "b"])))
    nine = "9" * LONG
    zero = "0" * LONG
    for i, (pre, post) in enumerate((("http://h:" + nine, ""), ("http://h:" + zero, ""), ("web://h:" + zero, "/"), ("http://" + nine, "/"),
                                     ("http://" + zero, "/"), ("http://0x" + "f" * LONG, "/"), ("http://1.2." + nine, ""),
                                     ("http://1.2." + zero, ""), ("http://[::" + nine, "]"), ("http://[::1.2.3." + nine, "]"),
                                     ("http://[::1.2.3." + zero, "]"), ("http://[::ffff:" + zero, "]"), ("http://1.0" + "7" * LONG, "/"))):
        out.append(("long/%d" % i, "longrun", dict(tmpl=[pre, ("x", 1, "any" if d else "[09af.:/]"), post])))
    for i, (u, pre) in enumerate((("http://h:1/", nine), ("http://h/", zero), ("web://h/", nine))):
        out.append(("long-port/%d" % i, "setter", dict(url=u, name="port", tmpl=[pre, ("x", 1, "any" if d else "[09a.:/]")])))
    for i, (u, pre) in enumerate((("http://h:1/", "h:" + nine), ("http://h/", nine), ("web://h/", "[::" + nine))):
        out.append(("long-host/%d" % i, "setter", dict(url=u, name="host", tmpl=[pre, ("x", 1, "any" if d else "[09a.:/]")])))
        out.append(("long-hostname/%d" % i, "setter", dict(url=u, name="hostname", tmpl=[pre, ("x", 1, "any" if d else "[09a.:/]")])))
    for nm in ("protocol", "username", "password", "host", "hostname", "port", "pathname", "search", "hash"):
        for u in ("http://u:p@h:81/a/b?q#f", "file:///C:/a", "web:o ?q", "web://h:1/a", "web:/a"):
            for k in (1, 2):
                out.append(("set-%s-%s/%d" % (nm, u, k), "setter", dict(url=u, name=nm, tmpl=[("x", k, "any")])))
    for k in range(0, 4 + d):
        out.append(("host/%d" % k, "host", dict(tmpl=[("x", k, "any")], opaque=False)))
        out.append(("host-opaque/%d" % k, "host", dict(tmpl=[("x", k, "any")], opaque=True)))
        out.append(("codec/%d" % k, "codec", dict(n=k, dom="any")))
        out.append(("bytes/%d" % k, "rawbytes", dict(n=k)))
        out.append(("badbase/%d" % k, "badbase", dict(tmpl=[("x", k, "any")], rel="a")))
        out.append(("badbase-abs/%d" % k, "badbase", dict(tmpl=[("x", k, "any")], rel="http://h/")))
        if k < 3 + d:
            out.append(("badbase-http/%d" % k, "badbase", dict(tmpl=["http:/", ("x", k, "any")], rel="?q")))
    k = 1300
    X = ("x", 1, "[a.&]")
    for i, t in enumerate((["http://h", "/a" * k, "/", X], ["http://h/?", "a=1&" * k, X], ["http://h", "/a/.." * (k // 2), "/", X], ["web:", "a/" * k, X], ["http://", "a@" * k, "h/", X],
                           ["web://h/", "%41" * k, "#", X], ["http://h/?", "a" * k, "#", "b" * k, X], ["file:///", "b/" * k, X], ["web:/.//", "a/" * k, X])):
        out.append(("deep/%d" % i, "deep", dict(tmpl=t, k=k)))
    out.append(("deep-rel", "deep", dict(tmpl=["a/" * k, X], k=k, base="http://h" + "/b" * k)))
    for nm, t in urls():
        if not nm.startswith("w-") or "xall" in nm or "host" in nm or "case" in nm:
            out.append((nm, "total", dict(tmpl=t)))
    return out
