"""C04: every URL the library produces is well formed"""
from .common import build, upto, SETTER_URLS

PRINT = "".join(chr(i) for i in range(0x20, 0x7f))


def minus(a, b):
    return "".join(c for c in a if c not in b)


ALNUM = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
LOWER = "abcdefghijklmnopqrstuvwxyz"
PATHC = minus(PRINT, " \"#<>?`{}/")
USER = minus(PRINT, " \"#<>?`{}/:;=@[\\]^|")
QUERY = minus(PRINT, " \"#<>")
FRAG = minus(PRINT, " \"<>`")
OPAQUE = minus(PRINT, "?#")
DOMAIN = minus(PRINT, " #/:<>?@[\\]^|%" + "ABCDEFGHIJKLMNOPQRSTUVWXYZ")
OHOST = minus(PRINT, " #/:<>?@[\\]^|")
DEFAULT = {"http": 80, "https": 443, "ws": 80, "wss": 443, "ftp": 21}
DOTS = [".", "%2e", "%2E", "..", ".%2e", ".%2E", "%2e.", "%2E.", "%2e%2e", "%2e%2E", "%2E%2e", "%2E%2E"]


def well_formed(S, r, href):
    """r: library record"""
    sc = r.scheme
    S.check(len(sc) > 0, "scheme is non-empty")
    S.check(S.all_in(sc[:1], LOWER), "scheme starts with a lower-case letter")
    S.check(S.all_in(sc, LOWER + "0123456789+-."), "scheme has only scheme code points")
    special = sc in ("http", "https", "ws", "wss", "ftp", "file")
    h = r.host
    empty = h is None or (isinstance(h, str) and h == "")
    if special:
        S.check(h is not None, "special URLs have a host")
        if sc != "file":
            S.check(not empty, "special URLs other than file have a non-empty host")
        S.check(not isinstance(r.path, str), "special URLs have no opaque path")
    if empty or sc == "file":
        S.check_eq(r.username, "", "username needs a host")
        S.check_eq(r.password, "", "password needs a host")
        S.check(r.port is None, "port needs a host")
    S.check(S.all_in(r.username, USER), "username code points")
    S.check(S.all_in(r.password, USER), "password code points")
    if r.port is not None:
        p = r.port
        S.check(S.all(p >= 0, p <= 65535), "port range")
        S.check(S.not_(S.eq(p, DEFAULT.get(sc, -1))), "port is not the default port")
    if isinstance(h, str):
        S.check(S.all_in(h, DOMAIN if special else OHOST), "host code points")
    elif isinstance(h, tuple) or isinstance(h, list):
        S.check(len(h) == 8, "IPv6 address has 8 pieces")
        for x in h:
            S.check(S.all(x >= 0, x <= 0xffff), "IPv6 piece range")
    elif h is not None:
        S.check(S.all(h >= 0, h <= 0xffffffff), "IPv4 range")
        S.check(special, "only special URLs have IPv4 hosts")
    if isinstance(r.path, str):
        S.check(h is None, "opaque paths exclude hosts")
        S.check(S.all_in(r.path, OPAQUE), "opaque path code points")
        S.check(S.not_(S.eq(r.path[:1], "/")), "opaque paths do not start with a slash")
    else:
        for seg in r.path:
            S.check(S.all_in(seg, minus(PATHC, "\\") if special else PATHC), "path segment code points")
            for dd in DOTS:
                S.check(S.not_(S.eq(seg, dd)), "no dot segment in the path")
        if special or h is None:
            S.check(len(r.path) > 0, "path of special and host-less URLs is non-empty")
    if r.query is not None:
        S.check(S.all_in(r.query, minus(QUERY, "'") if special else QUERY), "query code points")
    if r.fragment is not None:
        S.check(S.all_in(r.fragment, FRAG), "fragment code points")
    S.check(S.all_in(href, PRINT), "href is printable ASCII")


def parsed(S, tmpl, base=None, encoding="utf-8"):
    o = S.attempt(S.u.parse_url, build(S, tmpl), base=base, encoding=encoding)
    if not o.ok:
        S.observe(o.exc)
        return
    h = o.value.href
    S.observe(h)
    well_formed(S, o.value, h)


def rec(S, u):
    """the record behind a URL, through public API only"""
    return u._url if hasattr(u, "_url") else S.u.parse_url(u.href)


def after_set(S, url, props, tmpl=None):
    u = S.u.URL(url)
    for i, (p, n, dom) in enumerate(props):
        S.attempt(setattr, u, p, S.str("v%d" % i, n, dom) if tmpl is None else build(S, tmpl))
    h = u.href
    S.observe(h)
    well_formed(S, rec(S, u), h)


def after_params(S, url, n):
    u = S.u.URL(url)
    op = S.choice("op", ["append", "set"])
    getattr(u.search_params, op)(S.str("n", n, "any"), S.str("v", n, "any"))
    h = u.href
    S.observe(h)
    well_formed(S, rec(S, u), h)


RT = ("host", "hostname", "port", "pathname", "search", "hash", "username", "password", "protocol")


def scenarios(tier):
    from sx.dictionary import urls
    d = 1 if tier == "thorough" else 0
    out = []
    out += upto("free", "parsed", "", "", 3 + d, dom="any")
    out += upto("web", "parsed", "web:", "", 4 + d)
    out += upto("web-host", "parsed", "web://", "/", 3 + d)
    out += upto("web-user", "parsed", "web://", "@h", 3 + d)
    out += upto("http", "parsed", "http://", "/", 3 + d)
    out += upto("http-user", "parsed", "http://", "@h", 3 + d)
    out += upto("http-user2", "parsed", "http://u:", "@h", 2 + d)
    out += upto("http-port", "parsed", "https://h:", "", 3 + d)
    out += [("port-%s" % s, "parsed", dict(tmpl=[s + "://h:", ("x", 5, "digit")])) for s in
            ("http", "https", "ws", "wss", "ftp", "web")]
    out += [("ipv4", "parsed", dict(tmpl=["http://", ("x", 4, "[0123456789.xa]")])),
            ("ipv6", "parsed", dict(tmpl=["http://[", ("x", 4, "[0123abcf:.]"), "::1]"]))]
    out += upto("http-path", "parsed", "http://h/", "", 3 + d)
    out += upto("http-dots", "parsed", "http://h/a/", "", 5 + d, lo=4, dom="[./%2eE\\?]")
    out += upto("web-dots", "parsed", "web:/a/", "", 5 + d, lo=4, dom="[./%2eE\\?]")
    out += upto("file", "parsed", "file:", "", 4 + d)
    out += upto("file-dots", "parsed", "file:///", "", 4 + d, lo=4, dom="[./%2eE\\C|:?]")
    out += upto("file-host", "parsed", "file://", "/x", 3 + d)
    out += upto("http-query", "parsed", "http://h?", "", 3 + d)
    out += upto("legacy-query", "parsed", "http://h?", "", 2 + d, lo=1, encoding="windows-1252")
    out += upto("web-query", "parsed", "web:o?", "", 2 + d)
    out += upto("http-frag", "parsed", "http://h#", "", 3 + d)
    out += upto("web-frag", "parsed", "web:o#", "", 2 + d)
    out += upto("rel-http", "parsed", "", "", 2 + d, base="http://u:p@h:81/a/b?q#f")
    out += upto("rel-dots", "parsed", "", "", 5 + d, lo=4, dom="[./%2eE\\?]", base="http://h/a/b/c")
    for nm, pre, post in (("http", "http://h/a/", "/b"), ("web", "web:/a/", "?q"), ("file", "file:///C:/", "\\x"), ("web2", "web://h/a/", "")):
        out.append(("esc-dots-" + nm, "parsed", dict(tmpl=[pre, ("x", 3, "[.%2eE]"), ("y", 3, "[.%2eE]"), post])))
        out.append(("esc-dot-" + nm, "parsed", dict(tmpl=[pre, "%2", ("x", 1), "%2", ("y", 1), ("z", 1, "[./?#%\\]"), post])))
        out.append(("esc-dot1-" + nm, "parsed", dict(tmpl=[pre, "%2", ("x", 1), ("z", 2, "[.%2E/?#\\]"), post])))
    out += upto("rel-file", "parsed", "", "", 4 + d, lo=2, dom="[/\\C|:.x]", base="file:///C:/a/b?q#f")
    out += upto("rel-web", "parsed", "", "", 3 + d, dom="[/\\.x?#% ]", base="web:/a/b?q#f")
    for i, u in enumerate(SETTER_URLS):
        for p in RT:
            n = 2 + d
            out.append(("set%d-%s" % (i, p), "after_set", dict(url=u, props=[(p, n, "scalar")])))
        out.append(("set%d-dots" % i, "after_set", dict(url=u, props=[("pathname", 3 + d, "[./%2eE\\C|]")])))
        out.append(("set%d-file" % i, "after_set", dict(url=u, props=[("protocol", 0, "")], tmpl=["file", ("x", 1)])))
        out.append(("set%d-portd" % i, "after_set", dict(url=u, props=[("port", 3 + d, "digit")])))
        out.append(("params%d" % i, "after_params", dict(url=u, n=1 + d)))
    for nm, u, props in (
            ("two-port-host", "web://h/", [("port", 1, "digit"), ("host", 0, "scalar")]),
            ("two-user-host", "web://h/", [("username", 1, "scalar"), ("hostname", 0, "scalar")]),
            ("two-user-host2", "web://h/", [("password", 1, "scalar"), ("host", 1, "scalar")]),
            ("two-port-proto", "http://h:443/", [("port", 3, "digit"), ("protocol", 2, "[wfts]")]),
            ("two-port-ws", "wss://h/", [("port", 2, "digit"), ("protocol", 2, "[ws]")]),
            ("two-port-wss", "ws://h/", [("port", 3, "digit"), ("protocol", 3, "[ws]")]),
            ("two-port-ftp", "http://h/", [("port", 2, "digit"), ("protocol", 3, "[ftp]")]),
            ("two-port-https", "http://h/", [("port", 3, "digit"), ("protocol", 5, "[htps]")]),
            ("two-port-http", "https://h/", [("port", 2, "digit"), ("protocol", 4, "[htp]")]),
            ("two-proto-port", "http://h:1/", [("protocol", 2, "[ws]"), ("port", 3, "digit")]),
            ("two-host-path", "web:/.//p", [("host", 1, "scalar"), ("pathname", 2, "[./x]")]),
            ("two-host-user", "web:///p", [("host", 1, "scalar"), ("username", 1, "scalar")]),
            ("two-host-port", "file:///p", [("host", 1, "scalar"), ("port", 1, "digit")])):
        out.append((nm, "after_set", dict(url=u, props=props)))
    for nm, pre, n, post in (("user", "http://" + "u%20" * 60, 2, "@h/"), ("path", "http://h" + "/aB" * 40, 2, "/c"), ("web-slashes", "web:" + "/" * 40, 2, ""),
                             ("query", "https://h/?" + "k=v&" * 80, 2, "#f"), ("opaque", "web:" + "oO " * 100, 2, "?q"), ("frag", "ws://h/#" + "fF " * 100, 2, "")):
        out.append(("long-" + nm, "parsed", dict(tmpl=[pre, ("x", n), post])))
    for nm, t in urls():
        if not nm.startswith("w-") or "all" in nm or "opaque" in nm or "scheme" in nm or "host" in nm:
            out.append((nm, "parsed", dict(tmpl=t)))
    return out
