"""C03: serialising and reparsing a URL gives the same URL"""
from .common import build, rec_tuple, check_same, api_tuple, check_api, upto, SETTER_URLS

RT = ("host", "hostname", "port", "pathname", "search", "hash", "username", "password", "protocol")


def rt_rec(S, u):
    h = u.href
    S.check_eq(str(u), h, "str is href")
    t = rec_tuple(u)
    S.observe(t, h)
    o = S.attempt(S.u.parse_url, h)
    S.check(o.ok, "href parses")
    if not o.ok:
        return
    check_same(S, rec_tuple(o.value), t, "reparsed ")
    S.check_eq(o.value.href, h, "href is a fixed point")
    S.check(o.value == u, "reparsed URL compares equal")


def rt_url(S, u):
    h = u.href
    S.check_eq(str(u), h, "str is href")
    t = api_tuple(u)
    S.observe(t)
    o = S.attempt(S.u.URL, h)
    S.check(o.ok, "href parses")
    if not o.ok:
        return
    check_api(S, api_tuple(o.value), t, "reparsed ")
    S.check(o.value == u, "reparsed URL compares equal")
    S.check_eq(list(o.value.search_params), list(u.search_params), "reparsed search parameters")


def parsed(S, tmpl, base=None):
    o = S.attempt(S.u.parse_url, build(S, tmpl), base=base)
    if not o.ok:
        S.observe(o.exc)
        return
    rt_rec(S, o.value)


def after_set(S, url, prop, tmpl):
    """round trip after one setter"""
    u = S.u.URL(url)
    v = build(S, tmpl)
    S.attempt(setattr, u, prop, v)
    rt_url(S, u)


def after_two(S, url, props):
    u = S.u.URL(url)
    for i, (p, n, dom) in enumerate(props):
        S.attempt(setattr, u, p, S.str("v%d" % i, n, dom))
    rt_url(S, u)


def after_params(S, url, n):
    u = S.u.URL(url)
    op = S.choice("op", ["append", "delete", "set", "sort"])
    sp = u.search_params
    if op == "append":
        sp.append(S.str("n", n), S.str("v", n))
    elif op == "set":
        sp.set(S.str("n", n), S.str("v", n))
    elif op == "delete":
        sp.delete(S.str("n", n))
    else:
        sp.sort()
    rt_url(S, u)


def scenarios(tier):
    from sx.dictionary import urls
    d = 1 if tier == "thorough" else 0
    out = []
    out += upto("free", "parsed", "", "", 3 + d)
    out += upto("web", "parsed", "web:", "", 4 + d)
    out += upto("web-host", "parsed", "web://", "/", 3 + d)
    out += upto("web-slash", "parsed", "web:/", "", 5 + d, lo=4, dom="[./%2e?]")
    out += upto("http", "parsed", "http://", "/", 3 + d)
    out += upto("http-user", "parsed", "http://", "@h", 3 + d)
    out += upto("http-port", "parsed", "https://h:", "", 3 + d)
    out += [("http-port-digits", "parsed", dict(tmpl=["https://h:", ("x", 6, "digit")])),
            ("web-port-digits", "parsed", dict(tmpl=["web://h:", ("x", 6, "digit")])),
            ("ipv4", "parsed", dict(tmpl=["http://", ("x", 4, "[0123456789.xa]")])),
            ("ipv4num", "parsed", dict(tmpl=["http://", ("x", 5, "digit")])),
            ("ipv4hex", "parsed", dict(tmpl=["http://0x", ("x", 3, "hex")])),
            ("ipv6", "parsed", dict(tmpl=["http://[", ("x", 4, "[0123abcf:.]"), "::1]"])),
            ("ipv6b", "parsed", dict(tmpl=["http://[", ("x", 4, "hex"), "::", ("y", 4, "hex"), "]"]))]
    out += upto("http-path", "parsed", "http://h/", "", 3 + d)
    out += upto("http-dots", "parsed", "http://h/a/", "/b", 5 + d, lo=4, dom="[./%2e\\]")
    out += upto("file", "parsed", "file:", "", 4 + d)
    out += upto("file-path", "parsed", "file:///", "", 4 + d, dom="[/\\C|:.x%2e]")
    out += upto("file-host", "parsed", "file://", "/x", 3 + d)
    out += upto("http-query", "parsed", "http://h?", "", 3 + d)
    out += upto("web-query", "parsed", "web:o?", "", 2 + d)
    out += upto("http-frag", "parsed", "http://h#", "", 3 + d)
    out += upto("rel-http", "parsed", "", "", 2 + d, base="http://u:p@h:81/a/b?q#f")
    out += upto("rel-file", "parsed", "", "", 4 + d, lo=2, dom="[/\\C|:.x]", base="file:///C:/a/b?q#f")
    out += upto("rel-web", "parsed", "", "", 3 + d, dom="[/\\.x?#% ]", base="web:/a/b?q#f")
    out += upto("rel-opaque", "parsed", "#", "", 2 + d, base="web:o  ?q")
    for i, u in enumerate(SETTER_URLS):
        for p in RT:
            n = 2 + d
            if p in ("protocol", "port"):
                n = 1 + d
            out += upto("set%d-%s" % (i, p), "after_set", "", "", n, lo=min(1, n), url=u, prop=p)
        out.append(("set%d-pathdots" % i, "after_set", dict(url=u, prop="pathname", tmpl=[("x", 3 + d, "[./%2e\\C|]")])))
        out.append(("params%d" % i, "after_params", dict(url=u, n=1 + d)))
    for nm, u, props in (
            ("two-hash-search", "web:o  ?q#f", [("hash", 0, "scalar"), ("search", 1, "scalar")]),
            ("two-search-hash", "web:o  ?q#f", [("search", 0, "scalar"), ("hash", 1, "scalar")]),
            ("two-both-empty", "web:o  ?q#f", [("search", 0, "scalar"), ("hash", 0, "scalar")]),
            ("two-host-path", "web:/.//p", [("host", 1, "scalar"), ("pathname", 2, "[./x]")]),
            ("two-path-host", "web://h/p", [("pathname", 2, "[./x]"), ("hostname", 0, "scalar")]),
            ("two-port-proto", "http://h:443/", [("port", 3, "digit"), ("protocol", 2, "[wfts]")]),
            ("two-user-host", "http://h/", [("username", 1, "scalar"), ("host", 1, "scalar")])):
        out.append((nm, "after_two", dict(url=u, props=props)))
    for nm, pre, n, post in (("user", "http://" + "u%20" * 60, 2, "@h/"), ("path", "http://h" + "/aB" * 40, 2, "/c"), ("web-slashes", "web:" + "/" * 40, 2, ""),
                             ("query", "https://h/?" + "k=v&" * 80, 2, "#f"), ("opaque", "web:" + "oO " * 100, 2, "?q"), ("up", "web:" + "/a" * 12 + "/.." * 11, 2, "//x")):
        out.append(("long-" + nm, "parsed", dict(tmpl=[pre, ("x", n), post])))
    for nm, t in urls():
        if not nm.startswith("w-") or nm.startswith(("w-allx", "w-opaquex", "w-schemex", "w-hostx", "w-cred-")):
            out.append((nm, "parsed", dict(tmpl=t)))
    return out
