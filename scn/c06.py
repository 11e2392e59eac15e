"""C06: a failed parse or assignment leaves existing URLs intact"""
from .common import build, api_tuple, GETTERS, SETTER_URLS
from .c04 import well_formed, rec

PROPS = ("protocol", "username", "password", "host", "hostname", "port", "pathname", "search", "hash", "href")
# getters an assignment may legitimately change when it fails half-way
MAY = {"host": ("host", "hostname", "href"), "href": ()}


def failing(S, url, prop, tmpl):
    u = S.u.URL(url)
    sp = u.search_params
    before = api_tuple(u)
    bl = list(sp)
    o = S.attempt(setattr, u, prop, build(S, tmpl))
    after = api_tuple(u)
    S.observe(o.ok, after, list(u.search_params))
    S.check(u.search_params is sp, "same search parameters object")
    if not o.ok:
        S.check_eq(o.exc, "URLParseError", "failure is a URLParseError")
        for i in range(10):
            if GETTERS[i] not in MAY.get(prop, (prop, "href")) or prop == "href":
                S.check_eq(after[i], before[i], "%s unchanged by the failed assignment" % GETTERS[i])
        S.check_eq(list(u.search_params), bl, "search parameters unchanged by the failed assignment")
        if prop == "host":
            # if the host part was not accepted nothing changes; the port never does
            S.check_eq(after[5], before[5], "port unchanged by the failed host assignment")
        elif prop != "href":
            S.check_eq(after, before, "nothing changes at all")
    well_formed(S, rec(S, u), u.href)
    S.check_eq(list(u.search_params), S.u.parse_qsl(S.u.utf8_encode(u.search[1:])), "search parameters match the query")


def construct(S, tmpl, base):
    """a failing constructor leaves its base alone; later use of the base works"""
    b = S.u.URL(base)
    before = api_tuple(b)
    bl = list(b.search_params)
    o = S.attempt(S.u.URL, build(S, tmpl), b)
    S.observe(o.ok)
    S.check_eq(api_tuple(b), before, "base unchanged")
    S.check_eq(list(b.search_params), bl, "base search parameters unchanged")
    if not o.ok:
        S.check_eq(o.exc, "URLParseError", "failure is a URLParseError")


def href_seq(S, url, tmpl):
    """after a failed href assignment the object is still fully usable"""
    u = S.u.URL(url)
    sp = u.search_params
    before = api_tuple(u)
    o = S.attempt(setattr, u, "href", build(S, tmpl))
    if o.ok:
        S.observe(api_tuple(u))
        return
    S.check_eq(api_tuple(u), before, "nothing changed")
    sp.append("k", "v")
    w = S.u.URL(url)
    w.search_params.append("k", "v")
    S.observe(api_tuple(u))
    S.check_eq(api_tuple(u), api_tuple(w), "search parameters still drive the URL")


def scenarios(tier):
    d = 1 if tier == "thorough" else 0
    out = []
    for i, u in enumerate(SETTER_URLS):
        for p in PROPS:
            out.append(("f%d-%s" % (i, p), "failing", dict(url=u, prop=p, tmpl=[("x", 2 + d)])))
        for j, v in enumerate((["a:", ("x", 2)], ["a:6", ("x", 4 + d, "digit")], [("x", 1), ":6", ("y", 1)], ["[", ("x", 2), "]"],
                               ["1.2.3.", ("x", 2)], ["h", ("x", 1), "h"])):
            out.append(("f%d-host-%d" % (i, j), "failing", dict(url=u, prop="host", tmpl=v)))
            out.append(("f%d-hostname-%d" % (i, j), "failing", dict(url=u, prop="hostname", tmpl=v)))
        out.append(("f%d-portnum" % i, "failing", dict(url=u, prop="port", tmpl=["6", ("x", 4 + d, "digit")])))
        out.append(("f%d-portlong" % i, "failing", dict(url=u, prop="port", tmpl=["0" * 10, ("x", 1), "65535", ("y", 1)])))
        out.append(("f%d-port6" % i, "failing", dict(url=u, prop="port", tmpl=[("x", 6, "digit"), ("y", 1)])))
        out.append(("f%d-porthuge" % i, "failing", dict(url=u, prop="port", tmpl=["9" * 5000, ("y", 1)])))
        out.append(("f%d-host-port6" % i, "failing", dict(url=u, prop="host", tmpl=["a:", ("x", 6, "digit")])))
        out.append(("f%d-href-port6" % i, "failing", dict(url=u, prop="href", tmpl=["http://g:", ("x", 6, "digit"), "/?z"])))
        for p in ("host", "hostname"):
            for j, v in enumerate((["a" * 300, ("x", 1)], ["a." * 80, ("x", 1), "b"], ["1.2.3.4", ("x", 1), "5"], ["[1:2:3:4:5:6:7:8", ("x", 1), "]"],
                                   ["x" * 50 + ":", ("x", 1)])):
                out.append(("f%d-%s-long%d" % (i, p, j), "failing", dict(url=u, prop=p, tmpl=v)))
        out.append(("f%d-proto" % i, "failing", dict(url=u, prop="protocol", tmpl=[("x", 2), "x"])))
        for j, v in enumerate((["http://", ("x", 2)], ["http://h:", ("x", 2)], ["web://", ("x", 2), "/"], ["http://[", ("x", 2), "]?a=b"],
                               ["http://1.2.3.", ("x", 2), "?x"], ["web:o?c=", ("x", 1)], ["?x=y", ("x", 1)])):
            out.append(("f%d-href-%d" % (i, j), "failing", dict(url=u, prop="href", tmpl=v)))
        out.append(("f%d-construct" % i, "construct", dict(base=u, tmpl=[("x", 2 + d)])))
        out.append(("f%d-construct-auth" % i, "construct", dict(base=u, tmpl=["//", ("x", 2 + d)])))
        out.append(("f%d-hrefseq" % i, "href_seq", dict(url=u, tmpl=[("x", 2 + d)])))
        out.append(("f%d-hrefseq2" % i, "href_seq", dict(url=u, tmpl=["http://h:", ("x", 1), "?z=1"])))
    return out
