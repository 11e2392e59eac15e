"""C05: each URL setter changes exactly what the Standard prescribes"""
from .common import build, rec_tuple, ref_tuple, check_same, api_tuple, ref_api_tuple, check_api, SETTER_URLS

PROPS = ("protocol", "username", "password", "host", "hostname", "port", "pathname", "search", "hash")


def setter(S, url, prop, tmpl):
    """state after the assignment == the standard's"""
    us = build(S, url) if isinstance(url, list) else url
    o = S.attempt(S.u.URL, us)
    r = S.ref.parse(us)
    if not o.ok or r == S.ref.FAIL:
        return
    u = o.value
    a = S.ref.Api(r)
    v = build(S, tmpl)
    w = S.attempt(setattr, u, prop, v)
    if not w.ok:
        S.check_eq(w.exc, "URLParseError", "failure is a URLParseError")
    a.set(prop, v)
    t = api_tuple(u)
    S.observe(t)
    check_api(S, t, ref_api_tuple(a.url))


def seq(S, url, props):
    """several assignments in a row"""
    u = S.u.URL(url)
    a = S.ref.Api(S.ref.parse(url))
    for i, (p, n, dom) in enumerate(props):
        v = S.str("v%d" % i, n, dom) if isinstance(n, int) else n
        S.attempt(setattr, u, p, v)
        a.set(p, v)
    t = api_tuple(u)
    S.observe(t)
    check_api(S, t, ref_api_tuple(a.url))


def scenarios(tier):
    from sx.dictionary import urls, values
    d = 1 if tier == "thorough" else 0
    out = []
    lens = dict(protocol=2, username=2, password=2, host=2, hostname=2, port=3, pathname=3, search=2, hash=2)
    for i, u in enumerate(SETTER_URLS):
        for p in PROPS:
            for n in range(lens[p] + 1 + d):
                out.append(("s%d-%s/%d" % (i, p, n), "setter", dict(url=u, prop=p, tmpl=[("x", n)])))
        for j, v in enumerate((["file", ("x", 1)], ["http", ("x", 1)], ["FT", ("x", 1)], ["w", ("x", 2, "[sSx:-]")])):
            out.append(("s%d-proto-%d" % (i, j), "setter", dict(url=u, prop="protocol", tmpl=v)))
        for p in ("host", "hostname"):
            for j, v in enumerate((["x:", ("x", 2)], [("x", 1), "y", ("z", 1)], ["[::", ("x", 2)], [("x", 2, "[0.x9]")],
                                   ["localhos", ("x", 1)])):
                out.append(("s%d-%s-%d" % (i, p, j), "setter", dict(url=u, prop=p, tmpl=v)))
        for j, v in enumerate(([("x", 5, "digit")], [("x", 6, "digit")], ["8", ("x", 1), "9"], ["0" * 5000 + "1"])):
            out.append(("s%d-port-%d" % (i, j), "setter", dict(url=u, prop="port", tmpl=v)))
        out.append(("s%d-pathname-dots" % i, "setter", dict(url=u, prop="pathname", tmpl=[("x", 4 + d, "[./%2e\\C|:]")])))
        out.append(("s%d-pathname-esc" % i, "setter", dict(url=u, prop="pathname", tmpl=["a/", ("x", 3, "[.%2eE]"), ("y", 3, "[.%2E]")])))
        out.append(("s%d-pathname-abs" % i, "setter", dict(url=u, prop="pathname", tmpl=["/", ("x", 2)])))
        out.append(("s%d-search-q" % i, "setter", dict(url=u, prop="search", tmpl=["?", ("x", 1 + d)])))
        out.append(("s%d-hash-h" % i, "setter", dict(url=u, prop="hash", tmpl=["#", ("x", 1 + d)])))
    # symbolic start URLs
    for p, v in (("host", "x"), ("host", ""), ("hostname", "y:1"), ("port", "443"), ("port", "80x"), ("port", ""),
                 ("protocol", "https"), ("protocol", "file"), ("protocol", "web"), ("username", "a"), ("password", ""),
                 ("pathname", "//x"), ("pathname", ""), ("search", ""), ("hash", "")):
        for j, ut in enumerate((["http://", ("u", 2)], ["web:", ("u", 3)], ["file:", ("u", 3, "[/hC:|. ?#]")],
                                ["https://h:", ("u", 3, "digit")], ["web:o ", ("u", 2)])):
            out.append(("sym%d-%s=%s" % (j, p, v), "setter", dict(url=ut, prop=p, tmpl=[v])))
    for nm, u, ps in (
            ("seq-1", "http://h/", [("port", 2, "digit"), ("protocol", "https", 0), ("host", 1, "scalar")]),
            ("seq-2", "web://h:1/p", [("port", "", 0), ("hostname", "", 0), ("pathname", 2, "[./x]")]),
            ("seq-3", "web:o  ?q#f", [("hash", "", 0), ("search", "", 0), ("hash", 1, "scalar")]),
            ("seq-4", "file:///C:/a", [("host", 1, "scalar"), ("protocol", "http", 0), ("port", 1, "digit")]),
            ("seq-5", "http://h:443/", [("protocol", "https", 0), ("protocol", "http", 0), ("username", 1, "scalar")]),
            ("seq-6", "web://h/", [("port", "0", 0), ("host", "", 0), ("protocol", 1, "scalar")]),
            ("seq-7", "http://h/", [("port", "0", 0), ("protocol", "file", 0), ("host", 1, "ascii")])):
        out.append((nm, "seq", dict(url=u, props=ps)))
    lg = "http://" + "u" * 50 + ":" + "p" * 50 + "@h:8" + "/a" * 20 + "?" + "q" * 100 + "#" + "f" * 100
    for p, pre in (("username", "U" * 100), ("password", "P" * 100), ("hostname", "a." * 40), ("host", "a" * 70 + ":"), ("port", "0" * 20), ("pathname", "/a" * 30 + "/.."),
                   ("search", "q" * 200), ("hash", "f" * 200)):
        for j, u in enumerate((lg, "web" + lg[4:], "file:///C:" + "/a" * 20, "web:" + "o" * 100 + "  ?q#f")):
            out.append(("long-%s-%d" % (p, j), "setter", dict(url=u, prop=p, tmpl=[pre, ("x", 1)])))
    for nm, t in values():
        for p in PROPS:
            if nm.startswith(("w-", "n-", "v-")):
                for u in ("http://h/p?q#f", "web://u:p@h:8", "web:o"):
                    out.append(("%s-%s-%s" % (nm, p, u[:5]), "setter", dict(url=u, prop=p, tmpl=t)))
    for nm, t in urls():
        if nm.startswith("w-all-") or nm.startswith("w-scheme-"):
            for p in PROPS:
                out.append(("%s-%s" % (nm, p), "setter", dict(url=t, prop=p, tmpl=[("z", 1)])))
    return out
