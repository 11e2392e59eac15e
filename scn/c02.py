"""C02: relative references resolve exactly as the URL Standard says"""
from .common import build, rec_tuple, ref_tuple, check_same, api_tuple, ref_api_tuple, check_api, upto

BASES = [
    "http://u:p@h:81/a/b/c?q#f", "https://h", "ws://h/a//", "web://u@h:1/a/b?q#f", "web://h", "web:/a/b?q", "web:/.//p/q",
    "web:///x/../..", "web:o?q#f", "web:o ", "file:///C:/a/b?q#f", "file://h/a/b?q", "file:///a#f", "file:///C:",
    "file://h/D:/", "ftp://h:22/x;y",
]


def rel(S, tmpl, base, how="record"):
    """library resolve == reference resolve; base is a template too"""
    s = build(S, tmpl)
    bs = build(S, base) if isinstance(base, list) else base
    rb = S.ref.parse(bs)
    if how in ("record", "basic"):
        ob = S.attempt(S.u.parse_url, bs)
    else:
        ob = S.attempt(S.u.URL, bs)
    if rb == S.ref.FAIL or not ob.ok:
        S.check(rb == S.ref.FAIL and not ob.ok, "base accepted exactly when the standard accepts it")
        return
    if how == "record":
        o = S.attempt(S.u.parse_url, s, base=ob.value)
    elif how == "basic":
        o = S.attempt(S.u.BasicURLParser.parse, s, base=ob.value)
    elif how == "url":
        o = S.attempt(S.u.URL, s, ob.value)
    else:
        o = S.attempt(S.u.URL, s, bs)
    r = S.ref.parse(s, rb)
    if o.ok:
        if r == S.ref.FAIL:
            S.observe(o.value.href)
            S.check(False, "accepted a reference the standard rejects")
            return
        if how in ("record", "basic"):
            t = rec_tuple(o.value)
            S.observe(t)
            check_same(S, t, ref_tuple(r))
            S.check_eq(o.value.href, r.href(), "href")
        else:
            t = api_tuple(o.value)
            S.observe(t)
            check_api(S, t, ref_api_tuple(r))
    else:
        S.observe(o.exc)
        S.check_eq(o.exc, "URLParseError", "failure is a URLParseError")
        S.check(r == S.ref.FAIL, "rejected a reference the standard accepts")


def scenarios(tier):
    from sx.dictionary import sizes, urls, values
    d = 1 if tier == "thorough" else 0
    out = []
    for i, b in enumerate(BASES):
        k = "b%d" % i
        out += upto(k + "-free", "rel", "", "", 2 + d, base=b)
        out += upto(k + "-slash", "rel", "/", "", 2 + d, lo=1, base=b)
        out += upto(k + "-slashslash", "rel", "//", "/p", 1 + d, base=b)
        out += upto(k + "-bslash", "rel", "\\", "", 1 + d, base=b)
        out += upto(k + "-dots", "rel", "", "", 4 + d, lo=3, dom="[./\\%2e]", base=b)
        out += upto(k + "-up", "rel", "../", "", 3 + d, lo=1, dom="[./\\%2eC:|?#]", base=b)
        out += upto(k + "-path", "rel", "p", "", 2 + d, lo=1, base=b)
        out += upto(k + "-query", "rel", "?", "", 1 + d, base=b)
        out += upto(k + "-frag", "rel", "#", "", 1 + d, base=b)
        out += upto(k + "-same", "rel", (b.split(":")[0]) + ":", "", 2 + d, base=b)
        out += upto(k + "-http", "rel", "http:", "", 1 + d, base=b)
        out += upto(k + "-file", "rel", "file:", "", 2 + d, base=b)
    for i in (10, 11, 12, 13, 14):
        b = BASES[i]
        k = "b%d" % i
        out += upto(k + "-drive", "rel", "", "", 4 + d, lo=3, dom="[/\\C|:.?a]", base=b)
        out += upto(k + "-slashdrive", "rel", "/C", "", 3 + d, lo=1, dom="[/\\C|:.?#x]", base=b)
        out += upto(k + "-host", "rel", "//", "", 3 + d, lo=1, dom="[/\\C|:.xy]", base=b)
    for i in (0, 3, 8, 10):
        for how in ("url", "str", "basic"):
            out += upto("b%d-%s" % (i, how), "rel", "", "", 2, lo=2, base=BASES[i], how=how)
    for nm, b in (("http", "http://h" + "/a" * 12 + "/b?q#f"), ("web", "web:" + "/a" * 12), ("file", "file:///C:" + "/a" * 10 + "/"),
                  ("weird", "web://h//a///b//"), ("http-weird", "http://h//a///b//")):
        for k in (0, 2, 5, 9, 11, 14):
            out.append(("long-%s-%d" % (nm, k), "rel", dict(tmpl=["../" * k, ("x", 3, "[./%2ea?]")], base=b)))
        out.append(("long-ref-" + nm, "rel", dict(tmpl=["x/" * 30, ("x", 2), "/.." * 32], base=b)))
    for nm, b in (("http", "http://h/a/b/c?q"), ("web", "web:/a/b/c"), ("file", "file:///C:/a/b")):
        for k, (pre, post) in enumerate((("", ""), ("", "/d"), ("/", "\\d"), ("x/", "?q"))):
            out.append(("esc-dots-%s-%d" % (nm, k), "rel", dict(tmpl=[pre, ("x", 3, "[.%2eE]"), ("y", 3, "[.%2eE]"), post], base=b)))
            out.append(("esc-dot-%s-%d" % (nm, k), "rel", dict(tmpl=[pre, "%2", ("x", 1), "%2", ("y", 1), post], base=b)))
            out.append(("esc-dot1-%s-%d" % (nm, k), "rel", dict(tmpl=[pre, "%2", ("x", 1), ("z", 1, "[.%2E/?#\\]"), post], base=b)))
    for b, dom in (("http://h/a/b?q", "[hHtTpP]"), ("file:///C:/a/b", "[fFiIlLeE]")):
        for k, post in enumerate((":x", ":/x", "://y", ":", ":?q")):
            out.append(("case-%s-%d" % (b[:4], k), "rel", dict(tmpl=[("x", 4, dom), post], base=b)))
    for b in ("https://h/a/b?q", "ws://h/a", "web:/a/b", "web:o"):
        n = len(b.split(":")[0])
        for k, post in enumerate((":x", ":/x", ":#f")):
            out.append(("case-%s-%d" % (b, k), "rel", dict(tmpl=[("x", n, "[%s]" % "".join(sorted(set(b.split(":")[0] + b.split(":")[0].upper())))), post], base=b)))
    # symbolic bases
    for nm, pre, post in (("sb-http", "http://h/", ""), ("sb-path", "https://h/a/", "/c?q"), ("sb-web", "web:", ""),
                          ("sb-webpath", "web:/", "/b"), ("sb-file", "file:///", "/b"), ("sb-user", "http://", "@h/x"),
                          ("sb-port", "http://h:", "/x"), ("sb-query", "http://h/x?", "")):
        for j, ref in enumerate(["", "r", "..", "/r", "?r", "#r", "//r", "./../s/"]):
            out.append(("%s-%d" % (nm, j), "rel", dict(tmpl=[ref], base=[pre, ("b", 2 + d), post])))
    out += upto("sb-both", "rel", "", "", 2, lo=1, base=["web:", ("b", 2), "/c"], dom="ascii")
    out += upto("sb-both-file", "rel", "", "", 2, lo=1, base=["file:///", ("b", 2), "/c"], dom="ascii")
    out += upto("sb-both-http", "rel", "", "", 2, lo=1, base=["http://h/", ("b", 2), "c"], dom="ascii")
    for nm, t in values():
        for b in ("http://b/c/d?e#f", "file:///C:/x", "web://b/c") if not nm.startswith("n-") else ("http://b/c",):
            out.append(("%s-%s" % (nm, b[:4]), "rel", dict(tmpl=t, base=b)))
    for k in sizes():
        for n in (k - 1, k, k + 2):
            for sc in ("http://h", "web:", "file://"):
                out.append(("deep-%d-%s" % (n, sc), "rel", dict(tmpl=["..", ("x", 2, "[./?]")], base=sc + "/a" * n + "?q")))
                out.append(("long-%d-%s" % (n, sc), "rel", dict(tmpl=[("x", 2, "[./?#]")], base=sc + "/" + "a" * n + "/b?" + "q" * n)))
    for nm, t in urls():
        if nm.startswith("w-") and ("all-" in nm or "opaque" in nm or "host-" in nm):
            out.append(("base-" + nm, "rel", dict(tmpl=[("y", 1)], base=t)))
    return out
