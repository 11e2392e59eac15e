"""C17: origins are computed and compared as the Standard says"""
from .common import build


def origin(S, tmpl, base=None, setter=None):
    s = build(S, tmpl)
    o = S.attempt(S.u.URL, s, base)
    rb = None if base is None else S.ref.parse(base)
    r = S.ref.parse(s, rb)
    if not o.ok or r == S.ref.FAIL:
        S.observe(o.exc)
        S.check_eq(o.ok, r != S.ref.FAIL, "parses as the standard")
        return
    u = o.value
    if setter:
        v = S.str("v", setter[1], setter[2])
        S.attempt(setattr, u, setter[0], v)
        a = S.ref.Api(r)
        a.set(setter[0], v)
        r = a.url
    S.observe(u.origin)
    S.check_eq(u.origin, r.origin_str(), "origin")
    rec = S.u.parse_url(u.href)
    og = rec.origin
    w = r.origin()
    if og is None or w is None:
        S.check(og is None and w is None, "opaque origin")
        return
    S.check_eq(og.scheme, w[0], "origin scheme")
    S.check_eq(S.u.Host.serialize(og.host), w[1], "origin host")
    S.check_eq(og.port, w[2], "origin port")
    S.check(og.domain is None, "origin domain is null")
    S.check_eq(str(og), r.origin_str(), "origin serialisation")


def mkorigin(S, tag, hostkind):
    sc = S.str(tag + "s", 1, "[ab]")
    if hostkind == "str":
        h = S.str(tag + "h", 1, "[ab1]")
    elif hostkind == "int":
        h = S.int(tag + "h", 0, 3)
    elif hostkind == "tuple":
        h = (0, S.int(tag + "h0", 0, 1), 0, 0, 0, 0, 0, S.int(tag + "h1", 0, 1))
    elif hostkind == "like":
        h = S.choice(tag + "hl", ["", "0.0.0.0", "0.0.0.1", "0.0.0.2", "[::]", "[::1]", "[0:1::]"])
    elif hostkind == "list":
        h = (S.int(tag + "h0", 0, 65535), 0, 0, 0, 0, 0, 0, S.int(tag + "h1", 0, 65535))
    else:
        h = None
    port = S.int(tag + "p", 0, 65535) if S.choice(tag + "hasport", [0, 1]) else None
    dom = S.str(tag + "d", S.choice(tag + "dl", [0, 1, 2]), "[ab]") if S.choice(tag + "hasdom", [0, 1]) else None
    return S.u.Origin(sc, h, port, dom)


def compare(S, k1, k2):
    a, b = mkorigin(S, "a", k1), mkorigin(S, "b", k2)
    same = S.all(S.eq(a.scheme, b.scheme), S.eq(a.host, b.host), S.eq(a.port, b.port))
    S.check(S.iff(a.is_same_origin(b), same), "same origin")
    if a.domain is not None and b.domain is not None:
        want = S.all(S.eq(a.scheme, b.scheme), S.eq(a.domain, b.domain))
    elif a.domain is None and b.domain is None:
        want = same
    else:
        want = False
    S.check(S.iff(a.is_same_origin_domain(b), want), "same origin-domain")
    S.observe(a.is_same_origin(b), a.is_same_origin_domain(b))


def urls_same(S, t1, t2):
    """same origin of two parsed URLs <=> equal origin serialisations"""
    s1, s2 = build(S, t1), build(S, t2)
    o1, o2 = S.attempt(S.u.parse_url, s1), S.attempt(S.u.parse_url, s2)
    if not o1.ok or not o2.ok:
        return
    a, b = o1.value.origin, o2.value.origin
    if a is None or b is None:
        return
    S.check(S.iff(a.is_same_origin(b), S.eq(str(a), str(b))), "same origin exactly for equal tuples")
    S.check(S.iff(a.is_same_origin_domain(b), S.eq(str(a), str(b))), "same origin-domain without domains")
    S.observe(str(a), str(b))


def record(S, scheme):
    """hand-built records"""
    r = S.u.URLRecord()
    r.scheme = scheme
    r.host = S.str("h", 2, "[ab]")
    r.port = S.int("p", 0, 65535) if S.choice("hasport", [0, 1]) else None
    og = r.origin
    if scheme in ("ftp", "http", "https", "ws", "wss"):
        S.check(og is not None, "tuple origin")
        S.check_eq((og.scheme, og.host, og.port, og.domain), (scheme, r.host, r.port, None), "origin tuple")
    else:
        S.check(og is None, "opaque origin")


def scenarios(tier):
    from sx.dictionary import urls
    d = 1 if tier == "thorough" else 0
    out = []
    for i, (a, b) in enumerate([("http://", "/"), ("https://h:", "/"), ("ftp://u:p@", ""), ("ws://h:8", ""), ("wss://a", "/b?c"), ("file://", "/"),
                                ("web://", "/p"), ("http://1.", ""), ("http://[", "::]/"), ("http", "//h"), ("", "://h:80/")]):
        for n in range(0, 3 + d):
            out.append(("url%d/%d" % (i, n), "origin", dict(tmpl=[a, ("x", n), b])))
    for i, pre in enumerate(["blob:", "blob:h", "blob:http:", "blob:https://h:", "blob:http://", "blob:file://", "blob:ftp://", "blob:ws://h",
                             "blob:blob:http://", "blob:/", "blob://", "blob:/http://h/", "blob://http://h", "blob:///https://h", "blob: http://h", "blob:?http://h", "blob:\\http://h", "blob:http://h:80/#", "blob:https://u@h/?", "Blob:hTTp://h#", "blob:web://h"]):
        for n in range(0, 3 + d):
            out.append(("blob%d/%d" % (i, n), "origin", dict(tmpl=[pre, ("x", n)])))
    for i, (a, b) in enumerate((("blob:", "http://h/"), ("blob:", "https://h:8/x"), ("blob:/", "http://h"), ("blob", "http://h"), ("blob:http:", "//h"), ("blob:http", "://h:8"))):
        for n in range(1, 3 + d):
            out.append(("blob-in%d/%d" % (i, n), "origin", dict(tmpl=[a, ("x", n), b])))
    out.append(("blob-scheme", "origin", dict(tmpl=["blob:", ("x", 4, "[htpsfiledw]"), "://h:80/"])))
    out.append(("blob-scheme5", "origin", dict(tmpl=["blob:http", ("x", 1), "://h:443/"])))
    out.append(("scheme-any", "origin", dict(tmpl=[("x", 3, "[wsftphb]"), "://h:80"])))
    out.append(("scheme-any4", "origin", dict(tmpl=["h", ("x", 3, "[tpTPs]"), "://h:80"])))
    out.append(("rel", "origin", dict(tmpl=[("x", 3)], base="https://h:8/")))
    out.append(("rel-blob", "origin", dict(tmpl=[("x", 2)], base="blob:https://h:8/")))
    for u in ("http://h:443/", "https://h:80/", "web://h:80/", "blob:http://h/", "ftp://h/"):
        out.append(("set-protocol-" + u, "origin", dict(tmpl=[u], setter=("protocol", 3 + d, "[wsftphb:]"))))
        out.append(("set-port-" + u, "origin", dict(tmpl=[u], setter=("port", 3, "ascii"))))
        out.append(("set-host-" + u, "origin", dict(tmpl=[u], setter=("host", 3, "ascii"))))
    ks = ("str", "int", "tuple", "none", "like", "list")
    for a in ks:
        for b in ks:
            if a == b or (a, b) in (("str", "int"), ("int", "str"), ("tuple", "str"), ("none", "str"), ("str", "none"), ("int", "tuple"), ("int", "like"), ("like", "int"), ("tuple", "like"), ("like", "tuple"),
                                   ("like", "none"), ("like", "like"), ("list", "list")):
                out.append(("compare-%s-%s" % (a, b), "compare", dict(k1=a, k2=b)))
    out.append(("same-host", "urls_same", dict(t1=["http://a", ("x", 1)], t2=["http://a", ("y", 1)])))
    out.append(("same-port", "urls_same", dict(t1=["http://a:8", ("x", 1, "digit")], t2=["http://a:", ("y", 2, "digit")])))
    out.append(("same-scheme", "urls_same", dict(t1=["http", ("x", 1, "[s:]"), "//a:443"], t2=["http", ("y", 1, "[s:]"), "//a:443"])))
    out.append(("same-blob", "urls_same", dict(t1=["blob:http://a", ("x", 1), "/c"], t2=["http://a", ("y", 1)])))
    out.append(("same-ipv4", "urls_same", dict(t1=["http://1.", ("x", 1, "digit")], t2=["http://0x1.", ("y", 1, "digit")])))
    for sc in ("http", "https", "ftp", "ws", "wss", "file", "web", "data", "gopher", ""):
        out.append(("record-" + sc, "record", dict(scheme=sc)))
    for nm, t in urls():
        if not nm.startswith("n-") and ("host" in nm or "scheme" in nm or "port" in nm):
            out.append((nm, "origin", dict(tmpl=t)))
            out.append(("blob-" + nm, "origin", dict(tmpl=["blob:"] + t)))
    return out
