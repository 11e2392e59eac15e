"""C29: a parse failure raises the documented kind of error"""
from .common import build, parse_base


def kind_of(S, e):
    """the documented class an exception belongs to"""
    E = S.err
    S.check(isinstance(e, ValueError), "every parse failure is a ValueError")
    S.check(isinstance(e, E.URLParseError), "every parse failure is a URLParseError")
    if isinstance(e, E.IPv6AddressParseError):
        return "ipv6"
    if isinstance(e, E.IPv4AddressParseError):
        return "ipv4"
    if isinstance(e, (E.HostParseError, E.IDNAError)):
        return "host"
    return "url"


def want(errs):
    """the standard's failure, by the last validation error recorded"""
    t = errs[-1] if errs else ""
    if t.startswith("IPv6-") or t.startswith("IPv4-in-IPv6-"):
        return "ipv6"
    if t.startswith("IPv4-"):
        return "ipv4"
    if t in ("domain-to-ASCII", "domain-invalid-code-point", "host-invalid-code-point"):
        return "host"
    return "url"


def parse(S, tmpl, base=None, how="parse_url"):
    s = build(S, tmpl)
    if how == "can":
        v = S.u.ValidityState()
        o = S.attempt(S.u.parse_url, s, base, validity=v)
    elif how == "url":
        o = S.attempt(S.u.URL, s, base)
    elif how == "urlparse":
        o = S.attempt(S.u.urlparse, s, base)
    elif how == "basic":
        b = None if base is None else S.u.parse_url(base)
        o = S.attempt(S.u.BasicURLParser.parse, s, b)
    elif how == "href":
        u = S.u.URL("http://keep/")
        o = S.attempt(setattr, u, "href", s)
    else:
        o = S.attempt(S.u.parse_url, s, base)
    errs = []
    rb = None if base is None else S.ref.parse(base)
    r = S.ref.parse(S.ref.to_usv(s), rb, "utf-8", errs)
    if o.ok:
        S.observe(True)
        S.check(r != S.ref.FAIL, "accepted an input the standard rejects")
        return
    k = kind_of(S, o.err)
    S.observe(k)
    S.check(r == S.ref.FAIL, "rejected an input the standard accepts")
    S.check_eq(k, want(errs), "kind of error")


def badbase(S, tmpl, rel):
    """a base that does not parse fails with the base's error"""
    b = build(S, tmpl)
    o = S.attempt(S.u.parse_url, rel, b)
    p = S.attempt(S.u.parse_url, b)
    if p.ok:
        S.observe(True)
        return
    S.check(not o.ok, "fails")
    k = kind_of(S, o.err)
    S.observe(k)
    S.check_eq(k, kind_of(S, p.err), "kind of error")


def host(S, tmpl, opaque):
    s = build(S, tmpl)
    o = S.attempt(S.u.Host.parse, s, opaque)
    if s == "":
        S.check(o.ok, "the empty host parses")
        return
    errs = []
    r = S.ref.host_parse(S.ref.to_usv(s), opaque, errs)
    if o.ok:
        S.observe(True)
        S.check(r != S.ref.FAIL, "accepted a host the standard rejects")
        return
    k = kind_of(S, o.err)
    S.observe(k)
    S.check(r == S.ref.FAIL, "rejected a host the standard accepts")
    S.check(k != "url", "a host failure is a host error")
    S.check_eq(k, want(errs), "kind of error")


def classes(S):
    E = S.err
    S.check(issubclass(E.IPv6AddressParseError, E.HostParseError) and issubclass(E.IPv4AddressParseError, E.HostParseError), "address errors are host errors")
    for c in (E.HostParseError, E.IDNAError):
        S.check(issubclass(c, E.URLParseError), "host errors are URL parse errors")
    S.check(issubclass(E.URLParseError, ValueError), "URL parse errors are value errors")
    x = S.int("x", 0, 3)
    S.observe(x)


def ipaddr(S, n, dom, which):
    """the address parsers themselves"""
    s = S.str("x", n, dom)
    if which == "6":
        o = S.attempt(S.u.IPv6Address.parse, s)
        r = S.ref.ipv6_parse(s)
    else:
        o = S.attempt(S.u.IPv4Address.parse, s)
        r = S.ref.ipv4_parse(s)
    if o.ok:
        S.observe(o.value)
        S.check(r != S.ref.FAIL, "accepted what the standard rejects")
        S.check_eq(o.value, r[1], "value")
        return
    S.observe(kind_of(S, o.err))
    S.check(r == S.ref.FAIL, "rejected what the standard accepts")
    S.check_eq(kind_of(S, o.err), "ipv" + which, "kind of error")


def scenarios(tier):
    from sx.dictionary import urls
    d = 1 if tier == "thorough" else 0
    out = [("classes", "classes", {})]
    for i, (pre, post, n) in enumerate((("http://", "/", 2), ("http://[", "]/", 2), ("http://[::", "/", 2), ("http://1.2.", "/", 2), ("http://0x", "/", 2), ("http://h", ":8/", 2),
                                        ("http://h:", "/", 2), ("http://u@", "/", 2), ("http://u:p", "@", 2), ("web://", "/", 2), ("web://h", ":8", 2), ("web://[", "]", 2),
                                        ("file://", "/", 2), ("file://1.", "/", 2), ("", "://h", 2), ("", "", 3), ("http:", "", 2), ("http://h%", "/", 2), ("http://1.2.3.4.", "", 2),
                                        ("http://[1:2:3:4:5:6:7:8", "]", 2), ("ws://99999999999", "", 1), ("http://[::1]", ":99999/", 2), ("http://a b:", "/", 1),
                                        ("web://u:p@", ":1/", 2), ("http://h:6553", "", 2), ("web://h:6553", "", 2), ("http://xn--", "/", 1), ("https://a.", ".1/", 2))):
        for k in range(0, n + 1 + d):
            out.append(("at%d/%d" % (i, k), "parse", dict(tmpl=[pre, ("x", k), post])))
    for i, (pre, post) in enumerate((("http://[", "]"), ("http://[::", "]/"), ("http://[::1.2.3.", "]"), ("http://[1:2:3:4:5:6:7", "8]"), ("http://", "."), ("http://1.2.", ""), ("http://h:", ""), ("http://u:", "@"),
                                     ("web://", "/"), ("", "://h"), ("file://", ""))):
        out.append(("any%d" % i, "parse", dict(tmpl=[pre, ("x", 1 + d, "any"), post])))
    for sch in ("http", "web", "wss"):
        for n in (4, 5, 6, 9, 12, 30, 200):
            out.append(("port-%s/%d" % (sch, n), "parse", dict(tmpl=[sch + "://h:" + "6553" + "1" * (n - 4), ("x", 1 + d), "/"])))
            out.append(("port0-%s/%d" % (sch, n), "parse", dict(tmpl=[sch + "://h:" + "0" * n, ("x", 1 + d), ""])))
    v6 = ["1:2:3:4:5:6:7:8", "1:2:3:4:5:6:1.2.3.4", "1:2:3:4:5:6:7:1.2.3.4", "1::3:4:5:6:7:1.2.3.4", "::2:3:4:5:6:7:8:9", "::2:3:4:5:6:7:1.2.3.4", "::2:3:4:5:6:1.2.3.4", "1:2:3:4:5:6::1.2.3.4",
          "1:2:3:4:5:6:7::", "1:2:3:4:5:6:7::8", "1:2:3:4:5::7:8", "ffff::1.2.3.255", "::1.2.3.4:5", "::1.2.3", "1::2::3"]
    for i, a in enumerate(v6):
        for at in range(0, len(a), 1 if d else 3):
            out.append(("v6m%d@%d" % (i, at), "host", dict(tmpl=["[" + a[:at], ("x", 1), a[at + 1:] + "]"], opaque=False)))
            out.append(("v6i%d@%d" % (i, at), "host", dict(tmpl=["[" + a[:at], ("x", 1, "[:.1g]"), a[at:] + "]"], opaque=True)))
    v4 = ["1.2.3.4", "1.2.3.256", "256.1", "0x1.08.3", "1.2.3.4.5", "4294967296", "1.16777216", "1..2", "1.2.65536", "0xfffffffff", "09.1", "1.2.3.4."]
    for i, a in enumerate(v4):
        for at in range(0, len(a), 1 if d else 2):
            out.append(("v4m%d@%d" % (i, at), "host", dict(tmpl=[a[:at], ("x", 1), a[at + 1:]], opaque=False)))
    for i, b in enumerate(("http://b/c", "web://b/c", "file:///C:/x", "web:o", "web:/a")):
        for j, (pre, k) in enumerate((("", 2), ("//", 2), ("//[", 1), ("//1.2.3.", 2), ("http:", 1), (b.split(":")[0] + ":", 2), ("//h:", 1), ("//u@", 1))):
            out.append(("base%d-%d" % (i, j), "parse", dict(tmpl=[pre, ("x", k + d)], base=b)))
    for how in ("url", "urlparse", "basic", "href", "can"):
        for i, (pre, k, post) in enumerate((("http://", 2, "/"), ("http://[", 1, "]"), ("http://1.2.3.4", 1, ""), ("web://", 1, "^x"), ("http://h:", 1, "")
                                            , ("", 1, ":"), ("http:", 1, "@"))):
            out.append(("%s%d" % (how, i), "parse", dict(tmpl=[pre, ("x", k + d), post], how=how)))
            if how != "href":
                out.append(("%s-base%d" % (how, i), "parse", dict(tmpl=[pre[5:], ("x", k + d), post], how=how, base="http://b/c")))
    for n in range(0, 3 + d):
        for op in (False, True):
            for i, (pre, post) in enumerate((("", ""), ("[", "]"), ("[", ""), ("a", "b"), ("1.", ""), ("0x1.", ".1"), ("%", "1"), ("a..", ".9"))):
                out.append(("host%d-%d/%d" % (op, i, n), "host", dict(tmpl=[pre, ("x", n), post], opaque=op)))
        for rel in ("", "x", "http://h/", "#f"):
            for i, pre in enumerate(("http://", "http://[", "http://1.2.3.", "web://", "http://h:", "")):
                if n < 2 + d:
                    out.append(("badbase-%s%d/%d" % (rel, i, n), "badbase", dict(tmpl=[pre, ("x", n), "z"], rel=rel)))
    for n in range(0, 4 + d):
        out.append(("ip6/%d" % n, "ipaddr", dict(n=n, dom="scalar" if n < 3 else "[:1.g]", which="6")))
        out.append(("ip4/%d" % n, "ipaddr", dict(n=n, dom="scalar" if n < 3 else "[019.xf]", which="4")))
    for n in (1, 2):
        out.append(("ip6-any/%d" % n, "ipaddr", dict(n=n, dom="any", which="6")))
        out.append(("ip4-any/%d" % n, "ipaddr", dict(n=n, dom="any", which="4")))
    out.append(("ip4-parts", "ipaddr", dict(n=7 + d, dom="[1.]", which="4")))
    out.append(("ip6-parts", "ipaddr", dict(n=6 + d, dom="[1:.]", which="6")))
    for nm, t in urls():
        if nm.startswith(("w-hostx", "w-opaquex", "w-schemex", "v-")):
            out.append((nm, "parse", dict(tmpl=t)))
    return out
