"""C18: URL validity verdicts match the standard's validation errors"""
from .common import build, parse_base

ASCII_LOW = "abcdefghijklmnopqrstuvwxyz0123456789+-."


def kinds(types):
    """the error types as a set, with the differences the property allows"""
    out = []
    for t in types:
        if t == "undefined":        # not one of the standard's types (unregistered scheme, detail of a failure)
            continue
        if t.startswith("IPv6-") or t.startswith("IPv4-in-IPv6-"):
            t = "IPv6"              # which rule of the IPv6 parser fails first is not claimed
        if t == "host-missing" and "invalid-credentials" in types:
            continue                # "@" without a host: the standard's name for it changed
        if t == "invalid-URL-unit" and "file-invalid-Windows-drive-letter-host" in types:
            continue                # file://C|/ : whether the | is also reported is not claimed
        if t not in out:
            out.append(t)
    out.sort()
    return out


def registered(S, scheme):
    return scheme in S.ref.REGISTERED


def valid(S, tmpl, base=None, encoding="utf-8"):
    S.logmode("all")
    s = build(S, tmpl)
    b, rb = parse_base(S, base)
    v = S.u.ValidityState()
    ok = S.u.URLValidator.is_valid(s, base, validity=v) if encoding == "utf-8" else S.u.URLValidator.is_valid(
        s, base, encoding, validity=v)
    errs = []
    r = S.ref.parse(s, rb, encoding, errs)
    S.observe(ok, list(v.error_types))
    if r == S.ref.FAIL:
        S.check(S.not_(ok), "a URL that does not parse is not valid")
        S.check(len(errs) > 0 and len(v.error_types) > 0, "a failure is reported")
    else:
        S.check(S.iff(ok, len(errs) == 0 and registered(S, r.scheme)), "valid exactly when there is nothing to report")
    S.check_eq(kinds(v.error_types), kinds(errs), "error types")
    if ok:
        o = S.attempt(S.u.parse_url, s, base)
        S.check(o.ok, "a valid URL parses")


def scheme(S, tmpl, upper=False):
    """is_valid_url_scheme: exactly the registered schemes, ASCII case-insensitively"""
    S.logmode("all")
    s = build(S, tmpl)
    v = S.u.ValidityState()
    ok = S.u.URLValidator.is_valid_url_scheme(s, validity=v)
    S.observe(ok)
    low = "".join(chr(ord(c) + 32) if "A" <= c <= "Z" else c for c in s)
    S.check(S.iff(ok, low in S.ref.REGISTERED), "registered schemes only")
    S.check(S.iff(ok, v.valid), "the report agrees")


def up(name, pre, post, n, lo=0, dom="scalar", **kw):
    return [("%s/%d" % (name, k), "valid", dict(tmpl=[pre, ("x", k, dom), post], **kw)) for k in range(lo, n + 1)]


def scenarios(tier):
    from sx.dictionary import urls, values
    d = 1 if tier == "thorough" else 0
    out = []
    out += up("free", "", "", 3 + d)
    out += up("scheme", "h", ":/", 3)
    out += up("http-slashes", "http:", "h", 3 + d, dom="[/\\a:@]")
    out += up("http-slashes-any", "http:", "h", 2 + d)
    out += up("file-slashes", "file:", "a", 3 + d, dom="[/\\C|:?#]")
    out += up("file-any", "file:", "", 2 + d)
    out += up("userinfo", "ftp://", "@h/", 2 + d)
    out += up("host-tail", "http://h", "/p", 2 + d)
    out += up("host", "http://", "/", 2 + d)
    out += up("host-file", "file://", "/", 2 + d)
    out += up("host-opaque", "ldap://", "/", 3 + d)
    out += up("host-opaque-pct", "ldap://a%", "", 3 + d, dom="[%0aFgG ]")
    out += up("port", "wss://h:", "/", 2 + d)
    out += [("port-digits/%d" % k, "valid", dict(tmpl=["https://h:", ("x", k, "digit"), "/"])) for k in (1, 3, 5, 6)]
    out += up("path", "http://h/", "", 3 + d)
    out += up("path-pct", "http://h/%", "", 3 + d, dom="[%0aFgG/?#]")
    out += up("path-file", "file:///", "", 3, dom="[C|:/\\. %]")
    out += up("path-opaque", "mailto:", "", 3 + d)
    out += up("path-opaque-pct", "mailto:%", "", 3 + d, dom="[%0aFgG/?#]")
    out += up("query", "http://h?", "", 3 + d)
    out += up("query-pct", "http://h?%", "", 3 + d, dom="[%0aFgG/?#]")
    out += up("query-other", "ldap://h?", "", 2 + d)
    out += up("fragment", "http://h#", "", 3 + d)
    out += up("fragment-pct", "http://h#%", "", 3 + d, dom="[%0aFgG/?#]")
    out += up("strip-start", "", "ws://h", 2)
    out += up("strip-end", "ws://h/p", "", 2, lo=1)
    out += up("tab", "htt", "p://h/", 1)
    out += up("ipv4", "http://1.2.3.", "/", 3, dom="[0178.xXaf]")
    out += up("ipv4-short", "http://", "/", 4 + d, lo=1, dom="[079.x]")
    out += up("ipv4-parts", "http://1.2.3.4", "/", 3, dom="[05.]")
    out += up("ipv4-big", "http://1.", ".3.4/", 3, lo=3, dom="[0256]")
    out += up("ipv4-last", "http://", "/", 3, lo=3, dom="[0256]")
    out += up("ipv6", "http://[1:", "::2]", 3, dom="[:.0g%]")
    out += up("ipv6-tail", "ldap://[::", "]", 3 + d, dom="[:.0g12]")
    out += up("ipv6-close", "http://[::1", "/", 2)
    for b, nm in (("http://h/a/b", "http"), ("file:///C:/a", "file"), ("ldap://h/a", "ldap"), ("mailto:x", "opaque")):
        out += up("base-%s" % nm, "", "", 2 + d, base=b)
        out += up("base-%s-scheme" % nm, b.split(":")[0] + ":", "", 2 + d, base=b)
        out += up("base-%s-slash" % nm, "", "", 3 + d, lo=3, base=b, dom="[/\\C|:.?#]")
    for k in range(0, 4 + d):
        out.append(("iana/%d" % k, "scheme", dict(tmpl=[("x", k)])))
    for pre, k, post in (("htt", 2, ""), ("", 1, "kype"), ("s", 1, "ype"), ("S", 1, "Ype"), ("git", 1, ""), ("ms-", 3, ""), ("coap", 2, "tcp"), ("", 1, "mailto")):
        out.append(("iana-%s-%s" % (pre, post), "scheme", dict(tmpl=[pre, ("x", k), post])))
    for nm, t in urls():
        out.append((nm, "valid", dict(tmpl=t)))
    for nm, t in values(False):
        out.append((nm, "scheme", dict(tmpl=t)))
        if nm.startswith("w-"):
            out.append((nm + "-http", "scheme", dict(tmpl=t + ["http"])))
            out.append((nm + "-a", "scheme", dict(tmpl=["HTTP"] + t)))
            out.append((nm + "-m", "scheme", dict(tmpl=["ftp"] + t + [("x", 1)])))
    return out
