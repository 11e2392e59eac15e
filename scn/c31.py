"""C31: an operation started in the middle of another does not disturb it"""
from .common import build, rec_tuple, api_tuple

ASSUMPTIONS = ["interleavings: one operation runs to completion between any two statements of the other; "
               "points with the same module-level state are tried once when the second operation leaves that state alone"]


def out(S, o, f):
    return [True, f(o.value)] if o.ok else [False, o.exc]


def view(v):
    return [v.valid, v.validation_errors, list(v.error_types)]


def op(S, kind, s, shared):
    """one complete operation on objects of its own; -> comparable result"""
    U = S.u
    if kind == "parse":
        return out(S, S.attempt(U.parse_url, s), rec_tuple)
    if kind == "rel":
        return out(S, S.attempt(U.parse_url, s, "http://b/c/d?e"), rec_tuple)
    if kind == "rel-shared":
        r = out(S, S.attempt(U.parse_url, s, shared), rec_tuple)
        return [r, rec_tuple(shared)]
    if kind == "url":
        return out(S, S.attempt(U.URL, s), api_tuple)
    if kind == "enc":
        return out(S, S.attempt(U.parse_url, s, None, "windows-1252"), rec_tuple)
    if kind == "urlparse":
        return out(S, S.attempt(U.urlparse, s), list)
    if kind == "host":
        return out(S, S.attempt(U.Host.parse, s), lambda x: [x])
    if kind == "ohost":
        return out(S, S.attempt(U.Host.parse, s, True), lambda x: [x])
    if kind == "ipv6":
        return out(S, S.attempt(U.Host.parse, "[" + s + "]"), lambda x: [x, U.Host.serialize(x)])
    if kind in ("ascii", "ascii-strict"):
        return out(S, S.attempt(U.IDNA.domain_to_ascii, s, kind != "ascii"), lambda x: [x])
    if kind in ("unicode", "unicode-strict"):
        return out(S, S.attempt(U.IDNA.domain_to_unicode, s, kind != "unicode"), lambda x: [x])
    if kind == "scheme":
        v = U.ValidityState()
        return [U.URLValidator.is_valid_url_scheme(s, validity=v), view(v)]
    if kind == "origin":
        return out(S, S.attempt(U.URL, s), lambda u: u.origin)
    if kind == "valid":
        v = U.ValidityState()
        return [U.URLValidator.is_valid(s, validity=v), view(v)]
    if kind == "can":
        v = U.ValidityState()
        return [U.URL.can_parse(s, validity=v), U.URL.can_parse(s), view(v)]
    if kind == "vhost":
        v = U.ValidityState()
        return [U.HostValidator.is_valid(s, validity=v), view(v)]
    if kind.startswith("set-"):
        u = U.URL("https://u:p@h:8/a/b?c=d#e")
        S.attempt(setattr, u, kind[4:], s)
        return [api_tuple(u), [list(x) for x in u.search_params]]
    if kind == "params":
        p = U.URLSearchParams(s)
        p.append("b", s)
        p.set("a", "1")
        p.sort()
        p.delete("zz")
        return [str(p), [list(x) for x in p], p.get(s), p.has("a")]
    if kind == "params-url":
        u = U.URL("http://h/?b=1&a=2")
        u.search_params.append("c", s)
        u.search_params.sort()
        u.search_params.delete("b")
        return [u.href]
    if kind == "codec":
        return [U.string_percent_encode(s, "/"), U.string_percent_decode(s), U.urlencode([(s, "x"), ("y", s)]), [list(x) for x in U.parse_qsl(U.utf8_encode(s))]]
    if kind == "equal":
        a, b = S.attempt(U.URL, s), U.URL("http://h/")
        return [a.ok, a.ok and a.value == b, a.ok and b.equals(a.value)]
    raise AssertionError(kind)


def pair(S, k1, t1, k2, t2, cold):
    S.logmode("all" if "valid" in (k1, k2) or "can" in (k1, k2) or "vhost" in (k1, k2) or "scheme" in (k1, k2) else "skip")
    s1, s2 = build(S, t1), build(S, t2)
    mk = lambda: S.u.parse_url("http://b/c/d?e")
    S.fresh()
    a0 = op(S, k1, s1, mk())
    S.fresh()
    b0 = op(S, k2, s2, mk())
    cold and S.fresh()
    sh = mk()
    a1, b1 = S.interleave(lambda: op(S, k1, s1, sh), lambda: op(S, k2, s2, sh), cold)
    S.observe(a0, b0)
    S.check_eq(a1, a0, "the interrupted operation gives the same result")
    S.check_eq(b1, b0, "the operation that interrupts gives the same result")
    S.check_eq(op(S, k1, s1, mk()), a0, "the same operation afterwards gives the same result")
    S.check_eq(op(S, k2, s2, mk()), b0, "the other operation afterwards gives the same result")


T = {
    "parse": ("http://u:p@h", ":8/a?q#f"), "rel": ("../x", "?y"), "rel-shared": ("../x", "/y"), "url": ("web://h/", "?a=b&c#d"), "enc": ("http://h/?\xe9", "#\xe9"),
    "urlparse": ("http://u@h/a;b", "?c"), "host": ("1.2.3.", ""), "ohost": ("aB", "c"), "origin": ("blob:https://h:8", "/x"), "valid": ("http:\\\\u@h/%z", ""), "can": ("ws://h:", "/"),
    "vhost": ("a", ".b"), "set-href": ("ftp://x/", "y"), "set-host": ("x:", "1"), "set-pathname": ("/x/../", "y"), "set-search": ("a=1&", "b"), "set-hash": ("x", ""),
    "set-protocol": ("htt", "p"), "set-port": ("9", ""), "set-username": ("x", "y"), "params": ("b=1&a=%4", "&a=3"), "params-url": ("x", ""), "codec": ("a=%4", "+b&"), "equal": ("http://h", ""),
    "ipv6": ("1:2", "::4"), "ascii": ("a_", "b"), "ascii-strict": ("a_", "b"), "unicode": ("a_", "b"), "unicode-strict": ("a_", "b"), "scheme": ("z39.50", ""),
}
B2 = {"parse": "file:///C:/x/../%zz", "rel": "//w:9/..", "rel-shared": "?zz", "url": "http://[::1]:81/?x=y", "enc": "https://k/?\u20ac", "urlparse": "web:x;y#z", "host": "[1::2]", "ohost": "w%00",
      "origin": "https://o:1", "valid": "web:/^ ", "can": "http://^", "vhost": "::x", "set-href": "web:o", "set-host": "w", "set-pathname": "z", "set-search": "?z=%20", "set-hash": "#w", "set-protocol": "ws",
      "set-port": "70", "set-username": "w", "params": "z=1&y", "params-url": "%", "codec": "q%41&r", "equal": "http://H/", "ipv6": "5::1.2.3.4", "ascii": "c_d", "ascii-strict": "c_d", "unicode": "c_d",
      "unicode-strict": "c_d", "scheme": "z39.50s"}
IDNA = ("ascii", "ascii-strict", "unicode", "unicode-strict", "host")


def scenarios(tier):
    d = 1 if tier == "thorough" else 0
    out = []
    ks = list(T)
    core = ("parse", "rel-shared", "url", "valid", "params", "codec", "host", "set-href", "origin", "ipv6")
    for i, a in enumerate(ks):
        for j, b in enumerate(ks):
            idna = a in IDNA and b in IDNA
            if not d and a not in core and b not in core and a != b and not idna:
                continue
            if not d and a != b and not idna and (j * 7 + i) % 3:
                continue
            t1 = [T[a][0], ("x", 1), T[a][1]]
            out.append(("%s|%s" % (a, b), "pair", dict(k1=a, t1=t1, k2=b, t2=[B2[b]], cold=bool(d) or a == b or idna)))
            if d or a == b:
                out.append(("%s|%s*" % (a, b), "pair", dict(k1=a, t1=t1, k2=b, t2=[T[b][0], ("y", 1, "ascii"), T[b][1]], cold=True)))
                if d:
                    out.append(("%s|%s/warm" % (a, b), "pair", dict(k1=a, t1=t1, k2=b, t2=[B2[b]], cold=False)))
    return out
