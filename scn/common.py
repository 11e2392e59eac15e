"""Helpers shared by the scenarios (run symbolically and concretely)."""


def host_plain(h):
    if h is None:
        return None
    return h[1]


def rec_tuple(u):
    """state of a library URLRecord"""
    p = u.path
    return (u.scheme, u.username, u.password, u.host, u.port, p if isinstance(p, str) else list(p), u.query, u.fragment)


def ref_tuple(r):
    return (r.scheme, r.username, r.password, host_plain(r.host), r.port, r.path if r.opaque() else list(r.path),
            r.query, r.fragment)


FIELDS = ("scheme", "username", "password", "host", "port", "path", "query", "fragment")


def check_same(S, got, want, label=""):
    for i in range(8):
        S.check_eq(got[i], want[i], label + FIELDS[i])


def api_tuple(u):
    """every getter of a library URL"""
    return (u.protocol, u.username, u.password, u.host, u.hostname, u.port, u.pathname, u.search, u.hash, u.href)


def ref_api_tuple(r):
    h = r.hostname()
    port = "" if r.port is None else str(r.port)
    return (r.scheme + ":", r.username, r.password, h if r.port is None else h + ":" + port, h, port, r.pathname(),
            "" if r.query is None or r.query == "" else "?" + r.query,
            "" if r.fragment is None or r.fragment == "" else "#" + r.fragment, r.href())


GETTERS = ("protocol", "username", "password", "host", "hostname", "port", "pathname", "search", "hash", "href")


def check_api(S, got, want, label=""):
    for i in range(10):
        S.check_eq(got[i], want[i], label + GETTERS[i])


def build(S, tmpl):
    """tmpl: string pieces and (name, length[, domain]) holes; a name used
    again stands for the same text"""
    out = ""
    seen = {}
    if sum(len(t) for t in tmpl if isinstance(t, str)) > 2000:
        S.maxsteps(600000)
    for t in tmpl:
        if isinstance(t, str):
            out = out + t
            continue
        if t[0] not in seen:
            seen[t[0]] = S.str(t[0], t[1]) if len(t) == 2 else S.str(t[0], t[1], t[2])
        out = out + seen[t[0]]
    return out


def parse_base(S, base):
    """concrete base string -> (library record, reference record)"""
    if base is None:
        return None, None
    return S.u.parse_url(base), S.ref.parse(base)


def diff_parse(S, tmpl, base=None, encoding="utf-8", href=True):
    """library parse == reference parse"""
    s = build(S, tmpl)
    b, rb = parse_base(S, base)
    o = S.attempt(S.u.parse_url, s, base=b, encoding=encoding)
    r = S.ref.parse(s, rb, encoding)
    if o.ok:
        t = rec_tuple(o.value)
        S.observe(t)
        if r == S.ref.FAIL:
            S.check(False, "accepted an input the standard rejects")
            return
        check_same(S, t, ref_tuple(r))
        if href:
            S.check_eq(o.value.href, r.href(), "href")
    else:
        S.observe(o.exc)
        S.check_eq(o.exc, "URLParseError", "failure is a URLParseError")
        S.check(r == S.ref.FAIL, "rejected an input the standard accepts")


def diff_api(S, tmpl, base=None):
    """every URL attribute == reference"""
    s = build(S, tmpl)
    o = S.attempt(S.u.URL, s, base)
    rb = None if base is None else S.ref.parse(base)
    r = S.ref.parse(s, rb)
    if o.ok:
        t = api_tuple(o.value)
        S.observe(t)
        if r == S.ref.FAIL:
            S.check(False, "accepted an input the standard rejects")
            return
        check_api(S, t, ref_api_tuple(r))
    else:
        S.observe(o.exc)
        S.check_eq(o.exc, "URLParseError", "failure is a URLParseError")
        S.check(r == S.ref.FAIL, "rejected an input the standard accepts")


def X(n, dom="scalar", name="x"):
    return (name, n, dom)


def upto(name, fn, pre, post, n, lo=0, dom="scalar", **kw):
    """one scenario per length"""
    return [("%s/%d" % (name, k), fn, dict(tmpl=[pre, ("x", k, dom), post], **kw)) for k in range(lo, n + 1)]


SETTER_URLS = ["http://u:p@h:81/a/b?q#f", "https://h/", "file:///C:/a", "file://h/p?q", "web://u:p@h:8/a/b?q#f", "web://h",
               "web:/a/b", "web:/.//p", "web:o  ?q#f", "web:o", "ws://1.2.3.4/", "web://[1::2]:3/x", "web:///p", "ftp://h:0/",
               "file://h/C:/a/b?q#f", "web://:p@h/", "web://u@h/", "web://h:8", "http://:p@h/"]
