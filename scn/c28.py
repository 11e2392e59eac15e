"""C28: a URL record put together from any parts serialises and answers
queries as the standard says"""
from .common import build
from .c22 import cut

SCHEMES = ["", "http", "https", "ws", "wss", "ftp", "file", "web", "blob", "filesystem", "htt", "httpss"]


def plain(h):
    return h[1] if h is not None else None


def record(S, scheme, host, path, nuser, npass, port, query, fragment):
    """(library record, reference record) with the same symbolic parts"""
    rec, r = S.u.URLRecord(), S.ref.Url()
    r.scheme = rec.scheme = scheme if scheme is not None else S.str("scheme", 4, "[htpswfile]")
    r.username = rec.username = S.str("user", nuser)
    r.password = rec.password = S.str("pass", npass)
    if host == "null":
        rec.host, r.host = None, None
    elif host == "empty":
        rec.host, r.host = "", S.ref.EMPTY
    elif host == "ipv4":
        v = S.int("v4", 0, 0xffffffff)
        rec.host, r.host = v, ("ipv4", v)
    elif host == "ipv6":
        ps = tuple(S.int("p%d" % i, 0, 0xffff) if i in (1, 4, 7) else (0 if i < 6 else 0x1f) for i in range(8))
        rec.host, r.host = ps, ("ipv6", ps)
    else:
        x = S.str("host", 2)
        rec.host, r.host = x, ("domain", x)
    if port == "sym":
        r.port = rec.port = S.int("port", 0, 65535)
    else:
        r.port = rec.port = port
    if isinstance(path, int):
        rec.path = r.path = S.str("opaque", path)
    else:
        segs = [S.str("seg%d_" % i, n) if isinstance(n, int) else n for i, n in enumerate(path)]
        rec.path, r.path = list(segs), list(segs)
    r.query = rec.query = None if query is None else S.str("query", query)
    r.fragment = rec.fragment = None if fragment is None else S.str("frag", fragment)
    return rec, r


def state(rec):
    p = rec.path
    return [rec.scheme, rec.username, rec.password, rec.host, rec.port, p if isinstance(p, str) else list(p), rec.query, rec.fragment]


def rec(S, **kw):
    u, r = record(S, **kw)
    before = state(u)
    h = u.href
    S.observe(h)
    S.check_eq(h, r.href(), "href")
    S.check_eq(str(u), r.href(), "str")
    S.check_eq(u.serialize_url(), r.href(), "serialize_url")
    S.check_eq(u.serialize_url(False), r.href(), "serialize_url(False)")
    S.check_eq(u.serialize_url(True), r.href(True), "serialize_url(True)")
    S.check_eq(u.serialize_url(exclude_fragment=True), r.href(True), "serialize_url(exclude_fragment)")
    S.check_eq(u.serialize_path(), r.pathname(), "serialize_path")
    S.check_eq(u.serialize_host(), "" if r.host is None else r.hostname(), "serialize_host")
    S.check_eq(u.is_special(), r.special(), "is_special")
    S.check_eq(u.is_not_special(), not r.special(), "is_not_special")
    S.check_eq(u.includes_credentials(), r.creds(), "includes_credentials")
    S.check_eq(u.cannot_have_username_password_port(), r.cannot_have_cred_port(), "cannot_have_username_password_port")
    S.check_eq(u.has_opaque_path(), r.opaque(), "has_opaque_path")
    S.check_eq(state(u), before, "queries change nothing")


def shorten(S, **kw):
    u, r = record(S, **kw)
    u.shorten_path()
    r.shorten()
    S.observe(list(u.path))
    S.check_eq(list(u.path), list(r.path), "shorten_path")
    u.shorten_path()
    r.shorten()
    S.check_eq(list(u.path), list(r.path), "shorten_path twice")
    S.check_eq(u.href, r.href(), "href after shortening")


def fresh(S, n):
    """a new record is empty and owns its path"""
    a, b = S.u.URLRecord(), S.u.URLRecord()
    a.path.append(S.str("seg", n))
    a.scheme = S.str("scheme", n)
    S.check_eq(state(b), ["", "", "", None, None, [], None, None], "another record is unaffected")
    S.check_eq(state(S.u.URLRecord()), ["", "", "", None, None, [], None, None], "a new record is empty")
    S.observe(state(b))


def scenarios(tier):
    from sx.dictionary import sizes, words
    d = 1 if tier == "thorough" else 0
    out = []
    D = dict(scheme="web", host="name", path=[1], nuser=0, npass=0, port=None, query=None, fragment=None)

    def add(nm, fn="rec", **kw):
        out.append((nm, fn, dict(D, **kw)))
    for h in ("null", "empty", "name", "ipv4", "ipv6"):
        for i, p in enumerate(([], [0], [1], [0, 0], [0, 1], [1, 0], [2, 1], [1, 1, 1], [0, 0, 0], 0, 1, 2)):
            for sc in ("web", "http", "file"):
                add("host-%s-path%d-%s" % (h, i, sc), host=h, path=p, scheme=sc)
        for nu in (0, 1, 2):
            for np in (0, 1, 2):
                add("host-%s-cred%d%d" % (h, nu, np), host=h, nuser=nu, npass=np, port="sym" if nu == np else None)
        for port in (None, "sym", 0, 80, 443):
            for sc in ("http", "web", "file"):
                add("host-%s-port-%s-%s" % (h, port, sc), host=h, port=port, scheme=sc)
    for sc in SCHEMES + [None]:
        for h in ("null", "empty", "name"):
            add("scheme-%s-%s" % (sc, h), scheme=sc, host=h)
    for q in (None, 0, 1, 2):
        for f in (None, 0, 1, 2):
            for h, p in (("name", [1]), ("null", 1), ("null", []), ("null", [0, 1])):
                add("qf-%s,%s-%s-%s" % (q, f, h, p), query=q, fragment=f, host=h, path=p)
    for sc in ("file", "http", "web", "", "fil"):
        for i, p in enumerate(([], [0], [1], [2], [3], [2, 0], [2, 2], [1, 1, 1], ["a", 2], ["C:", "x", 2])):
            for h in ("empty", "null", "name", "ipv4"):
                add("shorten-%s-%s-%d" % (sc, h, i), "shorten", scheme=sc, host=h, path=p)
    for n in (0, 1, 2):
        out.append(("fresh/%d" % n, "fresh", dict(n=n)))
    for k in sizes():
        if k <= 2000:
            for n in (k - 1, k, k + 1):
                for h, sc in (("null", "web"), ("name", "http"), ("empty", "file")):
                    add("count-%d-%s" % (n, h), host=h, scheme=sc, path=["", 1] + ["a"] * n)
                    add("length-%d-%s" % (n, h), host=h, scheme=sc, path=["", "a" * n, 1])
                    add("shorten-count-%d-%s" % (n, h), "shorten", host=h, scheme=sc, path=["a"] * n + [1])
    for w in words():
        for h, sc in (("null", "web"), ("name", "http"), ("empty", "file")):
            add("word-%s-%s" % (w, h), host=h, scheme=sc, path=["", w, 1, w])
            add("shorten-word-%s-%s" % (w, h), "shorten", host=h, scheme=sc, path=[w, 1, w])
            add("word-scheme-%s-%s" % (w, h), host=h, scheme=w, path=[1])
    return out
