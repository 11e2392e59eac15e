"""C21: parsing and objects are independent: no shared or leaked state"""
from .common import build, rec_tuple, api_tuple, ref_tuple, ref_api_tuple, host_plain, check_api
from .c14 import listed

EDITS = ("href", "protocol", "username", "password", "host", "hostname", "port", "pathname", "search", "hash", "append", "set", "delete",
         "sort")


def state(u):
    return (api_tuple(u), listed(u.search_params), u.origin)


def edit(S, u, op, v):
    if op == "append":
        u.search_params.append(v, v)
    elif op == "set":
        u.search_params.set(v, "1")
    elif op == "delete":
        u.search_params.delete(v)
    elif op == "sort":
        u.search_params.sort()
    elif op == "href":
        S.attempt(setattr, u, "href", "https://new/" + v)
    elif op == "protocol":
        S.attempt(setattr, u, "protocol", "wss" + v)
    elif op == "port":
        S.attempt(setattr, u, "port", "9" + v)
    else:
        S.attempt(setattr, u, op, v)


def base_kept(S, base, tmpl, op1, op2):
    """neither resolving nor editing one URL changes the other"""
    b = S.u.URL(base)
    b0 = state(b)
    o = S.attempt(S.u.URL, build(S, tmpl), b)
    S.check_eq(state(b), b0, "resolving leaves the base alone")
    if not o.ok:
        S.observe(o.exc)
        return
    u = o.value
    edit(S, u, op1, S.str("e", 1, "[a/?#&.]"))
    S.check_eq(state(b), b0, "editing the result leaves the base alone")
    u1 = state(u)
    S.observe(u1)
    edit(S, b, op2, S.str("f", 1, "[b/?#&.]"))
    S.check_eq(state(u), u1, "editing the base leaves the result alone")


def rec_kept(S, base, tmpl):
    """records: the result shares no mutable state with the base record"""
    b = S.u.parse_url(base)
    b0 = rec_tuple(b)
    o = S.attempt(S.u.parse_url, build(S, tmpl), base=b)
    S.check_eq(rec_tuple(b), b0, "resolving leaves the base record alone")
    if not o.ok:
        S.observe(o.exc)
        return
    u = o.value
    S.check(u is not b, "a new record")
    t = rec_tuple(u)
    S.observe(t)
    if not isinstance(b.path, str):
        b.path.append("more")
    b.host = "changed"
    S.check_eq(rec_tuple(u), t, "changing the base record leaves the result alone")
    b1 = rec_tuple(b)
    if not isinstance(u.path, str):
        u.path.append("x")
        u.shorten_path()
        u.shorten_path()
    u.query = "z"
    S.check_eq(rec_tuple(b), b1, "changing the result leaves the base record alone")


def twice(S, tmpl, base, op):
    """parsing the same input again gives the same, unrelated URL, whatever happened to the first"""
    s = build(S, tmpl)
    o = S.attempt(S.u.URL, s, base)
    if not o.ok:
        o2 = S.attempt(S.u.URL, s, base)
        S.check(not o2.ok, "fails again")
        S.observe(o.exc)
        return
    u = o.value
    t = state(u)
    edit(S, u, op, "k")
    o2 = S.attempt(S.u.URL, s, base)
    S.check(o2.ok, "parses again")
    if o2.ok:
        S.observe(state(o2.value))
        S.check_eq(state(o2.value), t, "the same result again")
        S.check(o2.value.search_params is not u.search_params, "its own parameters")
        u2 = state(u)
        edit(S, o2.value, op, "m")
        S.check_eq(state(u), u2, "the first one is untouched")


def twice_rec(S, tmpl):
    s = build(S, tmpl)
    o = S.attempt(S.u.parse_url, s)
    if not o.ok:
        S.observe(o.exc)
        return
    u = o.value
    t = rec_tuple(u)
    if not isinstance(u.path, str):
        u.path.append("x")
    u.username = "leak"
    v = S.u.parse_url(s)
    S.observe(rec_tuple(v))
    S.check_eq(rec_tuple(v), t, "the same record again")
    e = S.u.URLRecord()
    S.check_eq(rec_tuple(e), ("", "", "", None, None, [], None, None), "a new record is empty")


INTER = ("bad", "valid", "invalid", "legacy", "idna", "strict", "setter", "params", "canparse", "host", "urlparse")


def between(S, what, y):
    U = S.u
    if what == "bad":
        S.attempt(U.URL, "http://" + y + " /")
    elif what == "valid":
        U.URLValidator.is_valid("http://h/" + y)
    elif what == "invalid":
        v = U.ValidityState()
        U.URLValidator.is_valid("http:\\\\u@h/%" + y, validity=v)
    elif what == "legacy":
        S.attempt(U.parse_url, "http://h/?" + y, encoding="windows-1252")
    elif what == "idna":
        S.attempt(U.IDNA.domain_to_unicode, "x" + y)
    elif what == "strict":
        S.attempt(U.IDNA.domain_to_ascii, "x" + y, True)
        U.HostValidator.is_valid_domain("a_" + y)
    elif what == "setter":
        u = U.URL("http://h/a/b?c#d")
        S.attempt(setattr, u, "host", y)
        S.attempt(setattr, u, "pathname", y)
    elif what == "params":
        p = U.URLSearchParams("a=1&" + y)
        p.append("b", y)
        p.sort()
    elif what == "canparse":
        U.URL.can_parse("x" + y, "http://h/a")
    elif what == "host":
        U.HostValidator.is_valid("1." + y)
        U.HostValidator.is_valid_opaque_host(y)
    else:
        S.attempt(U.urlparse, "http://h/;" + y, None, "utf-8", False)


def interleave(S, tmpl, base, what, encoding="utf-8"):
    """the result does not depend on what was parsed or validated in between"""
    s = build(S, tmpl)
    a = S.attempt(S.u.parse_url, s, base, encoding)
    ta = rec_tuple(a.value) if a.ok else None
    between(S, what, S.str("y", 1, "[a/?.%\xe9@:]"))
    b = S.attempt(S.u.parse_url, s, base, encoding)
    tb = rec_tuple(b.value) if b.ok else None
    S.observe(ta)
    S.check_eq(b.ok, a.ok, "same outcome")
    S.check_eq(tb, ta, "same result")


def validators(S, tmpl, what):
    s = build(S, tmpl)
    S.logmode("all")
    r1 = (S.u.HostValidator.is_valid(s), S.u.HostValidator.is_valid_opaque_host(s), S.u.URLValidator.is_valid("http://h/" + s),
          S.u.URL.can_parse(s))
    between(S, what, S.str("y", 1, "[a/?.%\xe9@:]"))
    r2 = (S.u.HostValidator.is_valid(s), S.u.HostValidator.is_valid_opaque_host(s), S.u.URLValidator.is_valid("http://h/" + s),
          S.u.URL.can_parse(s))
    S.observe(r1)
    S.check_eq(r2, r1, "same verdicts")


def idna(S, n, dom):
    """strict and lenient IDNA processing do not influence each other"""
    s = S.str("x", n, dom)

    def both(strict):
        a = S.attempt(S.u.IDNA.domain_to_ascii, s, strict)
        b = S.attempt(S.u.IDNA.domain_to_unicode, s, strict)
        return (a.ok, a.value, b.ok, b.value)
    r1 = both(False)
    r2 = both(True)
    r3 = both(False)
    r4 = both(True)
    S.observe(r1, r2)
    S.check_eq(r3, r1, "lenient processing again")
    S.check_eq(r4, r2, "strict processing again")


def copies(S, n, op, dom):
    """copies of search parameters are independent"""
    ps = [(S.str("a%d" % i, 1, dom), S.str("b%d" % i, 1, dom)) for i in range(n)]
    src = [list(x) for x in ps]
    p = S.u.URLSearchParams(src)
    q = S.u.URLSearchParams(p)
    S.check_eq(listed(q), listed(p), "a copy has the same pairs")
    p0 = listed(p)
    k = S.str("k", 1, dom)
    if op == "append":
        q.append(k, k)
    elif op == "set":
        q.set(k, "v")
    elif op == "delete":
        q.delete(k)
    else:
        q.sort()
    S.check_eq(listed(p), p0, "editing the copy leaves the original alone")
    S.check_eq(src, [list(x) for x in ps], "the initialiser is left alone")
    q0 = listed(q)
    src.append(["z", "z"])
    if n:
        src[0][0] = "changed"
    p.append("w", "w")
    S.check_eq(listed(q), q0, "editing the original leaves the copy alone")
    S.check_eq(listed(p), p0 + [["w", "w"]], "editing the initialiser leaves the parameters alone")
    e = S.u.URLSearchParams()
    S.check_eq(listed(e), [], "new parameters are empty")
    S.observe(q0, p0)


def detached(S, url, op, dom):
    """a copy of a URL's parameters is not attached to the URL"""
    u = S.u.URL(url)
    q = S.u.URLSearchParams(u.search_params)
    h = u.href
    k = S.str("k", 1, dom)
    getattr(q, op)(*((k, "v") if op != "delete" else (k,)))
    S.check_eq(u.href, h, "editing the copy leaves the URL alone")
    q0 = listed(q)
    u.search = "x=" + S.str("s", 1, dom)
    S.check_eq(listed(q), q0, "editing the URL leaves the copy alone")
    S.observe(u.href, q0)


def results(S, dom):
    """changing a returned list does not change the parameters"""
    p = S.u.URLSearchParams([("a", S.str("x", 1, dom)), ("b", "2")])
    p0 = listed(p)
    for r in (p[:], list(p), list(p.keys()), list(p.values()), list(p.entries())):
        r.append("z")
    S.check_eq(listed(p), p0, "unchanged")
    v = S.u.parse_qsl(b"a=1&b")
    v.append(("c", "d"))
    S.check_eq(listed(S.u.parse_qsl(b"a=1&b")), [["a", "1"], ["b", ""]], "parse_qsl again")
    S.observe(p0)


def alive(S, t1, t2, op):
    """a URL parsed earlier is not affected by anything parsed or edited later"""
    s1, s2 = build(S, t1), build(S, t2)
    a = S.attempt(S.u.URL, s1)
    ra, e = S.attempt(S.u.parse_url, s1), S.u.URLRecord()
    if not a.ok:
        return
    sa, rt = state(a.value), rec_tuple(ra.value)
    b = S.attempt(S.u.URL, s2)
    S.attempt(S.u.parse_url, s2, ra.value)
    if b.ok:
        edit(S, b.value, op, S.str("e", 1, "[a/?#&.]"))
    S.check_eq(state(a.value), sa, "an earlier URL is unchanged")
    S.check_eq(rec_tuple(ra.value), rt, "an earlier record is unchanged")
    S.check_eq(rec_tuple(e), ("", "", "", None, None, [], None, None), "an empty record stays empty")
    S.observe(sa)


BASES = ["http://u:p@h:81/a/b?q=1&r#f", "file:///C:/a/b?q", "web://h/a/b?q", "web:/a/b", "web:o ?q", "https://1.2.3.4/?a"]


def cross(S, kind, n, dom, pre="", post="", a=None, b=None):
    """a call's result depends on its own arguments only, whatever related call came before"""
    x = pre + S.str("x", n, dom) + post
    y = pre + S.str("y", n, dom) + post
    U, R = S.u, S.ref
    if kind == "parse":             # same rest, other scheme, base or encoding
        S.attempt(U.parse_url, a[0] + x, a[1], a[2])
        o = S.attempt(U.parse_url, b[0] + y, b[1], b[2])
        r = R.parse(b[0] + y, None if b[1] is None else R.parse(b[1]), b[2])
        S.observe(o.ok)
        S.check_eq(o.ok, r != R.FAIL, "same outcome as without the earlier call")
        if o.ok and r != R.FAIL:
            S.check_eq(rec_tuple(o.value), ref_tuple(r), "same result as without the earlier call")
    elif kind == "host":
        S.attempt(U.Host.parse, x, a)
        o = S.attempt(U.Host.parse, y, b)
        r = R.host_parse(y, b)
        S.observe(o.ok)
        S.check_eq(o.ok, r != R.FAIL, "same outcome as without the earlier call")
        if o.ok and r != R.FAIL:
            S.check_eq(o.value, host_plain(r), "same host as without the earlier call")
    elif kind == "encode":
        U.string_percent_encode(x, *a)
        g = U.string_percent_encode(y, *b)
        S.observe(g)
        enc, plus = (b[1] if len(b) > 1 else "utf-8"), (b[2] if len(b) > 2 else False)
        out = ""
        for ch in y:
            if ch == " " and plus:
                out = out + "+"
            elif ch in b[0] or ch in "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-":
                out = out + ch
            else:
                out = out + "".join("%%%02X" % k for k in ch.encode(enc))
        S.check_eq(g, out, "same escapes as without the earlier call")
    elif kind == "idna":
        S.attempt(U.IDNA.domain_to_ascii, x, a)
        S.attempt(U.IDNA.domain_to_unicode, x, a)
        o = S.attempt(U.IDNA.domain_to_ascii, y, b)
        S.observe(o.ok)
        S.check_eq(o.ok, b is False or "_" not in y, "strictness of this call only")
        if o.ok:
            S.check_eq(o.value, y.lower(), "same domain as without the earlier call")
    elif kind == "params":
        p = U.URLSearchParams(x)
        q = U.URLSearchParams(y)
        p.append("z", "z")
        S.observe(listed(q))
        S.check_eq(listed(q), [[i, j] for i, j in R.parse_qs(y)], "same pairs as without the earlier call")
    elif kind == "valid":
        S.logmode("all")
        U.URLValidator.is_valid(a + x)
        g = U.URLValidator.is_valid(b + y)
        S.observe(g)
        e = []
        r = R.parse(b + y, None, "utf-8", e)
        S.check(S.iff(g, r != R.FAIL and len(e) == 0 and (r.scheme if r != R.FAIL else "") in R.REGISTERED), "same verdict as without the earlier call")
    elif kind == "setter":
        u, w = U.URL(a[0]), U.URL(b[0])
        S.attempt(setattr, u, a[1], x)
        S.attempt(setattr, w, b[1], y)
        t = api_tuple(w)
        S.observe(t)
        m = R.Api(R.parse(b[0]))
        m.set(b[1], y)
        S.check_eq(t, ref_api_tuple(m.url), "same URL as without the earlier assignment")


def history(S, k, what, tmpl):
    """a call gives the same after many earlier calls"""
    U, R = S.u, S.ref
    if k > 200:
        S.maxsteps(900000)
    u, p = U.URL("http://h/a?q#f"), U.URLSearchParams("a=1")
    for i in range(k):
        if what == "parse":
            U.parse_url("http://h%d.x/p%d?q%d#f" % (i, i, i))
        elif what == "same":
            U.parse_url("http://h/a/../b?q#f")
        elif what == "host":
            U.Host.parse("h%d.x" % i)
            U.Host.serialize(i)
        elif what == "encode":
            U.string_percent_encode("a %d" % i, "/")
            U.urlencode([("a%d" % i, "b")])
        elif what == "decode":
            U.string_percent_decode("%%41%d" % i)
            U.parse_qsl(b"a%d=%%41" % i)
        elif what == "valid":
            U.URLValidator.is_valid("http://h%d/" % i)
            U.HostValidator.is_valid("h%d" % i)
        elif what == "mixed":
            U.HostValidator.is_valid("h%d.x" % i)
            U.parse_url("http://a_%d/" % i)
            S.attempt(U.IDNA.domain_to_ascii, "a_%d" % i, True)
            S.attempt(U.IDNA.domain_to_unicode, "a_%d" % i, i % 2 == 0)
        elif what == "fail":
            S.attempt(U.parse_url, "http://h%d:x/" % i)
        elif what == "setters":
            u.pathname = "/p%d" % i
            u.search = "s%d" % i
            u.hash = "h%d" % i
            u.port = str(i + 100)
        elif what == "params":
            p.set("a", i)
            p.append("b", i)
            p.delete("b")
            u.search_params.set("a", str(i))
        if what in ("host", "valid", "mixed"):
            U.IDNA.domain_to_ascii("a_b", False)
    if what in ("host", "valid", "mixed"):
        for f in (U.IDNA.domain_to_ascii, U.IDNA.domain_to_unicode):
            o = S.attempt(f, "a_b", False)
            S.check(o.ok and o.value == "a_b", "lenient processing after many calls")
        S.check(not S.attempt(U.IDNA.domain_to_ascii, "a_b", True).ok, "strict processing after many calls")
    s = build(S, tmpl)
    o = S.attempt(U.URL, s)
    r = R.parse(s)
    S.observe(o.ok)
    S.check_eq(o.ok, r != R.FAIL, "same outcome as without the earlier calls")
    if o.ok and r != R.FAIL:
        check_api(S, api_tuple(o.value), ref_api_tuple(r))
        S.check_eq(listed(o.value.search_params), [list(x) for x in R.parse_qs(r.query or "")], "same parameters as without the earlier calls")
        S.check_eq(U.URLSearchParams([(s, s)]).get(s), s, "get")
        e = []
        R.parse(s, None, "utf-8", e)
        S.logmode("all")
        S.check(S.iff(U.URLValidator.is_valid(s), len(e) == 0 and r.scheme in R.REGISTERED), "same verdict as without the earlier calls")
        S.logmode("skip")
    if what in ("setters", "params") and k > 0:
        a = R.Api(R.parse("http://h/a?q#f"))
        if what == "setters":
            a.set("pathname", "/p%d" % (k - 1))
            a.set("search", "s%d" % (k - 1))
            a.set("hash", "h%d" % (k - 1))
            a.set("port", str(k + 99))
        else:
            a.set("search", "q=&a=%d" % (k - 1))
            S.check_eq(listed(p), [["a", str(k - 1)]], "parameters after many operations")
        a.set("pathname", s)
        u.pathname = s
        check_api(S, api_tuple(u), ref_api_tuple(a.url))


def scenarios(tier):
    from sx.dictionary import sizes
    d = 1 if tier == "thorough" else 0
    out = []
    i = 0
    for bi, b in enumerate(BASES):
        for k, op in enumerate(EDITS):
            op2 = EDITS[(k * 5 + bi * 3 + 1) % len(EDITS)]
            i += 1
            rels = (["?x"], [], ["#g"], ["../c"], ["//i/j"]) if bi != 4 else (["#g"], ["web:x"])
            for ri, r in enumerate(rels):
                if d or (ri + k + bi) % len(rels) == 0:
                    out.append(("base-%d-%s-%s/%d" % (bi, op, op2, ri), "base_kept", dict(base=b, tmpl=r, op1=op, op2=op2)))
        for n in range(0, 3 + d):
            out.append(("rec-%d/%d" % (bi, n), "rec_kept", dict(base=b, tmpl=[("x", n)])))
        out.append(("base-%d-free" % bi, "base_kept", dict(base=b, tmpl=[("x", 1 + d)], op1="pathname", op2="append")))
        out.append(("base-%d-free2" % bi, "base_kept", dict(base=b, tmpl=[("x", 1 + d)], op1="append", op2="pathname")))
    for k, op in enumerate(EDITS):
        out.append(("twice-%s" % op, "twice", dict(tmpl=["http://h/a", ("x", 1 + d)], base=None, op=op)))
        out.append(("twice-base-%s" % op, "twice", dict(tmpl=[("x", 1 + d)], base="http://u@h:8/a/b?q#f", op=op)))
        out.append(("twice-web-%s" % op, "twice", dict(tmpl=["web:", ("x", 1 + d)], base=None, op=op)))
    for pre in ("", "http://h/", "web:", "file:///", "http://", "web://"):
        for n in range(1, 3 + d):
            out.append(("twice-rec-%s/%d" % (pre, n), "twice_rec", dict(tmpl=[pre, ("x", n)])))
    for i, t1 in enumerate((["web://a"], ["web://", ("p", 1)], ["web:", ("p", 1)], ["http://h", ("p", 1)], ["file:", ("p", 1)], ["web:/"], ["web://a?q", ("p", 1)])):
        for j, t2 in enumerate((["web://b/", ("q", 1)], ["web:/x", ("q", 1)], ["http://h/a", ("q", 1)], ["file:///C", ("q", 1)], [("q", 1)], ["web:o"])):
            out.append(("alive-%d-%d" % (i, j), "alive", dict(t1=t1, t2=t2, op=EDITS[(3 * i + j) % len(EDITS)])))
            if j < 3:
                out.append(("alivep-%d-%d" % (i, j), "alive", dict(t1=t1, t2=t2, op="pathname")))
    for what in INTER:
        for nm, pre, b in (("abs", "http://h", None), ("host", "http://", None), ("rel", "", "http://u@h/a/b?q"), ("web", "web:", None),
                           ("file", "file:", None), ("query", "http://h/?", None)):
            out.append(("inter-%s-%s" % (what, nm), "interleave", dict(tmpl=[pre, ("x", 1 + d)], base=b, what=what)))
        out.append(("inter-%s-legacy" % what, "interleave", dict(tmpl=["http://h/?", ("x", 1 + d)], base=None, what=what, encoding="windows-1252")))
        out.append(("verdicts-%s" % what, "validators", dict(tmpl=[("x", 1 + d)], what=what)))
    out += [("idna/%d" % n, "idna", dict(n=n, dom="ascii")) for n in range(0, 3 + d)]
    out += [("idna-chars", "idna", dict(n=4, dom="[a_.-]"))]
    for op in ("append", "set", "delete", "sort"):
        for n in range(0, 3):
            out.append(("copies-%s/%d" % (op, n), "copies", dict(n=n, op=op, dom="scalar" if n < 2 else "[ab]")))
        if op != "sort":
            for k, u in enumerate(BASES):
                out.append(("detached-%s/%d" % (op, k), "detached", dict(url=u, op=op, dom="scalar")))
    out.append(("results", "results", dict(dom="scalar")))
    H = "[aA.1%\xad]"
    for i, (a, b) in enumerate(((False, False), (True, False), (False, True), (True, True))):
        out.append(("cross-host/%d" % i, "cross", dict(kind="host", n=2, dom=H, a=a, b=b)))
        out.append(("cross-host1/%d" % i, "cross", dict(kind="host", n=1, dom="scalar", a=a, b=b)))
        out.append(("cross-ip/%d" % i, "cross", dict(kind="host", n=2, dom="[01x.]", a=a, b=b)))
        out.append(("cross-ip6/%d" % i, "cross", dict(kind="host", n=2, dom="[:1A]", pre="[::", post="]", a=a, b=b)))
        out.append(("cross-idna/%d" % i, "cross", dict(kind="idna", n=1, dom="[aA_b]", pre="x", post="y", a=a, b=b)))
    u8 = "utf-8"
    ps = [("http:", None, u8), ("web:", None, u8), ("", "http://u@h:8/a/b?q#f", u8), ("", "web:/a/b", u8), ("", None, u8), ("file:", None, u8), ("", "file:///C:/a", u8)]
    for i, a in enumerate(ps):
        for j, b in enumerate(ps):
            out.append(("cross-parse-%d-%d" % (i, j), "cross", dict(kind="parse", n=1, dom="[a/?#:\\ ]", a=a, b=b)))
            if d or (i + j) % 3 == 0:
                out.append(("cross-parse2-%d-%d" % (i, j), "cross", dict(kind="parse", n=2, dom="[A/?:]", a=a, b=b)))
    for i, (a, b) in enumerate(((u8, "windows-1252"), ("windows-1252", u8), ("iso-8859-2", "windows-1252"))):
        for k, (pa, pb) in enumerate((("http://h/?", "http://h/?"), ("web://h/?", "http://h/?"), ("http://h/?", "ws://h/?"))):
            out.append(("cross-enc-%d-%d" % (i, k), "cross", dict(kind="parse", n=1, dom="[a\xe9 '\u0160]", a=(pa, None, a), b=(pb, None, b))))
    for i, (a, b) in enumerate((((" /",), ("",)), (("",), ("/%",)), (("", u8, True), ("", u8, False)), (("", u8, False), ("", u8, True)),
                                (("", "windows-1252"), ("", u8)), (("", u8), ("", "windows-1252")))):
        out.append(("cross-encode/%d" % i, "cross", dict(kind="encode", n=2, dom="[a /%\xe9]", a=a, b=b)))
    for n in (1, 2):
        out.append(("cross-params/%d" % n, "cross", dict(kind="params", n=n, dom="[aA=&+%]")))
    for i, (a, b) in enumerate((("http://h/", "http://h/"), ("http://h/", "unreg://h/"), ("", "http://h/"), ("http:", "http://h?"))):
        out.append(("cross-valid/%d" % i, "cross", dict(kind="valid", n=1, dom="scalar", a=a, b=b)))
    st = [("http://h/a?q#f", "host"), ("web://h/a", "host"), ("web://h/a", "pathname"), ("http://h/a", "pathname"), ("http://h/", "search"), ("web:o", "hash"),
          ("http://h:8/", "username"), ("https://h:8/", "port")]
    for i, a in enumerate(st):
        for j, b in enumerate(st):
            if d or i == j or (i + 2 * j) % 4 == 0:
                out.append(("cross-set-%d-%d" % (i, j), "cross", dict(kind="setter", n=1, dom="[aA/?:%\\1]", a=a, b=b)))
    ks = [40, 130] + [n + 1 for n in sizes() if n <= 1100] + ([300] if d else [])
    for k in ks:
        for what in ("parse", "same", "host", "encode", "decode", "valid", "mixed", "fail", "setters", "params"):
            for j, t in enumerate((["http://h", ("x", 1), "/a?b=c d"], ["web:a", ("x", 1)])):
                out.append(("history-%d-%s-%d" % (k, what, j), "history", dict(k=k, what=what, tmpl=t)))
    return out
