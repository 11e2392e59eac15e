"""C27: the low-level parser with a record and a state override changes the
record exactly as the standard's state machine does"""
from .common import build, rec_tuple, ref_tuple, check_same, SETTER_URLS

STATES = {"SCHEME_START_STATE": "scheme start", "AUTHORITY_STATE": "authority", "HOST_STATE": "host", "HOSTNAME_STATE": "hostname",
          "PORT_STATE": "port", "PATH_START_STATE": "path start", "QUERY_STATE": "query", "FRAGMENT_STATE": "fragment"}


def override(S, url, state, tmpl, encoding="utf-8"):
    us = build(S, url) if isinstance(url, list) else url
    o = S.attempt(S.u.parse_url, us)
    r = S.ref.parse(us)
    if not o.ok or r == S.ref.FAIL:
        return
    rec = o.value
    if state == "PATH_START_STATE":
        if rec.has_opaque_path():
            return
        rec.path = []
        r.path = []
    elif state == "QUERY_STATE":
        rec.query = ""
        r.query = ""
    elif state == "FRAGMENT_STATE":
        rec.fragment = ""
        r.fragment = ""
    v = build(S, tmpl)
    kw = {} if encoding == "utf-8" else {"encoding": encoding}
    w = S.attempt(S.u.BasicURLParser.parse, v, url=rec, state_override=getattr(S.u.URLParserState, state), **kw)
    x = S.ref.run(v, None, r, STATES[state], encoding)
    if w.ok:
        S.check(x != S.ref.FAIL, "accepted what the standard rejects")
        S.check(w.value is rec, "the given record is returned")
    else:
        S.check_eq(w.exc, "URLParseError", "failure is a URLParseError")
        S.check(x == S.ref.FAIL, "rejected what the standard accepts")
    t = rec_tuple(rec)
    S.observe(w.ok, t)
    check_same(S, t, ref_tuple(r))
    S.check_eq(rec.href, r.href(), "href")


def into(S, tmpl, base):
    """a whole URL parsed into a given empty record"""
    v = build(S, tmpl)
    rec = S.u.URLRecord()
    b = None if base is None else S.u.parse_url(base)
    rb = None if base is None else S.ref.parse(base)
    w = S.attempt(S.u.BasicURLParser.parse, v, base=b, url=rec)
    x = S.ref.run(v, rb, S.ref.Url(), None)
    S.observe(w.ok)
    if w.ok:
        S.check(w.value is rec, "the given record is returned")
        if x == S.ref.FAIL:
            S.check(False, "accepted an input the standard rejects")
            return
        t = rec_tuple(rec)
        S.observe(t)
        check_same(S, t, ref_tuple(x))
    else:
        S.check_eq(w.exc, "URLParseError", "failure is a URLParseError")
        S.check(x == S.ref.FAIL, "rejected an input the standard accepts")


def scenarios(tier):
    from sx.dictionary import values
    d = 1 if tier == "thorough" else 0
    out = []
    lens = {"SCHEME_START_STATE": 2, "HOST_STATE": 2, "HOSTNAME_STATE": 2, "PORT_STATE": 3, "PATH_START_STATE": 2, "QUERY_STATE": 2, "FRAGMENT_STATE": 2}
    for i, u in enumerate(SETTER_URLS):
        for st, k in lens.items():
            if st in ("HOST_STATE", "HOSTNAME_STATE", "PORT_STATE") and u.startswith("web:o"):
                continue
            for n in range(k + 1 + d):
                out.append(("u%d-%s/%d" % (i, st, n), "override", dict(url=u, state=st, tmpl=[("x", n)])))
        for v in (["file", ("x", 1)], ["http", ("x", 1)], ["WS", ("x", 2, "[sS:x]")], ["a", ("x", 2), ":"]):
            out.append(("u%d-scheme-%s" % (i, v[0]), "override", dict(url=u, state="SCHEME_START_STATE", tmpl=v)))
        if not u.startswith("web:o"):
            for st in ("HOST_STATE", "HOSTNAME_STATE"):
                for j, v in enumerate((["x:", ("x", 2)], [("x", 1), "y", ("z", 1)], ["[::", ("x", 2)], [("x", 2, "[0.x9]")], ["localhos", ("x", 1)],
                                       ["[1:2", ("x", 1), "3]", ("z", 1)], ["a", ("x", 2, "[:@/\\?#\t]"), "8"],
                                       ["a[", ("x", 1), ":", ("y", 1)], [("x", 4, "[a[]:]")], ["%", ("x", 2, "hex"), "a"])):
                    out.append(("u%d-%s-%d" % (i, st, j), "override", dict(url=u, state=st, tmpl=v)))
            for j, v in enumerate(([("x", 5, "digit")], [("x", 6, "digit")], ["8", ("x", 1), "9"], ["0" * 5000 + "1"])):
                out.append(("u%d-port-%d" % (i, j), "override", dict(url=u, state="PORT_STATE", tmpl=v)))
        out.append(("u%d-path-dots" % i, "override", dict(url=u, state="PATH_START_STATE", tmpl=[("x", 4 + d, "[./%2e\\C|:]")])))
        out.append(("u%d-path-abs" % i, "override", dict(url=u, state="PATH_START_STATE", tmpl=["/", ("x", 2)])))
        out.append(("u%d-path-esc" % i, "override", dict(url=u, state="PATH_START_STATE", tmpl=["a/", ("x", 3, "[.%2eE]"), ("y", 3, "[.%2E]")])))
        for st in ("QUERY_STATE", "FRAGMENT_STATE"):
            out.append(("u%d-%s-mix" % (i, st), "override", dict(url=u, state=st, tmpl=["a", ("x", 3, "[#?'\"<>`& %\t]")])))
        for enc in ("windows-1252", "koi8-r", "utf-16le"):
            out.append(("u%d-enc-%s" % (i, enc), "override", dict(url=u, state="QUERY_STATE", tmpl=["a", ("x", 1)], encoding=enc)))
    for i, u in enumerate(("http://h/p?q#f", "web://h:8/p", "https://[::1]/", "ws://1.2.3.4/", "file://h/p", "file:///C:/", "wss://u:p@h/", "web:///p", "ftp://h")):
        for n in range(3 + d):
            out.append(("authority%d/%d" % (i, n), "override", dict(url=u, state="AUTHORITY_STATE", tmpl=[("x", n)])))
        for j, v in enumerate((["u", ("x", 2), "@y"], ["u:", ("x", 2), "@y:8"], [("x", 4, "[u:@/]")], ["a@", ("x", 2)], ["y:", ("x", 2)], ["u@", ("x", 1), "h"], ["u:p@h", ("x", 1), "k"])):
            out.append(("authority%d-%d" % (i, j), "override", dict(url=u, state="AUTHORITY_STATE", tmpl=v)))
    for base in (None, "http://b/c/d?e", "file:///C:/a/b", "web:/a/b", "web:o"):
        for pre in ("", "http://h", "web:", "file:", "/", "//", "?"):
            for n in (1, 2):
                out.append(("into-%s-%s/%d" % (base, pre, n), "into", dict(tmpl=[pre, ("x", n)], base=base)))
    # symbolic starting records
    for st, v in (("HOST_STATE", "x:1"), ("HOST_STATE", ""), ("HOSTNAME_STATE", "y"), ("PORT_STATE", "443"), ("PORT_STATE", "80"), ("SCHEME_START_STATE", "https:"),
                  ("SCHEME_START_STATE", "file:"), ("SCHEME_START_STATE", "web:"), ("PATH_START_STATE", "//x"), ("PATH_START_STATE", "C|/.."), ("QUERY_STATE", "'"), ("FRAGMENT_STATE", "`")):
        for j, ut in enumerate((["http://", ("u", 2)], ["web:/", ("u", 3, "[/hC:|.@?#]")], ["file:", ("u", 3, "[/hC:|. ?#]")], ["https://h:", ("u", 3, "digit")])):
            out.append(("sym%d-%s=%s" % (j, st, v), "override", dict(url=ut, state=st, tmpl=[v])))
    for nm, t in values():
        for st in ("SCHEME_START_STATE", "HOST_STATE", "PATH_START_STATE", "QUERY_STATE", "FRAGMENT_STATE"):
            if nm.startswith(("w-", "xw-", "n-", "v-")):
                out.append(("%s-%s" % (nm, st), "override", dict(url="web://u@h:8/p?q#f", state=st, tmpl=t)))
                out.append(("%s-%s-http" % (nm, st), "override", dict(url="http://h/p", state=st, tmpl=t)))
    return out
