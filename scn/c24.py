"""C24: strings with surrogates are treated as scalar-value strings"""
from .common import build, rec_tuple, api_tuple
from .c14 import listed


def outcome(S, f, *a, **k):
    return S.attempt(f, *a, **k)


def same(S, a, b, view, label):
    S.check_eq(a.ok, b.ok, label + "same outcome")
    S.check_eq(a.exc, b.exc, label + "same failure")
    if a.ok and b.ok:
        x = view(a.value)
        S.observe(x)
        S.check_eq(x, view(b.value), label + "same result")
    else:
        S.observe(a.exc)


def parse(S, tmpl, base=None, encoding="utf-8"):
    s = build(S, tmpl)
    t = S.ref.to_usv(s)
    same(S, outcome(S, S.u.parse_url, s, base, encoding), outcome(S, S.u.parse_url, t, base, encoding), rec_tuple, "parse_url: ")
    if base is not None or encoding != "utf-8":
        return
    o = outcome(S, S.u.URL, s)
    if o.ok:
        S.check_eq(o.value.href, S.u.URL(t).href, "URL: href")
        r = S.ref.parse(t)
        S.check(r != S.ref.FAIL, "accepted an input the standard rejects")
        if r != S.ref.FAIL:
            S.check_eq(o.value.href, r.href(), "href is the standard's")


def asbase(S, tmpl, rel):
    """a base URL string with surrogates"""
    s = build(S, tmpl)
    t = S.ref.to_usv(s)
    same(S, outcome(S, S.u.URL, rel, s), outcome(S, S.u.URL, rel, t), api_tuple, "base: ")


def setter(S, url, name, tmpl):
    s = build(S, tmpl)
    t = S.ref.to_usv(s)
    u, v = S.u.URL(url), S.u.URL(url)
    a = outcome(S, setattr, u, name, s)
    b = outcome(S, setattr, v, name, t)
    S.check_eq(a.ok, b.ok, "same outcome")
    S.check_eq(api_tuple(u), api_tuple(v), "same URL")
    S.check_eq(listed(u.search_params), listed(v.search_params), "same parameters")
    S.observe(u.href)


def idna_arg(S, n, dom, strict):
    """what reaches the Unicode library is the scalar-value string"""
    s = S.str("x", n, dom)
    t = S.ref.to_usv(s)
    S.icu("r", 0)
    for f in (S.u.IDNA.domain_to_ascii, S.u.IDNA.domain_to_unicode):
        k = len(S.icu_calls())
        S.check_eq(S.attempt(f, s, strict).value, "r", "result")
        for a, o, d in S.icu_calls()[k:]:
            S.check_eq(d, t, "domain handed to ICU")
    S.observe(len(S.icu_calls()))


def helpers(S, n, dom, safe, plus, pre="", post=""):
    s = pre + S.str("x", n, dom) + post
    t = S.ref.to_usv(s)
    U = S.u
    same(S, outcome(S, U.string_percent_encode, s, safe, "utf-8", plus), outcome(S, U.string_percent_encode, t, safe, "utf-8", plus),
         lambda x: x, "string_percent_encode: ")
    same(S, outcome(S, U.utf8_percent_encode, s, safe, plus), outcome(S, U.utf8_percent_encode, t, safe, plus), lambda x: x,
         "utf8_percent_encode: ")
    same(S, outcome(S, U.utf8_encode, s), outcome(S, U.utf8_encode, t), lambda x: x, "utf8_encode: ")
    same(S, outcome(S, U.string_percent_decode, s), outcome(S, U.string_percent_decode, t), lambda x: x, "string_percent_decode: ")
    S.check_eq(U.utf8_encode(s), t.encode("utf-8"), "utf8_encode encodes the scalar values")
    S.check_eq(U.utf8_decode(U.utf8_encode(s)), t.encode("utf-8").decode("utf-8", "replace") if t[:1] != "\ufeff" else U.utf8_decode(U.utf8_encode(t)),
               "decoding gives the scalar values back")


def legacy(S, n, dom, enc):
    s = S.str("x", n, dom)
    t = S.ref.to_usv(s)
    same(S, outcome(S, S.u.string_percent_encode, s, "a", enc), outcome(S, S.u.string_percent_encode, t, "a", enc), lambda x: x, "")
    same(S, outcome(S, S.u.urlencode, [(s, s)], enc), outcome(S, S.u.urlencode, [(t, t)], enc), lambda x: x, "urlencode: ")


def params(S, how, n, m, dom, pre=""):
    s = pre + S.str("x", n, dom)
    w = S.str("y", m, dom)
    t, z = S.ref.to_usv(s), S.ref.to_usv(w)
    P = S.u.URLSearchParams
    if how == "str":
        a, b = P(s + "=" + w), P(S.ref.to_usv(s + "=" + w))
    elif how == "list":
        a, b = P([(s, w)]), P([(t, z)])
    elif how == "dict":
        a, b = P({s: w}), P({t: z})
    else:
        a, b = P([("a", "1"), ("\ufffd", "2"), ("\U00010000", "3"), ("\ufffd", "\ufffd")]), P([("a", "1"), ("\ufffd", "2"), ("\U00010000", "3"), ("\ufffd", "\ufffd")])
        if how == "append":
            a.append(s, w)
            b.append(t, z)
        elif how == "set":
            a.set(s, w)
            b.set(t, z)
        elif how == "delete":
            a.delete(s)
            b.delete(t)
        elif how == "delete2":
            a.delete(s, w)
            b.delete(t, z)
        else:
            S.check_eq(a.get(s), b.get(t), "get")
            S.check_eq(list(a.get_all(s)), list(b.get_all(t)), "get_all")
            S.check_eq(a.has(s), b.has(t), "has")
            S.check_eq(a.has(s, w), b.has(t, z), "has with a value")
            S.check_eq(s in a, t in b, "in")
    S.check_eq(listed(a), listed(b), "same pairs")
    S.check_eq(str(a), str(b), "same serialisation")
    S.check_eq(S.u.urlencode([(s, w)]), S.u.urlencode([(t, z)]), "urlencode")
    S.observe(listed(a), str(a))


def hosts(S, tmpl, opaque):
    s = build(S, tmpl)
    t = S.ref.to_usv(s)
    same(S, outcome(S, S.u.Host.parse, s, opaque), outcome(S, S.u.Host.parse, t, opaque), lambda h: list(h) if isinstance(h, tuple) else h, "Host.parse: ")


def idna(S, n, dom):
    s = S.str("x", n, dom)
    t = S.ref.to_usv(s)
    for strict in (False, True):
        same(S, outcome(S, S.u.IDNA.domain_to_ascii, s, strict), outcome(S, S.u.IDNA.domain_to_ascii, t, strict), lambda x: x, "to ASCII: ")
        same(S, outcome(S, S.u.IDNA.domain_to_unicode, s, strict), outcome(S, S.u.IDNA.domain_to_unicode, t, strict), lambda x: x, "to Unicode: ")


SUR = "[\ud800\udbff\udc00\udfffa\U00010000]"


def scenarios(tier):
    from sx.dictionary import sizes
    d = 1 if tier == "thorough" else 0
    out = []
    SPOTS = [("", ""), ("http://", "@h/"), ("http://u:", "@h/"), ("http://", "/"), ("http://h/", ""), ("http://h/a", "/b"), ("http://h?", ""),
             ("http://h?q", "#f"), ("http://h#", ""), ("web://", "/"), ("web://h/", ""), ("web:", ""), ("web:o", "?q"), ("web:o?", ""),
             ("web:o#", ""), ("file:///", ""), ("file://", "/"), ("web:/", ""), ("htt", "p://h")]
    for n in (1, 2, 3):
        for strict in (False, True):
            out.append(("idna-arg-%s/%d" % (strict, n), "idna_arg", dict(n=n, dom="any" if n < 3 else "surr", strict=strict)))
    for pre, post in SPOTS:
        for n in range(1, 3):
            out.append(("parse-%s-%s/%d" % (pre, post, n), "parse", dict(tmpl=[pre, ("x", n, "any"), post])))
        for n in range(3, 5 + d):
            out.append(("parse-sur-%s-%s/%d" % (pre, post, n), "parse", dict(tmpl=[pre, ("x", n, SUR), post])))
    for b in ("http://u@h/a/b?q#f", "file:///C:/a", "web:/a", "web:o"):
        out.append(("rel-%s" % b, "parse", dict(tmpl=[("x", 2, "any")], base=b)))
        out.append(("rel-sur-%s" % b, "parse", dict(tmpl=[("y", 1, "[/?#a]"), ("x", 3, SUR)], base=b)))
    for e in ("windows-1252", "iso-8859-2", "gbk"):
        out.append(("enc-%s" % e, "parse", dict(tmpl=["http://h?", ("x", 3, SUR)], encoding=e)))
        out.append(("legacy-%s" % e, "legacy", dict(n=3, dom=SUR, enc=e)))
    for pre, rel in (("http://h/", "b"), ("http://h/?", ""), ("web://h/", "?q"), ("web:o", "#f"), ("http://", "x")):
        out.append(("base-%s-%s" % (pre, rel), "asbase", dict(tmpl=[pre, ("x", 2, "any"), "/"], rel=rel)))
        out.append(("base-sur-%s-%s" % (pre, rel), "asbase", dict(tmpl=[pre, ("x", 3, SUR), "/"], rel=rel)))
    for nm in ("href", "protocol", "username", "password", "host", "hostname", "port", "pathname", "search", "hash"):
        for u in ("http://u:p@h:81/a/b?q#f", "file:///C:/a", "web:o ?q", "web://h:1/a"):
            pre = "web://h/" if nm == "href" else ""
            out.append(("set-%s-%s/1" % (nm, u), "setter", dict(url=u, name=nm, tmpl=[pre, ("x", 1, "any")])))
            out.append(("set-%s-%s/2" % (nm, u), "setter", dict(url=u, name=nm, tmpl=[pre, ("x", 2 + d, SUR)])))
            out.append(("set-%s-%s/3" % (nm, u), "setter", dict(url=u, name=nm, tmpl=[pre, "b", ("x", 3 + d, SUR)])))
    for n in range(0, 3 + d):
        for safe, plus in (("", False), ("a/", True), ("\ufffd~", False)):
            out.append(("helpers-%r/%d" % (safe, n), "helpers", dict(n=n, dom="any", safe=safe, plus=plus)))
    for n in (3, 4, 5):
        out.append(("helpers-sur/%d" % n, "helpers", dict(n=n, dom=SUR, safe="", plus=True)))
    for how in ("str", "list", "dict", "append", "set", "delete", "delete2", "query"):
        for n, m in ((1, 0), (1, 1), (2, 0), (0, 2)):
            out.append(("params-%s/%d,%d" % (how, n, m), "params", dict(how=how, n=n, m=m, dom="any" if n + m < 2 or d else SUR[:-1] + "\ufffd]")))
        out.append(("params-%s/2,2" % how, "params", dict(how=how, n=2, m=2, dom=SUR)))
    for op in (False, True):
        for n in (1, 2):
            out.append(("hosts-%s/%d" % (op, n), "hosts", dict(tmpl=[("x", n, "any")], opaque=op)))
        out.append(("hosts-sur-%s" % op, "hosts", dict(tmpl=["a", ("x", 3, SUR)], opaque=op)))
    out.append(("idna/1", "idna", dict(n=1, dom="any")))
    for pre, post in (("http://h/" + "a" * 200, "b" * 200), ("web:" + "\U0001f600" * 60, "?q"), ("http://h/?" + "\xe9" * 150, "z" * 50), ("web://h/#" + "\udc00" * 70, "\ud83d")):
        out.append(("long-%s" % ascii(pre[:12]), "parse", dict(tmpl=[pre, ("x", 2, SUR), post])))
    for k in [150, 5000] + [n + 1 for n in sizes()]:
        a = "a" * k
        out.append(("n-parse-%d" % k, "parse", dict(tmpl=["http://h/", a, ("x", 1, SUR)])))
        out.append(("n-query-%d" % k, "parse", dict(tmpl=["web:?", a, ("x", 1, SUR)])))
        out.append(("n-helpers-%d" % k, "helpers", dict(n=1, dom=SUR, safe="", plus=True, pre=a)))
        out.append(("n-helpersb-%d" % k, "helpers", dict(n=1, dom=SUR, safe="/", plus=False, post=a)))
        out.append(("n-params-%d" % k, "params", dict(how="list", n=1, m=0, dom=SUR, pre=a)))
        for nm in ("hash", "pathname", "search", "username"):
            out.append(("n-set-%s-%d" % (nm, k), "setter", dict(url="http://h/", name=nm, tmpl=[a, ("x", 1, SUR)])))
    out.append(("long-helpers", "parse", dict(tmpl=["http://h/", "\ud83d" * 70, ("x", 1, SUR), "\ude00" * 70])))
    return out
