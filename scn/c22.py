"""C22: equality is exactly equality of serialisations"""
from .common import build
from .c14 import listed, pairs_of


def cut(h):
    """href without the fragment: a serialised URL has '#' only before the fragment"""
    i = h.find("#")
    return h if i < 0 else h[:i]


def pair(S, t1, t2, edits=()):
    """two URLs, parsed from symbolic inputs"""
    o1 = S.attempt(S.u.URL, build(S, t1))
    o2 = S.attempt(S.u.URL, build(S, t2))
    if not (o1.ok and o2.ok):
        S.observe(o1.ok, o2.ok)
        return
    a, b = o1.value, o2.value
    for nm, val in edits:
        setattr(b, nm, val)
    ha, hb = a.href, b.href
    same = S.eq(ha, hb)
    S.check(S.iff(a == b, same), "== is equality of hrefs")
    S.check(S.iff(b == a, same), "== is symmetric")
    S.check(S.iff(a != b, S.not_(same)), "!= is its negation")
    S.check(S.iff(a.equals(b), same), "equals")
    S.check(S.iff(a.equals(b, False), same), "equals including fragments")
    nofrag = S.eq(cut(ha), cut(hb))
    S.check(S.iff(a.equals(b, True), nofrag), "equals excluding fragments")
    S.check(S.iff(a.equals(b, exclude_fragments=True), nofrag), "equals excluding fragments (keyword)")
    S.check(a == a, "reflexive")
    S.check_eq(a.href, ha, "comparing changes nothing")
    S.observe(ha, hb, a == b)


def recs(S, t1, t2):
    o1 = S.attempt(S.u.parse_url, build(S, t1))
    o2 = S.attempt(S.u.parse_url, build(S, t2))
    if not (o1.ok and o2.ok):
        S.observe(o1.ok, o2.ok)
        return
    a, b = o1.value, o2.value
    same = S.eq(a.href, b.href)
    S.check(S.iff(a == b, same), "== is equality of hrefs")
    S.check(S.iff(b == a, same), "== is symmetric")
    S.check(S.iff(a != b, S.not_(same)), "!= is its negation")
    S.check(S.iff(a.equals(b), same), "equals")
    nofrag = S.eq(cut(a.href), cut(b.href))
    S.check(S.iff(a.equals(b, True), nofrag), "equals excluding fragments")
    S.check(S.iff(b.equals(a, exclude_fragments=True), nofrag), "equals excluding fragments (keyword)")
    S.check_eq(a.serialize_url(True), cut(a.href), "serialising without the fragment")
    S.check_eq(a.serialize_url(exclude_fragment=True), cut(a.href), "serialising without the fragment (keyword)")
    S.check_eq(a.serialize_url(False), a.href, "serialising with the fragment")
    S.check_eq(str(a), a.href, "str")
    S.check(a == a, "reflexive")
    S.observe(a.href, b.href)


def derived(S, t1, t2):
    """instances of subclasses compare by serialisation too"""
    class MyURL(S.u.URL):
        pass

    class MyRecord(S.u.URLRecord):
        pass

    class MyParams(S.u.URLSearchParams):
        pass
    x, y = build(S, t1), build(S, t2)
    o1, o2 = S.attempt(S.u.parse_url, x), S.attempt(S.u.parse_url, y)
    if not (o1.ok and o2.ok):
        S.observe(o1.ok, o2.ok)
        return
    a, b = o1.value, o2.value
    c = MyRecord()
    c.scheme, c.username, c.password, c.host, c.port, c.path, c.query, c.fragment = (
        b.scheme, b.username, b.password, b.host, b.port, b.path, b.query, b.fragment)
    same, nofrag = S.eq(a.href, b.href), S.eq(cut(a.href), cut(b.href))
    for p, q in ((a, c), (c, a)):
        S.check(S.iff(p == q, same), "record == instance of a subclass")
        S.check(S.iff(p != q, S.not_(same)), "record != instance of a subclass")
        S.check(S.iff(p.equals(q), same), "record equals instance of a subclass")
        S.check(S.iff(p.equals(q, True), nofrag), "record equals instance of a subclass, no fragments")
    u, v = S.u.URL(x), MyURL(y)
    for p, q in ((u, v), (v, u)):
        S.check(S.iff(p == q, same), "URL == instance of a subclass")
        S.check(S.iff(p != q, S.not_(same)), "URL != instance of a subclass")
        S.check(S.iff(p.equals(q), same), "URL equals instance of a subclass")
        S.check(S.iff(p.equals(q, exclude_fragments=True), nofrag), "URL equals instance of a subclass, no fragments")
    m, n = S.u.URLSearchParams(u.search), MyParams(v.search)
    ps = S.eq(listed(m), listed(n))
    for p, q in ((m, n), (n, m), (u.search_params, n), (n, u.search_params)):
        S.check(S.iff(p == q, ps), "params == instance of a subclass")
        S.check(S.iff(p != q, S.not_(ps)), "params != instance of a subclass")
    S.observe(a.href, b.href)


def fields(S, pn, qn, fn):
    """records put together from parts, null and empty kept apart"""
    def rec(i):
        r = S.u.URLRecord()
        r.scheme = "web"
        r.path = S.choice("path%d" % i, [["a"], [], "a", "", ["", "a"], ["a", ""]]) if pn == 1 else ["a"]
        if pn == 1:
            r.host = S.choice("host%d" % i, [None, "", "h"])
        elif pn == 2:
            r.path = ["a"]
            r.host = S.choice("host%d" % i, [0x01020304, "1.2.3.4", "1.2.3.5", (0, 0, 0, 0, 0, 0, 0, 1), [0, 0, 0, 0, 0, 0, 0, 1], "[::1]", "::1"])
            r.port = S.choice("port%d" % i, [None, 0, 80])
        elif pn == 3:
            r.host = "h"
            r.path = S.choice("path%d" % i, ["/a", ["a"], ["a", "b"], ["a/b"], "/a/b", "a"])
            r.username = S.choice("user%d" % i, ["", "u", "u:p"])
            r.password = S.choice("pass%d" % i, ["", "p"])
        else:
            r.host = "h"
        if pn >= 2:
            return r
        r.query = S.choice("query%d" % i, [None, ""] + ([S.str("q%d_" % i, 1, "[ab]")] if qn else []))
        r.fragment = S.choice("fragment%d" % i, [None, ""] + ([S.str("f%d_" % i, 1, "[ab]")] if fn else []))
        return r
    a, b = rec(0), rec(1)
    same = S.eq(a.href, b.href)
    S.check(S.iff(a == b, same), "== is equality of hrefs")
    S.check(S.iff(a.equals(b, True), S.eq(cut(a.href), cut(b.href))), "equals excluding fragments")
    S.observe(a.href, b.href)


def other(S, tmpl):
    """anything else compares unequal"""
    o = S.attempt(S.u.URL, build(S, tmpl))
    if not o.ok:
        S.observe(o.exc)
        return
    u = o.value
    r = S.u.parse_url(u.href)
    p = u.search_params
    h = u.href
    for x in (h, None, 0, 1.5, [h], (h,), h.encode("utf-8"), r, p, S.u.URLSearchParams):
        S.check(S.not_(u == x), "URL == other object")
        S.check(u != x, "URL != other object")
    for x in (h, None, 0, u, p, [h], h.encode("utf-8")):
        S.check(S.not_(r == x), "URLRecord == other object")
        S.check(r != x, "URLRecord != other object")
    for x in (str(p), None, list(p), tuple(p), u, r, dict(list(p))):
        S.check(S.not_(p == x), "URLSearchParams == other object")
        S.check(p != x, "URLSearchParams != other object")
    S.observe(h)


def params(S, l1, l2, dom):
    def mk(lens, pre):
        return [(S.str("%sn%d_" % (pre, i), a, dom), S.str("%sv%d_" % (pre, i), b, dom)) for i, (a, b) in enumerate(lens)]
    a, b = mk(l1, "a"), mk(l2, "b")
    p, q = S.u.URLSearchParams(a), S.u.URLSearchParams(b)
    usv = S.ref.to_usv
    same = S.eq([[usv(x), usv(y)] for x, y in a], [[usv(x), usv(y)] for x, y in b])
    S.check(S.iff(p == q, same), "== is equality of the pair lists")
    S.check(S.iff(q == p, same), "symmetric")
    S.check(S.iff(p != q, S.not_(same)), "!= is its negation")
    S.check(p == p, "reflexive")
    S.observe(listed(p), listed(q))


def params_url(S, s1, s2):
    """attached and detached parameters compare by their pairs alone"""
    x = build(S, s1)
    y = build(S, s2)
    p = S.u.URL("http://h/?" + x).search_params
    q = S.u.URLSearchParams(y)
    S.check(S.iff(p == q, S.eq(listed(p), listed(q))), "== is equality of the pair lists")
    S.check(S.iff(q == p, S.eq(listed(p), listed(q))), "symmetric")
    S.observe(listed(p), listed(q))


def scenarios(tier):
    from sx.dictionary import urls
    d = 1 if tier == "thorough" else 0
    out = []
    A = "[aA.#?/:%2]"
    for nm, pre in (("http", "http://h/"), ("web", "web:"), ("host", "http://"), ("http-query", "http://h?"), ("file", "file:")):
        for n in (0, 1, 2):
            for m in range(0, n + 1):
                dom = A if n + m > 2 else "scalar"
                if n + m > 3 and not d:
                    dom = "[aA.#?]"
                out.append(("url-%s/%d,%d" % (nm, n, m), "pair", dict(t1=[pre, ("x", n, dom)], t2=[pre, ("y", m, dom)])))
    for nm, t1, t2 in (("port", ["http://h", ("x", 3, "[:80/]")], ["http://h/"]),
                       ("case", [("x", 4, "[hHtTpP]"), "://h"], ["http://H"]),
                       ("dots", ["http://h/a/", ("x", 3, "[./%2e]")], ["http://h/"]),
                       ("dotsb", ["http://h/a/", ("x", 3, "[./]")], ["http://h/a/"]),
                       ("frag", ["http://h/", ("x", 2, "[#?a]")], ["http://h/", ("y", 3, "[#?a]")]),
                       ("fraghash", ["http://h/#", ("x", 3, "[#a]")], ["http://h/", ("y", 2, "[#a]")]),
                       ("frag-other", ["web:o#", ("x", 3, "[#a]")], ["web:o", ("y", 2, "[#a]")]),
                       ("ipv4", ["http://", ("x", 3, "[01x.]")], ["http://0.0.0.1/"]),
                       ("ipv6", ["http://[", ("x", 4, "[:01]"), "]"], ["http://[::1]/"]),
                       ("cred", ["http://", ("x", 3, "[:@a]"), "h/"], ["http://h/"])):
        out.append(("url-" + nm, "pair", dict(t1=t1, t2=t2)))
        out.append(("rec-" + nm, "recs", dict(t1=t1, t2=t2)))
    for nm, t1, t2 in (("frag", ["http://h/?q", ("x", 2, "[#?a]")], ["http://h/?q", ("y", 1, "[#?a]")]),
                       ("opaque", ["web:o", ("x", 1, "[#?a]")], ["web:o", ("y", 1, "[#?a]")]),
                       ("query", ["http://h?", ("x", 2, "[a=&]")], ["http://h?", ("y", 2, "[a=&]")]),
                       ("host", ["web://", ("x", 1)], ["web://", ("y", 1)])):
        out.append(("derived-" + nm, "derived", dict(t1=t1, t2=t2)))
    for nm, pre in (("http", "http://h/"), ("web", "web:"), ("webh", "web://h"), ("file", "file:///")):
        for n, m in ((1, 0), (1, 1), (2, 1), (2, 2)):
            out.append(("rec-%s/%d,%d" % (nm, n, m), "recs", dict(t1=[pre, ("x", n, A)], t2=[pre, ("y", m, A)])))
    out.append(("edited-hash", "pair", dict(t1=["http://h/?q", ("x", 2, "[#a]")], t2=["http://h/?q", ("y", 1, "[#a]")], edits=[("hash", "")])))
    out.append(("edited-hash2", "pair", dict(t1=["http://h/?q", ("x", 2, "[#a]")], t2=["http://h/?q", ("y", 1, "[#a]")], edits=[("hash", "a")])))
    out.append(("edited-search", "pair", dict(t1=["http://h/", ("x", 2, "[?a]")], t2=["http://h/", ("y", 1, "[?a]")], edits=[("search", "?")])))
    out.append(("edited-search2", "pair", dict(t1=["http://h/", ("x", 2, "[?a]")], t2=["http://h/", ("y", 1, "[?a]")], edits=[("search", "a")])))
    out.append(("fields-path", "fields", dict(pn=1, qn=0, fn=0)))
    out.append(("fields-query", "fields", dict(pn=0, qn=1, fn=1)))
    out.append(("fields-host", "fields", dict(pn=2, qn=0, fn=0)))
    out.append(("fields-user", "fields", dict(pn=3, qn=0, fn=0)))
    for pre in ("http://h/", "web:", "http://h/?a=", "http://h/#"):
        for n in (0, 1, 2):
            out.append(("other-%s/%d" % (pre, n), "other", dict(tmpl=[pre, ("x", n)])))
    for i, (a, b) in enumerate(([[], []], [[(1, 1)], []], [[(1, 1)], [(1, 1)]], [[(1, 1)], [(2, 0)]], [[(1, 1), (1, 1)], [(1, 1)]],
                                [[(1, 0), (1, 1)], [(1, 0), (1, 1)]], [[(0, 0)], [(0, 0), (0, 0)]], [[(1, 1), (1, 1)], [(1, 1), (1, 1)]])):
        out.append(("params/%d" % i, "params", dict(l1=a, l2=b, dom="any" if i in (1, 2, 3) else "[aA&=]" )))
    for n, m in ((1, 0), (1, 1), (2, 1), (2, 2), (3, 2)):
        dom = "scalar" if n + m < 3 else "[a=&+%2 ]"
        out.append(("params-url/%d,%d" % (n, m), "params_url", dict(s1=[("x", n, dom)], s2=[("y", m, dom)])))
    for nm, t in urls():
        if nm.startswith(("w-allx", "w-opaquex", "w-hostx", "n-")):
            t1 = [x if isinstance(x, str) else ("x", 1, "[aA.#%]") for x in t]
            t2 = [x if isinstance(x, str) else "a" for x in t]
            out.append((nm, "recs", dict(t1=t1, t2=t2)))
            out.append((nm + "-url", "pair", dict(t1=t1, t2=t2)))
    return out
