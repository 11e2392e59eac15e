"""C15: a URL and its search parameters always stay in sync"""
from .c14 import mutate, listed


def sync(S, u, p0, label):
    p = u.search_params
    S.check(p is p0, label + "the same parameters object stays attached")
    s = u.search
    q = s[1:]
    S.check_eq(listed(p), listed(S.ref.parse_qs(q)), label + "parameters are the parse of the query")
    S.check_eq(listed(S.u.URL(u.href).search_params), listed(p), label + "a fresh parse of href has the same parameters")


def ref_sync(S, u, api, label):
    """URL state == the Standard's"""
    r = api.url
    S.check_eq(u.href, r.href(), label + "href")
    S.check_eq(u.search, "" if r.query is None or r.query == "" else "?" + r.query, label + "search")


def fresh(S, url):
    """the standard's model of the URL, with the query object's list"""
    return S.ref.Api(S.ref.parse(url))


def do(S, u, api, op, i, dom, n=1, empties=False):
    """one step on both sides"""
    p = u.search_params
    if op == "sort":
        p.sort()
        api.sp = sorted(api.sp, key=lambda x: x[0])
        api.update()
        return
    if op == "search":
        v = S.str("s%d_" % i, n + 1, dom)
        k = S.choice("sl%d_" % i, [n + 1, 0, 1])
        v = v[:k]
        u.search = v
        api.set_search(v)
        api.sp = S.ref.parse_qs(api.url.query) if api.url.query is not None else []
        return
    if op == "hash":
        v = S.str("h%d_" % i, n, dom)
        u.hash = v
        api.set_hash(v)
        return
    if op == "href":
        v = S.choice("t%d_" % i, ["web:o  ?", "http://g/", "web:o #", "web:o", "file:///?", "http://g?a=1#?"]) + S.str("r%d_" % i, n, "[a=&+]")
        u.href = v
        api.set_href(v)
        return
    if op == "badhref":
        o = S.attempt(setattr, u, "href", S.str("r%d_" % i, n, "[a/?&=]"))
        S.check(not o.ok, "relative href is rejected")
        return
    if op == "pathname":
        v = "/" + S.str("p%d_" % i, n, dom)
        u.pathname = v
        api.set_pathname(v)
        return
    la, lb = S.choice("len%d_" % i, [(n, n), (0, n), (n, 0), (0, 0)]) if empties else (n, n)
    a = S.str("n%d_" % i, n, dom)[:la]
    b = S.str("v%d_" % i, n, dom)[:lb]
    api.sp = mutate(S, p, list(api.sp), op, a, b)
    api.update()


def run(S, url, ops, dom="[ab=&+% ]", n=1, empties=False):
    u = S.u.URL(url)
    p = u.search_params
    api = fresh(S, url)
    sync(S, u, p, "start: ")
    for i, op in enumerate(ops):
        do(S, u, api, op, i, dom, n, empties)
        lab = "after %s: " % op
        ref_sync(S, u, api, lab)
        S.check_eq(listed(p), listed(api.sp), lab + "pairs")
        sync(S, u, p, lab)
    S.observe(u.href, listed(p))


def attached(S, how, url, ops, dom="[ab=&+% ]"):
    """a parameters object of a URL record, made from it or attached later"""
    r = S.u.parse_url(url)
    api = fresh(S, url)
    if how == "init":
        p = S.u.URLSearchParams(r)
    elif how == "attach":
        p = S.u.URLSearchParams()
        p.attach(r)
    elif how == "filled":
        p = S.u.URLSearchParams([("k", "l"), ("m", "n")])
        p.attach(r)
    else:
        other = S.u.parse_url("http://other/?x=y")
        p = S.u.URLSearchParams(other)
        p.append("c", "d")
        p.attach(r)
    S.check_eq(listed(p), listed(api.sp), "parameters are the parse of the query")
    for i, op in enumerate(ops):
        if op == "sort":
            p.sort()
            api.sp = sorted(api.sp, key=lambda x: x[0])
        else:
            a, b = S.str("n%d_" % i, 1, dom), S.str("v%d_" % i, 1, dom)
            api.sp = mutate(S, p, list(api.sp), op, a, b)
        api.update()
        S.check_eq(listed(p), listed(api.sp), "pairs after " + op)
        S.check_eq(r.href, api.url.href(), "href after " + op)
        S.check_eq(r.query, api.url.query, "query after " + op)
    if how == "other":
        S.check_eq(other.href, "http://other/?x=y&c=d", "the record it was attached to before is left alone")
    S.observe(r.href, listed(p))


def words(S, url, w):
    """particular names and values, every operation"""
    u = S.u.URL(url)
    p = u.search_params
    api = fresh(S, url)
    sync(S, u, p, "start: ")
    x = S.str("x", 1, "[ab=&+% ]")
    for op, a, b in (("append", w, x), ("set", w, w), ("append", x, w), ("delete2", x, w), ("delete", w, "")):
        api.sp = mutate(S, p, list(api.sp), op, a, b)
        api.update()
        ref_sync(S, u, api, "after %s: " % op)
        sync(S, u, p, "after %s: " % op)
    for nm in ("search", "hash", "pathname"):
        S.attempt(setattr, u, nm, w)
        getattr(api, "set_" + nm)(w)
        if nm == "search":
            api.sp = S.ref.parse_qs(api.url.query) if api.url.query is not None else []
        ref_sync(S, u, api, "after %s: " % nm)
        sync(S, u, p, "after %s: " % nm)
    S.observe(u.href, listed(p))


def parsed(S, pre, n, dom="scalar"):
    """freshly parsed URLs are in sync, including after being used as a base"""
    u = S.u.URL(pre + S.str("x", n, dom))
    sync(S, u, u.search_params, "parsed: ")
    S.observe(u.href, listed(u.search_params))


def relative(S, base, n, dom="scalar"):
    o = S.attempt(S.u.URL, S.str("x", n, dom), base)
    if o.ok:
        u = o.value
        sync(S, u, u.search_params, "relative: ")
        S.observe(u.href, listed(u.search_params))
    else:
        S.observe(o.exc)


def last_delete(S, url, name, has_frag):
    """emptying the list nulls the query; trailing spaces go when nothing follows an opaque path"""
    u = S.u.URL(url)
    nm = S.str("n", len(name), "[ab]")
    before = u.href
    u.search_params.delete(nm)
    api = fresh(S, url)
    api.sp = [x for x in api.sp if x[0] != nm]
    api.update()
    S.check_eq(u.href, api.url.href(), "href")
    S.observe(u.href, before)


URLS = ["http://h/p", "http://h/p?a=1&b=2&a=3#f", "web:o  ?a=1#f", "web:o  ?a=1", "file:///?b", "web://h?a+b=%41&&=#"]
OPS = ("append", "set", "delete", "delete2", "sort", "search", "hash", "href", "badhref", "pathname")


def scenarios(tier):
    from sx.dictionary import values
    d = 1 if tier == "thorough" else 0
    out = []
    for ui, url in enumerate(URLS):
        for op in OPS:
            out.append(("one-%s/%d" % (op, ui), "run", dict(url=url, ops=[op], dom="scalar" if op in ("append", "set", "search") and ui < 4 else "[ab=&+% ]")))
    pairs = [("append", "delete"), ("delete", "append"), ("search", "append"), ("append", "search"), ("href", "append"), ("append", "href"),
             ("set", "delete2"), ("sort", "append"), ("hash", "delete"), ("delete", "hash"), ("badhref", "append"), ("search", "delete"),
             ("pathname", "delete"), ("href", "delete"), ("search", "sort"), ("search", "set")]
    if d:
        pairs = [(a, b) for a in OPS for b in OPS]
    for ui, url in enumerate(URLS):
        for a, b in pairs:
            out.append(("two-%s-%s/%d" % (a, b, ui), "run", dict(url=url, ops=[a, b], dom="[ab=&]")))
    if d:
        for a, b, c in [("append", "delete", "append"), ("search", "delete", "append"), ("href", "append", "search"), ("delete", "hash", "append"),
                        ("set", "sort", "delete2"), ("badhref", "append", "href"), ("sort", "search", "set")]:
            for ui in (1, 2, 3):
                out.append(("three-%s-%s-%s/%d" % (a, b, c, ui), "run", dict(url=URLS[ui], ops=[a, b, c], dom="[ab=]")))
    for ui, url in enumerate(URLS + ["web:o", "web:o #f", "http://h/?", "http://h/?#", "http://h/?=", "http://h/?&"]):
        for op in ("append", "set", "delete", "delete2"):
            out.append(("empties-%s/%d" % (op, ui), "run", dict(url=url, ops=[op], dom="[ab]", empties=True)))
        out.append(("empties-append-delete/%d" % ui, "run", dict(url=url, ops=["append", "delete"], dom="[a]", empties=True)))
    for n in range(0, 4 + d):
        out.append(("parsed-http/%d" % n, "parsed", dict(pre="http://h/?", n=n)))
    out.append(("parsed-web/3", "parsed", dict(pre="web:o?", n=2 + d)))
    out.append(("parsed-path/3", "parsed", dict(pre="http://h/", n=2 + d)))
    for n in range(0, 3 + d):
        out.append(("relative/%d" % n, "relative", dict(base="http://h/p?a=1&b", n=n)))
        out.append(("relative-file/%d" % n, "relative", dict(base="file:///C:/p?a=1&b", n=n, dom="ascii")))
    for i, (url, f) in enumerate([("web:o  ?a", 0), ("web:o  ?a#", 0), ("web:o  ?a#f", 1), ("http://h/ ?a", 0), ("web:/o ?a", 0), ("web:o \t ?a&b", 0)]):
        out.append(("delete-last/%d" % i, "last_delete", dict(url=url, name="a", has_frag=f)))
    big = "http://h/?" + "&".join("%s=%d" % ("abc"[i % 3], i % 2) for i in range(30)) + "#f"
    for op in OPS:
        out.append(("big-" + op, "run", dict(url=big, ops=[op], dom="[ab01]")))
    for a in ("append", "set", "delete", "search"):
        for b in ("append", "set", "delete", "search", "sort"):
            out.append(("three-%s-%s" % (a, b), "run", dict(url="http://h/p?a=1", ops=[a, b, "append"], dom="[ab=]")))
    for nm, t in values():
        if nm.startswith(("w-", "v-", "n-")):
            s = "".join(x for x in t if isinstance(x, str))
            for u in ("http://h/?%s=1&b=2#f" % s, "web:o ?%s#%s" % (s, s), "web://%s/%s?x=%s" % (s, s, s)):
                out.append(("%s-%s" % (nm, u[:5]), "words", dict(url=u, w=s)))
    for how in ("init", "attach", "filled", "other"):
        for u in ("http://h/?a=b&a=c#f", "http://h/", "web:o ", "web:o?b#", "file:///?"):
            for ops in (["append"], ["delete"], ["set"], ["sort", "delete2"], ["append", "delete"]):
                out.append(("attached-%s-%s-%s" % (how, u, "-".join(ops)), "attached", dict(how=how, url=u, ops=ops)))
    return out
