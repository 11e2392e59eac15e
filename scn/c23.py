"""C23: the urllib-compatible view agrees with the parsed URL"""
from .common import build


def expect(S, r):
    """from the standard's model of the URL"""
    host = r.hostname()
    net = ""
    if r.username != "" or r.password != "":
        net = r.username + (":" + r.password if r.password != "" else "") + "@"
    net = net + host
    if r.port is not None:
        net = net + ":" + str(r.port)
    pn = r.pathname()
    i = pn.find(";")
    path, params = (pn, "") if i < 0 else (pn[:i], pn[i + 1:])
    return [r.scheme, net, path, params, r.query or "", r.fragment or ""]


def view(S, tmpl, base=None, encoding="utf-8"):
    s = build(S, tmpl)
    if encoding == "utf-8":
        o = S.attempt(S.u.urlparse, s, base)
    else:
        o = S.attempt(S.u.urlparse, s, base, encoding)
    rb = None if base is None else S.ref.parse(base, None, encoding)
    r = S.ref.parse(s, rb, encoding)
    if not o.ok:
        S.observe(o.exc)
        S.check_eq(o.exc, "URLParseError", "only URLParseError")
        S.check(r == S.ref.FAIL, "rejected an input the standard accepts")
        return
    S.check(r != S.ref.FAIL, "accepted an input the standard rejects")
    if r == S.ref.FAIL:
        return
    t = [o.value.scheme, o.value.netloc, o.value.path, o.value.params, o.value.query, o.value.fragment]
    S.observe(t)
    w = expect(S, r)
    for k, nm in enumerate(("scheme", "netloc", "path", "params", "query", "fragment")):
        S.check_eq(t[k], w[k], nm)
    S.check_eq(list(o.value), t, "fields are in urllib's order")
    # the pieces are what href is made of
    rest = ("//" + t[1] if r.host is not None else "")
    pn = t[2] + (";" + t[3] if t[3] != "" else "")
    S.check(S.any(S.eq(r.pathname(), pn), S.eq(r.pathname(), pn + ";")), "path and params make up the pathname")
    h = r.href()
    S.check_eq(h[:len(t[0]) + 1 + len(rest)], t[0] + ":" + rest, "netloc is what href has between // and the path")
    # fragments disabled
    u = S.attempt(S.u.urlparse, s, base, encoding, False)
    S.check(u.ok, "parses with fragments disabled")
    if not u.ok:
        return
    f = u.value
    S.observe([f.scheme, f.netloc, f.path, f.params, f.query, f.fragment])
    S.check_eq(f.fragment, "", "no fragment when disabled")
    S.check_eq(f.scheme, w[0], "scheme when disabled")
    S.check_eq(f.netloc, w[1], "netloc when disabled")
    tail = "#" + w[5] if w[5] != "" else ""
    if w[4] != "":
        S.check_eq([f.path, f.params, f.query], [w[2], w[3], w[4] + tail], "the fragment stays with the query")
    elif w[3] != "":
        S.check_eq([f.path, f.params, f.query], [w[2], w[3] + tail, ""], "the fragment stays with the params")
    else:
        S.check_eq([f.path, f.params, f.query], [w[2] + tail, "", ""], "the fragment stays with the path")
    k = S.attempt(S.u.urlparse, s, base=base, encoding=encoding, allow_fragments=True)
    S.check(k.ok, "keywords")
    if k.ok:
        S.check_eq(list(k.value), t, "the default is to recognise fragments")


def up(name, pre, post, n, lo=0, dom="scalar", **kw):
    return [("%s/%d" % (name, k), "view", dict(tmpl=[pre, ("x", k, dom), post], **kw)) for k in range(lo, n + 1)]


SJIS = "[a'&#;~\\\u3042\u30a2\uff71\u8868\u20ac\xe9\xa5\U0001f308]"


def scenarios(tier):
    from sx.dictionary import urls, values
    d = 1 if tier == "thorough" else 0
    out = []
    out += up("free", "", "", 3 + d)
    T = "[a;?#/.@:]"
    out += up("http-tail", "http://h/", "", 3 + d, dom="scalar")
    out += up("http-tail2", "http://h/a", "", 4 + d, lo=4, dom="[a;?#/]")
    out += up("web-tail", "web:", "", 3 + d, dom="scalar")
    out += up("web-tail2", "web:", "", 4 + d, lo=4, dom=T)
    out += up("web-host", "web://", "", 3 + d)
    out += up("file", "file:", "", 3 + d)
    out += up("authority", "http://", "/p;q?r#s", 2 + d)
    out += up("userinfo", "http://", "h/", 4 + d, lo=2, dom="[a:@%;]")
    out += up("userinfo-any", "http://u", "@h/", 2 + d)
    out += up("password", "http://:", "@h/", 2 + d)
    out += up("port", "http://h:", "/", 3, dom="[0189]")
    out += up("port-web", "web://h:", "", 5, lo=3, dom="digit")
    out += up("host6", "http://[", "]:8/", 3, dom="[:1]")
    out += up("host4", "http://u@", "/;p", 3, dom="[01x.]")
    out += up("params", "http://h/a;", "", 4 + d, dom="[;/?#b]")
    out += up("params-any", "http://h/a;", "", 2 + d)
    out += up("seg", "http://h/a;b/", ";c", 2 + d, dom="[;/.?#]")
    out += up("query", "http://h?", "", 3 + d)
    out += up("fragment", "http://h/;p#", "", 3 + d)
    out += up("qfrag", "web:o;p?", "", 3 + d, dom="[;?#a]")
    for b in ("http://u:p@h:8/a;b/c?q#f", "file:///C:/a;b", "web://h/a;b?q", "web:o;p?q#f", "web:/a//b"):
        out += up("base-%s" % b, "", "", 2 + d, base=b)
        out += up("base3-%s" % b, "", "", 3 + d, lo=3, base=b, dom="[;?#/.a]")
    for e in ("windows-1252", "shift_jis", "utf-16le", "UTF-8", "utf8"):
        out += up("enc-%s" % e, "http://h/;p?", "", 2, lo=1, encoding=e, dom="scalar" if e != "shift_jis" else SJIS)
    for e in ("windows-1252", "koi8-r", "utf-16le", "utf-8"):
        for b in ("http://h/a;b?q#f", "web://h/a;b", "file:///a", "wss://h", "http://h/?\u20ac\xe9"):
            for pre in ("?", "", "//g?", "x;y?", "http:?", "#"):
                out += up("enc-%s-base-%s-%s" % (e, b, pre), pre, "", 1, lo=1, encoding=e, base=b)
    for nm, pre, k, post in (("path", "http://h" + "/a;b" * 40, 2, ""), ("query", "http://h/;p?" + "q;" * 150, 2, "#f"), ("frag", "web:o;p#" + "f;" * 150, 2, ""),
                             ("user", "http://" + "u" * 200, 2, "@h:8/"), ("host", "web://" + "h" * 300, 1, "/a;b")):
        out += up("long-" + nm, pre, post, k, lo=k)
    for nm, t in urls():
        out.append((nm, "view", dict(tmpl=t)))
    for nm, t in values(False):
        out.append((nm, "view", dict(tmpl=["http://h/a;"] + t)))
    return out
