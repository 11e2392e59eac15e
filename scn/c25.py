"""C25: queries in legacy encodings are encoded as the standard says"""
from .common import build, diff_parse


def parse(S, tmpl, encoding, base=None):
    diff_parse(S, tmpl, base=base, encoding=encoding)


def parse_kw(S, tmpl, encoding, base=None):
    """urlparse takes the same encoding"""
    s = build(S, tmpl)
    o = S.attempt(S.u.urlparse, s, base, encoding)
    rb = None if base is None else S.ref.parse(base, None, encoding)
    r = S.ref.parse(s, rb, encoding)
    S.check_eq(o.ok, r != S.ref.FAIL, "same outcome")
    if o.ok and r != S.ref.FAIL:
        S.observe(o.value.query)
        S.check_eq(o.value.query, r.query or "", "query")
        S.check_eq(o.value.fragment, r.fragment or "", "fragment")


def strbase(S, rel, tmpl, encoding):
    """the query of a base given as a string uses the encoding as well"""
    s = build(S, tmpl)
    o = S.attempt(S.u.parse_url, rel, s, encoding)
    rb = S.ref.parse(s, None, encoding)
    if rb == S.ref.FAIL:
        S.check(not o.ok, "fails")
        return
    r = S.ref.parse(rel, rb, encoding)
    S.check_eq(o.ok, r != S.ref.FAIL, "same outcome")
    if o.ok and r != S.ref.FAIL:
        S.observe(o.value.href)
        S.check_eq(o.value.href, r.href(), "href")


def override(S, url, tmpl, encoding):
    """replacing the query of a record"""
    v = build(S, tmpl)
    rec, r = S.u.parse_url(url), S.ref.parse(url)
    rec.query = r.query = ""
    S.u.BasicURLParser.parse(v, url=rec, state_override=S.u.URLParserState.QUERY_STATE, encoding=encoding)
    S.ref.run(v, None, r, "query", encoding)
    S.observe(rec.href)
    S.check_eq(rec.href, r.href(), "href")


def encode(S, n, dom, safe, encoding, plus=False, pre="", post=""):
    """string_percent_encode: percent-encode after encoding"""
    s = pre + S.str("x", n, dom) + post
    r = S.u.string_percent_encode(s, safe, encoding, plus)
    out = ""
    for c in S.ref.to_usv(s):
        try:
            b = c.encode(encoding)
        except UnicodeEncodeError:
            out += "%26%23" + str(ord(c)) + "%3B"
            continue
        for x in b:
            if plus and x == 32:
                out += "+"
            elif x < 128 and (chr(x) in safe or chr(x) in ALWAYS):
                out += chr(x)
            else:
                out += "%" + format(x, "02X")
    S.observe(r)
    S.check_eq(r, out, "percent-encoded")


ALWAYS = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789_.-"


def form(S, n, m, dom, encoding):
    """urlencode in a legacy encoding"""
    a, b = S.str("n", n, dom), S.str("v", m, dom)
    r = S.u.urlencode([(a, b), ("x", "y")], encoding)

    def enc(s):
        out = ""
        for c in s:
            try:
                x = c.encode(encoding)
            except UnicodeEncodeError:
                out += "%26%23" + str(ord(c)) + "%3B"
                continue
            for y in x:
                if y == 32:
                    out += "+"
                elif y < 128 and (chr(y) in ALWAYS or y == 42):
                    out += chr(y)
                else:
                    out += "%" + format(y, "02X")
        return out
    S.observe(r)
    S.check_eq(r, enc(a) + "=" + enc(b) + "&x=y", "urlencode")


SMALL = "[a' \"&#;<~\\=+%?/\xe9\xa5\u20ac\u3042\u8868\uff71\u4e02\uac00\U0001f308]"
SINGLE = ("windows-1252", "iso-8859-2", "koi8-r", "windows-1251", "iso-8859-15", "latin1", "ascii", "cp437")
MULTI = ("shift_jis", "euc_jp", "gbk", "big5", "euc_kr")


LABELS = ["iso-8859-1", "ISO-8859-1", "iso8859-1", "latin-1", "l1", "cp1252", "us-ascii", "iso-8859-5", "iso-8859-7", "iso-8859-9", "iso-8859-8", "windows-1250", "windows-1254", "windows-1258",
          "koi8-u", "ibm866", "mac-roman", "macintosh", "sjis", "ms932", "cp932", "euc-jp", "ujis", "gb2312", "gb18030", "big5hkscs", "euc-kr", "cp949", "ks_c_5601-1987"]
LSMALL = "[a' \"&\x80\xa5\xe9\xff\u0160\u0410\u20ac\u3042\uff71\uac00\U0001f308]"


def codecs_named():
    """encodings the code under test names"""
    import codecs
    from sx.dictionary import words
    out = []
    for w in words():
        try:
            c = codecs.lookup(w)
            if c._is_text_encoding and "a".encode(w) == b"a" and w not in out:
                out.append(w)
        except Exception:
            pass
    return out


def scenarios(tier):
    d = 1 if tier == "thorough" else 0
    out = []
    for i, e in enumerate(SINGLE):
        for n in (1, 2):
            dom = "scalar" if (i < 2 or d or n == 1) else SMALL
            out.append(("http-%s/%d" % (e, n), "parse", dict(tmpl=["http://h/?", ("x", n, dom)], encoding=e)))
        out.append(("frag-%s" % e, "parse", dict(tmpl=["https://h/?", ("x", 3 if d else 2, SMALL), "#\xe9"], encoding=e)))
    for i, e in enumerate(MULTI):
        for n in (1, 2 + d):
            out.append(("http-%s/%d" % (e, n), "parse", dict(tmpl=["http://h/?", ("x", n, SMALL)], encoding=e)))
    for e in ("windows-1252", "shift_jis"):
        for sch in ("ws://h/?", "wss://h/?", "web://h/?", "web:o?", "ftp://h/?", "file:///?", "https:?", "web:?"):
            out.append(("scheme-%s-%s" % (sch, e), "parse", dict(tmpl=[sch, ("x", 2, SMALL if e != "windows-1252" else "scalar"), "#f"], encoding=e)))
        for spot, post in (("http://", "@h/?q"), ("http://u:", "@h/"), ("http://h/", "?q"), ("http://h/?#", ""), ("web:o", "?q"), ("web://", "/?"),
                           ("file:///", ""), ("http://h#", "")):
            out.append(("part-%s-%s" % (spot, e), "parse", dict(tmpl=[spot, ("x", 2, SMALL), post], encoding=e)))
        for b, k in (("http://h/a?q", 2), ("ws://h/a?q", 2), ("web://h/a?q", 2), ("file:///a", 2), ("web:o", 2)):
            out.append(("rel-%s-%s" % (b, e), "parse", dict(tmpl=["?", ("x", k, SMALL)], encoding=e, base=b)))
            out.append(("rel2-%s-%s" % (b, e), "parse_kw", dict(tmpl=[("x", k, SMALL)], encoding=e, base=b)))
        for u in ("http://h/a?q#f", "ws://h/a?q", "wss://h/", "web://h/a?q", "web:o", "file:///a", "ftp://h/"):
            for n in (0, 1, 2):
                out.append(("override-%s-%s/%d" % (u, e, n), "override", dict(url=u, tmpl=[("x", n, SMALL)], encoding=e)))
        for rel in ("", "#f", "?\xe9", "x"):
            out.append(("strbase-%s-%s" % (rel, e), "strbase", dict(rel=rel, tmpl=["http://h/a?", ("x", 2, SMALL)], encoding=e)))
        out.append(("strbase-ws-%s" % e, "strbase", dict(rel="", tmpl=["ws://h/a?", ("x", 2, SMALL)], encoding=e)))
    for e in ("WINDOWS-1252", "Shift_JIS", "utf-8", "UTF-8", "utf8", "UTF-16LE", "utf-16be", "utf-16", "utf_16_be", "u16", "utf16", "utf_16", "utf_16_le", "utf-16-le", "utf-16-be", "u8", "U8", "utf_8"):
        out.append(("label-%s" % e, "parse", dict(tmpl=["http://h/?", ("x", 2, SMALL)], encoding=e)))
    for e in LABELS + codecs_named():
        out.append(("labels-%s" % e, "parse", dict(tmpl=["http://h/?", ("x", 1, LSMALL), "z"], encoding=e)))
        out.append(("labels-encode-%s" % e, "encode", dict(n=1, dom=LSMALL, safe="/", encoding=e, plus=True)))
        out.append(("labels-form-%s" % e, "form", dict(n=1, m=1, dom=LSMALL, encoding=e)))
    for e in ("windows-1252", "ascii", "shift_jis", "gbk"):
        for safe in ("", "/&#;", "~' "):
            out.append(("encode-%s-%s" % (e, safe), "encode", dict(n=2 + d, dom=SMALL, safe=safe, encoding=e)))
        out.append(("encode-plus-%s" % e, "encode", dict(n=2, dom=SMALL, safe="a", encoding=e, plus=True)))
        out.append(("form-%s" % e, "form", dict(n=1, m=1, dom=SMALL, encoding=e)))
        out.append(("form2-%s" % e, "form", dict(n=2, m=0, dom=SMALL, encoding=e)))
        for k, (pre, post) in enumerate((("&#", ";\U0001f308"), ("\U0001f308&#1", ""), ("&", "1;\U0001f308"), ("\U0001f308&#12;", "\U0001f308"), ("\U0001f308", "&#9;"))):
            for safe in ("&#;", ""):
                out.append(("encode-ref-%s-%d-%s" % (e, k, safe), "encode", dict(n=1, dom="[1;#&\xe9\U0001f308]", safe=safe, encoding=e, pre=pre, post=post)))
            out.append(("http-ref-%s-%d" % (e, k), "parse", dict(tmpl=["http://h/?", pre.replace("#", "%23"), ("x", 1, "[1;&\xe9\U0001f308]"), post.replace("#", "")], encoding=e)))
            out.append(("override-ref-%s-%d" % (e, k), "override", dict(url="http://h/", tmpl=[pre, ("x", 1, "[1;#&\xe9\U0001f308]"), post], encoding=e)))
    out.append(("encode-1252-any", "encode", dict(n=2, dom="any", safe="/", encoding="windows-1252")))
    out.append(("form-1252-any", "form", dict(n=1, m=1, dom="scalar", encoding="windows-1252")))
    if d:
        out.append(("http-gb18030", "parse", dict(tmpl=["http://h/?", ("x", 2, SMALL)], encoding="gb18030")))
        out.append(("http-shift_jis-all", "parse", dict(tmpl=["http://h/?", ("x", 1)], encoding="shift_jis")))
        out.append(("http-gbk-all", "parse", dict(tmpl=["http://h/?", ("x", 1)], encoding="gbk")))
    for e in ("windows-1252", "shift_jis"):
        out.append(("long-%s" % e, "parse", dict(tmpl=["http://h/?", "a\xe9\u3042 '\U0001f600" * 40, ("x", 1, SMALL), "b" * 100], encoding=e)))
    return out
