"""C13: form-urlencoded parsing and serialising match the Standard"""

SAFE = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789*-._"


def bbuild(S, tmpl):
    out = b""
    for t in tmpl:
        if isinstance(t, str):
            out = out + t.encode()
        elif len(t) == 2:
            out = out + S.bytes(t[0], t[1])
        else:
            out = out + S.bytes(t[0], t[1], t[2])
    return out


def spec_parse(S, b):
    out = []
    for seq in b.split(b"&"):
        if len(seq) == 0:
            continue
        k = seq.find(b"=")
        if k < 0:
            n, v = seq, b""
        else:
            n, v = seq[:k], seq[k + 1:]
        n = S.ref.percent_decode(n.replace(b"+", b" ")).decode("utf-8", "replace")
        v = S.ref.percent_decode(v.replace(b"+", b" ")).decode("utf-8", "replace")
        out.append((n, v))
    return out


def qsl(S, tmpl):
    b = bbuild(S, tmpl)
    r = S.u.parse_qsl(b)
    S.observe([list(p) for p in r])
    w = spec_parse(S, b)
    S.check_eq(len(r), len(w), "number of pairs")
    for i in range(min(len(r), len(w))):
        S.check_eq(len(r[i]), 2, "pairs")
        S.check_eq(r[i][0], w[i][0], "name")
        S.check_eq(r[i][1], w[i][1], "value")


def spec_enc(S, s):
    out = ""
    for x in s.encode("utf-8"):
        if x == 32:
            out = out + "+"
        elif x < 128 and chr(x) in SAFE:
            out = out + chr(x)
        else:
            out = out + "%" + format(x, "02X")
    return out


def many(S, k, tmpl):
    """the standard's pairs for k concrete ones and what follows them"""
    b = bbuild(S, tmpl)
    S.maxsteps(900000)
    r = S.u.parse_qsl(b"a=1&" * k + b)
    w = spec_parse(S, b)
    S.check_eq(len(r), k + len(w), "number of pairs")
    if len(r) == k + len(w):
        S.observe([list(p) for p in r[k:]])
        S.check_eq([list(p) for p in r[k:]], [list(p) for p in w], "last pairs")
        S.check_eq([list(p) for p in r[:k]], [["a", "1"]] * k, "first pairs")
    p = S.u.URLSearchParams("a=1&" * k)
    S.check_eq(len(p), k, "number of pairs of a URLSearchParams")
    S.check_eq(str(p), "a=1&" * (k - 1) + "a=1", "serialised form")


def enc(S, lens, dom="scalar", rt=True):
    """lens: lengths of name, value of every pair"""
    pairs = []
    for i, (a, b) in enumerate(lens):
        pairs.append((S.str("n%d_" % i, a, dom), S.str("v%d_" % i, b, dom)))
    r = S.u.urlencode(pairs)
    S.observe(r)
    want = ""
    for i, (n, v) in enumerate(pairs):
        if i:
            want = want + "&"
        want = want + spec_enc(S, n) + "=" + spec_enc(S, v)
    S.check_eq(r, want, "serialised form")
    if rt:
        S.check_eq([list(p) for p in S.u.parse_qsl(r.encode())], [list(p) for p in pairs], "parsing back gives the pairs")


def enc_word(S, w, dom="scalar"):
    """a particular name and value next to others"""
    x = S.str("x", 1, dom)
    pairs = [(w, x), (x, w), (w + x, ""), ("", x + w)]
    r = S.u.urlencode(pairs)
    S.observe(r)
    S.check_eq(r, "&".join([spec_enc(S, n) + "=" + spec_enc(S, v) for n, v in pairs]), "serialised form")
    S.check_eq([list(p) for p in S.u.parse_qsl(r.encode())], [list(p) for p in pairs], "parsing back gives the pairs")
    S.check_eq(str(S.u.URLSearchParams(pairs)), r, "stringification is the urlencoded form")


def params_str(S, lens, dom="scalar"):
    """URLSearchParams stringification is the same serialiser"""
    pairs = []
    for i, (a, b) in enumerate(lens):
        pairs.append((S.str("n%d_" % i, a, dom), S.str("v%d_" % i, b, dom)))
    p = S.u.URLSearchParams(pairs)
    r = str(p)
    S.observe(r)
    S.check_eq(r, S.u.urlencode(pairs), "stringification is the urlencoded form")
    want = ""
    for i, (n, v) in enumerate(pairs):
        if i:
            want = want + "&"
        want = want + spec_enc(S, n) + "=" + spec_enc(S, v)
    S.check_eq(r, want, "serialised form")
    q = S.u.URLSearchParams(r)
    S.check_eq([list(x) for x in q], [list(x) for x in pairs], "parsing back gives the pairs")


def params_parse(S, n, dom="scalar", pre="", post=""):
    """URLSearchParams(str) strips one leading ? and parses the rest"""
    s = pre + S.str("x", n, dom) + post
    p = S.u.URLSearchParams(s)
    t = S.ref.to_usv(s)
    if t[:1] == "?":
        t = t[1:]
    S.observe([list(x) for x in p])
    S.check_eq([list(x) for x in p], [list(x) for x in spec_parse(S, t.encode("utf-8"))], "pairs")


def scenarios(tier):
    from sx.dictionary import values, sizes
    d = 1 if tier == "thorough" else 0
    out = []
    for n in range(0, 4 + d):
        out.append(("parse/%d" % n, "qsl", dict(tmpl=[("b", n)])))
    out.append(("parse-seps/%d" % (7 + d), "qsl", dict(tmpl=[("b", 7 + d, "[&=a]")])))
    out.append(("parse-plus/%d" % (6 + d), "qsl", dict(tmpl=[("b", 6 + d, "[&=+%]")])))
    out.append(("parse-ascii4", "qsl", dict(tmpl=[("b", 4, "ascii")])))
    out.append(("parse-tail", "qsl", dict(tmpl=["a=b&", ("b", 3)])))
    out.append(("parse-head", "qsl", dict(tmpl=[("b", 3), "&c=d"])))
    out.append(("parse-mid", "qsl", dict(tmpl=["a=", ("b", 3), "=d&"])))
    for n in (1, 2, 3):
        out.append(("parse-pct/%d" % n, "qsl", dict(tmpl=["a%", ("b", n), "=%4", ("c", 1)])))
    if d:
        out.append(("parse-pct2", "qsl", dict(tmpl=["a%", ("b", 2), "=%", ("c", 2)])))
    out.append(("parse-pctpct", "qsl", dict(tmpl=["%", ("b", 2, "hex"), "%", ("c", 2, "hex"), "=x"])))
    out.append(("parse-utf8", "qsl", dict(tmpl=["%F0%9F%", ("b", 2, "hex"), "%88"])))
    out.append(("parse-plus-hex", "qsl", dict(tmpl=["%2", ("b", 1), "+%20"])))
    for l in ([], [(1, 0)], [(0, 1)], [(1, 1)], [(2, 1)], [(1, 2)], [(0, 0)], [(3, 0)], [(0, 3)],
              [(1, 0), (0, 1)], [(0, 0), (0, 0)]):
        nm = "-".join("%d.%d" % x for x in l) or "empty"
        out.append(("enc/" + nm, "enc", dict(lens=l)))
        out.append(("params/" + nm, "params_str", dict(lens=l)))
    out.append(("enc3/ascii", "enc", dict(lens=[(1, 1), (1, 1), (1, 1)], dom="[a&=+% ]")))
    out.append(("enc/ascii4", "enc", dict(lens=[(2, 2)], dom="[a&=+% *~']")))
    out.append(("enc/2pairs", "enc", dict(lens=[(1, 1), (1, 1)], dom="ascii")))
    out.append(("params/2pairs", "params_str", dict(lens=[(1, 1), (1, 1)], dom="ascii")))
    if d:
        out.append(("enc/1.1-1.1", "enc", dict(lens=[(1, 1), (1, 1)])))
        out.append(("params/1.1-1.1", "params_str", dict(lens=[(1, 1), (1, 1)])))
        out.append(("enc/3.1", "enc", dict(lens=[(3, 1)])))
        out.append(("enc3", "enc", dict(lens=[(1, 1), (1, 1), (1, 1)], dom="ascii")))
    out.append(("from-str-ascii/4", "params_parse", dict(n=4, dom="ascii")))
    for n in range(0, 4 + d):
        out.append(("from-str/%d" % n, "params_parse", dict(n=n)))
    out.append(("from-str-seps", "params_parse", dict(n=6 + d, dom="[?&=+a]")))
    out.append(("from-str-any", "params_parse", dict(n=2, dom="any", pre="a=")))
    out.append(("from-str-q", "params_parse", dict(n=2, pre="?", post="?=")))
    out.append(("from-str-pct", "params_parse", dict(n=3, pre="%", post="%")))
    L = "a=b&c=%C3%A9+d&&=&%zz" * 15
    out.append(("parse-long", "qsl", dict(tmpl=[L, ("b", 2), "&x"])))
    out.append(("parse-long2", "qsl", dict(tmpl=["k" * 300, ("b", 2), "v" * 300])))
    out.append(("parse-many", "qsl", dict(tmpl=["&a=1" * 70, ("b", 3, "[&=+%]"), "z"])))
    for k in (130, 260, 1100):
        out.append(("parse-many/%d" % k, "qsl", dict(tmpl=["a=1&" * k, ("b", 1), "z"])))
        out.append(("parse-manyb/%d" % k, "qsl", dict(tmpl=[("b", 1), "z", "&b=2" * k])))
        out.append(("from-str-many/%d" % k, "params_parse", dict(n=1, pre="a=1&" * k, post="&c")))
        out.append(("parse-len/%d" % k, "qsl", dict(tmpl=["k" * k, ("b", 1), "v%41+" * k])))
    out.append(("enc-many2", "enc", dict(lens=[(0, 0)] * 140 + [(1, 0)] + [(0, 0)] * 140, dom="scalar")))
    out.append(("from-str-long", "params_parse", dict(n=2, pre=L, post="%41")))
    out.append(("enc-many", "enc", dict(lens=[(0, 0)] * 30 + [(1, 1)] + [(0, 0)] * 5, dom="scalar")))
    for k in [1500] + [n + 1 for n in sizes()]:
        out.append(("many/%d" % k, "many", dict(k=k, tmpl=[("b", 1, "[a&=+%]"), "z"])))
    for nm, t in values():
        tt = [x if isinstance(x, str) else x if len(x) == 2 else (x[0], 1, "[a&=+%]") for x in t]
        out.append((nm, "qsl", dict(tmpl=["k="] + tt)))
        out.append((nm + "-k", "qsl", dict(tmpl=tt + ["=v&w"])))
        s = "".join(x for x in t if isinstance(x, str))
        dom = "scalar" if len(s) <= 300 else "[a&=+%\u3042]"
        out.append((nm + "-str", "params_parse", dict(n=1, pre="a=" + s, dom=dom)))
        out.append((nm + "-enc", "enc_word", dict(w=s, dom=dom)))
    return out
