"""C12: percent-encoding and decoding are exact and lossless"""
from .common import build
from .c25 import encode, SMALL

ALWAYS = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_.-"
SAFES = {"none": "", "slash": "/", "tilde": "~", "pct": "%", "plus": "+", "space": " ", "c0": "".join(map(chr, range(32, 127))),
         "userinfo": "!$%&'()*+,-.~", "form": "*-._", "sub": "!'()*~", "ctl": "\x00\x1f\x7f", "mixed": "%~+ /;"}


def spec(S, b, safe, plus):
    """what every byte must become"""
    out = ""
    for x in b:
        if x == 32 and plus:
            out = out + "+"
        elif x < 128 and chr(x) in safe:
            out = out + chr(x)
        else:
            out = out + "%" + format(x, "02X")
    return out


def enc(S, tmpl, safe, plus=False, api="string", rt=True):
    s = build(S, tmpl)
    if api == "utf8":
        r = S.u.utf8_percent_encode(s, safe, plus) if plus else S.u.utf8_percent_encode(s, safe)
    elif api == "kw":
        r = S.u.string_percent_encode(s, safe=safe, encoding="utf-8", space_as_plus=plus)
    else:
        r = S.u.string_percent_encode(s, safe, space_as_plus=plus)
    S.observe(r)
    usv = S.ref.to_usv(s)
    b = usv.encode("utf-8")
    S.check_eq(r, spec(S, b, ALWAYS + safe, plus), "exactly the safe characters are unescaped, others are %XX")
    if rt and "%" not in safe and not plus:
        S.check_eq(S.u.string_percent_decode(r), b, "decoding gives back the bytes")
    if rt and plus and "%" not in safe and "+" not in safe:
        S.check_eq(S.u.string_percent_decode(r.replace("+", " ")), b, "decoding gives back the bytes")


def dec(S, tmpl):
    s = build(S, tmpl)
    r = S.u.string_percent_decode(s)
    S.observe(r)
    S.check_eq(r, S.ref.percent_decode(S.ref.to_usv(s).encode("utf-8")), "exactly the well-formed escapes are decoded")


def utf8(S, n, dom):
    s = S.str("x", n, dom)
    b = S.u.utf8_encode(s)
    usv = S.ref.to_usv(s)
    S.observe(b)
    S.check_eq(b, usv.encode("utf-8"), "UTF-8 of the scalar values")
    S.check_eq(S.u.utf8_decode(b), usv, "decoding gives back the string")


def utf8dec(S, n):
    b = S.bytes("b", n)
    s = S.u.utf8_decode(b)
    S.observe(s)
    S.check_eq(s, b.decode("utf-8", "replace"), "UTF-8 decoding with replacement")


def hexcase(S, tmpl):
    """upper and lower case escapes decode alike"""
    s = build(S, tmpl)
    r = S.u.string_percent_decode(s)
    S.check_eq(r, S.u.string_percent_decode(s.upper()), "the case of the hex digits is irrelevant")


def scenarios(tier):
    from sx.dictionary import values
    d = 1 if tier == "thorough" else 0
    out = []
    for nm, safe in SAFES.items():
        for n in range(1, 4 + d if nm in ("none", "pct", "form") else 3 + d):
            out.append(("enc-%s/%d" % (nm, n), "enc", dict(tmpl=[("x", n)], safe=safe)))
        for plus in (True,):
            for n in range(1, 3 + d):
                out.append(("enc-plus-%s/%d" % (nm, n), "enc", dict(tmpl=[("x", n)], safe=safe, plus=plus)))
        out.append(("enc-any-%s" % nm, "enc", dict(tmpl=[("x", 2, "any")], safe=safe)))
        out.append(("enc-api-%s" % nm, "enc", dict(tmpl=["a", ("x", 2)], safe=safe, api="utf8")))
        out.append(("enc-api-plus-%s" % nm, "enc", dict(tmpl=["a", ("x", 1), " "], safe=safe, api="utf8", plus=True)))
        out.append(("enc-kw-%s" % nm, "enc", dict(tmpl=["~", ("x", 1)], safe=safe, api="kw", plus=True)))
        out.append(("enc-ascii-%s" % nm, "enc", dict(tmpl=[("x", 4 + d, "[a~% +/%]")], safe=safe)))
        out.append(("enc-ascii-plus-%s" % nm, "enc", dict(tmpl=[("x", 4 + d, "[a~% +/%]")], safe=safe, plus=True)))
    out.append(("enc-surr", "enc", dict(tmpl=[("x", 3, "surr")], safe="")))
    out.append(("enc-surr-mid", "enc", dict(tmpl=["a", ("x", 2, "surr"), ("y", 1, "any")], safe="~")))
    out.append(("enc-empty", "enc", dict(tmpl=[""], safe="")))
    for n in range(0, 5 + d):
        out.append(("dec/%d" % n, "dec", dict(tmpl=[("x", n)])))
    for n in range(1, 4 + d):
        out.append(("dec-any/%d" % n, "dec", dict(tmpl=[("x", n, "any")])))
        out.append(("dec-any-a/%d" % n, "dec", dict(tmpl=["a", ("x", n, "surr"), "b"])))
        out.append(("dec-pct/%d" % n, "dec", dict(tmpl=["%", ("x", n)])))
        out.append(("dec-pct-mid/%d" % n, "dec", dict(tmpl=["a%", ("x", n), "b"])))
    out.append(("dec-pct-tail", "dec", dict(tmpl=["%41%", ("x", 2), "%"])))
    out.append(("dec-pct2", "dec", dict(tmpl=["%", ("x", 2), "%", ("y", 2)])))
    out.append(("dec-alpha", "dec", dict(tmpl=[("x", 6 + d, "[%aG4]")])))
    out.append(("dec-any", "dec", dict(tmpl=["%", ("x", 3, "any")])))
    out.append(("hexcase", "hexcase", dict(tmpl=["%", ("x", 2, "hex"), "%", ("y", 2, "hex")])))
    for n in range(0, 4 + d):
        out.append(("utf8/%d" % n, "utf8", dict(n=n, dom="scalar")))
        out.append(("utf8-any/%d" % n, "utf8", dict(n=n, dom="any")))
    for n in range(0, 4 + d):
        out.append(("utf8dec/%d" % n, "utf8dec", dict(n=n)))
    P = "aZ~% +\xe9\u20ac\U0001f600/" * 30
    for nm in ("none", "pct", "form", "mixed"):
        out.append(("enc-long-%s" % nm, "enc", dict(tmpl=[P, ("x", 1), P], safe=SAFES[nm])))
        out.append(("enc-long-plus-%s" % nm, "enc", dict(tmpl=[P, ("x", 1), "a" * 300], safe=SAFES[nm], plus=True)))
    for e in ("windows-1252", "iso-8859-2", "koi8-r", "ascii", "latin1", "shift_jis", "gbk", "euc_kr"):
        for nm in ("none", "slash", "pct", "form", "mixed"):
            for plus in (False, True):
                dom = "scalar" if nm == "none" and e in ("windows-1252", "koi8-r", "ascii") else SMALL
                out.append(("encoding-%s-%s-%d" % (e, nm, plus), "encode", dict(n=1 if dom == "scalar" and not d else 2, dom=dom, safe=SAFES[nm], encoding=e, plus=plus)))
        out.append(("encoding-any-%s" % e, "encode", dict(n=2, dom="[a/\ud83d\ude00\xe9\u3042]", safe="/", encoding=e)))
    out.append(("dec-long", "dec", dict(tmpl=["%41%zz%" * 60, ("x", 2), "%e9" * 40])))
    out.append(("dec-long2", "dec", dict(tmpl=["a" * 300 + "%", ("x", 2, "hex"), "%"])))
    for nm, t in values():
        out.append((nm, "dec", dict(tmpl=t)))
        for sf in ("none", "tilde"):
            for plus in (False, True):
                out.append(("%s-%s-%d" % (nm, sf, plus), "enc", dict(tmpl=t, safe=SAFES[sf], plus=plus)))
        out.append((nm + "-utf8", "enc", dict(tmpl=t, safe="", api="utf8")))
    return out
