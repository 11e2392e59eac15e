"""C19: host validity verdicts match the standard"""
from .common import build


def want_ipv4(S, s):
    """four shortest decimal numbers from 0 to 255 separated by full stops"""
    parts = s.split(".")
    if len(parts) != 4:
        return False
    for p in parts:
        if p == "" or len(p) > 3:
            return False
        if not all(c in S.ref.DIGITS for c in p):
            return False
        if len(p) > 1 and p[0] == "0":
            return False
        if int(p) > 255:
            return False
    return True


def want_opaque(S, s):
    if s == "":
        return False
    if s[:1] == "[" and s[-1:] == "]":
        return S.ref.ipv6_parse(s[1:-1]) != S.ref.FAIL
    if any(c in S.ref.FORBIDDEN_HOST for c in s):
        return False
    errs = []
    S.ref.check_units(s, errs)
    return len(errs) == 0 and not any("\ud800" <= c <= "\udfff" for c in s)


def want_domain(S, s):
    a = S.ref.domain_to_ascii(S.ref.to_usv(s), True)
    if a == S.ref.FAIL:
        return False
    u, bad = S.ref.domain_to_unicode(S.ref.to_usv(s), True)
    return not bad


def want_host(S, s):
    if s[:1] == "[" and s[-1:] == "]":
        return S.ref.ipv6_parse(s[1:-1]) != S.ref.FAIL
    if S.ref.ends_in_number(s):
        return want_ipv4(S, s)
    return want_domain(S, s)


def verdict(S, fn, tmpl, rep=True, parse=None):
    S.logmode("all")
    s = build(S, tmpl)
    f = getattr(S.u.HostValidator, fn)
    if rep:
        v = S.u.ValidityState()
        o = S.attempt(f, s, validity=v)
    else:
        o = S.attempt(f, s)
    S.check(o.ok, "never raises")
    if not o.ok:
        return
    S.observe(o.value)
    want = {"is_valid_ipv4_address": want_ipv4, "is_valid_opaque_host": want_opaque, "is_valid_domain": want_domain,
            "is_valid": want_host,
            "is_valid_ipv6_address": lambda S, s: S.ref.ipv6_parse(s) != S.ref.FAIL}[fn](S, s)
    S.check(S.iff(o.value, want), "verdict")
    if rep:
        S.observe(v.valid, v.validation_errors)
        S.check(S.iff(v.valid, o.value), "the report agrees with the verdict")
    if o.value:
        if parse == "host":
            if all(c < "\x80" for c in s):
                p = S.attempt(S.u.Host.parse, s)
                S.check(p.ok, "a valid host is accepted by the host parser")
        elif parse == "opaque":
            p = S.attempt(S.u.Host.parse, s, True)
            S.check(p.ok, "a valid opaque host is accepted by the host parser")


def up(name, fn, pre, post, n, lo=0, dom="scalar", **kw):
    return [("%s/%d" % (name, k), "verdict", dict(fn=fn, tmpl=[pre, ("x", k, dom), post], **kw)) for k in range(lo, n + 1)]


def scenarios(tier):
    from sx.dictionary import values
    d = 1 if tier == "thorough" else 0
    out = []
    v4, v6, op, dm, hs = "is_valid_ipv4_address", "is_valid_ipv6_address", "is_valid_opaque_host", "is_valid_domain", "is_valid"
    out += up("v4-free", v4, "", "", 4 + d, dom="any")
    out += up("v4-free-quiet", v4, "", "", 3, dom="any", rep=False)
    out += up("v4-chars", v4, "", "", 7 + d, lo=7, dom="[0129.]")
    out += up("v4-last", v4, "1.2.3.", "", 3, dom="any")
    out += up("v4-first", v4, "", ".2.3.4", 3, dom="any")
    out += up("v4-mid", v4, "1.", ".3.4", 3, dom="any")
    out += up("v4-last4", v4, "1.2.3.", "", 4 + d, lo=4, dom="[0129xX.]")
    out += up("v4-first4", v4, "", ".2.3.4", 4, lo=4, dom="[0129xX.]")
    out += up("v4-tail", v4, "1.2.3.4", "", 3, dom="any")
    out += up("v4-fullwidth", v4, "1.2.3.", "", 2, dom="[\uff11\u0661\u00b212]")
    for nm, pre, post in (("a", "", ".2.3.4"), ("b", "1.", ".3.4"), ("c", "1.2.", ".4"), ("d", "1.2.3.", "")):
        for k, f in enumerate(("0000", "00000", "000000000", "1", "25", "25525", "0" * 300, "9" * 5000)):
            out += up("v4-wide-%s%d" % (nm, k), v4, pre + f, post, 2, lo=1, dom="[0259.]")
            out += up("v4-wide-%s%d-h" % (nm, k), hs, pre + f, post, 1, lo=1, dom="[0259.]", parse="host")
    for k, s in enumerate(("1.2.3.4.", "1.2.3.4.5.6", "1.2.3", "1..3.4", ".1.2.3", "1.2.3.4" * 40)):
        out += up("v4-parts%d" % k, v4, s, "", 2, dom="[01.]")
        out += up("v4-parts%d-h" % k, hs, s, "", 2, dom="[01.]", parse="host")
    out += up("v6-free", v6, "", "", 4 + d, dom="any")
    out += up("v6-free-quiet", v6, "", "", 3, dom="any", rep=False)
    out += up("v6-mid", v6, "1:2:3:", ":5:6:7:8", 3 + d, dom="any")
    out += up("v6-7", v6, "1:2:3:4:5:6:", "", 4 + d, dom="[:0fg.1]")
    out += up("v6-compress", v6, "1::", ":8", 4 + d, dom="[:0f.]")
    out += up("v6-v4", v6, "::", "", 4 + d, dom="[.:1]")
    out += up("v6-v4b", v6, "::1.2.3.", "", 3, dom="any")
    out += up("v6-v4c", v6, "::1.2.", ".4", 3, dom="[0259.:]")
    out += up("v6-v4d", v6, "1:2:3:4:5:", "1.2.3.4", 3 + d, dom="[:1.]")
    out += up("op-free", op, "", "", 4 + d, dom="any", parse="opaque")
    out += up("op-free-quiet", op, "", "", 2, dom="any", rep=False, parse="opaque")
    out += up("op-pct", op, "a%", "", 4 + d, dom="[%0aFgG<. ]", parse="opaque")
    out += up("op-brackets", op, "[", "]", 3 + d, dom="any", parse="opaque")
    out += up("op-open", op, "[::", "", 2 + d, dom="any", parse="opaque")
    out += up("op-mid", op, "a", "b", 3 + d, parse="opaque")
    out += up("host-free", hs, "", "", 3 + d, dom="any", parse="host")
    out += up("host-ascii", hs, "", "", 4 + d, dom="ascii", parse="host")
    out += up("host-free-quiet", hs, "", "", 2, dom="any", rep=False, parse="host")
    out += up("host-dots", hs, "", "", 5 + d, lo=5, dom="[.1a-]", parse="host")
    out += up("host-label", hs, "a.", ".b", 3 + d, dom="ascii", parse="host")
    out += up("host-num", hs, "1.2.3.", "", 3, dom="[0259xa.]", parse="host")
    out += up("host-num2", hs, "a.", "", 3 + d, dom="[09xXafg.]", parse="host")
    out += up("host-v6", hs, "[::", "", 3, dom="[:1].a]", parse="host")
    out += up("host-v6b", hs, "[", "]", 3, dom="any", parse="host")
    out += up("domain-free", dm, "", "", 3 + d, dom="any")
    out += up("domain-ascii", dm, "", "", 4 + d, dom="ascii")
    out += up("domain-quiet", dm, "", "", 2, dom="any", rep=False)
    out += up("domain-label", dm, "a.", ".b", 3 + d, dom="ascii")
    out += up("domain-hyphen", dm, "a", "", 4 + d, dom="[-.ab]")
    for pre, n in (("a" * 61, 3), ("a." + "b" * 62, 2), (("a" * 49 + ".") * 5, 4), (("a" * 50 + ".") * 4 + "b" * 48, 3)):
        out += up("domain-long-%d" % len(pre), dm, pre, "", n, dom="[.ab-]")
        out += up("host-long-%d" % len(pre), hs, pre, "", n, dom="[.ab-]", parse="host")
    for nm, t in values():
        for fn, ps in ((v4, None), (v6, None), (op, "opaque"), (dm, None), (hs, "host")):
            out.append(("%s-%s" % (nm, fn), "verdict", dict(fn=fn, tmpl=t, parse=ps)))
    return out
