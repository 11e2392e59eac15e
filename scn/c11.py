"""C11: IDNA outcomes are turned into results and errors correctly.
ICU's answer is a symbolic variable: any result string and any error flags."""

ERR = {"EMPTY_LABEL": 1, "LABEL_TOO_LONG": 2, "DOMAIN_NAME_TOO_LONG": 4, "LEADING_HYPHEN": 8, "TRAILING_HYPHEN": 16,
       "HYPHEN_3_4": 32, "LEADING_COMBINING_MARK": 64, "DISALLOWED": 128, "PUNYCODE": 256, "LABEL_HAS_DOT": 512,
       "INVALID_ACE_LABEL": 1024, "BIDI": 2048, "CONTEXTJ": 4096, "CONTEXTO_PUNCTUATION": 8192, "CONTEXTO_DIGITS": 16384}
HYPHEN = 8 | 16 | 32
DNS = 1 | 2 | 4
STD3, BIDI, CONTEXTJ, NT_ASCII, NT_UNICODE = 2, 4, 8, 16, 32
ASSUMPTIONS = ["ICU is replaced by an arbitrary outcome: any result of the stated length, any combination of the stated error "
               "flags, or an ICU failure"]


def asked(S, calls, ascii_, strict, domain):
    S.check(len(calls) > 0, "ICU is consulted")
    for a, o, d in calls:
        S.check(a == ascii_, "the right conversion is requested")
        S.check_eq(d, S.ref.to_usv(domain), "the whole domain is passed on")
        S.check((o & STD3 != 0) == strict, "STD3 rules are requested exactly in strict mode")
        S.check(o & BIDI != 0 and o & CONTEXTJ != 0, "bidi and joiner checks are always requested")
        S.check(o & (NT_ASCII if ascii_ else NT_UNICODE) != 0, "processing is non-transitional")


def call(S, f, domain, strict, how):
    if how == "pos":
        return S.attempt(f, domain, strict)
    if how == "kw":
        return S.attempt(f, domain, be_strict=strict)
    return S.attempt(f, domain)


def to_ascii(S, n, bits, strict, dom="scalar", dn=2, rdom="ascii", how="pos", pre=""):
    domain = pre + S.str("d", dn, dom)
    res = S.str("r", n, rdom)
    fl = S.flags("f", [ERR[b] for b in bits])
    S.icu(res, fl)
    o = call(S, S.u.IDNA.domain_to_ascii, domain, strict, how)
    calls = S.icu_calls()
    S.observe(o.ok, o.value, o.exc, fl)
    asked(S, calls, True, strict, domain)
    allowed = HYPHEN | (0 if strict else DNS)
    bad = 0
    for b in bits:
        if not ERR[b] & allowed:
            bad = bad | ERR[b]
    if o.ok:
        S.check((fl & bad) == 0, "a flag that is not permitted is fatal")
        S.check(n > 0, "an empty result is fatal")
        S.check_eq(o.value, res, "the result is returned unchanged")
    else:
        S.check_eq(o.exc, "URLParseError", "failure is a URLParseError")
        if n > 0:
            S.check((fl & bad) != 0, "permitted flags are not fatal")


def to_unicode(S, n, bits, strict, dom="scalar", dn=2, rdom="scalar", how="pos", pre=""):
    domain = pre + S.str("d", dn, dom)
    res = S.str("r", n, rdom)
    fl = S.flags("f", [ERR[b] for b in bits])
    S.icu(res, fl)
    S.logmode("all")
    v = S.u.ValidityState()
    if how == "pos":
        o = S.attempt(S.u.IDNA.domain_to_unicode, domain, strict, validity=v)
    elif how == "kw":
        o = S.attempt(S.u.IDNA.domain_to_unicode, domain, be_strict=strict, validity=v)
    else:
        o = S.attempt(S.u.IDNA.domain_to_unicode, domain, validity=v)
    calls = S.icu_calls()
    S.observe(o.ok, o.value, o.exc, fl, v.validation_errors)
    asked(S, calls, False, strict, domain)
    bad = 0
    for b in bits:
        if not ERR[b] & (HYPHEN | DNS):
            bad = bad | ERR[b]
    S.check(o.ok, "domain to Unicode always returns")
    if o.ok:
        S.check_eq(o.value, res, "the result is returned unchanged")
    S.check(S.iff((fl & bad) != 0, v.validation_errors != 0), "an error is recorded exactly for a flag that is not permitted")


def icu_fail(S, ascii_, strict, dom="scalar"):
    domain = S.str("d", 2, dom)
    S.icu("x", 0, True)
    o = S.attempt(S.u.IDNA.domain_to_ascii if ascii_ else S.u.IDNA.domain_to_unicode, domain, strict)
    S.observe(o.ok, o.exc)
    S.check_eq(o.exc, "URLParseError", "an ICU failure is reported as a URLParseError")


def host_uses(S, n, dn, pre=""):
    """the host parser runs the non-strict conversion on the percent-decoded host and uses its result"""
    domain = pre + S.str("d", dn, "[azAZ09.-_~]")
    res = S.str("r", n, "[azAZ.-_%/:]")
    fl = S.flags("f", [ERR["EMPTY_LABEL"], ERR["DISALLOWED"], ERR["HYPHEN_3_4"]])
    S.icu(res, fl)
    o = S.attempt(S.u.Host.parse, domain)
    S.observe(o.ok, o.value, o.exc, fl)
    asked(S, S.icu_calls(), True, False, domain)
    forb = S.any(*[c in res for c in "%/:"])
    ok = S.all((fl & ERR["DISALLOWED"]) == 0, S.not_(forb), n > 0)
    S.check(S.iff(o.ok, ok), "a host is accepted exactly when the conversion succeeds without forbidden code points")
    if o.ok:
        S.check_eq(o.value, res, "the ASCII domain is the host")


def sequence(S):
    """options never leak from one call to the next (instances are cached)"""
    res = S.str("r", 1, "alpha")
    S.icu(res, 0)
    ks = []
    for i in range(3):
        k = S.choice("k%d" % i, [(True, False), (True, True), (False, False), (False, True)])
        ks.append(k)
        f = S.u.IDNA.domain_to_ascii if k[0] else S.u.IDNA.domain_to_unicode
        f("ab", k[1])
    calls = S.icu_calls()
    S.check_eq(len(calls), 3, "one conversion per call")
    S.observe(calls)
    for i in range(min(3, len(calls))):
        asked(S, [calls[i]], ks[i][0], ks[i][1], "ab")


ALL = list(ERR)


def scenarios(tier):
    out = []
    th = tier == "thorough"
    for strict in (False, True):
        t = "strict" if strict else "lax"
        for n in ((0, 1, 2, 4, 7) if th else (0, 1, 3)):
            out.append(("ascii-%s/%d" % (t, n), "to_ascii", dict(n=n, bits=ALL, strict=strict)))
        out.append(("ascii-nonascii-result-%s" % t, "to_ascii", dict(n=2, bits=["BIDI"], strict=strict, rdom="scalar")))
        out.append(("ascii-kw-%s" % t, "to_ascii", dict(n=2, bits=["EMPTY_LABEL", "BIDI"], strict=strict, how="kw")))
        for n in ((0, 1, 2, 4) if th else (0, 2)):
            out.append(("unicode-%s/%d" % (t, n), "to_unicode", dict(n=n, bits=ALL, strict=strict, dn=1)))
        out.append(("unicode-kw-%s" % t, "to_unicode", dict(n=2, bits=["EMPTY_LABEL", "BIDI"], strict=strict, how="kw")))
        for dn in (0, 1, 3, 4) if not th else (0, 1, 3, 4, 5, 6):
            out.append(("ascii-domain-%s/%d" % (t, dn), "to_ascii", dict(n=2, bits=["CONTEXTJ"], strict=strict, dn=dn)))
            out.append(("unicode-domain-%s/%d" % (t, dn), "to_unicode", dict(n=2, bits=["DISALLOWED"], strict=strict, dn=dn)))
        out.append(("ascii-surrogates-%s" % t, "to_ascii", dict(n=1, bits=[], strict=strict, dn=2, dom="any")))
        out.append(("unicode-surrogates-%s" % t, "to_unicode", dict(n=1, bits=[], strict=strict, dn=2, dom="any")))
        for k, pre in enumerate(("a" * 62, "a" * 63, "\u00e9" * 64, "ab." * 85, "a" * 300, "xn--a.", ".", "1.2.")):
            for n in (0, 2):
                out.append(("ascii-long%d-%s/%d" % (k, t, n), "to_ascii", dict(n=n, bits=["EMPTY_LABEL", "DOMAIN_NAME_TOO_LONG", "PUNYCODE"], strict=strict, dn=1, pre=pre)))
                out.append(("unicode-long%d-%s/%d" % (k, t, n), "to_unicode", dict(n=n, bits=["LABEL_TOO_LONG", "CONTEXTO_DIGITS"], strict=strict, dn=1, pre=pre)))
        for a in (True, False):
            out.append(("icu-fails-%s-%s" % ("ascii" if a else "unicode", t), "icu_fail", dict(ascii_=a, strict=strict)))
    out.append(("ascii-default", "to_ascii", dict(n=2, bits=["EMPTY_LABEL", "BIDI"], strict=False, how="default")))
    out.append(("unicode-default", "to_unicode", dict(n=2, bits=["EMPTY_LABEL", "BIDI"], strict=False, how="default")))
    for n in range(0, 3):
        for dn in (1, 2):
            out.append(("host/%d-%d" % (n, dn), "host_uses", dict(n=n, dn=dn)))
    for k, pre in enumerate(("a" * 63, "ab." * 85, "a" * 300, "xn--", "A.")):
        for n in range(0, 3):
            out.append(("host-long%d/%d" % (k, n), "host_uses", dict(n=n, dn=1, pre=pre)))
    out.append(("sequence", "sequence", {}))
    return out
