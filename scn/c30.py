"""C30: validation errors are logged exactly as they are reported"""
from .common import build


def run(S, s, base, how, **kw):
    U = S.u
    if how == "url":
        return S.attempt(U.parse_url, s, base, **kw)
    if how == "can":
        b = None if base is None else U.URL(base)
        return S.attempt(U.URL.can_parse, s, b, **kw)
    if how == "basic":
        b = None if base is None else U.parse_url(base)
        return S.attempt(U.BasicURLParser.parse, s, b, **kw)
    if how == "host":
        return S.attempt(U.Host.parse, s, False, **kw)
    if how == "opaque":
        return S.attempt(U.Host.parse, s, True, **kw)
    if how == "ascii":
        return S.attempt(U.IDNA.domain_to_ascii, s, **kw)
    if how == "unicode":
        return S.attempt(U.IDNA.domain_to_unicode, s, **kw)
    raise AssertionError(how)


def logs(S, tmpl, base=None, how="url"):
    """with no report the log has every error; with a quiet report nothing is
    logged; with a logging report both have the same"""
    s = build(S, tmpl)
    S.logmode("all")
    S.capture()
    o = run(S, s, base, how)
    plain = S.logs()
    v = S.u.ValidityState()
    S.capture()
    q = run(S, s, base, how, validity=v)
    S.check_eq(S.logs(), [], "nothing is logged while a report with logging disabled is collected")
    w = S.u.ValidityState(disable_logging=False)
    S.capture()
    r = run(S, s, base, how, validity=w)
    both = S.logs()
    S.observe(o.ok, len(plain), [lv for lv, m in plain])
    S.check(q.ok == o.ok and r.ok == o.ok, "same outcome")
    if how == "can":
        S.check_eq(plain, [], "can_parse without a report logs nothing")
        plain = both
    S.check_eq([m for lv, m in plain], list(v.descriptions)[::-1], "the log has the report's descriptions, in order")
    S.check_eq(both, plain, "a report with logging enabled logs the same")
    S.check_eq(list(w.descriptions), list(v.descriptions), "and collects the same")
    ok = o.ok if how != "can" else o.value
    if how not in ("unicode", "ascii"):
        for i in range(len(plain)):
            fatal = not ok and i == len(plain) - 1
            S.check_eq(plain[i][0], "ERROR" if fatal else "INFO", "a failure is logged as an error, everything else as information")
        S.check(ok or len(plain) > 0, "a failure is logged")


def quiet(S, tmpl, kind):
    """the validators log nothing unless asked to"""
    s = build(S, tmpl)
    U = S.u
    S.logmode("all")
    f = {"url": U.URLValidator.is_valid, "host": U.HostValidator.is_valid, "domain": U.HostValidator.is_valid_domain, "ipv4": U.HostValidator.is_valid_ipv4_address,
         "ipv6": U.HostValidator.is_valid_ipv6_address, "opaque": U.HostValidator.is_valid_opaque_host, "scheme": U.URLValidator.is_valid_url_scheme}[kind]
    S.capture()
    a = f(s)
    S.check_eq(S.logs(), [], "a validator without a report logs nothing")
    v = U.ValidityState()
    S.capture()
    b = f(s, validity=v)
    S.check_eq(S.logs(), [], "a validator with a quiet report logs nothing")
    S.check_eq(a, b, "same verdict")
    S.observe(a)


def valid(S, tmpl):
    """a valid URL logs nothing"""
    s = build(S, tmpl)
    S.logmode("all")
    ok = S.u.URLValidator.is_valid(s)
    S.capture()
    o = S.attempt(S.u.URL, s)
    n = len(S.logs())
    S.check(S.implies(ok, n == 0), "a valid URL logs nothing")
    S.observe(ok, n)


def scenarios(tier):
    from sx.dictionary import urls
    d = 1 if tier == "thorough" else 0
    out = []
    for i, (pre, post, n) in enumerate((("", "", 2), ("http:", "", 2), ("http://", "/p", 1), ("http://u", "h", 1), ("http://h:", "/", 2), ("http://h/", "", 2), ("http://h?", "", 2), ("http://h#", "", 2),
                                        ("file:", "", 2), ("file://", "/", 1), ("file:///", "", 2), ("web:", "", 2), ("web://", "/p", 1), ("web://h/", "", 2), ("web:o", "", 2), ("http://[", "]", 1),
                                        ("http://[1:", "]", 1), ("http://1.", "", 2), ("http://0x", ".1", 1), (" http://h", " ", 1), ("ht\ttp:\\\\h", "", 1), ("http:h", "\\x", 1),
                                        ("https://@", "x", 1), ("http://%4", "b", 1), ("http://h/%z", "%", 1), ("web:o?%", "#%", 1), ("file://C|", "/", 1), ("file:/C", "/", 2))):
        for k in range(0, n + 1 + d):
            out.append(("at%d/%d" % (i, k), "logs", dict(tmpl=[pre, ("x", k), post])))
    for i, b in enumerate(("http://b/c", "web://b/c", "file:///C:/x", "web:o", "web:/a")):
        for j, (pre, k) in enumerate((("", 2), ("//", 1), ("\\", 1), ("http:", 1), (b.split(":")[0] + ":", 1), ("#", 1), ("?%", 1), ("/C", 2))):
            out.append(("base%d-%d" % (i, j), "logs", dict(tmpl=[pre, ("x", k + d)], base=b)))
    for i, b in enumerate(("http:/b", "http:\\\\b\\c", "web://b/%", "file:C|", " web:o", "http://u@b", "http://0x1/")):
        for j, (pre, k) in enumerate((("", 2), ("//", 1), ("#", 1), ("?%", 1))):
            out.append(("noisybase%d-%d" % (i, j), "logs", dict(tmpl=[pre, ("x", k + d)], base=b)))
    for i, (pre, post) in enumerate((("http://30", "/"), ("http://0x10", "/"), ("http://429496729", "/"), ("http://1.", "65535"), ("http://1.2.", "00"), ("http://1.2.3.", ".5"), ("http://256.", ""),
                                     ("http://[1:2:3:4:5:6:7", "8]"), ("http://[::1.2.", ".4]"), ("http://[::1.2.3.25", "]"), ("http://[", ":]"), ("http://[1::", ":2]"), ("http://h:6553", ""),
                                     ("http://h/a\\b\\c", "\\d"), ("http://u@v@", "@h"), ("web:%", "%z"), ("file:///C|", "/D|"), ("http://h/\t", "\n"))):
        for k in (0, 1):
            out.append(("mid%d/%d" % (i, k), "logs", dict(tmpl=[pre, ("x", k + d), post])))
    for how in ("can", "basic"):
        for i, (pre, k, post) in enumerate((("http://", 1, "\\"), ("web:", 2, ""), ("http://u@h", 1, ""), ("", 1, ":%"))):
            out.append(("%s%d" % (how, i), "logs", dict(tmpl=[pre, ("x", k + d), post], how=how)))
            out.append(("%s-base%d" % (how, i), "logs", dict(tmpl=[pre[5:], ("x", k + d), post], how=how, base="http://b/c")))
    for how in ("host", "opaque", "ascii", "unicode"):
        for i, (pre, post, n) in enumerate((("", "", 2), ("a", "b", 1), ("[", "]", 2), ("[", "", 1), ("1.", ".", 1), ("0x", "", 1), ("%", "1", 1), ("xn--", "", 1), ("-", "", 1))):
            if how in ("ascii", "unicode") and pre.startswith("["):
                continue
            for k in range(0 if pre else 1, n + 1 + d):
                out.append(("%s-%d/%d" % (how, i, k), "logs", dict(tmpl=[pre, ("x", k), post], how=how)))
    for kind in ("url", "host", "domain", "ipv4", "ipv6", "opaque", "scheme"):
        for i, (pre, k) in enumerate((("", 2), ("a", 1), ("http://", 1), ("1.2.3.", 1), ("::", 1), ("[::1", 1), ("%", 1))):
            out.append(("quiet-%s-%d" % (kind, i), "quiet", dict(tmpl=[pre, ("x", k + d)], kind=kind)))
    for i, (pre, post) in enumerate((("http://h/", ""), ("https://", "/"), ("file:///", "#f"), ("data:", ""), ("mailto:", "?q"), ("http://h:8", "/?x"))):
        out.append(("valid%d" % i, "valid", dict(tmpl=[pre, ("x", 2 + d), post])))
    out.append(("many", "logs", dict(tmpl=["http:" + "\\" * 40, "h/" + "%" * 40, ("x", 1), "#" + "<" * 40])))
    for nm, t in urls():
        if nm.startswith(("w-hostx", "w-opaquex", "w-schemex", "w-xall", "v-")):
            out.append((nm, "logs", dict(tmpl=t)))
    return out
