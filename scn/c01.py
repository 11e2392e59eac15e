"""C01: absolute URLs parse exactly as the URL Standard says"""
from .common import diff_parse, diff_api, upto


def parse(S, tmpl, **kw):
    diff_parse(S, tmpl, **kw)


def mega(S, tmpl):
    S.maxsteps(600000)
    diff_parse(S, tmpl)


def api(S, tmpl, **kw):
    diff_api(S, tmpl, **kw)


def scenarios(tier):
    from sx.dictionary import urls
    d = 1 if tier == "thorough" else 0
    out = []
    out += upto("free", "parse", "", "", 4 + d)
    out += upto("scheme", "parse", "a", ":/", 3 + d)
    out += upto("after-special-scheme", "parse", "http:", "", 3 + d)
    out += upto("after-other-scheme", "parse", "web:", "", 4 + d)
    out += upto("after-file-scheme", "parse", "file:", "", 4 + d)
    out += upto("strip", "parse", "", "ws://h", 2 + d, lo=1)
    out += upto("http-authority", "parse", "http://", "/p", 3 + d)
    out += upto("http-userinfo", "parse", "ftp://", "@h/", 4 + d)
    out += upto("http-after-user", "parse", "https://u:", "h:81", 3 + d)
    out += upto("http-host-tail", "parse", "http://h", "/p", 3 + d)
    out += upto("web-authority", "parse", "web://", "/p", 4 + d)
    out += upto("web-after-host", "parse", "web://h", "", 4 + d)
    out += upto("http-port", "parse", "wss://h:", "/", 4 + d)
    out += [("http-port-digits", "parse", dict(tmpl=["http://h:", ("x", 6, "digit"), ("y", 1), "/"])),
            ("https-port-digits", "parse", dict(tmpl=["https://h:", ("x", 5, "digit")])),
            ("web-port-digits", "parse", dict(tmpl=["web://h:", ("x", 6, "digit"), "/"]))]
    out += upto("http-path", "parse", "http://h/", "", 4 + d)
    out += upto("http-path-seg", "parse", "http://h/a/", "/b", 4 + d)
    out += upto("http-path-dots", "parse", "http://h/a/b/.", "c", 4 + d, dom="[.%2eE5/\\?]")
    out += upto("file-path", "parse", "file:///", "", 4 + d)
    out += upto("file-drive", "parse", "file:///C:/", "", 4 + d, dom="[.%2eE/\\|:Cc]")
    out += upto("file-drive2", "parse", "file:", "/..", 4 + d, lo=3, dom="[/\\C|:.]")
    out += upto("file-host", "parse", "file://", "/", 3 + d)
    out += upto("file-localhost", "parse", "file://localhos", "", 2 + d, lo=1)
    out += upto("web-path", "parse", "web:/", "", 4 + d)
    out += upto("web-host-path", "parse", "web://h/", "", 4 + d)
    out += upto("web-dots", "parse", "web:/", "//p", 4 + d, dom="[./%2e]")
    out += upto("opaque", "parse", "web:o", "", 4 + d)
    out += upto("http-query", "parse", "http://h?", "", 4 + d)
    out += upto("web-query", "parse", "web://h?", "", 3 + d)
    out += upto("http-fragment", "parse", "http://h#", "", 4 + d)
    out += upto("web-fragment", "parse", "web:p#", "", 3 + d)
    for nm, pre, post in (("http", "http://h/a/b/", "/c"), ("web", "web:/a/", ""), ("file", "file:///C:/", "\\x"), ("end", "ws://h/a/b/", "")):
        out.append(("esc-dots-" + nm, "parse", dict(tmpl=[pre, ("x", 3, "[.%2eE]"), ("y", 3, "[.%2eE]"), post])))
        out.append(("esc-dot-" + nm, "parse", dict(tmpl=[pre, "%2", ("x", 1), "%2", ("y", 1), post])))
        out.append(("esc-dot1-" + nm, "parse", dict(tmpl=[pre, "%2", ("x", 1), ("z", 1, "[.%2E/?#\\]"), post])))
        out.append(("esc-dot2-" + nm, "parse", dict(tmpl=[pre, ".%2", ("x", 1), post])))
    # long inputs: concrete padding around the symbolic part
    for nm, pre, n, post in (
            ("user", "http://" + "u%20" * 60, 2, "@h/"), ("pass", "web://u:" + "pP!" * 80, 2, "@h:8/"), ("path", "http://h" + "/aB" * 40, 2, "/c"),
            ("seg", "web://h/" + "s" * 300, 2, "/../c"), ("query", "https://h/?" + "k=v&" * 80, 2, "#f"), ("frag", "ws://h/#" + "fF " * 100, 2, ""),
            ("opaque", "web:" + "oO" * 150, 2, "?q"), ("ohost", "web://" + "hH." * 100, 1, "/p"), ("scheme", "aB+-.9" * 30, 1, ":x"),
            ("domain", "http://" + "a." * 60, 1, "b/"), ("label", "http://" + "a" * 80, 1, "b/"), ("strip", "\x00 " * 40, 1, "ws://h"),
            ("strip-end", "ws://h/p", 1, " \x1f" * 40), ("ats", "http://" + "a@:" * 40, 2, "@h/"), ("slashes", "http:" + "/\\" * 40, 1, "h/"),
            ("file-slashes", "file:" + "/" * 40, 2, "C:/x"), ("web-slashes", "web:" + "/" * 40, 2, "")):
        out.append(("long-" + nm, "parse", dict(tmpl=[pre, ("x", n), post])))
    for nm, pre, k, dom, post in (("up", "http://h" + "/a" * 12, 5, "[./]", "/.." * 8), ("up-web", "web:" + "/a" * 12, 5, "[./]", "/.." * 14 + "/b"),
                                  ("up-file", "file:///C:/" + "a/" * 10, 5, "[./]", "/.." * 16), ("port0", "http://h:" + "0" * 30, 3, "digit", "/"),
                                  ("port0b", "web://h:" + "0" * 11, 5, "digit", ""), ("dot1", "http://h/" + "./" * 20, 4, "[.%2e]", "/x")):
        out.append(("long-" + nm, "parse", dict(tmpl=[pre, ("x", k, dom), post])))
    # very many / very long parts
    for nm, pre, post in (("segs", "http://h" + "/a" * 300, "x"), ("segs-web", "web:" + "/a" * 1100, "x"), ("segs-file", "file://" + "/a" * 300, "/.."),
                          ("seg", "http://h/" + "s" * 5000, "/.."), ("query", "http://h/?" + "q" * 5000, "q#f"), ("frag", "web:o#" + "f" * 5000, "f"),
                          ("opaque", "web:" + "o" * 5000, " ?q"), ("user", "http://" + "u" * 1100, "@h"), ("pass", "http://u:" + "p" * 1100, "@h"),
                          ("scheme", "s" * 1100, ":x"), ("ohost", "web://" + "h" * 1100, "/x"), ("domain", "http://" + "h" * 1100, "/x"),
                          ("labels", "http://" + "h." * 550, "/x"), ("slashes", "http:" + "/" * 1100, "h"), ("ats", "http://" + "a@" * 300, "@h"),
                          ("ups", "http://h" + "/a" * 300 + "/.." * 299, "/b")):
        out.append(("huge-" + nm, "parse", dict(tmpl=[pre, ("x", 1), post])))
    for nm, pre, post in (("opaque", "web:" + "o" * 9000, "?q"), ("query", "http://h/?" + "q" * 9000, "#f"), ("path", "http://h/" + "p" * 9000, "/.."),
                          ("frag", "web:#" + "f" * 9000, ""), ("64k", "web:#" + "f" * 66000, "")):
        out.append(("mega-" + nm, "mega", dict(tmpl=[pre, ("x", 1), post])))
    W = "[\t\n\r a/]"
    out.append(("inner-tab", "parse", dict(tmpl=["ht", ("x", 1, W), "tp:", ("y", 1, W), "//h", ("z", 1, W), "/p", ("w", 1, W)])))
    out.append(("inner-tab2", "parse", dict(tmpl=["web:", ("x", 1, W), "/", ("y", 1, W), "/h", ("z", 1, W), ":", ("v", 1, W), "8", ("w", 1, W), "1"])))
    out.append(("inner-tab3", "parse", dict(tmpl=["http://h/%", ("x", 1, W), "2", ("y", 1, W), "e", ("z", 1, W), "./", ("w", 1, W), "x"])))
    out.append(("at-sign", "parse", dict(tmpl=["http://", ("x", 7 + d, "[a:@]"), "/"])))
    out.append(("at-sign-web", "parse", dict(tmpl=["web://", ("x", 7 + d, "[a:@]"), "@h"])))
    out.append(("brackets", "parse", dict(tmpl=["http://", ("x", 5, "[[]:1@]"), "/"])))
    out.append(("query-frag", "parse", dict(tmpl=["http://h", ("x", 6 + d, "[/?#a]")])))
    out.append(("opaque-space", "parse", dict(tmpl=["web:o", ("x", 6 + d, "[ ?#a]")])))
    out += upto("api-http", "api", "http://u@h:8", "?q#f", 2 + d)
    out += upto("api-tail", "api", "https://h/p", "", 3 + d)
    out += upto("api-opaque", "api", "web:", "", 3 + d)
    for nm, t in urls():
        out.append((nm, "parse", dict(tmpl=t)))
    return out
