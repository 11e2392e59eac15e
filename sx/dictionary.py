"""Constants of the code under test, used as text of scenario templates: a
comparison with a particular string, or a threshold on a length, is reached by
putting that string, or that many characters, into every component."""
import ast
import os
import re

SKIP = {"debug", "info", "warning", "error", "critical", "exception", "log", "getLogger", "get_logger", "TypeVar", "NewType", "cast", "prepend"}
PLAIN = re.compile("^[!-~\u00a0-\U0010ffff][ -~\u00a0-\U0010ffff]{0,31}$")


def _scan():
    from .run import REPO
    strs, nums = {}, {}
    d = os.path.join(REPO, "src", "urlstd")
    for root, _, files in sorted(os.walk(d)):
        for f in sorted(files):
            if not f.endswith(".py"):
                continue
            try:
                tree = ast.parse(open(os.path.join(root, f), encoding="utf-8").read())
            except (SyntaxError, ValueError, OSError):
                continue
            _visit(tree, strs, nums)
    return strs, {k: nums[k] for k in sorted(nums)}


def _visit(n, strs, nums):
    if isinstance(n, ast.Call):
        fn = n.func
        nm = fn.attr if isinstance(fn, ast.Attribute) else fn.id if isinstance(fn, ast.Name) else ""
        if nm in SKIP or nm.endswith("Error") or nm.endswith("Exception"):
            return
    if isinstance(n, (ast.Raise, ast.JoinedStr, ast.Assert)):
        return
    if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
        return
    if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)):
        for x in n.body:
            _visit(x, strs, nums)
        for x in getattr(n, "decorator_list", []):
            _visit(x, strs, nums)
        if isinstance(n, ast.FunctionDef):
            for x in n.args.defaults + n.args.kw_defaults:
                if x is not None:
                    _visit(x, strs, nums)
        return
    if isinstance(n, ast.AnnAssign):
        if n.value is not None:
            _visit(n.value, strs, nums)
        return
    if isinstance(n, ast.Constant):
        v = n.value
        if isinstance(v, bytes):
            v = v.decode("latin-1")
        if isinstance(v, str) and PLAIN.match(v) and not v.startswith("__"):
            strs[v] = strs.get(v, 0) + 1
        elif isinstance(v, int) and not isinstance(v, bool) and 8 <= v <= 70000:
            nums[v] = nums.get(v, 0) + 1
        return
    if isinstance(n, ast.BinOp) and isinstance(n.left, ast.Constant) and isinstance(n.right, ast.Constant):
        try:
            v = eval(compile(ast.Expression(n), "", "eval"), {"__builtins__": {}})
        except Exception:
            v = None
        if isinstance(v, int) and 8 <= v <= 70000:
            nums[v] = nums.get(v, 0) + 1
    for x in ast.iter_child_nodes(n):
        _visit(x, strs, nums)


_memo = []


def strings():
    """string constants outside messages and documentation"""
    if not _memo:
        _memo.append(_scan())
    return _memo[0][0]


def numbers():
    """integer constants from 8 to 70000"""
    if not _memo:
        _memo.append(_scan())
    return _memo[0][1]


def new_numbers():
    """integer constants that the standard's algorithms do not explain"""
    return [n for n, k in numbers().items() if k > BASE_NUMS.get(n, 0)]


def words(limit=130):
    """string constants worth trying as text"""
    out = []
    for t in strings():
        for s in [t] + (t.split() if " " in t else []):
            if re.match(r"^[A-Z][A-Z0-9]+_|^[A-Z][A-Za-z0-9]*Error$|.*%[rs]|.*[\ud800-\udfff]", s) or s in BASE_WORDS or s in out:
                continue
            out.append(s)
    return out[:limit]


def sizes(limit=14, top=10000):
    """thresholds to put that many characters or parts around"""
    return [n for n in new_numbers() if 17 <= n <= top][:limit]


# constants the parser's standard behaviour needs anyway, and names of the API;
# the ordinary scenarios are built around them
BASE_WORDS = frozenset("""utf_8 u8 utf utf8 cp65001 utf_16_be utf-16be utf-16-be utf_16_le utf-16le utf-16-le utf_16 utf-16 u16 utf16
utf-8 undefined data uri-schemes-1.csv.gz rt surrogatepass replace strict xmlcharrefreplace stacklevel validity
BasicURLParser Host HostValidator IDNA Origin URL URLParserState URLRecord URLSearchParams URLValidator ValidityState parse_qsl parse_url
string_percent_decode string_percent_encode urlencode urlparse utf8_decode utf8_encode utf8_percent_encode""".split()) | {"URI Scheme", "shttp (OBSOLETE)"} | frozenset(r"""
%  ' ?`{} /:;=@[\]^| $%&+, !'()~ . %2e %2E .. .%2e .%2E %2e. %2E. %2e%2e %2e%2E %2E%2e %2E%2E : !$&'()*+,-./:;=?@_~ :| & = + /\?# ~ %7E &#
@ ; # [ ] [{}] | 0x 0X 0 :: // /. ? %40 /?# \ /\ ?# / +-. [\t\x0a\x0d] %[^%]* ((\w+-)+(\w+)):""".split()) | set("\U0010fffd\xa0\ufdd0\ufdef\uffff")
BASE_NUMS = {8: 5, 10: 2, 11: 1, 16: 3, 21: 1, 32: 3, 80: 2, 127: 1, 255: 4, 256: 6, 443: 2, 65535: 1}


# the hole of a long template
FEW = ("x", 1, "[a/?#&=%+ .:@\\~\u3042]")


def urls():
    """templates with every constant in every component"""
    out = []
    X = ("x", 1)
    for w in words():
        out += [("w-host-" + w, ["http://", w, "/"]), ("w-hostx-" + w, ["http://", w, X, "/"]), ("w-xhost-" + w, ["http://", X, w, ":8/"]),
                ("w-all-" + w, ["http://h/", w, "/", w, "?", w, "=", w, "&", w, "#", w]), ("w-allx-" + w, ["https://h/", w, X, "?", w, X, "#", w, X]),
                ("w-xall-" + w, ["http://h/a/", X, w, "?", X, w, "#", X, w]), ("w-web-" + w, ["web://", w, ":", w, "@", w, ":8/", w]), ("w-cred-" + w, ["http://", w, ":", w, "@h/"]),
                ("w-credx-" + w, ["http://u", w, X, "@h/"]), ("w-scheme-" + w, [w, "://h/a?", w]), ("w-schemex-" + w, [w, X, ":80/"]), ("w-schemep-" + w, [w, "http://h/"]), ("w-schemes-" + w, ["http", w, "://h/"]), ("w-opaque-" + w, ["web:", w, "?", w]),
                ("w-opaquex-" + w, ["web:", X, w]), ("w-sopaque-" + w, [w, ":", X]), ("w-file-" + w, ["file://", w, "/", w]), ("w-filex-" + w, ["file:///", w, "/", X])]
        if w.lower() != w.upper():
            out += [("w-case-" + w, [w.swapcase(), "://", w.swapcase(), "/", w.swapcase(), "?", w.swapcase()])]
    big = [n for n in new_numbers() if n > 10000]
    if big:
        a = "a" * (max(big) + 2)
        X = FEW
        out += [("n-big-path", ["http://h/", a, X]), ("n-big-query", ["http://h/?", a, X]), ("n-big-opaque", ["web:", a, X]), ("n-big-frag", ["web:#", a, X])]
    for n in sizes():
        X = ("x", 1) if n <= 300 else FEW
        for k in (n - 1, n, n + 1):
            a = "a" * k
            if k <= 10000:
                out += [("n-all-%d" % k, ["http://", a, ":", a, "@h/", a, "?", a, "#", a, X])]
            out += [("n-path-%d" % k, ["http://h/", a, X]), ("n-query-%d" % k, ["http://h/?", a, X]), ("n-frag-%d" % k, ["http://h/#", a, X]), ("n-opaque-%d" % k, ["web:", a, X]),
                    ("n-ohost-%d" % k, ["web://", a, X, "/"]), ("n-user-%d" % k, ["web://", a, X, "@h"]), ("n-pass-%d" % k, ["web://u:", a, X, "@h"]), ("n-scheme-%d" % k, [a, X, "://h"]),
                    ("n-port0-%d" % k, ["web://h:", "0" * k, X])]
            if k <= 10000:
                out += [("n-segs-%d" % k, ["http://h", "/a" * k, X]), ("n-dots-%d" % k, ["http://h", "/.." * k, X]), ("n-slash-%d" % k, ["http:", "/" * k, X]), ("n-web-%d" % k, ["web:/.//", "a/" * k, X]), ("n-webslash-%d" % k, ["web:", "/" * k, X]), ("n-wide-%d" % k, ["http://h/", "\u3042" * k, X]), ("n-params-%d" % k, ["http://h/?", "a=1&" * k, X]),
                        ("n-at-%d" % k, ["http://", "@" * k, "h/", X]), ("n-labels-%d" % k, ["http://", "a." * k, X]), ("n-tabs-%d" % k, ["http://h/", "\t" * k, X]), ("n-pct-%d" % k, ["http://h/", "%41" * k, X])]
                if k <= 300:
                    out += [("n-host-%d" % k, ["http://", a, X, "/"])]
    X = ("x", 1)
    for v in new_numbers():
        if v:
            out += [("v-port-%d" % v, ["http://h:%d/" % v]), ("v-portx-%d" % v, ["web://h:%d" % v, X]), ("v-host-%d" % v, ["http://%d/" % v]), ("v-host4-%d" % v, ["http://1.%d/" % v])]
            if 33 <= v < 0xD800:
                out += [("v-chr-%d" % v, ["http://h/", chr(v), "?", chr(v), "#", chr(v)])]
    return _unique(out)


def values(sizes_=True):
    """texts for a single component, a reference or a parameter"""
    out = []
    X = ("x", 1)
    for w in words():
        out += [("w-" + w, [w]), ("wx-" + w, [w, X]), ("xw-" + w, [X, w]), ("ww-" + w, [w, "=", w, "&", w])]
        if w.lower() != w.upper():
            out += [("wcase-" + w, [w.swapcase()])]
    if sizes_:
        for n in sizes():
            X = ("x", 1) if n <= 300 else FEW
            for k in (n - 1, n, n + 1):
                out += [("n-%d" % k, ["a" * k, X]), ("n-b-%d" % k, [X, "a" * k]), ("n-p-%d" % k, ["a" * (k - 2), "%4", X]), ("n-w-%d" % k, ["a" * k, "\u3042", X])]
    X = ("x", 1)
    for v in new_numbers():
        if v:
            out += [("v-%d" % v, ["%d" % v]), ("v-x-%d" % v, ["%d" % v, X])]
    return _unique(out)


def _unique(out):
    seen = {}
    for nm, t in out:
        seen.setdefault(nm, (nm, t))
    return list(seen.values())
