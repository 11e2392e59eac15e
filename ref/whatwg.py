"""Reference model: the URL Standard (revision of mid 2023, the one the
library implements), written from the standard's text and independent of the
library.  It is executed symbolically next to the library's code.

Only IDNA is delegated (to ICU, like the library): UTS46 below."""
import icupy.icu as icu
from urllib.parse import quote, unquote_to_bytes

import os.path

FAIL = "failure"
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "iana_schemes.txt")) as f:
    REGISTERED = frozenset(f.read().split())
EOF = None

SPECIAL = {"ftp": 21, "file": None, "http": 80, "https": 443, "ws": 80, "wss": 443}
ALPHA = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"
DIGITS = "0123456789"
HEXD = "0123456789abcdefABCDEF"
ALNUM = ALPHA + DIGITS
C0 = "".join(map(chr, range(0x20)))
C0SP = C0 + " "
ASCII_GRAPHIC = "".join(map(chr, range(0x21, 0x7F)))
ASCII_C0SET = "".join(map(chr, range(0x20, 0x7F)))      # left alone by the C0 control set


def _safe(minus):
    return "".join(c for c in ASCII_C0SET if c not in minus)


# characters each percent-encode set leaves alone
S_C0 = ASCII_C0SET
S_FRAGMENT = _safe(" \"<>`")
S_QUERY = _safe(" \"#<>")
S_SPECIAL_QUERY = _safe(" \"#<>'")
S_PATH = _safe(" \"#<>?`{}")
S_USERINFO = _safe(" \"#<>?`{}/:;=@[\\]^|")
S_COMPONENT = _safe(" \"#<>?`{}/:;=@[\\]^|$%&+,")
S_URLENCODED = _safe(" \"#<>?`{}/:;=@[\\]^|$%&+,!'()~")

FORBIDDEN_HOST = "\0\t\n\r #/:<>?@[\\]^|"
FORBIDDEN_DOMAIN = "".join(sorted(set(FORBIDDEN_HOST + C0 + "%\x7f")))

URL_ASCII = ALNUM + "!$&'()*+,-./:;=?@_~"
NONCHARS = "".join(map(chr, range(0xFDD0, 0xFDF0))) + "".join(
    chr((p << 16) | x) for p in range(17) for x in (0xFFFE, 0xFFFF))


def is_url_cp(c):
    if c < "\x80":
        return c in URL_ASCII
    return c >= "\xa0" and c not in NONCHARS


def penc(s, safe):
    """UTF-8 percent-encode a string using a percent-encode set"""
    r = quote(s, safe)
    if "~" not in safe:
        r = r.replace("~", "%7E")
    return r


def to_usv(s):
    """convert to a scalar value string"""
    out = []
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if "\ud800" <= c <= "\udbff":
            if i + 1 < n and "\udc00" <= s[i + 1] <= "\udfff":
                out.append(chr(0x10000 + (ord(c) - 0xD800) * 0x400 + (ord(s[i + 1]) - 0xDC00)))
                i += 2
                continue
            out.append("\ufffd")
        elif "\udc00" <= c <= "\udfff":
            out.append("\ufffd")
        else:
            out.append(c)
        i += 1
    return "".join(out)


def err(errs, name):
    if errs is not None:
        errs.append(name)


# ------------------------------------------------------------------ hosts
OPT = int(icu.UIDNA_CHECK_BIDI) | int(icu.UIDNA_CHECK_CONTEXTJ) | int(icu.UIDNA_NONTRANSITIONAL_TO_ASCII) | int(
    icu.UIDNA_NONTRANSITIONAL_TO_UNICODE)
HYPHENS = int(icu.UIDNA_ERROR_LEADING_HYPHEN) | int(icu.UIDNA_ERROR_TRAILING_HYPHEN) | int(icu.UIDNA_ERROR_HYPHEN_3_4)
DNSLEN = int(icu.UIDNA_ERROR_EMPTY_LABEL) | int(icu.UIDNA_ERROR_LABEL_TOO_LONG) | int(
    icu.UIDNA_ERROR_DOMAIN_NAME_TOO_LONG)


def u16(s):
    n = 0
    for c in s:
        n = n + (2 if c > "\uffff" else 1)
    return icu.UnicodeString(s, n)


def domain_to_ascii(domain, strict=False):
    o = OPT
    if strict:
        o = o | int(icu.UIDNA_USE_STD3_RULES)
    inst = icu.IDNA.create_uts46_instance(o)
    info = icu.IDNAInfo()
    dest = icu.UnicodeString()
    inst.name_to_ascii(u16(domain), dest, info)
    bad = info.get_errors() & ~HYPHENS
    if not strict:
        bad = bad & ~DNSLEN
    if bad:
        return FAIL
    r = str(dest)
    if r == "":
        return FAIL
    return (r,)


def domain_to_unicode(domain, strict=False):
    """(result, error?)"""
    o = OPT
    if strict:
        o = o | int(icu.UIDNA_USE_STD3_RULES)
    inst = icu.IDNA.create_uts46_instance(o)
    info = icu.IDNAInfo()
    dest = icu.UnicodeString()
    inst.name_to_unicode(u16(domain), dest, info)
    bad = info.get_errors() & ~HYPHENS
    if not strict:
        bad = bad & ~DNSLEN
    return str(dest), bad


def contains_any(s, chars):
    return any(c in chars for c in s)


def host_parse(inp, opaque, errs=None):
    """('domain'|'opaque', str) | ('ipv4', int) | ('ipv6', tuple) | FAIL"""
    if inp[:1] == "[":
        if inp[-1:] != "]":
            err(errs, "IPv6-unclosed")
            return FAIL
        return ipv6_parse(inp[1:-1], errs)
    if opaque:
        return opaque_host_parse(inp, errs)
    domain = unquote_to_bytes(inp).decode("utf-8", "replace")
    r = domain_to_ascii(domain)
    if r == FAIL:
        err(errs, "domain-to-ASCII")
        return FAIL
    a = r[0]
    if contains_any(a, FORBIDDEN_DOMAIN):
        err(errs, "domain-invalid-code-point")
        return FAIL
    if ends_in_number(a):
        return ipv4_parse(a, errs)
    return ("domain", a)


def opaque_host_parse(inp, errs=None):
    if contains_any(inp, FORBIDDEN_HOST):
        err(errs, "host-invalid-code-point")
        return FAIL
    if errs is not None:
        check_units(inp, errs)
    return ("opaque", penc(inp, S_C0))


def check_units(s, errs):
    """one invalid-URL-unit per offending code point or %"""
    for i in range(len(s)):
        check_unit(s, i, errs)


def check_unit(s, i, errs):
    c = s[i]
    if c == "%":
        if not (len(s) > i + 2 and s[i + 1] in HEXD and s[i + 2] in HEXD):
            errs.append("invalid-URL-unit")
    elif not is_url_cp(c):
        errs.append("invalid-URL-unit")


def ends_in_number(s):
    parts = s.split(".")
    if parts[-1] == "":
        if len(parts) == 1:
            return False
        parts.pop()
    last = parts[-1]
    if last != "" and all(c in DIGITS for c in last):
        return True
    return ipv4_number(last) != FAIL


def ipv4_number(s):
    """(value, non-decimal?) or FAIL"""
    if s == "":
        return FAIL
    nd = False
    radix = 10
    if len(s) >= 2 and s[0] == "0" and s[1] in "xX":
        nd = True
        s = s[2:]
        radix = 16
    elif len(s) >= 2 and s[0] == "0":
        nd = True
        s = s[1:]
        radix = 8
    if s == "":
        return (0, True)
    digs = HEXD if radix == 16 else DIGITS if radix == 10 else "01234567"
    if not all(c in digs for c in s):
        return FAIL
    return (number(s, radix), nd)


def number(s, radix):
    if len(s) > 40:
        s = s.lstrip("0")
        if len(s) > 40:
            return 1 << 100
        if s == "":
            return 0
    return int(s, radix)


def ipv4_parse(s, errs=None):
    parts = s.split(".")
    if parts[-1] == "":
        err(errs, "IPv4-empty-part")
        if len(parts) > 1:
            parts.pop()
    if len(parts) > 4:
        err(errs, "IPv4-too-many-parts")
        return FAIL
    nums = []
    for p in parts:
        r = ipv4_number(p)
        if r == FAIL:
            err(errs, "IPv4-non-numeric-part")
            return FAIL
        if r[1]:
            err(errs, "IPv4-non-decimal-part")
        nums.append(r[0])
    if errs is not None and any(n > 255 for n in nums):
        errs.append("IPv4-out-of-range-part")
    for n in nums[:-1]:
        if n > 255:
            return FAIL
    if nums[-1] >= 256 ** (5 - len(nums)):
        return FAIL
    v = nums[-1]
    k = 0
    for n in nums[:-1]:
        v = v + n * 256 ** (3 - k)
        k += 1
    return ("ipv4", v)


def at(s, i):
    return s[i] if i < len(s) else EOF


def is_hex(c):
    return c is not None and c in HEXD


def is_digit(c):
    return c is not None and c in DIGITS


def ipv6_parse(s, errs=None):
    addr = [0] * 8
    piece = 0
    compress = None
    p = 0
    if at(s, p) == ":":
        if at(s, p + 1) != ":":
            err(errs, "IPv6-invalid-compression")
            return FAIL
        p += 2
        piece += 1
        compress = piece
    while at(s, p) is not EOF:
        if piece == 8:
            err(errs, "IPv6-too-many-pieces")
            return FAIL
        if at(s, p) == ":":
            if compress is not None:
                err(errs, "IPv6-multiple-compression")
                return FAIL
            p += 1
            piece += 1
            compress = piece
            continue
        start = p
        n = 0
        while n < 4 and is_hex(at(s, p)):
            p += 1
            n += 1
        value = int(s[start:p], 16) if n else 0
        if at(s, p) == ".":
            if n == 0:
                err(errs, "IPv4-in-IPv6-invalid-code-point")
                return FAIL
            p -= n
            if piece > 6:
                err(errs, "IPv4-in-IPv6-too-many-pieces")
                return FAIL
            seen = 0
            while at(s, p) is not EOF:
                v4 = None
                if seen > 0:
                    if at(s, p) == "." and seen < 4:
                        p += 1
                    else:
                        err(errs, "IPv4-in-IPv6-invalid-code-point")
                        return FAIL
                if not is_digit(at(s, p)):
                    err(errs, "IPv4-in-IPv6-invalid-code-point")
                    return FAIL
                while is_digit(at(s, p)):
                    d = int(at(s, p))
                    if v4 is None:
                        v4 = d
                    elif v4 == 0:
                        err(errs, "IPv4-in-IPv6-invalid-code-point")
                        return FAIL
                    else:
                        v4 = v4 * 10 + d
                    if v4 > 255:
                        err(errs, "IPv4-in-IPv6-out-of-range-part")
                        return FAIL
                    p += 1
                addr[piece] = addr[piece] * 256 + v4
                seen += 1
                if seen == 2 or seen == 4:
                    piece += 1
            if seen != 4:
                err(errs, "IPv4-in-IPv6-too-few-parts")
                return FAIL
            break
        elif at(s, p) == ":":
            p += 1
            if at(s, p) is EOF:
                err(errs, "IPv6-invalid-code-point")
                return FAIL
        elif at(s, p) is not EOF:
            err(errs, "IPv6-invalid-code-point")
            return FAIL
        addr[piece] = value
        piece += 1
    if compress is not None:
        swaps = piece - compress
        piece = 7
        while piece != 0 and swaps > 0:
            j = compress + swaps - 1
            addr[piece], addr[j] = addr[j], addr[piece]
            piece -= 1
            swaps -= 1
    elif piece != 8:
        err(errs, "IPv6-too-few-pieces")
        return FAIL
    return ("ipv6", tuple(addr))


def host_serialize(h):
    if h is None:
        return ""
    kind, v = h
    if kind == "ipv4":
        return ipv4_serialize(v)
    if kind == "ipv6":
        return "[" + ipv6_serialize(v) + "]"
    return v


def ipv4_serialize(v):
    return f"{v // 16777216}.{v // 65536 % 256}.{v // 256 % 256}.{v % 256}"


def ipv6_serialize(a):
    best, blen = None, 1
    i = 0
    while i < 8:
        if a[i] == 0:
            j = i
            while j < 8 and a[j] == 0:
                j += 1
            if j - i > blen:
                best, blen = i, j - i
            i = j
        else:
            i += 1
    out = ""
    ignore0 = False
    for i in range(8):
        if ignore0 and a[i] == 0:
            continue
        ignore0 = False
        if best == i:
            out += "::" if i == 0 else ":"
            ignore0 = True
            continue
        out += format(a[i], "x")
        if i != 7:
            out += ":"
    return out


EMPTY = ("empty", "")


# ------------------------------------------------------------------ URLs
class Url:
    def __init__(self):
        self.scheme = ""
        self.username = ""
        self.password = ""
        self.host = None
        self.port = None
        self.path = []
        self.query = None
        self.fragment = None

    def copy(self):
        u = Url()
        u.scheme, u.username, u.password, u.host, u.port = self.scheme, self.username, self.password, self.host, self.port
        u.path = self.path if self.opaque() else list(self.path)
        u.query, u.fragment = self.query, self.fragment
        return u

    def special(self):
        return self.scheme in SPECIAL

    def opaque(self):
        return not isinstance(self.path, list)

    def creds(self):
        return self.username != "" or self.password != ""

    def cannot_have_cred_port(self):
        return self.host is None or self.host == EMPTY or self.scheme == "file"

    def shorten(self):
        if self.scheme == "file" and len(self.path) == 1 and is_nwdl(self.path[0]):
            return
        if self.path:
            self.path.pop()

    def hostname(self):
        return host_serialize(self.host)

    def pathname(self):
        if self.opaque():
            return self.path
        return "".join(["/" + s for s in self.path])

    def href(self, nofrag=False):
        out = self.scheme + ":"
        if self.host is not None:
            out += "//"
            if self.creds():
                out += self.username
                if self.password != "":
                    out += ":" + self.password
                out += "@"
            out += self.hostname()
            if self.port is not None:
                out += ":" + str(self.port)
        elif not self.opaque() and len(self.path) > 1 and self.path[0] == "":
            out += "/."
        out += self.pathname()
        if self.query is not None:
            out += "?" + self.query
        if not nofrag and self.fragment is not None:
            out += "#" + self.fragment
        return out

    def netloc(self):
        out = ""
        if self.creds():
            out += self.username
            if self.password != "":
                out += ":" + self.password
            out += "@"
        out += self.hostname()
        if self.port is not None:
            out += ":" + str(self.port)
        return out

    def comps(self):
        return (self.scheme, self.username, self.password, None if self.host is None else self.hostname(), self.port,
                self.pathname(), self.opaque(), self.query, self.fragment)

    def origin(self):
        """(scheme, host, port) or None for an opaque origin"""
        if self.scheme == "blob":
            u = parse(self.pathname())
            if u == FAIL:
                return None
            if u.scheme == "http" or u.scheme == "https" or u.scheme == "file":
                return u.origin()
            return None
        if self.scheme in ("ftp", "http", "https", "ws", "wss"):
            return (self.scheme, self.hostname(), self.port)
        return None

    def origin_str(self):
        o = self.origin()
        if o is None:
            return "null"
        r = o[0] + "://" + o[1]
        if o[2] is not None:
            r += ":" + str(o[2])
        return r


def is_wdl(s):
    return len(s) == 2 and s[0] in ALPHA and s[1] in ":|"


def is_nwdl(s):
    return len(s) == 2 and s[0] in ALPHA and s[1] == ":"


def starts_wdl(s, p):
    if len(s) - p < 2:
        return False
    if not (s[p] in ALPHA and s[p + 1] in ":|"):
        return False
    return len(s) - p == 2 or s[p + 2] in "/\\?#"


def is_single_dot(s):
    return s in (".", "%2e", "%2E")


def is_double_dot(s):
    return s in ("..", ".%2e", ".%2E", "%2e.", "%2E.", "%2e%2e", "%2e%2E", "%2E%2e", "%2E%2E")


TABNL = "\t\n\r"


def parse(inp, base=None, encoding="utf-8", errs=None):
    """base: Url or None; -> Url or FAIL"""
    s = inp.lstrip(C0SP).rstrip(C0SP)
    if errs is not None and len(s) != len(inp):
        errs.append("invalid-URL-unit")
    return run(s, base, Url(), None, encoding, errs)


def run(inp, base, url, override, encoding="utf-8", errs=None):
    """the basic URL parser's state machine.  With override: modifies url and
    returns FAIL or None; otherwise returns url or FAIL"""
    chars = [c for c in inp if c not in TABNL]
    if errs is not None and len(chars) != len(inp):
        errs.append("invalid-URL-unit")
    s = "".join(chars)
    n = len(chars)
    state = override or "scheme start"
    ov = override is not None
    buf = ""
    at_seen = inside = pw_seen = False
    p = 0
    while True:
        c = chars[p] if 0 <= p < n else EOF
        if state == "scheme start":
            if c is not None and c in ALPHA:
                buf += c.lower()
                state = "scheme"
            elif not ov:
                state = "no scheme"
                p -= 1
            else:
                return FAIL
        elif state == "scheme":
            if c is not None and (c in ALNUM or c in "+-."):
                buf += c.lower()
            elif c == ":":
                if ov:
                    if (url.scheme in SPECIAL) != (buf in SPECIAL):
                        return None
                    if (url.creds() or url.port is not None) and buf == "file":
                        return None
                    if url.scheme == "file" and url.host == EMPTY:
                        return None
                url.scheme = buf
                if ov:
                    if url.port is not None and buf in SPECIAL and SPECIAL[buf] is not None and url.port == SPECIAL[buf]:
                        url.port = None
                    return None
                buf = ""
                if url.scheme == "file":
                    if not (n > p + 2 and chars[p + 1] == "/" and chars[p + 2] == "/"):
                        err(errs, "special-scheme-missing-following-solidus")
                    state = "file"
                elif url.special() and base is not None and base.scheme == url.scheme:
                    state = "special relative or authority"
                elif url.special():
                    state = "special authority slashes"
                elif n > p + 1 and chars[p + 1] == "/":
                    state = "path or authority"
                    p += 1
                else:
                    url.path = ""
                    state = "opaque path"
            elif not ov:
                buf = ""
                state = "no scheme"
                p = -1
            else:
                return FAIL
        elif state == "no scheme":
            if base is None or (base.opaque() and c != "#"):
                err(errs, "missing-scheme-non-relative-URL")
                return FAIL
            if base.opaque():
                url.scheme = base.scheme
                url.path = base.path
                url.query = base.query
                url.fragment = ""
                state = "fragment"
            elif base.scheme != "file":
                state = "relative"
                p -= 1
            else:
                state = "file"
                p -= 1
        elif state == "special relative or authority":
            if c == "/" and n > p + 1 and chars[p + 1] == "/":
                state = "special authority ignore slashes"
                p += 1
            else:
                err(errs, "special-scheme-missing-following-solidus")
                state = "relative"
                p -= 1
        elif state == "path or authority":
            if c == "/":
                state = "authority"
            else:
                state = "path"
                p -= 1
        elif state == "relative":
            url.scheme = base.scheme
            if c == "/":
                state = "relative slash"
            elif url.special() and c == "\\":
                err(errs, "invalid-reverse-solidus")
                state = "relative slash"
            else:
                url.username, url.password, url.host, url.port = base.username, base.password, base.host, base.port
                url.path = list(base.path)
                url.query = base.query
                if c == "?":
                    url.query = ""
                    state = "query"
                elif c == "#":
                    url.fragment = ""
                    state = "fragment"
                elif c is not None:
                    url.query = None
                    url.shorten()
                    state = "path"
                    p -= 1
        elif state == "relative slash":
            if url.special() and (c == "/" or c == "\\"):
                if errs is not None and c == "\\":
                    errs.append("invalid-reverse-solidus")
                state = "special authority ignore slashes"
            elif c == "/":
                state = "authority"
            else:
                url.username, url.password, url.host, url.port = base.username, base.password, base.host, base.port
                state = "path"
                p -= 1
        elif state == "special authority slashes":
            if c == "/" and n > p + 1 and chars[p + 1] == "/":
                state = "special authority ignore slashes"
                p += 1
            else:
                err(errs, "special-scheme-missing-following-solidus")
                state = "special authority ignore slashes"
                p -= 1
        elif state == "special authority ignore slashes":
            if c != "/" and c != "\\":
                state = "authority"
                p -= 1
            else:
                err(errs, "special-scheme-missing-following-solidus")
        elif state == "authority":
            if c == "@":
                err(errs, "invalid-credentials")
                if at_seen:
                    buf = "%40" + buf
                at_seen = True
                for x in buf:
                    if not pw_seen and x == ":":
                        pw_seen = True
                        continue
                    if pw_seen:
                        url.password += penc(x, S_USERINFO)
                    else:
                        url.username += penc(x, S_USERINFO)
                buf = ""
            elif c is None or c in "/?#" or (url.special() and c == "\\"):
                if at_seen and buf == "":
                    err(errs, "host-missing")
                    return FAIL
                p -= len(buf) + 1
                buf = ""
                state = "host"
            else:
                buf += c
        elif state == "host" or state == "hostname":
            if ov and url.scheme == "file":
                p -= 1
                state = "file host"
            elif c == ":" and not inside:
                if buf == "":
                    err(errs, "host-missing")
                    return FAIL
                if override == "hostname":
                    return None
                h = host_parse(buf, not url.special(), errs)
                if h == FAIL:
                    return FAIL
                url.host = h
                buf = ""
                state = "port"
            elif c is None or c in "/?#" or (url.special() and c == "\\"):
                p -= 1
                if url.special() and buf == "":
                    err(errs, "host-missing")
                    return FAIL
                if ov and buf == "" and (url.creds() or url.port is not None):
                    return None
                h = EMPTY if buf == "" else host_parse(buf, not url.special(), errs)
                if h == FAIL:
                    return FAIL
                url.host = h
                buf = ""
                state = "path start"
                if ov:
                    return None
            else:
                if c == "[":
                    inside = True
                elif c == "]":
                    inside = False
                buf += c
        elif state == "port":
            if c is not None and c in DIGITS:
                buf += c
            elif c is None or c in "/?#" or (url.special() and c == "\\") or ov:
                if buf != "":
                    port = number(buf, 10)
                    if port > 65535:
                        err(errs, "port-out-of-range")
                        return FAIL
                    d = SPECIAL.get(url.scheme)
                    if d is not None and port == d:
                        url.port = None
                    else:
                        url.port = port
                    buf = ""
                if ov:
                    return None
                state = "path start"
                p -= 1
            else:
                err(errs, "port-invalid")
                return FAIL
        elif state == "file":
            url.scheme = "file"
            url.host = EMPTY
            if c == "/" or c == "\\":
                if errs is not None and c == "\\":
                    errs.append("invalid-reverse-solidus")
                state = "file slash"
            elif base is not None and base.scheme == "file":
                url.host = base.host
                url.path = list(base.path)
                url.query = base.query
                if c == "?":
                    url.query = ""
                    state = "query"
                elif c == "#":
                    url.fragment = ""
                    state = "fragment"
                elif c is not None:
                    url.query = None
                    if not starts_wdl(s, p):
                        url.shorten()
                    else:
                        err(errs, "file-invalid-Windows-drive-letter")
                        url.path = []
                    state = "path"
                    p -= 1
            else:
                state = "path"
                p -= 1
        elif state == "file slash":
            if c == "/" or c == "\\":
                if errs is not None and c == "\\":
                    errs.append("invalid-reverse-solidus")
                state = "file host"
            else:
                if base is not None and base.scheme == "file":
                    url.host = base.host
                    if not starts_wdl(s, p if p <= n else n) and base.path and is_nwdl(base.path[0]):
                        url.path.append(base.path[0])
                state = "path"
                p -= 1
        elif state == "file host":
            if c is None or c in "/\\?#":
                p -= 1
                if not ov and is_wdl(buf):
                    err(errs, "file-invalid-Windows-drive-letter-host")
                    state = "path"
                elif buf == "":
                    url.host = EMPTY
                    if ov:
                        return None
                    state = "path start"
                else:
                    h = host_parse(buf, not url.special(), errs)
                    if h == FAIL:
                        return FAIL
                    if h[0] == "domain" and h[1] == "localhost":
                        h = EMPTY
                    url.host = h
                    if ov:
                        return None
                    buf = ""
                    state = "path start"
            else:
                buf += c
        elif state == "path start":
            if url.special():
                if errs is not None and c == "\\":
                    errs.append("invalid-reverse-solidus")
                state = "path"
                if c != "/" and c != "\\":
                    p -= 1
            elif not ov and c == "?":
                url.query = ""
                state = "query"
            elif not ov and c == "#":
                url.fragment = ""
                state = "fragment"
            elif c is not None:
                state = "path"
                if c != "/":
                    p -= 1
            elif ov and url.host is None:
                url.path.append("")
        elif state == "path":
            slash = c == "/" or (url.special() and c == "\\")
            if c is None or slash or (not ov and (c == "?" or c == "#")):
                if errs is not None and url.special() and c == "\\":
                    errs.append("invalid-reverse-solidus")
                if is_double_dot(buf):
                    url.shorten()
                    if not slash:
                        url.path.append("")
                elif is_single_dot(buf):
                    if not slash:
                        url.path.append("")
                else:
                    if url.scheme == "file" and not url.path and is_wdl(buf):
                        buf = buf[0] + ":"
                    url.path.append(buf)
                buf = ""
                if c == "?":
                    url.query = ""
                    state = "query"
                elif c == "#":
                    url.fragment = ""
                    state = "fragment"
            else:
                if errs is not None:
                    check_unit(s, p, errs)
                buf += penc(c, S_PATH)
        elif state == "opaque path":
            if c == "?":
                url.query = ""
                state = "query"
            elif c == "#":
                url.fragment = ""
                state = "fragment"
            elif c is not None:
                if errs is not None:
                    check_unit(s, p, errs)
                url.path += penc(c, S_C0)
        elif state == "query":
            if c is None or (not ov and c == "#"):
                enc = encoding
                if not url.special() or url.scheme in ("ws", "wss"):
                    enc = "utf-8"
                url.query += encode_query(buf, enc, S_SPECIAL_QUERY if url.special() else S_QUERY)
                buf = ""
                if c == "#":
                    url.fragment = ""
                    state = "fragment"
            else:
                if errs is not None:
                    check_unit(s, p, errs)
                buf += c
        elif state == "fragment":
            if c is not None:
                if errs is not None:
                    check_unit(s, p, errs)
                url.fragment += penc(c, S_FRAGMENT)
        if p >= n:
            break
        p += 1
    return None if ov else url


UTF_NAMES = ("utf-8", "utf_8", "utf8", "utf-16", "utf_16", "utf16", "utf-16le", "utf-16-le", "utf_16_le", "utf-16be", "utf-16-be",
             "utf_16_be", "u16", "u8", "utf", "cp65001")


def encode_query(s, enc, safe):
    if enc.lower() in UTF_NAMES:
        return penc(s, safe)
    out = ""
    for c in s:
        try:
            b = c.encode(enc)
        except UnicodeEncodeError:
            out += "%26%23" + str(ord(c)) + "%3B"
            continue
        for x in b:
            if x < 128 and chr(x) in safe:
                out += chr(x)
            else:
                out += "%" + format(x, "02X")
    return out


# ------------------------------------------------------------------ setters
def strip_opaque(url):
    if not url.opaque() or url.fragment is not None or url.query is not None:
        return
    url.path = url.path.rstrip(" ")


class Api:
    """the URL class: url record and query object list"""

    def __init__(self, url):
        self.url = url
        self.sp = parse_qs(url.query) if url.query is not None else []

    def set_protocol(self, v):
        return run(v + ":", None, self.url, "scheme start")

    def set_username(self, v):
        if not self.url.cannot_have_cred_port():
            self.url.username = penc(v, S_USERINFO)

    def set_password(self, v):
        if not self.url.cannot_have_cred_port():
            self.url.password = penc(v, S_USERINFO)

    def set_host(self, v):
        if not self.url.opaque():
            return run(v, None, self.url, "host")

    def set_hostname(self, v):
        if not self.url.opaque():
            return run(v, None, self.url, "hostname")

    def set_port(self, v):
        if self.url.cannot_have_cred_port():
            return None
        if v == "":
            self.url.port = None
        else:
            return run(v, None, self.url, "port")

    def set_pathname(self, v):
        if not self.url.opaque():
            self.url.path = []
            return run(v, None, self.url, "path start")

    def set_search(self, v):
        if v == "":
            self.url.query = None
            self.sp = []
            strip_opaque(self.url)
            return
        if v[:1] == "?":
            v = v[1:]
        self.url.query = ""
        run(v, None, self.url, "query")
        self.sp = parse_qs(v)

    def set_hash(self, v):
        if v == "":
            self.url.fragment = None
            strip_opaque(self.url)
            return
        if v[:1] == "#":
            v = v[1:]
        self.url.fragment = ""
        run(v, None, self.url, "fragment")

    def set_href(self, v):
        u = parse(v)
        if u == FAIL:
            return FAIL
        self.url = u
        self.sp = parse_qs(u.query) if u.query is not None else []

    def update(self):
        q = serialize_qs(self.sp)
        self.url.query = q if q != "" else None
        if q == "":
            strip_opaque(self.url)

    def set(self, name, v):
        return getattr(self, "set_" + name)(v)


# ------------------------------------------------------------------ urlencoded
def parse_qs(s):
    return parse_qs_bytes(s.encode("utf-8"))


def parse_qs_bytes(b):
    out = []
    for seq in b.split(b"&"):
        if seq == b"":
            continue
        name, eq, value = seq.partition(b"=")
        name = name.replace(b"+", b" ")
        value = value.replace(b"+", b" ")
        out.append((unquote_to_bytes(name).decode("utf-8", "replace"), unquote_to_bytes(value).decode("utf-8", "replace")))
    return out


def form_encode(s):
    out = penc(s, S_URLENCODED + " ")
    return out.replace(" ", "+")


def serialize_qs(pairs):
    out = ""
    first = True
    for n, v in pairs:
        if not first:
            out += "&"
        first = False
        out += form_encode(n) + "=" + form_encode(v)
    return out


def percent_decode(b):
    out = []
    i = 0
    n = len(b)
    while i < n:
        if b[i] == 0x25 and i + 2 < n and b[i + 1] in HEXB and b[i + 2] in HEXB:
            out.append(int(b[i + 1:i + 3].decode("ascii"), 16))
            i += 3
        else:
            out.append(b[i])
            i += 1
    return bytes(out)


HEXB = frozenset(b"0123456789abcdefABCDEF")

