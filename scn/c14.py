"""C14: URLSearchParams operations behave as the Standard's list operations"""


def pairs_of(S, lens, dom="scalar"):
    out = []
    for i, (a, b) in enumerate(lens):
        n = a if isinstance(a, str) else S.str("n%d_" % i, a, dom)
        v = b if isinstance(b, str) else S.str("v%d_" % i, b, dom)
        out.append((n, v))
    return out


def listed(p):
    return [[n, v] for n, v in p]


def agree(S, p, m, label=""):
    """the object shows exactly the model list, through every accessor"""
    S.check_eq(listed(p), listed(m), label + "pairs in order")
    S.check_eq(len(p), len(m), label + "length")
    S.check_eq(listed(p.entries()), listed(m), label + "entries")
    S.check_eq(list(p.keys()), [n for n, v in m], label + "keys")
    S.check_eq(list(p.values()), [v for n, v in m], label + "values")
    S.check_eq([list(p[i]) for i in range(len(p))], listed(m), label + "indexing")
    k = len(m)
    S.check_eq([list(p[-i - 1]) for i in range(k)], listed(m)[::-1], label + "indexing from the end")
    S.check_eq(listed(p[:]), listed(m), label + "slice")
    S.check_eq(listed(p[::-1]), listed(m)[::-1], label + "reversed slice")
    S.check_eq(listed(p[1:]), listed(m)[1:], label + "slice from 1")
    S.check_eq(listed(p[:-1]), listed(m)[:-1], label + "slice to -1")
    S.check_eq(listed(p[-2:1:1]), listed(m)[-2:1:1], label + "slice from -2")
    for i in (k, -k - 1):
        S.check_eq(S.attempt(p.__getitem__, i).exc, "IndexError", label + "index out of range")


def m_append(m, n, v):
    return m + [(n, v)]


def m_delete(m, n, v):
    out = []
    for a, b in m:
        if a == n and (v is None or b == v):
            continue
        out.append((a, b))
    return out


def m_set(m, n, v):
    out = []
    done = False
    for a, b in m:
        if a == n:
            if not done:
                out.append((n, v))
                done = True
        else:
            out.append((a, b))
    if not done:
        out.append((n, v))
    return out


def m_has(m, n, v):
    for a, b in m:
        if a == n and (v is None or b == v):
            return True
    return False


def m_get(m, n):
    for a, b in m:
        if a == n:
            return b
    return None


def m_get_all(m, n):
    return [b for a, b in m if a == n]


def mutate(S, p, m, op, n, v):
    """v may be a number: the model holds its string form"""
    if op == "append":
        p.append(n, v)
        return m_append(m, n, str(v))
    if op == "set":
        p.set(n, v)
        return m_set(m, n, str(v))
    if op == "delete":
        p.delete(n)
        return m_delete(m, n, None)
    if op == "delete2":
        p.delete(n, v)
        return m_delete(m, n, str(v))
    if op == "delete_none":
        p.delete(n, None)
        return m_delete(m, n, None)
    if op == "delete_kw":
        p.delete(name=n, value=v)
        return m_delete(m, n, str(v))
    raise AssertionError(op)


def query(S, p, m, n, v):
    S.check_eq(p.get(n), m_get(m, n), "get")
    S.check_eq(list(p.get_all(n)), m_get_all(m, n), "get_all")
    S.check_eq(p.has(n), m_has(m, n, None), "has(name)")
    S.check_eq(p.has(n, v), m_has(m, n, str(v)), "has(name, value)")
    S.check_eq(p.has(n, None), m_has(m, n, None), "has(name, None)")
    S.check_eq(n in p, m_has(m, n, None), "in")


def num(S, kind):
    if kind == "int":
        return S.int("num", -1200, 1200)
    if kind == "digit":
        return S.int("num", 0, 9)
    return kind


def one(S, lens, op, n, v, dom="scalar", how="list"):
    """build, one operation, compare"""
    ps = pairs_of(S, lens, dom)
    p = S.u.URLSearchParams(ps if how == "list" else tuple(ps))
    m = list(ps)
    a = n if isinstance(n, str) else S.str("name", n, dom)
    b = v if isinstance(v, str) and v not in ("int", "digit") else S.str("value", v, dom) if isinstance(v, int) and not isinstance(v, bool) else num(S, v)
    if op == "query":
        query(S, p, m, a, b)
        S.observe(p.get(a), list(p.get_all(a)), p.has(a), p.has(a, b))
    else:
        m = mutate(S, p, m, op, a, b)
    S.observe(listed(p))
    agree(S, p, m)


def many(S, lens, ops, nlen, dom):
    """a sequence of operations"""
    ps = pairs_of(S, lens, dom)
    p = S.u.URLSearchParams(ps)
    m = list(ps)
    for i, op in enumerate(ops):
        a = S.str("name%d_" % i, nlen, dom)
        b = S.str("value%d_" % i, 1, dom)
        m = mutate(S, p, m, op, a, b)
    a = S.str("q", nlen, dom)
    query(S, p, m, a, "x")
    S.observe(listed(p))
    agree(S, p, m)


def build_from(S, kind, dom="scalar"):
    if kind == "copy":
        ps = pairs_of(S, [(1, 1), (1, 1)], dom)
        q = S.u.URLSearchParams(ps)
        p = S.u.URLSearchParams(q)
        agree(S, p, ps, "copy ")
        agree(S, q, ps, "original ")
    elif kind == "copy-q":
        ps = [("?" + S.str("n", 1, dom), S.str("v", 1, dom)), ("", ""), ("=", S.str("w", 1, dom))]
        p = S.u.URLSearchParams(S.u.URLSearchParams(ps))
        agree(S, p, ps, "copy ")
    elif kind == "empty":
        p = S.u.URLSearchParams()
        agree(S, p, [])
        p = S.u.URLSearchParams("")
        agree(S, p, [])
        p = S.u.URLSearchParams([])
        agree(S, p, [])
        p = S.u.URLSearchParams({})
        agree(S, p, [])
    elif kind == "dict":
        a, b = S.str("v", 2, dom), S.str("w", 1, dom)
        k = S.str("k", 1, dom)
        S.assume(k != "z")
        p = S.u.URLSearchParams({"z": a, k: b, "yy": 3})
        agree(S, p, [("z", a), (k, b), ("yy", "3")])
    elif kind == "list-lists":
        ps = pairs_of(S, [(1, 1), (2, 0)], dom)
        p = S.u.URLSearchParams([[n, v] for n, v in ps])
        agree(S, p, ps)
    elif kind == "numbers":
        k = S.int("k", -99999, 99999)
        j = S.int("j", 0, 999)
        p = S.u.URLSearchParams([(k, j), ["a", k], (j, "b")])
        agree(S, p, [(str(k), str(j)), ("a", str(k)), (str(j), "b")])
    elif kind == "floats":
        x = S.choice("x", [0.0, 1.5, -2.25, 1e21, 1e-7, 123456789.0, float("inf"), 10 ** 30])
        p = S.u.URLSearchParams([("a", x)])
        p.append("b", x)
        p.set("c", x)
        agree(S, p, [("a", str(x)), ("b", str(x)), ("c", str(x))])
        S.check(p.has("a", x), "has by number")
        p.delete("b", x)
        agree(S, p, [("a", str(x)), ("c", str(x))])
        p = S.u.URLSearchParams({"d": x})
        agree(S, p, [("d", str(x))])
    elif kind == "record":
        q = S.str("q", 2, "[a&=+b]")
        r = S.u.parse_url("http://h/?" + q)
        p = S.u.URLSearchParams(r)
        agree(S, p, S.ref.parse_qs(q))
    elif kind == "badpairs":
        x = S.str("x", 1, dom)
        o = S.attempt(S.u.URLSearchParams, [(x, x), (x,)])
        S.check_eq(o.exc, "ValueError", "a malformed pair is an error")
        o = S.attempt(S.u.URLSearchParams, [(x, x, x)])
        S.check_eq(o.exc, "ValueError", "a malformed pair is an error")
        o = S.attempt(S.u.URLSearchParams, [("a", x), x + "bc"])
        S.check_eq(o.exc, "ValueError", "a malformed pair is an error")
        return
    elif kind == "literal":
        # nothing is decoded: names and values are literal
        a = S.str("a", 3, "[%+&=?#4 ]")
        p = S.u.URLSearchParams([(a, a)])
        p.append(a, a)
        agree(S, p, [(a, a), (a, a)])
        p.set(a, "1")
        agree(S, p, [(a, "1")])
        p = S.u.URLSearchParams({a: a})
        agree(S, p, [(a, a)])
        p.delete(a)
        agree(S, p, [])
    else:
        raise AssertionError(kind)
    S.observe(listed(p))


def plus_str(S):
    """str + concatenation"""
    ps = pairs_of(S, [(1, 1), (0, 1)])
    p = S.u.URLSearchParams(ps)
    t = S.str("t", 1)
    S.check_eq(p + t, str(p) + t, "p + str")
    S.check_eq(str(p), S.ref.serialize_qs(ps), "str")
    S.observe(str(p))


OPS = ("append", "set", "delete", "delete2", "delete_none", "delete_kw", "query")


def scenarios(tier):
    from sx.dictionary import sizes, values
    d = 1 if tier == "thorough" else 0
    out = []
    for op in OPS:
        for k in range(0, 4):
            out.append(("%s/%d" % (op, k), "one", dict(lens=[(1, 1)] * k, op=op, n=1, v=1)))
        out.append(("%s/fixed" % op, "one", dict(lens=[("a", "1"), (1, "2"), ("a", 1), ("b", "1")], op=op, n=1, v=1)))
        out.append(("%s/len2" % op, "one", dict(lens=[(2, 1), (1, 2), (2, 2)], op=op, n=2, v=2)))
        out.append(("%s/len0" % op, "one", dict(lens=[(0, 1), (1, 0), (0, 0)], op=op, n=0, v=0)))
        out.append(("%s/ab" % op, "one", dict(lens=[(1, 1)] * 4, op=op, n=1, v=1, dom="[ab]")))
        out.append(("%s/tuple" % op, "one", dict(lens=[(1, 1), (1, 1)], op=op, n=1, v=1, how="tuple")))
        out.append(("%s/int" % op, "one", dict(lens=[("a", 1), ("a", 2), ("a", 3)], op=op, n=1, v="int", dom="[a0123-]")))
        out.append(("%s/digit" % op, "one", dict(lens=[(1, 1), (1, 1)], op=op, n=1, v="digit", dom="[a019]")))
        if d:
            out.append(("%s/4" % op, "one", dict(lens=[(1, 1)] * 4, op=op, n=1, v=1)))
            out.append(("%s/5ab" % op, "one", dict(lens=[(1, 1)] * 5, op=op, n=1, v=1, dom="[ab]")))
            out.append(("%s/len3" % op, "one", dict(lens=[(3, 1), (3, 3)], op=op, n=3, v=3)))
    for op in OPS:
        for k, sh in enumerate(([(1, 0), (1, 1)], [(1, 1), (1, 0)], [(1, 0), (1, 0)], [(0, 0), (0, 1)], [(0, 1), (0, 0)], [(1, 0)], [(0, 0)],
                                [(1, 0), (2, 0)], [(0, 0), (1, 0), (0, 0)])):
            for n in (0, 1):
                for v in (0, 1):
                    out.append(("%s/empty%d-%d%d" % (op, k, n, v), "one", dict(lens=sh, op=op, n=n, v=v)))
    mut = ("append", "set", "delete", "delete2")
    for a in mut:
        for b in mut:
            out.append(("seq-%s-%s" % (a, b), "many", dict(lens=[("a", "1"), ("b", "2"), ("a", "3")], ops=[a, b], nlen=1, dom="[abc1]")))
            if d:
                out.append(("seqs-%s-%s" % (a, b), "many", dict(lens=[(1, 1), (1, 1), (1, 1)], ops=[a, b], nlen=1, dom="[abc]")))
                for c in mut:
                    out.append(("seq-%s-%s-%s" % (a, b, c), "many", dict(lens=[("a", "1"), ("b", "2"), ("a", "3")], ops=[a, b, c],
                                                                       nlen=1, dom="[abc1]")))
    for k in ("copy", "copy-q", "empty", "dict", "list-lists", "numbers", "floats", "record", "badpairs", "literal"):
        out.append(("from-" + k, "build_from", dict(kind=k)))
    out.append(("plus", "plus_str", {}))
    many_ = [("abcdef"[i % 6] * (i % 4), "%d" % (i % 3)) for i in range(40)]
    for op in OPS:
        out.append(("%s/many" % op, "one", dict(lens=many_[:20] + [(1, 1)] + many_[20:], op=op, n=1, v=1, dom="[abc012]")))
        out.append(("%s/long" % op, "one", dict(lens=[("n" * 300, "v" * 300), (1, 1), ("n" * 300, "1")], op=op, n=1, v=1, dom="[n1]")))
    for nm, t in values():
        if nm.startswith(("w-", "v-", "n-")):
            s = "".join(x for x in t if isinstance(x, str))
            for op in OPS:
                out.append(("%s/%s" % (op, nm), "one", dict(lens=[(s, "1"), (1, s), (s, 1), ("b", s)], op=op, n=s, v=s)))
                out.append(("%s/v%s" % (op, nm), "one", dict(lens=[(s, s), ("a", s), (s, "")], op=op, n=s, v=1)))
    for k in sizes():
        for c in (k - 1, k, k + 1):
            if c <= 300:
                for op in OPS:
                    out.append(("%s/count%d" % (op, c), "one", dict(lens=[("ab"[i % 2], str(i % 3)) for i in range(c)] + [(1, 1)], op=op, n=1, v=1, dom="[ab1]")))
    return out
