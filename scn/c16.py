"""C16: sorting search parameters is stable and in code-unit order"""
from .c14 import pairs_of, listed


def units_le(S, a, b):
    """a <= b by UTF-16 code units, written over the encoded bytes"""
    x = S.ref.to_usv(a).encode("utf-16-be")
    y = S.ref.to_usv(b).encode("utf-16-be")
    return x <= y


def sort(S, lens, dom="scalar", url=False):
    ps = pairs_of(S, lens, dom)
    if url:
        u = S.u.URL("http://h/")
        p = u.search_params
        for n, v in ps:
            p.append(n, v)
    else:
        p = S.u.URLSearchParams(ps)
    ps = [(S.ref.to_usv(n), S.ref.to_usv(v)) for n, v in ps]
    r0 = p.sort()
    got = list(p)
    S.observe(listed(got))
    S.check(r0 is None, "sorts in place")
    S.check_eq(len(got), len(ps), "same number of pairs")
    for i in range(len(got) - 1):
        S.check(units_le(S, got[i][0], got[i + 1][0]), "names are non-decreasing by code units")
    # insertion sort on the code units is the specification of the stable order
    want = []
    for q in ps:
        k = len(want)
        while k > 0 and not units_le(S, want[k - 1][0], q[0]):
            k -= 1
        want.insert(k, q)
    S.check_eq(listed(got), listed(want), "a stable permutation")
    if url:
        S.check_eq(u.href, "http://h/?" + S.ref.serialize_qs(want), "the URL follows")


def idem(S, lens, dom):
    ps = pairs_of(S, lens, dom)
    p = S.u.URLSearchParams(ps)
    p.sort()
    a = listed(p)
    p.sort()
    S.check_eq(listed(p), a, "sorting again changes nothing")
    S.observe(a)


def scenarios(tier):
    from sx.dictionary import sizes, values
    d = 1 if tier == "thorough" else 0
    out = []
    for k in range(0, 4):
        out.append(("sort/%d" % k, "sort", dict(lens=[(1, "%d" % i) for i in range(k)])))
    out.append(("sort-ab/4", "sort", dict(lens=[(1, "%d" % i) for i in range(4 + d)], dom="[ab]")))
    out.append(("sort-ab/5", "sort", dict(lens=[(1, "%d" % i) for i in range(5)], dom="[ab]")))
    out.append(("sort-abc/4", "sort", dict(lens=[(1, "%d" % i) for i in range(4)], dom="[abc]")))
    out.append(("sort-values", "sort", dict(lens=[(1, 1), (1, 1)])))
    out.append(("sort-values3", "sort", dict(lens=[("a", 1), ("a", 1), (1, 1)])))
    out.append(("sort-len2", "sort", dict(lens=[(2, "x"), (2, "y")])))
    out.append(("sort-mixed", "sort", dict(lens=[(2, "x"), (1, "y"), (0, "z")], dom="[\uffff\U00010000\ud7ffa\U0010ffff\ue000]")))
    out.append(("sort-lens", "sort", dict(lens=[(1, "x"), (2, "y")])))
    out.append(("sort-prefix", "sort", dict(lens=[(2, "x"), (1, "y"), (2, "z")], dom="[ab]")))
    out.append(("sort-planes", "sort", dict(lens=[(1, "x"), (1, "y"), (1, "z")], dom="[\ud7ff\ue000\uffff\U00010000\U0010ffff]")))
    out.append(("sort-case", "sort", dict(lens=[(2, "x"), (2, "y")], dom="[aAbB]")))
    out.append(("sort-any", "sort", dict(lens=[(1, "x"), (1, "y")], dom="any")))
    out.append(("sort-url", "sort", dict(lens=[(1, "x"), (1, "y")], dom="scalar", url=True)))
    out.append(("sort-url-ab", "sort", dict(lens=[(1, 1), (1, 1), (1, 1)], dom="[ab]", url=True)))
    out.append(("idem", "idem", dict(lens=[(1, "x"), (1, "y")], dom="scalar")))
    if d:
        out.append(("sort/4", "sort", dict(lens=[(1, "%d" % i) for i in range(4)])))
        out.append(("sort-len2x3", "sort", dict(lens=[(2, "x"), (2, "y"), (2, "z")])))
        out.append(("sort-len3", "sort", dict(lens=[(3, "x"), (3, "y")])))
        out.append(("sort-ab/6", "sort", dict(lens=[(1, "%d" % i) for i in range(6)], dom="[ab]")))
    import random
    rnd = random.Random(7)
    names = [rnd.choice(["a", "b", "\uffff", "\U00010000", "ab", "", "B", "z"]) for i in range(60)]
    out.append(("sort-many", "sort", dict(lens=[(n, "%d" % i) for i, n in enumerate(names[:30])] + [(1, "x")] + [(n, "-%d" % i) for i, n in enumerate(names[30:])])))
    vs = ["", "x" * 9, "y", "z" * 300, "wx", "\U00010000" * 20, "0" * 40]
    out.append(("sort-vlens", "sort", dict(lens=[(1, v) for v in vs[:4]], dom="[ab]")))
    out.append(("sort-vlens2", "sort", dict(lens=[(1, v) for v in vs[::-1][:4]], dom="[ab]")))
    out.append(("sort-vlens3", "sort", dict(lens=[("a", v) for v in vs] + [(1, "q")] + [("a", v) for v in vs[::-1]])))
    out.append(("sort-nlens", "sort", dict(lens=[("n" * 20, "2"), (3, "0"), ("n" * 20, "1"), ("nnn", "9")], dom="[nm]")))
    out.append(("sort-vany", "sort", dict(lens=[("a", 2), ("a", 3), ("a", 1), (1, 0)], dom="[ab]")))
    out.append(("sort-many2", "sort", dict(lens=[("ab"[i % 2], "%d" % (i * 7919 % 301)) for i in range(150)] + [(1, "x")])))
    out.append(("sort-long", "sort", dict(lens=[("p" * 200 + "b", "1"), ("p" * 200, "2"), ("p" * 200 + "a", "3"), (1, "4")])))
    for nm, t in values():
        w = "".join(x for x in t if isinstance(x, str))
        if nm.startswith(("w-", "n-", "v-")):
            out.append((nm, "sort", dict(lens=[(w, "1"), (1, w), ("z", w), (w, "0"), ("", "2")])))
            out.append((nm + "-prefix", "sort", dict(lens=[(w + "c", "1"), (w + "b", "2"), (w + "\uffff", "3"), (w + "\U00010000", "4"), (w, "0")])))
    for k in sizes():
        if k <= 1100:
            out.append(("count-%d" % k, "sort", dict(lens=[("%d" % (i * 7919 % 13), "%d" % (i * 31 % 7)) for i in range(k)] + [(1, "x")])))
            out.append(("count-same-%d" % k, "sort", dict(lens=[("ab"[i % 2], "%d" % (i * 7919 % 301)) for i in range(k + 1)] + [(1, "x")], dom="[ab]")))
    return out
