"""two scenarios over the real code with known answers"""


def good(S):
    s = S.str("x", 2)
    S.check_eq(S.u.string_percent_decode(S.u.string_percent_encode(s, "")), s.encode(), "round trip")


def bad(S):
    s = S.str("x", 3)
    S.check(S.u.string_percent_encode(s, "") != "a%2Fb", "reachable")
