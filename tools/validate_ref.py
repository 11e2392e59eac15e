"""Validate the reference model against the WPT data in the repository."""
import json, sys
sys.path[:0] = ["/verif", "/opt/venv/lib/python3.12/site-packages"]
from ref import whatwg as R
D = "/repo/tests/wpt/resources/"
bad = 0
n = 0
for t in json.load(open(D + "urltestdata.json")):
    if isinstance(t, str):
        continue
    n += 1
    inp = R.to_usv(t["input"])
    base = t.get("base")
    b = None
    if base is not None:
        b = R.parse(R.to_usv(base))
    u = R.FAIL if b == R.FAIL else R.parse(inp, b)
    if t.get("failure"):
        if u != R.FAIL:
            print("should fail", t, u.href()); bad += 1
        continue
    if u == R.FAIL:
        print("should parse", t["input"], t["base"]); bad += 1
        continue
    if u.href() != t["href"]:
        print("href", t["input"], u.href(), t["href"]); bad += 1
    if "origin" in t and u.origin_str() != t["origin"]:
        print("origin", t["input"], u.origin_str(), t["origin"]); bad += 1
for attr, ts in json.load(open(D + "setters_tests.json")).items():
    if attr == "comment":
        continue
    for t in ts:
        n += 1
        a = R.Api(R.parse(t["href"]))
        a.set(attr, R.to_usv(t["new_value"]))
        for k, v in t["expected"].items():
            u = a.url
            got = {"href": u.href, "protocol": lambda: u.scheme + ":", "username": lambda: u.username,
                   "password": lambda: u.password, "hostname": u.hostname,
                   "host": lambda: u.hostname() + ("" if u.port is None else ":" + str(u.port)),
                   "port": lambda: "" if u.port is None else str(u.port), "pathname": u.pathname,
                   "search": lambda: "?" + u.query if u.query else "", "hash": lambda: "#" + u.fragment if u.fragment else ""}[k]()
            if got != v:
                print("setter", attr, t, k, got); bad += 1
print(n, "cases", bad, "bad")
