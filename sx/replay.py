"""python3-vt -m sx.replay FILE: run one recorded input on the real code.
Exit 1 (and the failing assertions) when the property is violated there."""
import json
import sys
from . import run


def main(path):
    d = json.load(open(path))
    r = run.RealSide(d["mod"] == "c31")
    S, hang, exc = r.run(d["mod"], d["fn"], d["kw"], d["inputs"], timeout=20)
    print("scenario:", d["name"])
    for k, v in run.show(S.shown).items():
        print("  input %s = %s" % (k, v))
    if hang:
        print("  does not terminate within 20 s")
        return 1
    if exc:
        print("  scenario raised:", exc)
    for f in S.failures:
        print("  FAILED:", f.label)
        if f.info:
            print("     code:     ", ascii(f.info[0]))
            print("     expected: ", ascii(f.info[1]))
    if S.failures:
        return 1
    print("  holds here")
    return 0


if __name__ == "__main__":
    sys.exit(main(sys.argv[1]))
