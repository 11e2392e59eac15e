"""setup: the framework needs no build; check that its parts load and that the
engine finds a planted violation and proves a true property."""
import sys
from . import run


def main():
    run.setup_path()
    scs = [{"name": "true", "mod": "selftest", "fn": "good", "kw": {}},
           {"name": "false", "mod": "selftest", "fn": "bad", "kw": {}}]
    ex = run.Explorer(scs, 20, 2, 1).run()
    if ex.fatal:
        print(ex.fatal)
        return 1
    g, b = ex.acc
    ok = g["discharged"] > 0 and not g["found"] and not g["inconclusive"] and b["found"]
    print("selftest", "ok" if ok else "FAILED", g["discharged"], len(b["found"]), g["inconclusive"], g["errors"])
    return 0 if ok else 1


if __name__ == "__main__":
    sys.exit(main())
