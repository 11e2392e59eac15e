"""Compare the ICU model used on symbolic domains (sx.env.uts46) with the real ICU
on random concrete strings over the modelled code points."""
import random
import sys
sys.path[:0] = ["/verif"]
from sx import run
run.setup_path()
from sx import core as C, env as E, vals as V, scen
import icupy.icu as icu

OPT = int(icu.UIDNA_CHECK_BIDI | icu.UIDNA_CHECK_CONTEXTJ | icu.UIDNA_NONTRANSITIONAL_TO_ASCII | icu.UIDNA_NONTRANSITIONAL_TO_UNICODE)


def real(s, strict, ascii_):
    inst = icu.IDNA.create_uts46_instance(OPT | (int(icu.UIDNA_USE_STD3_RULES) if strict else 0))
    info, dest = icu.IDNAInfo(), icu.UnicodeString()
    us = icu.UnicodeString(s, sum(2 if ord(c) > 0xffff else 1 for c in s))
    (inst.name_to_ascii if ascii_ else inst.name_to_unicode)(us, dest, info)
    return str(dest), int(info.get_errors())


def model(s, strict, ascii_):
    ctx = C.Ctx(())
    C.CTX = ctx
    try:
        r = E.uts46(V.SymStr(tuple(map(ord, s))), OPT | (int(icu.UIDNA_USE_STD3_RULES) if strict else 0), ascii_)
    finally:
        C.CTX = None
    return r


if __name__ == "__main__":
    rnd = random.Random(int(sys.argv[1]) if len(sys.argv) > 1 else 0)
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 20000
    pool = "aZ09-._%~ \x00\x7f/@[]\u3002\uff61\uff21\uff0e\uff0d\xad\ufffd\x85\ue000\uffffxn"
    allc = [chr(c) for c in E.MODELLED_D.inter(E.I.ranges((0, 0xffff))).items()]
    bad = 0
    for i in range(n):
        k = rnd.choice([0, 1, 2, 3, 4, 5, 6, 62, 63, 64, 65, 130, 253, 254, 255, 256])
        if k > 60:
            s = "".join(rnd.choice("aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaab.") for _ in range(k))
        elif rnd.random() < .5:
            s = "".join(rnd.choice(pool) for _ in range(k))
        else:
            s = "".join(rnd.choice(allc) for _ in range(k))
        for strict in (0, 1):
            for a in (True, False):
                try:
                    m, f = model(s, strict, a)
                except (C.Unsupported, C.PathAbort):
                    continue
                r, e = real(s, strict, a)
                f = f if isinstance(f, int) else f
                mm = scen.ev(m, {}, None)
                ff = scen.ev(f, {}, None)
                if e & ~0x3f and ff & ~0x3f:     # both fail for a reason that is never permitted
                    ok = True
                elif e & ~0x3f or ff & ~0x3f:
                    ok = False
                else:
                    # ToUnicode reports empty labels only on ICU's slow path; every caller permits them
                    k = -1 if a else ~1
                    ok = mm == r and ff & k == e & k
                if not ok:
                    bad += 1
                    if bad < 15:
                        print(ascii(s), strict, a, "model", ascii(mm), hex(ff), "real", ascii(r), hex(e))
    print("mismatches", bad)
    sys.exit(bool(bad))
