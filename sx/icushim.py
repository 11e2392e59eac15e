"""ICU on the real side: passes through to the real library, or, when a scenario
fixes the outcome (C11), reports that outcome and records what was asked."""
import icupy.icu as icu


class Shim:
    current = None      # (result, flags, fail) or None
    seen = []
    opts = {}
    installed = False


def install():
    if Shim.installed:
        return
    Shim.installed = True
    create = icu.IDNA.create_uts46_instance

    def create_uts46_instance(options):
        r = create(options)
        Shim.opts[id(r)] = (r, int(options))
        return r

    def wrap(name, ascii_):
        real = getattr(icu.IDNA, name)

        def f(self, *args, **kw):
            cur = Shim.current
            if cur is None:
                return real(self, *args, **kw)
            src, dest, info = args
            o = Shim.opts.get(id(self))
            Shim.seen.append((ascii_, o[1] if o else -1, str(src)))
            if cur[2]:
                raise icu.ICUError(icu.ErrorCode())
            dest.remove()
            n = sum(2 if ch > "\uffff" else 1 for ch in cur[0])
            dest.append(cur[0], 0, n)
            return dest
        return f
    get, has = icu.IDNAInfo.get_errors, icu.IDNAInfo.has_errors
    icu.IDNA.create_uts46_instance = staticmethod(create_uts46_instance)
    icu.IDNA.name_to_ascii = wrap("name_to_ascii", True)
    icu.IDNA.name_to_unicode = wrap("name_to_unicode", False)
    icu.IDNAInfo.get_errors = lambda s: get(s) if Shim.current is None else Shim.current[1]
    icu.IDNAInfo.has_errors = lambda s: has(s) if Shim.current is None else Shim.current[1] != 0
