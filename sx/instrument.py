"""Load Python source with its operations routed through ops (symbolic)."""
import ast
import builtins
import logging
import os
import sys
import types
from . import ops
from . import core as C

__sx__ = True

PURE_BUILTINS = {"len", "any", "all", "isinstance", "ord", "chr", "int", "str", "min", "max", "sum", "tuple", "list",
                 "set", "frozenset", "enumerate", "zip", "range", "reversed", "bool", "hex", "abs", "hasattr", "getattr",
                 "sorted", "bytes", "type", "repr"}
PURE_METHODS = {"startswith", "endswith", "find", "rfind", "index", "rindex", "count", "split", "rsplit", "partition",
                "rpartition", "strip", "lstrip", "rstrip", "lower", "upper", "replace", "isdigit", "isalpha", "isalnum",
                "isascii", "isdecimal", "isspace", "join", "get", "items", "keys", "values", "search", "match",
                "fullmatch", "finditer", "findall", "group", "encode", "decode", "format", "casefold", "removeprefix",
                "removesuffix", "isupper", "islower", "start", "end", "issubset", "isdisjoint", "isnumeric", "union"}
LOG_METHODS = {"debug", "info", "warning", "error", "critical", "exception", "log"}


class ModuleInfo:
    """static facts about one module"""

    def __init__(self, tree):
        self.funcs = {}
        for n in ast.walk(tree):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.funcs.setdefault(n.name, []).append(n)
        self.pure = set()
        self._pure_fix()
        self.logonly = set()
        self._log_fix()

    # ---- purity
    def _pure_fix(self):
        cand = {name for name, fs in self.funcs.items() if all(self._pure_shape(f) for f in fs)}
        while True:
            self.pure = cand
            bad = {n for n in cand if not all(self._pure_calls(f) for f in self.funcs[n])}
            if not bad:
                break
            cand = cand - bad

    def _pure_shape(self, f):
        if f.name.startswith("__") or isinstance(f, ast.AsyncFunctionDef):
            return False
        for d in f.decorator_list:
            if not (isinstance(d, ast.Name) and d.id in ("classmethod", "staticmethod", "property")):
                return False
        for n in ast.walk(f):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal, ast.Delete, ast.With,
                              ast.Raise, ast.Try, ast.NamedExpr, ast.ClassDef, ast.Import, ast.ImportFrom, ast.Match)):
                return False
            if isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not f:
                return False
            if isinstance(n, (ast.Attribute, ast.Subscript, ast.Starred)) and isinstance(n.ctx, ast.Store):
                return False
        return True

    def _pure_calls(self, node):
        for n in ast.walk(node):
            if isinstance(n, ast.Call):
                fn = n.func
                if isinstance(fn, ast.Name):
                    if fn.id not in PURE_BUILTINS and fn.id not in self.pure:
                        return False
                elif isinstance(fn, ast.Attribute):
                    if fn.attr in self.funcs:
                        if fn.attr not in self.pure:
                            return False
                    elif fn.attr not in PURE_METHODS:
                        return False
                else:
                    return False
        return True

    def pure_expr(self, e):
        for n in ast.walk(e):
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.Lambda)):
                return False
        return self._pure_calls(e)

    # ---- log-only statements
    def _log_fix(self):
        self.lognames = {"log", "logger", "_log", "_logger", "LOG", "LOGGER"}
        while True:
            n0 = len(self.logonly)
            for name, fs in self.funcs.items():
                if name in self.logonly or name in LOG_METHODS or name.startswith("__"):
                    continue
                if all(self._fn_logonly(f) for f in fs):
                    self.logonly.add(name)
            if len(self.logonly) == n0:
                return

    def is_log_call(self, st):
        if not isinstance(st, ast.Expr) or not isinstance(st.value, ast.Call):
            return False
        fn = st.value.func
        if isinstance(fn, ast.Attribute) and fn.attr in LOG_METHODS:
            v = fn.value
            if isinstance(v, ast.Name) and v.id in self.lognames:
                return True
            if isinstance(v, ast.Call):
                g = v.func
                nm = g.id if isinstance(g, ast.Name) else g.attr if isinstance(g, ast.Attribute) else ""
                return nm in ("get_logger", "getLogger")
            return False
        nm = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else None
        return nm in self.logonly

    def _fn_logonly(self, f):
        body = [s for s in f.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        has = False
        rem = self.removable(f)
        for s in body:
            if isinstance(s, ast.Pass) or (isinstance(s, ast.Return) and s.value is None):
                continue
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and self._is_getlogger(s.value):
                continue
            if s in rem:
                has = has or any(self.is_log_call(x) for x in ast.walk(s) if isinstance(x, ast.Expr))
                continue
            return False
        return has

    def _is_getlogger(self, c):
        g = c.func
        nm = g.id if isinstance(g, ast.Name) else g.attr if isinstance(g, ast.Attribute) else ""
        return nm in ("get_logger", "getLogger")

    def removable(self, f):
        """the statements of f whose only effect is logging"""
        stmts = [n for n in ast.walk(f) if isinstance(n, ast.stmt) and n is not f]
        cand = set()
        for s in stmts:
            if isinstance(s, ast.Assign) and all(self._simple_target(t) for t in s.targets) and self.pure_expr(s.value):
                cand.add(s)

        def rem(s):
            if self.is_log_call(s):
                return True
            if s in cand:
                return True
            if isinstance(s, ast.Pass) or is_point(s):
                return True
            if isinstance(s, ast.If):
                return self.pure_expr(s.test) and all(rem(x) for x in s.body) and all(rem(x) for x in s.orelse)
            return False
        while True:
            out = {s for s in stmts if rem(s)}
            inside = set()
            for s in out:
                for n in ast.walk(s):
                    inside.add(id(n))
            bad = set()
            loads = {}
            for n in ast.walk(f):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)) and id(n) not in inside:
                    loads.setdefault(n.id, 0)
            for s in cand:
                names = [n.id for t in s.targets for n in ast.walk(t) if isinstance(n, ast.Name)]
                if any(nm in loads for nm in names):
                    bad.add(s)
            if not bad:
                # an assignment must feed some log statement
                return {s for s in out if not isinstance(s, ast.Pass) and not is_point(s)}
            cand -= bad

    def _simple_target(self, t):
        return isinstance(t, ast.Name) or (isinstance(t, ast.Tuple) and all(isinstance(x, ast.Name) for x in t.elts))


def is_point(s):
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == "__sx_point__"


def add_points(tree, skip=()):
    """a call __sx_point__(line) before every statement of every function"""
    def block(body):
        out = []
        for s in body:
            if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) and not isinstance(s, (ast.Nonlocal, ast.Global)):
                p = ast.Expr(ast.Call(func=_n("__sx_point__"), args=[ast.Constant(s.lineno)], keywords=[]))
                for n in ast.walk(p):
                    n.lineno = n.end_lineno = s.lineno
                    n.col_offset = n.end_col_offset = 0
                out.append(p)
            inner(s)
            out.append(s)
        return out

    def inner(s):
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            walk(s)
            return
        for f in ("body", "orelse", "finalbody"):
            v = getattr(s, f, None)
            if isinstance(v, list) and v:
                setattr(s, f, block(v))
        for h in getattr(s, "handlers", []) + getattr(s, "cases", []):
            h.body = block(h.body)

    def walk(n):
        if isinstance(n, ast.FunctionDef):
            if n.name not in skip:
                n.body = block(n.body)
            return
        for s in n.body:
            if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                walk(s)
    walk(tree)
    return tree


def _n(name):
    return ast.Name(id=name, ctx=ast.Load())


def _lam(e):
    return ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=e)


class Tr(ast.NodeTransformer):
    def __init__(self, info):
        self.info = info
        self.infunc = 0
        self.rem = set()

    # ---- scopes
    def visit_FunctionDef(self, node):
        old = self.rem
        if self.infunc == 0:
            self.rem = self.info.removable(node) if node.name not in LOG_METHODS else set()
        self.infunc += 1
        node.body = self.block(node.body)
        node.args.defaults = [self.visit(d) for d in node.args.defaults]
        node.args.kw_defaults = [self.visit(d) if d is not None else None for d in node.args.kw_defaults]
        self.infunc -= 1
        if self.infunc == 0:
            self.rem = old
        node.returns = None
        for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
            a.annotation = None
        if node.args.vararg:
            node.args.vararg.annotation = None
        if node.args.kwarg:
            node.args.kwarg.annotation = None
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def block(self, body):
        out = []
        for s in body:
            if self.infunc and s in self.rem and (self.info.is_log_call(s) or isinstance(s, (ast.If, ast.Assign))):
                r = self.visit(s)
                rs = r if isinstance(r, list) else [r]
                out.append(ast.copy_location(ast.If(test=ast.Call(func=_n("__sx_logmode__"), args=[], keywords=[]), body=rs, orelse=[]), s))
                continue
            r = self.visit(s)
            if r is None:
                continue
            out.extend(r if isinstance(r, list) else [r])
        return out

    def visit_Expr(self, node):
        if self.infunc and self.info.is_log_call(node):
            fn = node.value.func
            lvl = fn.attr if isinstance(fn, ast.Attribute) else "info"
            node = self.generic_visit(node)
            mark = ast.copy_location(ast.Expr(ast.Call(func=_n("__sx_logged__"), args=[ast.Constant(lvl)], keywords=[])), node)
            return [mark, node]
        return self.generic_visit(node)

    def visit_ClassDef(self, node):
        old = self.infunc
        self.infunc = 0
        node.bases = [self.visit(b) for b in node.bases]
        node.keywords = [ast.keyword(k.arg, self.visit(k.value)) for k in node.keywords]
        node.body = self.block(node.body)
        self.infunc = old
        return node

    def visit_Lambda(self, node):
        self.infunc += 1
        node.body = self.visit(node.body)
        self.infunc -= 1
        return node

    def _stm(self, node):
        for fld in ("body", "orelse", "finalbody"):
            if hasattr(node, fld):
                setattr(node, fld, self.block(getattr(node, fld)))
        return node

    def visit_If(self, node):
        node.test = self.visit(node.test)
        return self._stm(node)

    def visit_For(self, node):
        node.iter = ast.copy_location(ast.Call(func=_n("__sx_iter__"), args=[self.visit(node.iter)], keywords=[]), node.iter)
        return self._stm(node)

    def visit_While(self, node):
        node.test = self.visit(node.test)
        self._stm(node)
        tick = ast.copy_location(ast.Expr(ast.Call(func=_n("__sx_tick__"), args=[], keywords=[])), node)
        node.body = [tick] + node.body
        return node

    def visit_With(self, node):
        for i in node.items:
            i.context_expr = self.visit(i.context_expr)
        return self._stm(node)

    def visit_Try(self, node):
        self._stm(node)
        for h in node.handlers:
            if h.type is None or (isinstance(h.type, ast.Name) and h.type.id == "BaseException"):
                h.type = ast.copy_location(_n("Exception"), h)
            else:
                h.type = self.visit(h.type)
            h.body = self.block(h.body)
        return node

    def pattern(self, p):
        """class patterns on builtins also accept the symbolic counterparts"""
        for f, v in ast.iter_fields(p):
            if isinstance(v, ast.pattern):
                setattr(p, f, self.pattern(v))
            elif isinstance(v, list) and v and isinstance(v[0], ast.pattern):
                setattr(p, f, [self.pattern(x) for x in v])
        if isinstance(p, ast.MatchClass) and isinstance(p.cls, ast.Name) and p.cls.id in ("int", "str", "bytes", "bool", "bytearray") and not p.kwd_attrs:
            m = ast.copy_location(ast.MatchClass(cls=ast.copy_location(_n("__sx_M_%s__" % p.cls.id), p), patterns=[], kwd_attrs=[], kwd_patterns=[]), p)
            if not p.patterns:
                return m
            if len(p.patterns) == 1 and isinstance(p.patterns[0], ast.MatchAs) and p.patterns[0].pattern is None:
                n = p.patterns[0].name
                return m if n is None else ast.copy_location(ast.MatchAs(pattern=m, name=n), p)
        return p

    def visit_match_case(self, node):
        node.pattern = self.pattern(node.pattern)
        if node.guard is not None:
            node.guard = self.visit(node.guard)
        node.body = self.block(node.body)
        return node

    def visit_Match(self, node):
        node.subject = ast.copy_location(ast.Call(func=_n("__sx_subject__"), args=[self.visit(node.subject)], keywords=[]), node.subject)
        node.cases = [self.visit_match_case(c) for c in node.cases]
        return node

    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        if self.infunc:
            if node.value is None:
                return ast.copy_location(ast.Pass(), node)
            return self.visit_Assign(ast.copy_location(ast.Assign(targets=[node.target], value=node.value), node), done=True)
        return node

    def visit_Assign(self, node, done=False):
        if not done:
            node.value = self.visit(node.value)
        if self.infunc and len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(ast.Call(func=_n("__sx_setitem__"), args=[node.value, self.visit(t.value), self.visit(t.slice)], keywords=[])), node)
        node.targets = [self.visit(t) for t in node.targets]
        return node

    def visit_Delete(self, node):
        if self.infunc and len(node.targets) == 1 and isinstance(node.targets[0], ast.Subscript) and not isinstance(node.targets[0].slice, ast.Slice):
            t = node.targets[0]
            return ast.copy_location(ast.Expr(ast.Call(func=_n("__sx_delitem__"), args=[self.visit(t.value), self.visit(t.slice)], keywords=[])), node)
        return self.generic_visit(node)

    # ---- expressions
    def cp(self, new, old):
        return ast.copy_location(new, old)

    def visit_Call(self, node):
        fn = node.func
        if isinstance(fn, ast.Name) and fn.id in ("super", "locals", "globals", "eval", "exec", "vars", "dir", "TypeVar", "NamedTuple", "field"):
            return self.generic_visit(node)
        if self.infunc and isinstance(fn, ast.Name) and fn.id in ("any", "all") and len(node.args) == 1 and not node.keywords \
                and isinstance(node.args[0], ast.GeneratorExp) and not self._scoped(node.args[0]):
            g = self.visit(node.args[0])
            return self.cp(ast.Call(func=_n("__sx_anygen__"), args=[ast.Constant(fn.id == "any"), _lam(g)], keywords=[]), node)
        node = self.generic_visit(node)
        return self.cp(ast.Call(func=_n("__sx_call__"), args=[node.func] + node.args, keywords=node.keywords), node)

    def _scoped(self, e):
        return any(isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)) or
                   (isinstance(n, ast.Name) and n.id == "__class__") or
                   (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("super", "locals"))
                   for n in ast.walk(e))

    def visit_Compare(self, node):
        if len(node.ops) == 1:
            op = node.ops[0]
            node = self.generic_visit(node)
            if isinstance(op, (ast.In, ast.NotIn)):
                return self.cp(ast.Call(func=_n("__sx_in__" if isinstance(op, ast.In) else "__sx_notin__"),
                                        args=[node.left, node.comparators[0]], keywords=[]), node)
            if isinstance(op, (ast.Is, ast.IsNot)):
                return self.cp(ast.Call(func=_n("__sx_is__" if isinstance(op, ast.Is) else "__sx_isnot__"),
                                        args=[node.left, node.comparators[0]], keywords=[]), node)
            return node
        mids = node.comparators[:-1]
        if self.infunc and all(isinstance(m, (ast.Name, ast.Constant, ast.Attribute)) for m in mids) and not self._scoped(node):
            parts = []
            left = node.left
            for op, r in zip(node.ops, node.comparators):
                parts.append(ast.Compare(left=left, ops=[op], comparators=[r]))
                left = r
            import copy as _c
            return self.visit_BoolOp(self.cp(ast.BoolOp(op=ast.And(), values=[ast.fix_missing_locations(self.cp(_c.deepcopy(p), node)) for p in parts]), node))
        if any(isinstance(o, (ast.In, ast.NotIn)) for o in node.ops):
            return self.generic_visit(node)
        return self.generic_visit(node)

    def visit_BoolOp(self, node):
        if not self.infunc or self._scoped(node):
            return self.generic_visit(node)
        pure = all(self.info.pure_expr(v) for v in node.values[1:])
        vals = [_lam(self.visit(v)) for v in node.values]
        return self.cp(ast.Call(func=_n("__sx_or__" if isinstance(node.op, ast.Or) else "__sx_and__"),
                                args=[ast.Constant(pure)] + vals, keywords=[]), node)

    def visit_UnaryOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Not):
            return self.cp(ast.Call(func=_n("__sx_not__"), args=[node.operand], keywords=[]), node)
        return node

    def visit_IfExp(self, node):
        if not self.infunc or self._scoped(node):
            return self.generic_visit(node)
        pure = self.info.pure_expr(node.body) and self.info.pure_expr(node.orelse)
        a, b, t = self.visit(node.body), self.visit(node.orelse), self.visit(node.test)
        return self.cp(ast.Call(func=_n("__sx_ifexp__"), args=[ast.Constant(pure), _lam(t), _lam(a), _lam(b)], keywords=[]), node)

    def visit_JoinedStr(self, node):
        parts = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                parts.append(v)
            else:
                spec = self.visit(v.format_spec) if v.format_spec is not None else ast.Constant("")
                parts.append(ast.Tuple(elts=[self.visit(v.value), ast.Constant(v.conversion), spec], ctx=ast.Load()))
        return self.cp(ast.Call(func=_n("__sx_fstr__"), args=parts, keywords=[]), node)

    def visit_BinOp(self, node):
        node = self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return self.cp(ast.Call(func=_n("__sx_mod__"), args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_Subscript(self, node):
        node = self.generic_visit(node)
        if isinstance(node.ctx, ast.Load) and not isinstance(node.slice, (ast.Slice, ast.Constant, ast.Tuple)) and self.infunc:
            return self.cp(ast.Call(func=_n("__sx_getitem__"), args=[node.value, node.slice], keywords=[]), node)
        return node

    def visit_DictComp(self, node):
        node = self.generic_visit(node)
        g = ast.GeneratorExp(elt=ast.Tuple(elts=[node.key, node.value], ctx=ast.Load()), generators=node.generators)
        return self.cp(ast.Call(func=_n("__sx_dict__"), args=[g], keywords=[]), node)

    def visit_SetComp(self, node):
        node = self.generic_visit(node)
        g = ast.GeneratorExp(elt=node.elt, generators=node.generators)
        return self.cp(ast.Call(func=_n("__sx_set__"), args=[g], keywords=[]), node)

    def visit_Set(self, node):
        node = self.generic_visit(node)
        return self.cp(ast.Call(func=_n("__sx_set__"), args=[ast.Tuple(elts=node.elts, ctx=ast.Load())], keywords=[]), node)


def logmode():
    c = C.CTX
    if c is None or c.logmode == "all":
        return True
    if c.logmode == "skip":
        return False
    return not c.verr


def logged(level):
    c = C.CTX
    if c is not None and level != "debug":
        c.verr = True


def tick():
    c = C.CTX
    if c is not None:
        c.steps += 1
        if c.steps > c.maxsteps:
            raise C.StepLimit("loop")


def point(line):
    c = C.CTX
    if c is not None and c.preempt is not None:
        c.preempt(line, sys._getframe(1).f_code)


def setitem3(v, o, k):
    return ops.setitem(o, k, v)


HELPERS = {
    "__sx_point__": point,
    "__sx_call__": ops.call, "__sx_in__": ops.in_, "__sx_notin__": ops.notin, "__sx_is__": ops.is_, "__sx_isnot__": ops.isnot, "__sx_or__": ops.or_,
    "__sx_and__": ops.and_, "__sx_not__": ops.not_, "__sx_ifexp__": ops.ifexp, "__sx_fstr__": ops.fstr,
    "__sx_subject__": ops.subject, **{"__sx_M_%s__" % t.__name__: ops.pattern_class(t) for t in (int, str, bytes, bool, bytearray)},
    "__sx_mod__": ops.mod, "__sx_getitem__": ops.getitem, "__sx_setitem__": setitem3, "__sx_delitem__": ops.delitem,
    "__sx_anygen__": ops.anygen, "__sx_dict__": ops.dict_, "__sx_set__": ops.set_, "__sx_logmode__": logmode,
    "__sx_logged__": logged, "__sx_tick__": tick, "__sx_iter__": ops.force,
}


def _codes(co, out):
    out.append(co)
    for k in co.co_consts:
        if isinstance(k, types.CodeType):
            _codes(k, out)
    return out


class Loader:
    """a private import system: package sources are instrumented"""

    def __init__(self, roots, proxies, points=False):
        self.points = points
        self.roots = roots          # {public package name: directory}
        self.proxies = proxies      # {module name: object}
        self.mods = {}
        self.functions = []

    def path_of(self, name):
        top = name.split(".")[0]
        if top not in self.roots:
            return None
        p = self.roots[top]
        rel = name.split(".")[1:]
        q = os.path.join(p, *rel)
        if os.path.isdir(q):
            return os.path.join(q, "__init__.py"), True
        return q + ".py", False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if "." in name:
            self.load(name.rpartition(".")[0])
        path, pkg = self.path_of(name)
        if not os.path.exists(path):
            raise ModuleNotFoundError(name)
        src = open(path, encoding="utf-8").read()
        m = types.ModuleType(name)
        m.__file__ = path
        # a distinct module name for type registries, the public one for logging
        m.__dict__["__package__"] = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        m.__dict__["__builtins__"] = self.builtins()
        m.__dict__.update(HELPERS)
        top = name.split(".")[0]
        m.__name__ = name.replace(top, top + "_sx", 1)
        sys.modules[m.__name__] = m      # dataclasses and typing look modules up
        self.mods[name] = m
        if "." in name:
            setattr(self.mods[name.rpartition(".")[0]], name.rpartition(".")[2], m)
        tree = ast.parse(src, path)
        info = ModuleInfo(tree)
        purelines = {}
        for fn in info.pure:
            for f in info.funcs[fn]:
                ln = f.decorator_list[0].lineno if f.decorator_list else f.lineno
                purelines[(f.name, ln)] = True
        names = [(n.name, n.lineno) for n in ast.walk(tree) if isinstance(n, (ast.FunctionDef,))]
        if self.points and top == "urlstd":
            add_points(tree, set(info.pure))
        tree = Tr(info).visit(tree)
        ast.fix_missing_locations(tree)
        code = compile(tree, path, "exec", dont_inherit=True)
        for co in _codes(code, []):
            ops.SXFUNCS.add(co)
            if (co.co_name, co.co_firstlineno) in purelines:
                ops.PURE.add(co)
        self.functions += [(name, n) for n, _ in names]
        exec(code, m.__dict__)
        return m

    def builtins(self):
        d = dict(vars(builtins))
        d["__import__"] = self.imp
        return d

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = globals.get("__package__", "")
            base = pk.rsplit(".", level - 1)[0] if level > 1 else pk
            name = base + "." + name if name else base
        top = name.split(".")[0]
        if top in self.roots:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        try:
                            self.load(name + "." + f)
                        except (ModuleNotFoundError, FileNotFoundError):
                            pass
                return m
            return self.mods[top]
        if name in self.proxies:
            if fromlist or "." not in name:
                return self.proxies[name]
            # import a.b as x  uses attribute walk from the top module
            ns = types.SimpleNamespace()
            cur = ns
            for part in name.split(".")[1:-1]:
                nx = types.SimpleNamespace()
                setattr(cur, part, nx)
                cur = nx
            setattr(cur, name.split(".")[-1], self.proxies[name])
            return ns
        if fromlist:
            full = {name + "." + f: f for f in fromlist}
            hit = [k for k in full if k in self.proxies]
            if hit:
                r = builtins.__import__(name, globals, locals, fromlist, 0)
                ns = types.SimpleNamespace(**{f: getattr(r, f) for f in fromlist if name + "." + f not in self.proxies})
                for k in hit:
                    setattr(ns, full[k], self.proxies[k])
                return ns
        return builtins.__import__(name, globals, locals, fromlist, 0)


# ---- module state isolation between paths
def _containers(mod, caches=None):
    """every mutable container reachable from the module's namespace, with the
    names the code reaches it by"""
    seen = set()
    out = []
    todo = [((k,), v) for k, v in mod.__dict__.items() if not k.startswith("__")]
    while todo:
        nm, v = todo.pop()
        if id(v) in seen:
            continue
        seen.add(id(v))
        if isinstance(v, (dict, list, set)):
            out.append((v, nm))
            if len(v) < 64:
                todo.extend((nm, x) for x in (v.values() if isinstance(v, dict) else v) if isinstance(x, (dict, list, set)))
        elif isinstance(v, type):
            if v.__module__ == mod.__name__:
                todo.extend(((k,), x) for k, x in v.__dict__.items() if not (k.startswith("__") and not callable(x)))
        elif isinstance(v, types.FunctionType):
            if v.__module__ == mod.__name__:
                todo.extend(((k,), x) for k, x in v.__dict__.items())
                todo.extend((v.__code__.co_varnames, x) for x in v.__defaults__ or ())
                todo.extend(((k,), x) for k, x in (v.__kwdefaults__ or {}).items())
                for n, c in zip(v.__code__.co_freevars, v.__closure__ or ()):
                    try:
                        todo.append(((n,), c.cell_contents))
                    except ValueError:
                        pass
        elif isinstance(v, (classmethod, staticmethod)):
            todo.append((nm, v.__func__))
        elif isinstance(v, property):
            todo.extend((nm, x) for x in (v.fget, v.fset, v.fdel) if x is not None)
        elif hasattr(type(v), "cache_clear") and hasattr(v, "__wrapped__"):
            if caches is not None:
                caches.append(v)
            todo.append((nm, v.__wrapped__))
        elif getattr(type(v), "__module__", None) == mod.__name__ and isinstance(getattr(v, "__dict__", None), dict):
            out.append((v.__dict__, nm + tuple(v.__dict__)))
            todo.extend((nm + (k,), x) for k, x in v.__dict__.items())
    return out


LOGGER_ATTRS = frozenset(logging.Logger("x").__dict__)


def real_loggers():
    for k, lg in list(logging.Logger.manager.loggerDict.items()):
        if k.split(".")[0] == "urlstd" and isinstance(lg, logging.Logger):
            yield lg


class Snapshot:
    """module-level state, restored before every path"""

    def __init__(self, mods, loggers=None):
        self.loggers = loggers
        self.items = []
        self.names = []
        self.attrs = []
        self.caches = []
        for m in mods:
            self.attrs.append((m, {k: v for k, v in m.__dict__.items() if not k.startswith("__")}))
            for v in m.__dict__.values():
                if isinstance(v, type) and v.__module__ == m.__name__:
                    self.attrs.append((v, {k: x for k, x in v.__dict__.items() if not k.startswith("__")}))
            for c, names in _containers(m, self.caches):
                self.items.append((c, c.copy()))
                self.names.append(names)

    def restore(self):
        for c, old in self.items:
            if isinstance(c, list):
                if len(c) != len(old) or any(x is not y for x, y in zip(c, old)):
                    c[:] = old
            elif isinstance(c, dict):
                if len(c) != len(old) or any(c.get(k) is not v for k, v in old.items()):
                    c.clear()
                    c.update(old)
            elif c != old:
                c.clear()
                c.update(old)
        for o, d in self.attrs:
            cur = o.__dict__
            for k, v in d.items():
                if cur.get(k) is not v:
                    try:
                        setattr(o, k, v)
                    except (AttributeError, TypeError):
                        pass
            if len(cur) > len(d) + 40:
                continue
            for k in [k for k in cur if not k.startswith("__") and k not in d]:
                try:
                    delattr(o, k)
                except (AttributeError, TypeError):
                    pass
        for lg in self.loggers() if self.loggers else ():
            for k in [k for k in lg.__dict__ if k not in LOGGER_ATTRS]:
                del lg.__dict__[k]
        for c in self.caches:
            c.cache_clear()
        for c in ops.SxCache.instances:
            c.entries.clear()

    def digest(self):
        """the module-level state, up to identity of the parts: (names the code
        reaches a part by, its state), ..."""
        out = []
        for (c, old), names in zip(self.items, self.names):
            out.append((names, len(c), tuple(map(id, c.values() if isinstance(c, dict) else c))))
        for o, d in self.attrs:
            for k, v in o.__dict__.items():
                if not k.startswith("__"):
                    out.append(((k,), id(v) if d.get(k, self) is v else _deep(v, 4)))
        for lg in self.loggers() if self.loggers else ():
            for k, v in lg.__dict__.items():
                if k not in LOGGER_ATTRS:
                    out.append(((k,), id(lg), _deep(v, 4)))
        return out


def changed(d0, d1):
    """names of the parts that differ"""
    out = set()
    for i in range(max(len(d0), len(d1))):
        a = d0[i] if i < len(d0) else None
        b = d1[i] if i < len(d1) else None
        if a != b:
            out.update(a[0] if a else ())
            out.update(b[0] if b else ())
    return out


def _deep(v, n):
    if n and isinstance(v, dict):
        return [id(v)] + [(id(k), _deep(x, n - 1)) for k, x in v.items()]
    if n and isinstance(v, (list, tuple, set)):
        return [id(v)] + [_deep(x, n - 1) for x in v]
    if n and isinstance(getattr(v, "__dict__", None), dict) and not isinstance(v, (type, types.FunctionType, types.ModuleType)):
        return [id(v)] + _deep(v.__dict__, n - 1)
    return id(v)
