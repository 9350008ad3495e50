"""Which repository functions can a call reach?  Direct names, methods of a known class, the solver
registry (SS.a.b.f), module tables (T[k], T.get(k)), local aliases, loop variables over lists of functions."""
import ast
from .load import Func, Cls, Ext, Var, Module, walk_own


def entries(e):
    """[(key, value)] of a literal list/tuple/set/dict expression, or None"""
    if isinstance(e, ast.Dict):
        if any(k is None for k in e.keys): return None
        return list(zip(e.keys, e.values))
    if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
        if any(isinstance(x, ast.Starred) for x in e.elts): return None
        return [(None, x) for x in e.elts]
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("dict", "list", "tuple") and not e.args:
        return [(ast.Constant(value=k.arg), k.value) for k in e.keywords if k.arg]
    return None


def _f(func): return func if isinstance(func, Func) else None


class Registry:
    """contents of the solver registry, from every `SS._register_solver(...)` call in the program"""
    def __init__(self, prog):
        self.prog = prog
        self.table = {}      # path tuple -> {name: (Func/Cls, loc, module)}
        self.sites = []
        self.unknown = []
        self.roots = set()   # quals of the registry objects
        for m in prog.modules.values():
            for n, vs in m.assigns.items():
                for v in vs:
                    if isinstance(v, ast.Call):
                        c = prog.resolve_expr(v.func, m, None)
                        if isinstance(c, Cls) and "_register_solver" in c.methods: self.roots.add(m.name + "." + n)
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "_register_solver":
                    self._site(m, n)

    def is_root(self, ent): return isinstance(ent, Var) and ent.qual in self.roots

    def _site(self, m, call):
        loc = "%s:%d" % (m.rel, call.lineno)
        self.sites.append((m, loc))
        path = []
        for a in call.args[:-1]:
            if isinstance(a, ast.Constant) and isinstance(a.value, str): path.append(a.value)
            else: self.unknown.append(loc); return
        if not call.args: return
        for f in self._funcs(call.args[-1], m, loc):
            self.table.setdefault(tuple(path), {})[f.name] = (f, loc, m)

    def _funcs(self, e, m, loc, d=0):
        out = []
        if d > 4: return out
        en = entries(e)
        if en is not None:
            for k, v in en: out += self._funcs(v, m, loc, d + 1)
            return out
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            return self._funcs(e.left, m, loc, d + 1) + self._funcs(e.right, m, loc, d + 1)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple", "sorted") and len(e.args) == 1:
            return self._funcs(e.args[0], m, loc, d + 1)
        r = self.prog.resolve_expr(e, m, None)
        if isinstance(r, (Func, Cls)): return [r]
        if isinstance(r, Var):
            mm = r.module if isinstance(r.module, Module) else m
            for v in mm.assigns.get(r.name, []): out += self._funcs(v, mm, loc, d + 1)
            # aug-assignments / appends make the table open
            return out
        self.unknown.append(loc)
        return out

    def closed(self): return not self.unknown

    def get(self, path):
        """('func', f) | ('pkg', path) | ('missing', where)"""
        path = tuple(path)
        if len(path) >= 1:
            t = self.table.get(path[:-1], {})
            if path[-1] in t: return "func", t[path[-1]][0]
        if any(p[:len(path)] == path for p in self.table): return "pkg", path
        return "missing", path


def chain(e):
    """root expression and attribute names of a dotted expression"""
    at = []
    while isinstance(e, ast.Attribute):
        at.append(e.attr); e = e.value
    return e, at[::-1]


class Callables:
    def __init__(self, prog):
        self.prog = prog
        self.reg = Registry(prog)

    # ---- what an expression denotes ---------------------------------------------------------
    def values(self, e, func, d=0):
        """set of (kind, payload): ('fn', Func|Cls) ('bound', Func) ('missing', path) ('pkg', path) ('none',) or None if unknown"""
        if d > 8: return None
        prog = self.prog
        if isinstance(e, ast.Constant) and e.value is None: return {("none",)}
        if isinstance(e, ast.IfExp): return self._join([self.values(e.body, func, d + 1), self.values(e.orelse, func, d + 1)])
        if isinstance(e, ast.BoolOp): return self._join([self.values(x, func, d + 1) for x in e.values])
        if isinstance(e, (ast.Name, ast.Attribute)):
            root, at = chain(e)
            if at:
                rv = prog.resolve_expr(root, func.module, _f(func)) if isinstance(root, ast.Name) else None
                if self.reg.is_root(rv) or isinstance(rv, Module):
                    # SS.a.b or module.SS.a.b
                    k = 0
                    while isinstance(rv, Module) and k < len(at):
                        rv = prog.mod_attr(rv.name, at[k]); k += 1
                    if self.reg.is_root(rv):
                        rest = at[k:]
                        if not rest or rest[0].startswith("_register") or rest[0] == "_dict": return None
                        return self._reg(rest)
                b = self.values(e.value, func, d + 1)
                if b and len(b) == 1:
                    (x,) = b
                    if x[0] == "pkg": return self._reg(list(x[1]) + [e.attr])
            r = prog.resolve_expr(e, func.module, _f(func))
            if isinstance(r, Cls): return {("fn", r)}
            if isinstance(r, Func):
                if isinstance(e, ast.Attribute):
                    b = prog.resolve_expr(e.value, func.module, _f(func))
                    if isinstance(b, Cls): return {("fn" if r.is_static else "bound" if r.is_classmethod else "fn", r)}
                    if isinstance(b, Module): return {("fn", r)}
                    return None
                return {("fn", r)}
            if isinstance(r, Var): return self._var(r, func, d)
            if isinstance(r, tuple) and isinstance(e, ast.Name): return self._local(e.id, r[1], d, e)
            if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and isinstance(func, Func):
                # self.method / cls.method
                f, c = func, None
                while f is not None and c is None: c, f = f.cls, f.parent
                top = func
                while top.parent is not None: top = top.parent
                if c is not None and top.args and e.value.id == top.args[0] and not top.is_static:
                    fs = set()
                    m = prog.lookup_method(c, e.attr)
                    if m is not None: fs.add(m)
                    for k in prog.subclasses(c):
                        if e.attr in k.methods: fs.add(k.methods[e.attr])
                    if any(g.is_property for g in fs) or prog.lookup_attr(c, e.attr) is not None: return None
                    if fs: return {("fn" if g.is_static else "bound", g) for g in fs}
            return None
        if isinstance(e, ast.Subscript):
            t = self.table(e.value, func)
            if t is not None:
                k = e.slice
                if isinstance(k, ast.Constant):
                    hit = [v for kk, v, ow in t if isinstance(kk, ast.Constant) and kk.value == k.value and type(kk.value) is type(k.value)]
                    if hit: return self._join([self.values(v, t[0][2], d + 1) for v in hit])
                return self._join([self.values(v, ow, d + 1) for kk, v, ow in t])
            return None
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "get":
            t = self.table(e.func.value, func)
            if t is not None:
                vs = [self.values(v, ow, d + 1) for kk, v, ow in t]
                vs.append(self.values(e.args[1], func, d + 1) if len(e.args) > 1 else {("none",)})
                return self._join(vs)
        return None

    def _reg(self, path):
        if not self.reg.closed(): 
            k, p = self.reg.get(path)
            return {("fn", p)} if k == "func" else {("pkg", tuple(p))} if k == "pkg" else None
        k, p = self.reg.get(path)
        if k == "func": return {("fn", p)}
        if k == "pkg": return {("pkg", tuple(p))}
        return {("missing", tuple(p))}

    @staticmethod
    def _join(vs):
        if any(v is None for v in vs): return None
        out = set()
        for v in vs: out |= v
        return out

    def _modfunc(self, m):
        """a pseudo scope for module-level expressions"""
        class F: pass
        f = F(); f.module, f.cls, f.parent, f.args = m, None, None, []
        return f

    def _var(self, v, func, d):
        m = v.module
        vs = m.assigns.get(v.name, [])
        if not vs: return None
        out = []
        for e in vs:
            if isinstance(e, (ast.Name, ast.Attribute)):
                r = self.prog.resolve_expr(e, m, None)
                if isinstance(r, (Func, Cls)): out.append({("fn", r)}); continue
            out.append(None)
        return self._join(out)

    def _defs(self, name, func):
        """expressions a local name may be bound to: list of ('val'|'iter', expr), or None if some binding is not understood"""
        out = []
        if name in func.all_params: return None
        for n in walk_own(func.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id == name: out.append(("val", n.value))
                    elif not isinstance(t, (ast.Subscript, ast.Attribute)) and any(isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(t)): return None
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                if n.value is not None: out.append(("val", n.value))
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name: out.append(("aug", n.value))
            elif isinstance(n, (ast.For, ast.comprehension)):
                if isinstance(n.target, ast.Name) and n.target.id == name: out.append(("iter", n.iter))
                elif any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.target)): return None
            elif isinstance(n, ast.NamedExpr) and n.target.id == name: out.append(("val", n.value))
            elif isinstance(n, (ast.With, ast.withitem)):
                v = getattr(n, "optional_vars", None)
                if v is not None and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(v)): return None
            elif isinstance(n, ast.ExceptHandler) and n.name == name: return None
        return out

    def _local(self, name, func, d, at=None):
        ds = self._defs(name, func)
        if not ds: return None
        vs = []
        def self_lookup(e): return isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Name) and e.slice.id == name
        if any(k == "val" and self_lookup(e) for k, e in ds): ds = [(k, e) for k, e in ds if k != "iter"]     # method = TABLE[method]
        for k, e in ds:
            if k == "val": vs.append(self.values(e, func, d + 1))
            elif k == "iter":
                t = self.table(e, func)
                if t is None: return None
                vs.append(self._join([self.values(v, ow, d + 1) for kk, v, ow in t]))
            else: return None
        return self._join(vs)

    def table(self, e, func, d=0):
        """[(key, value expr, owner scope)] of a list/dict of things; None if not a fully known table"""
        if d > 5: return None
        en = entries(e)
        if en is not None: return [(k, v, func) for k, v in en]
        if isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
            a, b = self.table(e.left, func, d + 1), self.table(e.right, func, d + 1)
            return None if a is None or b is None else a + b
        if isinstance(e, ast.IfExp):
            a, b = self.table(e.body, func, d + 1), self.table(e.orelse, func, d + 1)
            return None if a is None or b is None else a + b
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "values" and not e.args: return self.table(e.func.value, func, d + 1)
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "tuple", "dict", "reversed", "iter") and len(e.args) == 1 and not e.keywords:
            return self.table(e.args[0], func, d + 1)
        if isinstance(e, (ast.Name, ast.Attribute)):
            r = self.prog.resolve_expr(e, func.module, _f(func))
            if isinstance(r, Var):
                vs = r.module.assigns.get(r.name, [])
                if len(vs) != 1: return None
                return self.table(vs[0], self._modfunc(r.module), d + 1)
            if isinstance(r, tuple) and isinstance(e, ast.Name):
                f = r[1]
                ds = self._defs(e.id, f)
                if not ds: return None
                out = []
                for k, x in ds:
                    if k not in ("val", "aug"): return None
                    t = self.table(x, f, d + 1)
                    if t is None: return None
                    out += t
                for n in walk_own(f.node):      # appends
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == e.id:
                        if n.func.attr == "append" and n.args: out.append((None, n.args[0], f))
                        elif n.func.attr == "insert" and len(n.args) == 2: out.append((None, n.args[1], f))
                        elif n.func.attr == "extend" and n.args:
                            t = self.table(n.args[0], f, d + 1)
                            if t is None: return None
                            out += t
                        elif n.func.attr in ("get", "items", "keys", "values", "copy", "index", "reverse"): pass
                        else: return None
                    elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == e.id: return None
                return out
        return None


def signature(f):
    """(positional names, required count, kwonly set, required kwonly, has *args, has **kw)"""
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    return pos, len(pos) - len(a.defaults), {x.arg for x in a.kwonlyargs}, {x.arg for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is None}, a.vararg is not None, a.kwarg is not None, len(a.posonlyargs)


def bind(f, npos, kws, star=False, dstar=False, skip=0):
    """None if a call with npos positional arguments and keyword names kws binds to f, else the reason.
    skip: leading parameters already supplied (self / cls)."""
    pos, req, ko, rko, va, kw, npo = signature(f)
    pos, req = pos[skip:], max(0, req - skip)
    if npos > len(pos) and not va: return "it is given %d positional arguments but takes %d" % (npos, len(pos))
    given = set(pos[:npos])
    for k in kws:
        if k in given and not star: return "parameter '%s' is given twice" % k
        if k not in pos and k not in ko and not kw: return "it has no parameter '%s'" % k
    if not star and not dstar:
        miss = [p for p in pos[npos:req] if p not in kws]
        if miss: return "required parameter '%s' is not given" % miss[0]
    if not dstar:
        miss = [p for p in rko if p not in kws]
        if miss: return "required parameter '%s' is not given" % miss[0]
    return None


def bind_call(prog, kind, ent, call):
    npos = sum(1 for a in call.args if not isinstance(a, ast.Starred))
    star = any(isinstance(a, ast.Starred) for a in call.args)
    kws = [k.arg for k in call.keywords if k.arg]
    dstar = any(k.arg is None for k in call.keywords)
    if isinstance(ent, Cls):
        f = prog.lookup_method(ent, "__new__") if not prog.lookup_method(ent, "__init__") else prog.lookup_method(ent, "__init__")
        if f is None or prog.ext_bases(ent) - {"builtins.object", "abc.ABC"}: 
            if f is None: return None
        if prog.lookup_method(ent, "__new__") and prog.lookup_method(ent, "__init__"): return None
        return bind(f, npos, kws, star, dstar, 1)
    if decorated(prog, ent): return None
    return bind(ent, npos, kws, star, dstar, 1 if kind == "bound" else 0)


TRANSPARENT = {"functools.lru_cache", "functools.cache", "builtins.staticmethod", "builtins.classmethod", "abc.abstractmethod"}

def decorated(prog, f):
    """a decorator that may change the signature"""
    for d in f.decorators:
        x = d.func if isinstance(d, ast.Call) else d
        r = prog.resolve_expr(x, f.module, f.parent)
        if isinstance(r, Ext) and r.name in TRANSPARENT: continue
        if isinstance(r, Func) and r.name in ("sanitize_input", "sanitize_output"): continue
        return True
    return False
