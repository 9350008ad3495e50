"""Interprocedural mutation / aliasing analysis.

Abstract value AV = (obj, inner, types):
  obj   - origins the object itself may be            ("P:x" parameter x, "G:q" module-level object q,
  inner - origins objects reachable from it may be     "C:q" value memoised by q; a trailing "*" marks contents)
  types - in-repo classes the object may be an instance of
A *mutation* of an origin is recorded with a witness (function, line, what).
Function summaries (mutated parameter origins, return AV) are iterated to a fixpoint.
"""
import ast
from .load import Func, Cls, Ext, Var, Module, walk_own

E = frozenset()

class AV:
    __slots__ = ("obj", "inner", "types")
    def __init__(self, obj=E, inner=E, types=E):
        self.obj, self.inner, self.types = obj, inner, types
    def join(self, o):
        if o is self: return self
        return AV(self.obj | o.obj, self.inner | o.inner, self.types | o.types)
    def elem(self): return AV(self.inner, self.inner)
    def __eq__(self, o): return self.obj == o.obj and self.inner == o.inner and self.types == o.types
    def __ne__(self, o): return not self == o
    def __repr__(self): return "AV(%s|%s|%s)" % (sorted(self.obj), sorted(self.inner), sorted(c.name for c in self.types))

FRESH = AV()
def join_all(avs):
    r = FRESH
    for a in avs: r = r.join(a)
    return r

MUTATORS = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault", "popitem",
            "add", "discard", "appendleft", "popleft", "extendleft", "rotate", "intersection_update", "difference_update",
            "symmetric_difference_update", "fill", "resize", "put", "itemset", "setflags",
            "row_op", "col_op", "row_swap", "col_swap", "row_del", "col_del", "zip_row_op",
            "copyin_matrix", "copyin_list", "__setitem__", "__delitem__", "__iadd__"}
COPY_CALLS = {"builtins.list", "builtins.dict", "builtins.set", "builtins.tuple", "builtins.sorted", "builtins.frozenset",
              "copy.copy", "collections.deque", "collections.OrderedDict", "collections.Counter"}
ITER_CALLS = {"builtins.zip", "builtins.enumerate", "builtins.reversed", "builtins.iter", "builtins.filter", "builtins.map",
              "itertools.chain", "itertools.product", "itertools.combinations", "itertools.islice", "itertools.cycle",
              "itertools.permutations", "itertools.chain.from_iterable", "itertools.zip_longest"}
ELEM_CALLS = {"builtins.next", "builtins.max", "builtins.min", "builtins.getattr"}
VIEW_METHODS = {"reshape", "ravel", "view", "squeeze", "transpose", "swapaxes"}
VIEW_CALLS = {"numpy.asarray", "numpy.atleast_1d", "numpy.atleast_2d", "numpy.ravel", "numpy.squeeze", "numpy.transpose",
              "numpy.asanyarray", "numpy.reshape", "numpy.ascontiguousarray"}
MUT_CALLS = {"random.shuffle": 0, "numpy.fill_diagonal": 0, "numpy.put": 0, "numpy.copyto": 0, "numpy.random.shuffle": 0,
             "heapq.heappush": 0, "heapq.heappop": 0, "heapq.heapify": 0, "builtins.setattr": 0, "builtins.delattr": 0,
             "numpy.place": 0, "numpy.putmask": 0, "bisect.insort": 0, "operator.setitem": 0}
FRESH_ATTRS = {"free_symbols", "gens", "args", "shape", "size", "name", "domain", "atoms", "is_monomial", "dtype", "ndim",
               "free_symbols_in_domain", "is_homogeneous"}
CACHE_DECOS = {"functools.lru_cache", "functools.cache", "functools.cached_property", "sympy.core.cache.cacheit", "sympy.cacheit"}
PYCONT = set(dir(list)) | set(dir(dict)) | set(dir(set)) | set(dir(str)) | set(dir(tuple))
COMMON_EXT = PYCONT | {"as_poly", "as_expr", "subs", "xreplace", "doit", "solve", "diff", "coeffs", "coeff", "terms", "degree", "reshape",
    "together", "factor", "expand", "simplify", "evalf", "n", "has", "eval", "func", "LC", "total_degree", "copy", "run", "plot",
    "apply", "sum", "min", "max", "mean", "tolist", "flatten", "astype", "dot", "as_content_primitive", "is_cyclic", "is_symmetric", "sqf_list"}


def is_memoised(prog, f):
    for d in f.decorators:
        t = d.func if isinstance(d, ast.Call) else d
        r = prog.resolve_expr(t, f.module, f.parent)
        if isinstance(r, Ext) and r.name in CACHE_DECOS: return True
        if isinstance(r, (Func,)) and "cache" in r.name.lower(): return True
    return False


class Summary:
    def __init__(self):
        self.mut = {}      # origin ("P:x", "P:x*", "G:..", "C:..") -> witness (loc, text, chain)
        self.ret = FRESH
    def add(self, o, w):
        if o not in self.mut: self.mut[o] = w; return True
        return False


class Effects:
    def __init__(self, prog, cache_sources=None, field_cache=None):
        """cache_sources: {qual: 'label'} functions whose returned object is shared; its mutation is recorded as C:label."""
        self.prog = prog
        self.sum = {f: Summary() for f in prog.funcs.values()}
        self.field = {}       # (class qual, attr) -> AV of values stored (types only + params origins by ctor)
        self.field_from = {}  # (class, attr) -> set of (func, param)
        self.cache_sources = cache_sources or {}
        self.memo = {f for f in prog.funcs.values() if is_memoised(prog, f)}
        self.calls = 0
        self.chain_cache = {}
        self._fix()

    def _fix(self):
        fs = list(self.prog.funcs.values())
        users = {}
        self.deps = users
        work = list(fs); inq = set(fs); n = 0
        while work and n < 40000:
            f = work.pop(0); inq.discard(f); n += 1
            s = self.sum[f]
            before = (len(s.mut), s.ret)
            FuncPass(self, f).run()
            if (len(s.mut), s.ret) != before:
                for u in users.get(f, ()):
                    if u not in inq: work.append(u); inq.add(u)
        self.passes = n

    # decorator chain: list of (wrapperFunc, free-name) from outermost to innermost, then f
    def wrappers(self, f):
        if f in self.chain_cache: return self.chain_cache[f]
        out = []
        for d in f.decorators:
            t = d.func if isinstance(d, ast.Call) else d
            r = self.prog.resolve_expr(t, f.module, f.parent)
            if isinstance(r, Func):
                fac = r
                inner = None
                # factory -> decorator -> wrapper ; or decorator -> wrapper
                cand = [x for x in fac.nested.values() if isinstance(x, Func)]
                for x in cand:
                    sub = [y for y in x.nested.values() if isinstance(y, Func)]
                    if sub: inner = (sub[-1], x.args[0] if x.args else None)
                if inner is None and cand and fac.args: inner = (cand[-1], fac.args[0])
                if inner: out.append(inner)
        self.chain_cache[f] = out
        return out


class FuncPass:
    def __init__(self, eff, f):
        self.eff, self.f, self.prog = eff, f, eff.prog
        self.s = eff.sum[f]
        self.allenv = {}
        self.globals_ = set()

    def run(self):
        f = self.f
        env = {}
        ann = {a.arg: a.annotation for a in f.node.args.posonlyargs + f.node.args.args + f.node.args.kwonlyargs} 
        for p in f.all_params:
            t = E
            if p in ann and ann[p] is not None: t = self.ann_types(ann[p])
            env[p] = AV(frozenset(["P:" + p]), frozenset(["P:" + p + "*"]), t)
        a = f.node.args
        if a.vararg: env[a.vararg.arg] = AV(E, frozenset(["P:" + a.vararg.arg + "*"]))
        if a.kwarg: env[a.kwarg.arg] = AV(E, frozenset(["P:" + a.kwarg.arg + "*"]))
        if f.cls is not None and f.args and not f.is_static and f.parent is None:
            p0 = f.args[0]
            if f.is_classmethod: env[p0] = AV(E, E, E)
            else: env[p0] = AV(env[p0].obj, env[p0].inner, frozenset([f.cls]))
        # free variables of an enclosing function: joined environment of that function
        if f.parent is not None:
            pe = getattr(self.eff, "_penv", {}).get(f.parent)
            if pe:
                for k, v in pe.items():
                    if k not in env and k not in f.locals_():
                        # re-label the parent's own origins so that they do not look like ours
                        env[k] = AV(frozenset("U:" + f.parent.qual + "|" + o for o in v.obj if not o.startswith("U:")) | frozenset(o for o in v.obj if o.startswith("U:")),
                                    frozenset("U:" + f.parent.qual + "|" + o for o in v.inner if not o.startswith("U:")) | frozenset(o for o in v.inner if o.startswith("U:")), v.types)
        self.base = env
        for n in walk_own(f.node):
            if isinstance(n, ast.Global): self.globals_.update(n.names)
        env = dict(env)
        self.block(f.body, env)
        if not hasattr(self.eff, "_penv"): self.eff._penv = {}
        old = self.eff._penv.get(f, {})
        new = dict(old)
        for k, v in self.allenv.items(): new[k] = new[k].join(v) if k in new else v
        for k, v in self.base.items(): new.setdefault(k, v); 
        if new != old:
            self.eff._penv[f] = new
            for g in f.nested.values():
                if isinstance(g, Func): self._dep(g, f)
        # lift closures' mutations of our variables
        for g in self.prog.funcs.values() if False else self._nested(f):
            self.eff.deps.setdefault(g, set()).add(f)
            for o, w in list(self.eff.sum[g].mut.items()):
                pre = "U:" + f.qual + "|"
                if o.startswith(pre): self.s.add(o[len(pre):], w)
                elif o.startswith(("G:", "C:", "U:")): self.s.add(o, w)

    def _nested(self, f):
        out = [g for g in f.nested.values() if isinstance(g, Func)]
        if not hasattr(self.eff, "_lams"):
            d = {}
            for g in self.prog.funcs.values():
                if isinstance(g.node, ast.Lambda): d.setdefault(g.parent, []).append(g)
            self.eff._lams = d
        return out + self.eff._lams.get(f, [])

    def _dep(self, callee, user):
        self.eff.deps.setdefault(user, set()).add(callee)

    def ann_types(self, a):
        out = set()
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            r = self.prog.resolve_name(a.value, self.f.module, None)
            if isinstance(r, Cls): out.add(r)
            return frozenset(out)
        if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Name) and a.value.id in ("Optional", "Union"):
            sl = a.slice
            for x in (sl.elts if isinstance(sl, ast.Tuple) else [sl]): out |= self.ann_types(x)
            return frozenset(out)
        if isinstance(a, (ast.Name, ast.Attribute)):
            r = self.prog.resolve_expr(a, self.f.module, self.f.parent)
            if isinstance(r, Cls): out.add(r)
        return frozenset(out)

    # ---- recording -------------------------------------------------
    def mutate(self, origins, node, what, chain=()):
        for o in origins:
            w = ("%s:%d" % (self.f.module.rel, node.lineno), self.f.qual, what, chain)
            self.s.add(o, w)

    def setv(self, env, name, av):
        env[name] = av
        self.allenv[name] = self.allenv[name].join(av) if name in self.allenv else av

    # ---- statements ------------------------------------------------
    def merge(self, a, b):
        if a is None: return b
        if b is None: return a
        r = {}
        for k in set(a) | set(b):
            if k in a and k in b: r[k] = a[k].join(b[k])
            else: r[k] = a.get(k) or b.get(k)
        return r

    def block(self, body, env):
        """Returns env after the block or None if it never falls through."""
        for st in body:
            env = self.stmt(st, env)
            if env is None: return None
        return env

    def stmt(self, st, env):
        ev = lambda e: self.ev(e, env)
        if isinstance(st, ast.Assign):
            v = ev(st.value)
            for t in st.targets: self.assign(t, v, env, st, st.value)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                v = ev(st.value)
                t = self.ann_types(st.annotation)
                if t: v = AV(v.obj, v.inner, v.types | t)
                self.assign(st.target, v, env, st, st.value)
        elif isinstance(st, ast.AugAssign):
            v = ev(st.value)
            if isinstance(st.target, ast.Name):
                cur = self.lookup(st.target.id, env)
                if self.listish(st.value, env) or self.listish_name(st.target.id):
                    self.mutate(cur.obj, st, "in-place '%s=' on %s" % (type(st.op).__name__, st.target.id))
                    self.setv(env, st.target.id, AV(cur.obj, cur.inner | v.inner | (v.obj), cur.types))
                else:
                    self.setv(env, st.target.id, AV(cur.obj if False else E, cur.inner | v.inner))
            else:
                self.assign(st.target, v, env, st, st.value)
        elif isinstance(st, ast.Expr): ev(st.value)
        elif isinstance(st, ast.Return):
            if st.value is not None:
                r = ev(st.value)
                self.s.ret = self.s.ret.join(r)
            return None
        elif isinstance(st, ast.Raise):
            if st.exc is not None: ev(st.exc)
            return None
        elif isinstance(st, (ast.Break, ast.Continue)):
            return env
        elif isinstance(st, ast.If):
            ev(st.test)
            a = self.block(st.body, dict(env)); b = self.block(st.orelse, dict(env))
            return self.merge(a, b)
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            it = ev(st.iter)
            cur = env
            for _ in range(3):
                e2 = dict(cur)
                self.assign(st.target, it.elem(), e2, st, None)
                r = self.block(st.body, e2)
                nxt = self.merge(cur, r)
                if nxt == cur: break
                cur = nxt
            r = self.block(st.orelse, dict(cur))
            return self.merge(cur, r)
        elif isinstance(st, ast.While):
            ev(st.test)
            cur = env
            for _ in range(3):
                r = self.block(st.body, dict(cur))
                nxt = self.merge(cur, r)
                if nxt == cur: break
                cur = nxt
            self.block(st.orelse, dict(cur))
            return cur
        elif isinstance(st, ast.Try):
            a = self.block(st.body, dict(env))
            mid = self.merge(env, a)
            outs = []
            if a is not None:
                outs.append(self.block(st.orelse, dict(a)))
            for h in st.handlers:
                outs.append(self.block(h.body, dict(mid)))
            r = None
            for o in outs: r = self.merge(r, o)
            if st.finalbody:
                r2 = self.block(st.finalbody, dict(r if r is not None else mid))
                return r2 if r is not None else None
            return r
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                v = ev(i.context_expr)
                if i.optional_vars is not None: self.assign(i.optional_vars, v, env, st, None)
            return self.block(st.body, env)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(ev(t.value).obj, st, "del item of " + ast.unparse(t.value))
                elif isinstance(t, ast.Attribute):
                    self.mutate(ev(t.value).obj, st, "del attribute " + ast.unparse(t))
        elif isinstance(st, ast.Assert): ev(st.test)
        return env

    def listish_name(self, name):
        a = self.f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == name and x.annotation is not None:
                t = ast.unparse(x.annotation)
                return t.split("[")[0].split(".")[-1] in ("List", "list", "Dict", "dict", "Set", "set", "ndarray")
        return False

    def listish(self, e, env):
        if isinstance(e, (ast.List, ast.ListComp, ast.SetComp, ast.Set)): return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "set", "sorted"): return True
        if isinstance(e, ast.BinOp): return self.listish(e.left, env) or self.listish(e.right, env)
        return False

    def assign(self, t, v, env, st, src):
        if isinstance(t, ast.Name):
            if t.id in self.globals_:
                self.mutate(["G:" + self.f.module.name + "." + t.id], st, "rebinds global " + t.id)
            self.setv(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(src, (ast.Tuple, ast.List)) and len(src.elts) == len(t.elts) and not any(isinstance(x, ast.Starred) for x in list(t.elts) + list(src.elts)):
                vals = [self.ev(x, env) for x in src.elts]
                for x, y, s in zip(t.elts, vals, src.elts): self.assign(x, y, env, st, s)
            else:
                for x in t.elts: self.assign(x.value if isinstance(x, ast.Starred) else x, v.elem(), env, st, None)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env); self.ev(t.slice, env)
            self.mutate(b.obj, st, "item assignment to " + ast.unparse(t.value))
            self.store_into(t.value, v, env)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, env)
            r = self.prog.resolve_expr(t.value, self.f.module, self.f)
            if isinstance(r, (Cls, Module, Ext)) :
                self.mutate(["G:%s.%s" % (r.qual, t.attr)], st, "assigns %s" % ast.unparse(t))
            else:
                self.mutate(b.obj, st, "attribute assignment " + ast.unparse(t))
            for c in b.types:
                k = (c, t.attr)
                ff = self.eff.field.setdefault(k, FRESH)
                nv = AV(E, E, v.types)
                if ff.join(nv) != ff: self.eff.field[k] = ff.join(nv)
                for o in v.obj:
                    if o.startswith("P:") and not o.endswith("*"):
                        self.eff.field_from.setdefault(k, set()).add((self.f, o[2:]))
            self.store_into(t.value, v, env)
        elif isinstance(t, ast.Starred): self.assign(t.value, v, env, st, None)

    def store_into(self, base, v, env):
        n = base
        while isinstance(n, (ast.Subscript, ast.Attribute)): n = n.value
        if isinstance(n, ast.Name) and n.id in env:
            cur = env[n.id]
            # contents now include v (do not make a fresh container look like the parameter itself)
            self.setv(env, n.id, AV(cur.obj, cur.inner | v.obj | v.inner, cur.types))

    # ---- expressions ----------------------------------------------
    def lookup(self, name, env):
        if name in env: return env[name]
        if name in self.f.locals_() : return FRESH
        r = self.prog.resolve_name(name, self.f.module, self.f)
        if isinstance(r, Var):
            return AV(frozenset(["G:" + r.qual]), frozenset(["G:" + r.qual + "*"]), self.var_types(r))
        if isinstance(r, tuple):  # local of an enclosing function not seen yet
            return FRESH
        return FRESH

    def var_types(self, v):
        vs = v.module.assigns.get(v.name, [])
        out = set()
        for x in vs:
            if isinstance(x, ast.Call):
                r = self.prog.resolve_expr(x.func, v.module, None)
                if isinstance(r, Cls): out.add(r)
        return frozenset(out)

    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m: return m(e, env)
        r = FRESH
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr): self.ev(c, env)
        return r

    def e_Name(self, e, env): return self.lookup(e.id, env)
    def e_Constant(self, e, env): return FRESH
    def e_Starred(self, e, env): return self.ev(e.value, env).elem()
    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env); self.setv(env, e.target.id, v); return v
    def e_IfExp(self, e, env):
        self.ev(e.test, env); return self.ev(e.body, env).join(self.ev(e.orelse, env))
    def e_BoolOp(self, e, env): return join_all([self.ev(x, env) for x in e.values])
    def e_Tuple(self, e, env):
        vs = [self.ev(x, env) for x in e.elts]
        j = join_all(vs)
        return AV(E, j.obj | j.inner)
    e_List = e_Set = e_Tuple
    def e_Dict(self, e, env):
        inner = set()
        for k, v in zip(e.keys, e.values):
            x = self.ev(v, env)
            if k is None: inner |= x.inner
            else:
                self.ev(k, env); inner |= x.obj | x.inner
        return AV(E, frozenset(inner))
    def comp(self, e, env, elts):
        env2 = dict(env)
        for g in e.generators:
            it = self.ev(g.iter, env2)
            self.assign(g.target, it.elem(), env2, e, None)
            for c in g.ifs: self.ev(c, env2)
        j = join_all([self.ev(x, env2) for x in elts])
        return AV(E, j.obj | j.inner)
    def e_ListComp(self, e, env): return self.comp(e, env, [e.elt])
    e_SetComp = e_GeneratorExp = e_ListComp
    def e_DictComp(self, e, env): return self.comp(e, env, [e.key, e.value])
    def e_BinOp(self, e, env):
        a = self.ev(e.left, env); b = self.ev(e.right, env)
        return AV(E, a.inner | b.inner)
    def e_UnaryOp(self, e, env): self.ev(e.operand, env); return FRESH
    def e_Compare(self, e, env):
        self.ev(e.left, env)
        for c in e.comparators: self.ev(c, env)
        return FRESH
    def e_JoinedStr(self, e, env): return FRESH
    def e_Subscript(self, e, env):
        b = self.ev(e.value, env); 
        if isinstance(e.slice, ast.Slice):
            for x in (e.slice.lower, e.slice.upper, e.slice.step):
                if x is not None: self.ev(x, env)
            return AV(E, b.inner)
        self.ev(e.slice, env)
        return b.elem()
    def e_Attribute(self, e, env):
        r = self.prog.resolve_expr(e, self.f.module, self.f)
        if isinstance(r, Var):
            return AV(frozenset(["G:" + r.qual]), frozenset(["G:" + r.qual + "*"]), self.var_types(r))
        if isinstance(r, Ext):
            return AV(frozenset(["G:ext:" + r.name]), frozenset(["G:ext:" + r.name + "*"]))
        rb = self.prog.resolve_expr(e.value, self.f.module, self.f)
        if isinstance(rb, Cls) or (isinstance(e.value, ast.Name) and e.value.id == "cls" and self.f.is_classmethod):
            c = rb if isinstance(rb, Cls) else self.f.cls
            q = "%s.%s" % (c.qual, e.attr)
            if self.prog.lookup_attr(c, e.attr) is not None:
                return AV(frozenset(["G:" + q]), frozenset(["G:" + q + "*"]))
            return FRESH
        b = self.ev(e.value, env)
        if e.attr in FRESH_ATTRS: return FRESH
        if e.attr == "T": return b
        types = set()
        props = []
        for c in b.types:
            t = self.eff.field.get((c, e.attr))
            for k in self.prog.mro(c):
                t2 = self.eff.field.get((k, e.attr))
                if t2: types |= t2.types
            m = self.prog.lookup_method(c, e.attr)
            if m and m.is_property: props.append(m)
            ca = self.prog.lookup_attr(c, e.attr)
            if ca is not None and not m and isinstance(ca, (ast.List, ast.Dict, ast.Call, ast.Set)):
                kc = next(k for k in self.prog.mro(c) if e.attr in k.attrs)
                q = "%s.%s" % (kc.qual, e.attr)
                stored = any((k2, e.attr) in self.eff.field for k2 in self.prog.mro(c))
                if not stored: return AV(frozenset(["G:" + q]), frozenset(["G:" + q + "*"]))
        if props:
            r = FRESH
            for m in props: r = r.join(self.call_func(m, [b], {}, e, recv=b))
            return AV(r.obj, r.inner, r.types | frozenset(types))
        return AV(b.inner, b.inner, frozenset(types))
    def e_Lambda(self, e, env):
        return FRESH
    def e_Yield(self, e, env):
        if e.value is not None:
            v = self.ev(e.value, env)
            self.s.ret = self.s.ret.join(AV(E, v.obj | v.inner))
        return FRESH
    def e_YieldFrom(self, e, env):
        v = self.ev(e.value, env); self.s.ret = self.s.ret.join(AV(E, v.inner)); return FRESH
    def e_Await(self, e, env): return self.ev(e.value, env)

    def e_Call(self, e, env):
        pos, kw = [], {}
        starred = FRESH
        for a in e.args:
            if isinstance(a, ast.Starred): starred = starred.join(self.ev(a.value, env).elem())
            else: pos.append(self.ev(a, env))
        dstar = FRESH
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None: dstar = dstar.join(v.elem())
            else: kw[k.arg] = v
        extra = starred.join(dstar)
        fn = e.func
        r = self.prog.resolve_expr(fn, self.f.module, self.f)
        if isinstance(fn, ast.Name) and fn.id in env and isinstance(r, tuple): r = None
        if isinstance(r, Func):
            args = pos
            if r.cls is not None and r.parent is None and not r.is_static and isinstance(fn, ast.Attribute):
                rb = self.prog.resolve_expr(fn.value, self.f.module, self.f)
                if r.is_classmethod: args = [FRESH] + pos
            return self.call_func(r, args, kw, e, extra)
        if isinstance(r, Cls):
            init = self.prog.lookup_method(r, "__init__")
            new = self.prog.lookup_method(r, "__new__")
            inner = E
            for m in (init, new):
                if m is not None:
                    self.call_func(m, [AV(E, E, frozenset([r]))] + pos, kw, e, extra)
            j = join_all(pos + list(kw.values()))
            return AV(E, E, frozenset([r]))
        if isinstance(r, Ext):
            n = r.name
            if n in MUT_CALLS and len(pos) > MUT_CALLS[n]:
                if n in ("builtins.setattr", "builtins.delattr") and e.args:
                    rr = self.prog.resolve_expr(e.args[0], self.f.module, self.f)
                    if isinstance(rr, (Cls, Module, Ext)):
                        nm = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else "?"
                        self.mutate(["G:%s.%s" % (rr.qual, nm)], e, "setattr on %s" % rr.qual)
                self.mutate(pos[MUT_CALLS[n]].obj, e, "%s(...)" % n)
            if "out" in kw: self.mutate(kw["out"].obj, e, "out= of %s" % n)
            if n == "copy.deepcopy": return FRESH
            if n in COPY_CALLS:
                j = join_all(pos); return AV(E, j.inner | extra.obj | extra.inner)
            if n in ITER_CALLS:
                j = join_all(pos)
                return AV(E, j.inner)
            if n in ELEM_CALLS:
                j = join_all(pos); return j.elem() if len(pos) == 1 or n in ("builtins.next", "builtins.getattr") else AV(j.obj, j.inner)
            if n in VIEW_CALLS and pos: return AV(pos[0].obj, pos[0].inner)
            if n == "builtins.super": return FRESH
            if n == "builtins.vars" or n == "builtins.globals":
                if n == "builtins.globals": return AV(frozenset(["G:" + self.f.module.name + ".<globals>"]), E)
                return pos[0] if pos else FRESH
            # unknown external function with a method-like receiver
            if isinstance(fn, ast.Attribute):
                b = self.ev(fn.value, env)
                if fn.attr in MUTATORS and any(o.startswith("G:ext:") for o in b.obj):
                    self.mutate(b.obj, e, ".%s() on %s" % (fn.attr, ast.unparse(fn.value)))
            return FRESH
        if isinstance(fn, ast.Attribute):
            return self.method_call(e, fn, pos, kw, extra, env)
        if isinstance(fn, ast.Name) and fn.id in env: return FRESH
        self.ev(fn, env) if not isinstance(fn, ast.Name) else None
        return FRESH

    def method_call(self, e, fn, pos, kw, extra, env):
        # super().m(...)
        if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and self.f.cls is not None:
            me = self.base.get(self.f.args[0]) if self.f.args else FRESH
            for k in self.prog.mro(self.f.cls)[1:]:
                if fn.attr in k.methods:
                    return self.call_func(k.methods[fn.attr], [me] + pos, kw, e, extra)
            return FRESH
        b = self.ev(fn.value, env)
        name = fn.attr
        targets = []
        for c in b.types:
            m = self.prog.lookup_method(c, name)
            if m: targets.append(m)
            for s in self.prog.subclasses(c):
                if name in s.methods: targets.append(s.methods[name])
        if isinstance(fn.value, ast.Name) and fn.value.id == "cls" and self.f.cls is not None and self.f.is_classmethod:
            m = self.prog.lookup_method(self.f.cls, name)
            if m: targets.append(m)
        if not targets and not b.types and name not in COMMON_EXT and name not in MUTATORS:
            c = self.prog.methods_named(name)
            if 1 <= len(c) <= 2: targets = c
        if targets:
            r = FRESH
            for m in set(targets):
                a = pos if m.is_static else [b] + pos
                r = r.join(self.call_func(m, a, kw, e, extra, recv=b))
            return r
        if name in MUTATORS:
            self.mutate(b.obj, e, ".%s() on %s" % (name, ast.unparse(fn.value)[:60]))
            v = join_all(pos)
            self.store_into(fn.value, v, env) if name not in ("pop", "popleft", "popitem", "remove", "clear", "sort") else None
            if name in ("pop", "popleft", "popitem", "setdefault"): return b.elem().join(v)
            return FRESH
        if name in ("get", "items", "values", "keys", "__getitem__", "most_common"):
            v = join_all(pos[1:])
            if name == "get" or name == "__getitem__": return b.elem().join(v)
            return AV(E, b.inner)
        if name == "copy": return AV(E, b.inner, b.types)
        if name in VIEW_METHODS: return AV(b.obj, b.inner)
        return FRESH

    def call_func(self, g, args, kw, e, extra=FRESH, recv=None):
        self.eff.calls += 1
        ws = self.eff.wrappers(g)
        if ws and self.f is not g:
            # apply outermost wrapper; the inner function is reached through its free name
            return self.call_plain(ws[0][0], args, kw, e, extra)
        return self.call_plain(g, args, kw, e, extra)

    def call_plain(self, g, args, kw, e, extra):
        self.eff.deps.setdefault(g, set()).add(self.f)
        sg = self.eff.sum[g]
        names = g.args
        bind = {}
        for n, a in zip(names, args): bind[n] = a
        rest = args[len(names):]
        va, ka = g.node.args.vararg, g.node.args.kwarg
        for k, v in kw.items():
            if k in g.all_params: bind[k] = v
            elif ka: 
                bind[ka.arg] = bind.get(ka.arg, FRESH).join(AV(E, v.obj | v.inner))
        if va and rest:
            j = join_all(rest); bind[va.arg] = AV(E, j.obj | j.inner)
        if extra.obj or extra.inner:
            for n in g.all_params:
                if n not in bind: bind[n] = extra
        def subst(o):
            """origins of ours that origin o of the callee stands for"""
            if o.startswith("P:"):
                n = o[2:]; star = n.endswith("*"); n = n.rstrip("*")
                a = bind.get(n)
                if a is None: return E
                return a.inner if star else a.obj
            if o.startswith("U:"): return frozenset([o])
            return frozenset([o])
        for o, w in list(sg.mut.items()):
            if o.startswith("U:"):
                continue
            if len(w[3]) > 8: continue
            s = subst(o)
            for x in s:
                self.s.add(x, (w[0], w[1], w[2], ((self.f.qual, e.lineno),) + w[3]))
        obj = frozenset().union(*[subst(o) for o in sg.ret.obj]) if sg.ret.obj else E
        inner = frozenset().union(*[subst(o) for o in sg.ret.inner]) if sg.ret.inner else E
        r = AV(obj, inner, sg.ret.types)
        if g in self.eff.memo:
            r = AV(r.obj | {"C:" + g.qual}, r.inner | {"C:" + g.qual + "*"}, r.types)
        elif g.qual in self.eff.cache_sources:
            lab = self.eff.cache_sources[g.qual]
            r = AV(r.obj | {"C:" + lab}, r.inner | {"C:" + lab + "*"}, r.types)
        return r
