"""Points-to and mutation analysis: which caller-visible objects does a function change?

Origins (tuples):
  ("P", param, path)       an object reachable from a parameter
  ("U", func, var, path)   ... from a variable of an enclosing function
  ("G", qual, path)        ... from a module-level or class-level object
  ("C", qual, path)        ... from the value memoised by function `qual`
  ("A", site)              an object created in this function (never reported)
A path is a tuple of access steps: ".attr", "[]" (some element), "[0]", "['key']", "*" (anything below).
Objects created in a function have their own heap cells, so a fresh list holding the caller's matrix is not the matrix.
Summaries (mutated origins with a witness call chain, stores, returned shape) are iterated to a fixpoint over the call graph.
"""
import ast
from .load import Func, Cls, Ext, Var, Module, walk_own
from .effects import is_memoised, MUT_CALLS, VIEW_CALLS, FRESH_ATTRS, COMMON_EXT, MUTATORS as _M

E = frozenset()
MAXP = 3
NOT_MUT = {"put", "resize", "fill"}
LIST_MUT = _M
NP_VIEW = VIEW_CALLS
# methods that return a new value on everything the library applies them to although a container method has the same name
SHALLOW = {"builtins.list", "builtins.dict", "builtins.tuple", "builtins.set", "builtins.frozenset", "builtins.sorted", "copy.copy", "collections.deque",
           "collections.OrderedDict", "collections.defaultdict", "builtins.reversed", "builtins.iter", "builtins.filter", "itertools.islice", "itertools.cycle"}
ELEMJOIN = {"itertools.chain", "builtins.map_", "itertools.chain.from_iterable"}


_nm = {}
def _names(k):
    r = _nm.get(k)
    if r is None: r = _nm[k] = {n.id for n in ast.walk(ast.parse(k[1:], mode="eval")) if isinstance(n, ast.Name)}
    return r

class V:
    __slots__ = ("o", "t")
    def __init__(self, o=E, t=E): self.o, self.t = o, t
    def __or__(self, x):
        if x is self or (not x.o and not x.t): return self
        if not self.o and not self.t: return x
        return V(self.o | x.o, self.t | x.t)
    def __eq__(self, x): return x is not None and self.o == x.o and self.t == x.t
    def __ne__(self, x): return not self == x
    def __hash__(self): return hash((self.o, self.t))
NONE = V()

def path_of(o): return o[-1] if o[0] != "A" else ()
def extend(o, step):
    p = o[-1]
    if p and p[-1] == "*": return o
    if len(p) >= MAXP: return o[:-1] + (p + ("*",),)
    return o[:-1] + (p + (step,),)
def key_step(c):
    if isinstance(c, bool) or c is None: return "[]"
    if isinstance(c, int): return "[%d]" % c if 0 <= c < 8 else "[]"
    if isinstance(c, str) and len(c) < 40: return "['%s']" % c
    return "[]"
def fmt(o):
    if o[0] == "A": return "a new object"
    base = {"P": lambda: o[1], "U": lambda: o[2], "G": lambda: o[1], "C": lambda: "the cached result of " + o[1].split(".")[-1]}[o[0]]()
    return base + "".join(o[-1])


class Summary:
    def __init__(self):
        self.mut = {}        # origin -> (loc, funcqual, what, chain, kind)
        self.ret = E; self.rett = E
        self.retf = {}       # step -> (origins, has_fresh)
        self.deep = {}       # step -> origins
        self.fresh = False
        self.deepfresh = False
        self.stores = {}     # (origin, step) -> (origins, has_fresh)
    def sig(self): return (len(self.mut), len(self.ret), len(self.rett), sum(len(a) + b for a, b in self.retf.values()), len(self.retf), sum(map(len, self.deep.values())), len(self.deep),
                           self.fresh, self.deepfresh, sum(len(a) + b for a, b in self.stores.values()))


class Alias:
    def __init__(self, prog, cached=(), only=None):
        """cached: functions whose result is a shared, memoised object"""
        self.prog = prog
        self.sum = {f: Summary() for f in prog.funcs.values()}
        self.memo = {f for f in prog.funcs.values() if is_memoised(prog, f)} | set(cached)
        self.fieldt = {}          # (Cls, attr) -> classes
        self.field_deps = {}
        self.heap = {}
        self.env = {}             # f -> {name: V}
        self.deps = {}
        self.calls = self.sites = 0
        self.assigned = {}        # f -> {(new object, ".attr")} assigned after its construction
        self.lams = {}
        for g in prog.funcs.values():
            if isinstance(g.node, ast.Lambda): self.lams.setdefault(g.parent, []).append(g)
        self.run()

    def run(self):
        work = list(self.prog.funcs.values()); inq = set(work); n = 0
        count = {}
        while work:
            f = work.pop(0); inq.discard(f)
            count[f] = count.get(f, 0) + 1
            if count[f] > 25: continue
            n += 1
            s = self.sum[f]; b = s.sig(); eb = sum(len(v.o) for v in self.env.get(f, {}).values()); fb = sum(map(len, self.fieldt.values()))
            Pass(self, f).run()
            if s.sig() != b:
                for u in self.deps.get(f, ()):
                    if u not in inq: work.append(u); inq.add(u)
            if sum(map(len, self.fieldt.values())) != fb:
                for u in self.field_deps.get("*", ()):
                    if u not in inq: work.append(u); inq.add(u)
        self.passes = n

    def cached_kind(self, o):
        f = self.prog.funcs.get(o[1])
        a = f.node.returns if f is not None and not isinstance(f.node, ast.Lambda) else None
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            try: a = ast.parse(a.value, mode="eval").body
            except SyntaxError: a = None
        for st in o[2]:
            if not isinstance(a, ast.Subscript): return None
            h = ast.unparse(a.value).split(".")[-1]
            sub = a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]
            if h in ("Tuple", "tuple"):
                m = st[1:-1]
                if m.isdigit() and int(m) < len(sub): a = sub[int(m)]
                elif len(set(map(ast.unparse, sub))) == 1: a = sub[0]
                else: return None
            elif h in ("List", "list", "Sequence") and st[0] == "[": a = sub[0]
            elif h in ("Dict", "dict") and st[0] == "[" and len(sub) == 2: a = sub[1]
            else: return None
        if a is None: return None
        h = ast.unparse(a).split("[")[0].split(".")[-1]
        return "ndarray" if h == "ndarray" else "array" if h in ("List", "list", "Dict", "dict", "Set", "set") else None
    def is_ndarray(self, o): return self.cached_kind(o) == "ndarray"
    def kept(self, init, path):
        """objects of init's caller that the path (starting at self) denotes once init has run"""
        p = Pass(self, init); p.idx = {}
        for (o, st) in p.heap: p.idx.setdefault(o, set()).add(st)
        me = init.args[0]
        return {o for o in p.walk(frozenset([("P", me, ())]), path) if o[0] == "P" and o[1] != me and o[1] not in (p.va, p.ka)}
    def children(self, f):
        return [g for g in f.nested.values() if isinstance(g, Func)] + self.lams.get(f, [])


class Pass:
    def __init__(self, al, f):
        self.al, self.f, self.prog, self.s = al, f, al.prog, al.sum[f]
        self.heap = al.heap.setdefault(f, {})
        self.all = al.env.setdefault(f, {})
        self.changed = False
        a = f.node.args
        self.va, self.ka = (a.vararg.arg if a.vararg else None), (a.kwarg.arg if a.kwarg else None)
        self.glob = set()

    # ---- heap
    def site(self, node, k=""): return ("A", (getattr(node, "lineno", 0), getattr(node, "col_offset", 0), type(node).__name__ + k))
    def put(self, o, step, vals):
        if not vals: return
        if o in vals and o[0] == "A" and False: return
        c = self.heap.get((o, step), E)
        if not vals <= c: self.heap[(o, step)] = c | vals; self.changed = True
        self.idx.setdefault(o, set()).add(step)
    def read1(self, o, step, seen=()):
        r = set()
        steps = self.idx.get(o, ())
        if step == "[]":
            for st in steps:
                if st[0] == "[": r |= self.heap[(o, st)]
        elif step[0] == "[":
            for st in (step, "[]"):
                if st in steps: r |= self.heap[(o, st)]
        elif step in steps: r |= self.heap[(o, step)]
        if "<copy>" in steps and o not in seen and len(seen) < 6:
            for b in self.heap[(o, "<copy>")]: r |= self.read1(b, step, seen + (o,))
        if o[0] != "A": r.add(extend(o, step))
        return r
    def read(self, objs, step):
        r = set()
        for o in objs: r |= self.read1(o, step)
        return frozenset(r)
    def walk(self, objs, path):
        cur = objs
        for st in path:
            if st == "*": cur = self.reach(cur)
            else: cur = self.read(cur, st)
        return cur
    def reach(self, objs):
        seen = set(); work = list(objs); out = set()
        while work and len(seen) < 400:
            o = work.pop()
            if o in seen: continue
            seen.add(o)
            if o[0] != "A": out.add(extend(o, "*"))
            for st in self.idx.get(o, ()): work.extend(self.heap[(o, st)])
        return frozenset(seen | out)

    # ---- driver
    def run(self):
        f = self.f
        self.idx = {}
        for (o, st) in self.heap: self.idx.setdefault(o, set()).add(st)
        env = {}
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            t = self.ann_types(x.annotation) if x.annotation is not None else E
            env[x.arg] = V(frozenset([("P", x.arg, ())]), t)
        for n in (self.va, self.ka):
            if n: env[n] = V(frozenset([("P", n, ())]))
        if f.cls is not None and f.args and not f.is_static and f.parent is None:
            p0 = f.args[0]
            env[p0] = V(E, E) if f.is_classmethod or f.name == "__new__" else V(frozenset([("P", p0, ())]), frozenset([f.cls]))
        for n in walk_own(f.node):
            if isinstance(n, ast.Global): self.glob.update(n.names)
        for k, v in env.items(): self.all[k] = self.all.get(k, NONE) | v
        for _ in range(4):
            self.changed = False
            self.block(f.body, dict(env))
            if not self.changed: break
        # closures
        for g in self.al.children(f):
            self.al.deps.setdefault(g, set()).add(f)
            for o, w in list(self.al.sum[g].mut.items()):
                if o[0] == "U":
                    if o[1] == f.qual:
                        for x in self.walk(self.all.get(o[2], NONE).o, o[3]): self.rec(x, w)
                    else: self.rec(o, w)
                elif o[0] in "GC": self.rec(o, w)
            for (o, st), (vals, fr) in list(self.al.sum[g].stores.items()):
                if o[0] == "U" and o[1] == f.qual:
                    vs = set()
                    for v in vals:
                        if v[0] == "U" and v[1] == f.qual: vs |= self.walk(self.all.get(v[2], NONE).o, v[3])
                        elif v[0] in "GC": vs.add(v)
                    for x in self.walk(self.all.get(o[2], NONE).o, o[3]): self.put(x, st, frozenset(vs))
        self.export()

    def export(self):
        s = self.s
        def nonA(vals): return frozenset(x for x in vals if x[0] != "A")
        tops = [o for o in s_ret(self) if o[0] == "A"]
        s.ret = s.ret | nonA(s_ret(self))
        if tops: s.fresh = True
        lvl1 = set()
        for o in tops:
            for st in self.idx.get(o, ()):
                vals = self.heap[(o, st)]
                fr = any(x[0] == "A" for x in vals)
                c, cf = s.retf.get(st, (E, False))
                s.retf[st] = (c | nonA(vals), cf or fr)
                lvl1 |= {x for x in vals if x[0] == "A"}
        for (o, st), vals in list(self.heap.items()):
            if o[0] == "A": continue
            fr = any(x[0] == "A" for x in vals)
            c, cf = s.stores.get((o, st), (E, False))
            nv = nonA(vals) - {extend(o, st)}
            if nv or fr: s.stores[(o, st)] = (c | nv, cf or fr)
            lvl1 |= {x for x in vals if x[0] == "A"}
        seen = set(); work = list(lvl1)
        while work:
            o = work.pop()
            if o in seen: continue
            seen.add(o)
            for st in self.idx.get(o, ()):
                vals = self.heap[(o, st)]
                s.deep[st] = s.deep.get(st, E) | nonA(vals)
                for x in vals:
                    if x[0] == "A": work.append(x); s.deepfresh = True

    def ann_types(self, a):
        if isinstance(a, ast.Constant) and isinstance(a.value, str):
            r = self.prog.resolve_name(a.value, self.f.module, None)
            return frozenset([r]) if isinstance(r, Cls) else E
        if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Name) and a.value.id in ("Optional", "Union"):
            out = E
            for x in (a.slice.elts if isinstance(a.slice, ast.Tuple) else [a.slice]): out = out | self.ann_types(x)
            return out
        if isinstance(a, (ast.Name, ast.Attribute)):
            r = self.prog.resolve_expr(a, self.f.module, self.f.parent)
            if isinstance(r, Cls): return frozenset([r])
        return E

    def rec(self, o, w):
        if o[0] == "A": return
        if o not in self.s.mut: self.s.mut[o] = w; self.changed = True
    def mutate(self, objs, node, what, kind="item"):
        self.al.sites += 1
        me = self.f.args[0] if self.f.cls is not None and self.f.parent is None and self.f.args and not self.f.is_static else None
        root = getattr(node, "targets", [getattr(node, "target", None)])[0]
        while isinstance(root, (ast.Subscript, ast.Attribute)): root = root.value
        mine = kind == "attr" and isinstance(root, ast.Name) and root.id == me
        for o in objs:
            k = "own" if mine else "own" if o[0] == "P" and o[1] == me and kind == "attr" else kind
            self.rec(o, ("%s:%d" % (self.f.module.rel, node.lineno), self.f.qual, what, (), k))
    def cell(self, e):
        """text of an access path such as d[k]['a'] or x.f made of names and constants, else None"""
        n = e
        while isinstance(n, (ast.Subscript, ast.Attribute)):
            if isinstance(n, ast.Subscript) and not isinstance(n.slice, (ast.Name, ast.Constant)): return None
            n = n.value
        return "!" + ast.unparse(e) if isinstance(n, ast.Name) and n is not e else None
    def forget(self, env, name, keep=None):
        for k in [k for k in env if k[0] == "!" and k != keep and name in _names(k)]: del env[k]
    def setv(self, env, name, v):
        self.forget(env, name)
        env[name] = v
        old = self.all.get(name)
        new = v if old is None else old | v
        if new != old: self.all[name] = new; self.changed = True

    # ---- statements
    def merge(self, a, b):
        if a is None: return b
        if b is None: return a
        r = {}
        for k in a.keys() | b.keys():
            x, y = a.get(k), b.get(k)
            if x is not None and y is not None: r[k] = x | y
            elif k[0] != "!": r[k] = x if x is not None else y
        return r
    def block(self, body, env):
        for st in body:
            env = self.stmt(st, env)
            if env is None: return None
        return env
    def loop(self, env, once):
        cur = env
        for _ in range(4):
            nxt = self.merge(cur, once(dict(cur)))
            if nxt == cur: break
            cur = nxt
        return cur
    def stmt(self, st, env):
        ev = lambda e: self.ev(e, env)
        if isinstance(st, ast.Assign):
            v = ev(st.value)
            for t in st.targets: self.assign(t, v, env, st, st.value)
        elif isinstance(st, ast.AnnAssign):
            if st.value is not None:
                v = ev(st.value)
                self.assign(st.target, V(v.o, v.t | self.ann_types(st.annotation)), env, st, st.value)
        elif isinstance(st, ast.AugAssign):
            v = ev(st.value)
            if isinstance(st.target, ast.Name):
                cur = self.lookup(st.target.id, env)
                arr = self.cached_arrays(cur.o)
                if arr: self.mutate(arr, st, "in-place update of %s" % st.target.id)
                if self.listish(st.value) or self.arrayish(st.target.id):
                    self.mutate(cur.o, st, "in-place update of %s" % st.target.id)
                    for o in cur.o: self.put(o, "[]", self.read(v.o, "[]"))
                else: self.setv(env, st.target.id, self.binop(st, cur, v))
            else:
                cur = ev(st.target if not isinstance(st.target, ast.Starred) else st.target.value)
                if self.listish(st.value): self.mutate(cur.o, st, "in-place update of %s" % ast.unparse(st.target))
                else: self.mutate(self.cached_arrays(cur.o), st, "in-place update of %s" % ast.unparse(st.target))
                self.assign(st.target, v | cur, env, st, st.value)
        elif isinstance(st, ast.Expr): ev(st.value)
        elif isinstance(st, ast.Return):
            if st.value is not None: self.ret(ev(st.value))
            return None
        elif isinstance(st, ast.Raise):
            if st.exc is not None: ev(st.exc)
            return None
        elif isinstance(st, ast.If):
            ev(st.test)
            return self.merge(self.block(st.body, dict(env)), self.block(st.orelse, dict(env)))
        elif isinstance(st, (ast.For, ast.AsyncFor)):
            it = ev(st.iter)
            def once(e2):
                self.assign(st.target, V(self.read(it.o, "[]"), self.elt(it)), e2, st, None)
                return self.block(st.body, e2)
            cur = self.loop(env, once)
            return self.merge(cur, self.block(st.orelse, dict(cur)))
        elif isinstance(st, ast.While):
            ev(st.test)
            cur = self.loop(env, lambda e2: self.block(st.body, e2))
            self.block(st.orelse, dict(cur))
            return cur
        elif isinstance(st, ast.Try):
            a = self.block(st.body, dict(env))
            mid = self.merge(env, a)
            r = self.block(st.orelse, dict(a)) if a is not None else None
            for h in st.handlers: r = self.merge(r, self.block(h.body, dict(mid)))
            if st.finalbody:
                r2 = self.block(st.finalbody, dict(r if r is not None else mid))
                return r2 if r is not None else None
            return r
        elif isinstance(st, (ast.With, ast.AsyncWith)):
            for i in st.items:
                v = ev(i.context_expr)
                if i.optional_vars is not None: self.assign(i.optional_vars, v, env, st, None)
            return self.block(st.body, env)
        elif isinstance(st, ast.Delete):
            for t in st.targets:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    self.mutate(ev(t.value).o, st, "del " + ast.unparse(t), "item" if isinstance(t, ast.Subscript) else "attr")
        elif isinstance(st, ast.Assert): ev(st.test)
        return env
    def ret(self, v):
        r = getattr(self.al, "_ret", None)
        if r is None: r = self.al._ret = {}
        c = r.get(self.f, E)
        if not v.o <= c: r[self.f] = c | v.o; self.changed = True
        if not v.t <= self.s.rett: self.s.rett = self.s.rett | v.t
    def elt(self, it): return E
    def arrayish(self, name):
        a = self.f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.arg == name and x.annotation is not None:
                return ast.unparse(x.annotation).split("[")[0].split(".")[-1] in ("List", "list", "Dict", "dict", "Set", "set", "ndarray")
        d = self.f.defaults.get(name)
        return isinstance(d, (ast.List, ast.Dict, ast.Set))
    def cached_arrays(self, objs):
        """the memoised objects among objs that are arrays (or containers), by the annotation of the memoised function"""
        return frozenset(o for o in objs if o[0] == "C" and self.al.cached_kind(o) is not None)
    def views(self, objs):
        return frozenset(o for o in self.cached_arrays(objs) if self.al.is_ndarray(o))
    def listish(self, e):
        if isinstance(e, (ast.List, ast.ListComp, ast.SetComp, ast.Set)): return True
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("list", "set", "sorted"): return True
        if isinstance(e, ast.BinOp) and isinstance(e.op, (ast.Add, ast.Mult)): return self.listish(e.left) or self.listish(e.right)
        return False
    def assign(self, t, v, env, st, src):
        if isinstance(t, ast.Name):
            if t.id in self.glob: self.mutate([("G", self.f.module.name + "." + t.id, ())], st, "rebinds global " + t.id, "rebind")
            else: self.setv(env, t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    a = self.site(x, "star"); self.put(a, "[]", self.read(v.o, "[]"))
                    self.assign(x.value, V(frozenset([a])), env, st, None)
                else:
                    step = key_step(i) if not star or i < star[0] else "[]"
                    self.assign(x, V(self.read(v.o, step)), env, st, None)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, env); self.ev(t.slice, env)
            self.mutate(b.o, st, "item assignment to " + ast.unparse(t.value)[:60])
            step = key_step(t.slice.value) if isinstance(t.slice, ast.Constant) else "[]"
            if isinstance(t.slice, ast.Slice): vals = self.read(v.o, "[]")
            else: vals = v.o
            for o in b.o: self.put(o, step, vals)
            self.setcell(t, v, env)
            for c in b.t:
                m = self.prog.lookup_method(c, "__setitem__")
                if m: self.call(m, [b, NONE, v], {}, [], [], st)
        elif isinstance(t, ast.Attribute):
            r = self.prog.resolve_expr(t.value, self.f.module, self.f)
            if isinstance(r, (Cls, Module, Ext)):
                self.mutate([("G", "%s.%s" % (r.qual, t.attr), ())], st, "assigns %s" % ast.unparse(t), "rebind"); return
            b = self.ev(t.value, env)
            self.mutate(b.o, st, "assignment to " + ast.unparse(t), "attr")
            for o in b.o:
                if o[0] == "A": self.al.assigned.setdefault(self.f, set()).add((o, "." + t.attr))
            for o in b.o: self.put(o, "." + t.attr, v.o)
            self.setcell(t, v, env)
            for c in b.t:
                if not v.t <= self.al.fieldt.get((c, t.attr), E):
                    self.al.fieldt[(c, t.attr)] = self.al.fieldt.get((c, t.attr), E) | v.t
        elif isinstance(t, ast.Starred): self.assign(t.value, v, env, st, None)

    def setcell(self, t, v, env):
        n = t
        while isinstance(n, (ast.Subscript, ast.Attribute)): n = n.value
        if isinstance(n, ast.Name): self.forget(env, n.id)
        c = self.cell(t)
        if c: env[c] = v

    # ---- expressions
    def lookup(self, name, env):
        if name in env: return env[name]
        f = self.f
        if name in f.locals_(): return NONE
        p = f.parent
        while isinstance(p, Func):
            if name in p.locals_():
                if name in p.nested and isinstance(p.nested[name], Func): return NONE
                t = self.al.env.get(p, {}).get(name, NONE).t
                self.al.deps.setdefault(p, set())
                return V(frozenset([("U", p.qual, name, ())]), t)
            p = p.parent
        r = self.prog.resolve_name(name, f.module, f)
        if isinstance(r, Var): return self.glob_var(r)
        return NONE
    def glob_var(self, r):
        out = set()
        for x in r.module.assigns.get(r.name, []):
            if isinstance(x, ast.Call):
                c = self.prog.resolve_expr(x.func, r.module, None)
                if isinstance(c, Cls): out.add(c)
        return V(frozenset([("G", r.qual, ())]), frozenset(out))
    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m: return m(e, env)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr): self.ev(c, env)
        return NONE
    def e_Name(self, e, env): return self.lookup(e.id, env)
    def e_Constant(self, e, env): return NONE
    def e_Starred(self, e, env): return V(self.read(self.ev(e.value, env).o, "[]"))
    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env); self.setv(env, e.target.id, v); return v
    def e_IfExp(self, e, env):
        self.ev(e.test, env); return self.ev(e.body, env) | self.ev(e.orelse, env)
    def e_BoolOp(self, e, env):
        r = NONE
        for x in e.values: r = r | self.ev(x, env)
        return r
    def seq(self, e, env, indexed):
        a = self.site(e)
        i = 0; exact = True
        for x in e.elts:
            if isinstance(x, ast.Starred):
                exact = False; self.put(a, "[]", self.read(self.ev(x.value, env).o, "[]"))
            else:
                self.put(a, key_step(i) if indexed and exact else "[]", self.ev(x, env).o)
                i += 1
        return V(frozenset([a]))
    def e_Tuple(self, e, env): return self.seq(e, env, True)
    def e_List(self, e, env): return self.seq(e, env, len(e.elts) <= 8)
    def e_Set(self, e, env): return self.seq(e, env, False)
    def e_Dict(self, e, env):
        a = self.site(e)
        for k, v in zip(e.keys, e.values):
            x = self.ev(v, env)
            if k is None: self.put(a, "<copy>", x.o)
            else:
                self.ev(k, env)
                self.put(a, key_step(k.value) if isinstance(k, ast.Constant) else "[]", x.o)
        return V(frozenset([a]))
    def comp(self, e, env, elts):
        env2 = dict(env)
        for g in e.generators:
            it = self.ev(g.iter, env2)
            self.assign(g.target, V(self.read(it.o, "[]")), env2, e, None)
            for c in g.ifs: self.ev(c, env2)
        a = self.site(e)
        for x in elts[:-1]: self.ev(x, env2)
        self.put(a, "[]", self.ev(elts[-1], env2).o)
        return V(frozenset([a]))
    def e_ListComp(self, e, env): return self.comp(e, env, [e.elt])
    e_SetComp = e_GeneratorExp = e_ListComp
    def e_DictComp(self, e, env): return self.comp(e, env, [e.key, e.value])
    def binop(self, node, a, b):
        r = self.read(a.o, "[]") | self.read(b.o, "[]") if isinstance(getattr(node, "op", None), (ast.Add, ast.Mult, ast.BitOr)) else E
        if not r: return NONE
        s = self.site(node, "b"); self.put(s, "[]", r)
        return V(frozenset([s]))
    def e_BinOp(self, e, env): return self.binop(e, self.ev(e.left, env), self.ev(e.right, env))
    def e_Subscript(self, e, env):
        b = self.ev(e.value, env)
        if isinstance(e.slice, ast.Slice):
            for x in (e.slice.lower, e.slice.upper, e.slice.step):
                if x is not None: self.ev(x, env)
            r = self.read(b.o, "[]")
            view = self.views(b.o)
            if not r: return NONE
            a = self.site(e, "sl"); self.put(a, "[]", r); return V(view | {a})
        self.ev(e.slice, env)
        if isinstance(e.slice, ast.Tuple) and any(isinstance(x, ast.Slice) for x in e.slice.elts): return V(self.views(b.o))   # a submatrix
        c = self.cell(e)
        if c in env: return env[c]
        for c in b.t:
            m = self.prog.lookup_method(c, "__getitem__")
            if m: return self.call(m, [b, NONE], {}, [], [], e)
        return V(self.read(b.o, key_step(e.slice.value) if isinstance(e.slice, ast.Constant) else "[]"))
    def e_Attribute(self, e, env):
        r = self.prog.resolve_expr(e, self.f.module, self.f)
        if isinstance(r, Var): return self.glob_var(r)
        if isinstance(r, Ext): return NONE
        if isinstance(r, (Func, Cls, Module)): return NONE
        rb = self.prog.resolve_expr(e.value, self.f.module, self.f)
        iscls = isinstance(e.value, ast.Name) and self.f.cls is not None and self.f.is_classmethod and self.f.args and e.value.id == self.f.args[0]
        if isinstance(rb, Cls) or iscls:
            c = rb if isinstance(rb, Cls) else self.f.cls
            ca = self.prog.lookup_attr(c, e.attr)
            if ca is not None: return V(frozenset([("G", "%s.%s" % (c.qual, e.attr), ())]))
            return NONE
        b = self.ev(e.value, env)
        c = self.cell(e)
        if c in env: return env[c]
        if e.attr in FRESH_ATTRS: return NONE
        if e.attr == "T": return b
        types = E; props = []; out = E
        if b.t: self.al.field_deps.setdefault("*", set()).add(self.f)
        for c in b.t:
            for k in self.prog.mro(c): types = types | self.al.fieldt.get((k, e.attr), E)
            m = self.prog.lookup_method(c, e.attr)
            if m and m.is_property: props.append(m)
            ca = self.prog.lookup_attr(c, e.attr)
            if ca is not None and not m and isinstance(ca, (ast.List, ast.Dict, ast.Set, ast.Call)):
                kc = next((k for k in self.prog.mro(c) if e.attr in k.attrs), None)
                if kc is not None and not any((k2, e.attr) in self.al.fieldt for k2 in self.prog.mro(c)):
                    out = out | {("G", "%s.%s" % (kc.qual, e.attr), ())}
        if props:
            r = NONE
            for m in props: r = r | self.call(m, [b], {}, [], [], e)
            return V(r.o | out, r.t | types)
        if out: return V(out, types)
        return V(self.read(b.o, "." + e.attr), types)
    def e_Lambda(self, e, env): return NONE
    def e_Yield(self, e, env):
        if e.value is not None:
            v = self.ev(e.value, env)
            a = ("A", (self.f.node.lineno, 0, "gen")); self.put(a, "[]", v.o); self.ret(V(frozenset([a])))
        return NONE
    def e_YieldFrom(self, e, env):
        v = self.ev(e.value, env)
        a = ("A", (self.f.node.lineno, 0, "gen")); self.put(a, "[]", self.read(v.o, "[]")); self.ret(V(frozenset([a])))
        return NONE
    def e_Await(self, e, env): return self.ev(e.value, env)

    # ---- calls
    def local_lambda(self, name):
        """the lambda a local name stands for (assigned exactly once)"""
        f = self.f
        while f is not None:
            m = self.al.__dict__.setdefault("lamnames", {})
            if f not in m:
                d = {}
                for n in walk_own(f.node):
                    if isinstance(n, ast.Assign):
                        for t in n.targets:
                            for z in ast.walk(t):
                                if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store): d.setdefault(z.id, []).append(n.value if z is t else None)
                    elif isinstance(n, (ast.For, ast.AugAssign, ast.NamedExpr, ast.withitem)):
                        for z in ast.walk(getattr(n, "target", None) or getattr(n, "optional_vars", None) or ast.Pass()):
                            if isinstance(z, ast.Name): d.setdefault(z.id, []).append(None)
                byn = {g.node: g for g in self.al.lams.get(f, ())}
                m[f] = {k: byn[v[0]] for k, v in d.items() if len(v) == 1 and v[0] in byn}
            if name in m[f]: return m[f][name]
            if name in f.all_params: return None
            f = f.parent
        return None
    def e_Call(self, e, env):
        pos, kw, stars, dstars = [], {}, [], []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, env)
                # a literal tuple unpacked in place
                stars.append(v)
            else: pos.append(self.ev(a, env))
        for k in e.keywords:
            v = self.ev(k.value, env)
            if k.arg is None: dstars.append(v)
            else: kw[k.arg] = v
        fn = e.func
        r = self.prog.resolve_expr(fn, self.f.module, self.f)
        if isinstance(fn, ast.Name) and fn.id in env and isinstance(r, tuple): r = None
        if isinstance(fn, ast.Name) and not isinstance(r, (Func, Cls)): r = self.local_lambda(fn.id) or r
        if isinstance(r, Func):
            args = pos
            if r.cls is not None and r.parent is None and isinstance(fn, ast.Attribute) and r.is_classmethod: args = [NONE] + pos
            return self.call(r, args, kw, stars, dstars, e)
        if isinstance(r, Cls):
            a = self.site(e, "new"); me = V(frozenset([a]), frozenset([r]))
            out = me
            new = self.prog.lookup_method(r, "__new__")
            if new is not None:
                x = self.call(new, [NONE] + pos, kw, stars, dstars, e)
                out = V(x.o | {a}, x.t | {r})
            init = self.prog.lookup_method(r, "__init__")
            if init is not None: self.call(init, [V(out.o, frozenset([r]))] + pos, kw, stars, dstars, e)
            return out
        if isinstance(r, Ext): return self.ext_call(e, r.name, pos, kw, stars, env)
        if isinstance(fn, ast.Attribute): return self.method(e, fn, pos, kw, stars, dstars, env)
        if not isinstance(fn, ast.Name): self.ev(fn, env)
        return NONE
    def copy_of(self, e, objs, k="cp"):
        if not objs: return NONE
        a = self.site(e, k); self.put(a, "<copy>", objs); return V(frozenset([a]))
    def ext_call(self, e, n, pos, kw, stars, env):
        fn = e.func
        if n in MUT_CALLS and len(pos) > MUT_CALLS[n]:
            if n in ("builtins.setattr", "builtins.delattr") and e.args:
                rr = self.prog.resolve_expr(e.args[0], self.f.module, self.f)
                if isinstance(rr, (Cls, Module, Ext)):
                    nm = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else "?"
                    self.mutate([("G", "%s.%s" % (rr.qual, nm), ())], e, "setattr on %s" % rr.qual, "rebind")
                self.mutate(pos[0].o, e, "setattr", "attr")
                if len(pos) > 2:
                    nm = e.args[1].value if isinstance(e.args[1], ast.Constant) else None
                    if nm is None and isinstance(e.args[1], ast.Name) and e.args[1].id in self.f.all_params: nm = "$" + e.args[1].id
                    if nm:
                        for o in pos[0].o: self.put(o, "." + str(nm), pos[2].o)
            else: self.mutate(pos[MUT_CALLS[n]].o, e, "%s(...)" % n)
            return NONE
        if "out" in kw: self.mutate(kw["out"].o, e, "out= of %s" % n); return kw["out"]
        if n == "copy.deepcopy": return NONE
        if n == "builtins.object.__new__":
            c = self.prog.resolve_expr(e.args[0], self.f.module, self.f) if e.args else None
            return V(frozenset([self.site(e, "new")]), frozenset([c]) if isinstance(c, Cls) else E)
        if n in ("builtins.list", "builtins.tuple", "builtins.dict", "copy.copy", "collections.OrderedDict"):
            r = self.copy_of(e, pos[0].o if pos else E)
            if kw:
                a = self.site(e, "cp")
                for k, v in kw.items(): self.put(a, "['%s']" % k, v.o)
                r = V(r.o | {a})
            return r
        if n in SHALLOW:
            src = pos[-1] if n == "builtins.filter" and pos else (pos[0] if pos else NONE)
            els = self.read(src.o, "[]")
            if not els: return NONE
            a = self.site(e, "cp"); self.put(a, "[]", els); return V(frozenset([a]))
        if n == "builtins.zip" or n == "itertools.zip_longest" or n == "itertools.product":
            a, t = self.site(e, "zip"), self.site(e, "zt")
            for i, p in enumerate(pos): self.put(t, key_step(i), self.read(p.o, "[]"))
            for s in stars: self.put(t, "[]", self.read(self.read(s.o, "[]"), "[]"))
            self.put(a, "[]", frozenset([t])); return V(frozenset([a]))
        if n == "builtins.enumerate":
            if not pos: return NONE
            a, t = self.site(e, "zip"), self.site(e, "zt")
            self.put(t, "[1]", self.read(pos[0].o, "[]")); self.put(a, "[]", frozenset([t])); return V(frozenset([a]))
        if n in ("itertools.combinations", "itertools.permutations", "itertools.combinations_with_replacement"):
            a, t = self.site(e, "zip"), self.site(e, "zt")
            if pos: self.put(t, "[]", self.read(pos[0].o, "[]"))
            self.put(a, "[]", frozenset([t])); return V(frozenset([a]))
        if n == "itertools.chain":
            a = self.site(e, "cp")
            for p in pos: self.put(a, "[]", self.read(p.o, "[]"))
            for s in stars: self.put(a, "[]", self.read(self.read(s.o, "[]"), "[]"))
            return V(frozenset([a]))
        if n == "itertools.chain.from_iterable" or n == "builtins.sum":
            els = self.read(self.read(pos[0].o, "[]"), "[]") if pos else E
            if not els: return NONE
            a = self.site(e, "cp"); self.put(a, "[]", els); return V(frozenset([a]))
        if n in ("builtins.next", "builtins.max", "builtins.min"):
            if len(pos) == 1: return V(self.read(pos[0].o, "[]"))
            r = NONE
            for p in pos: r = r | p
            if n == "builtins.next" and pos: return V(self.read(pos[0].o, "[]")) | (pos[1] if len(pos) > 1 else NONE)
            return r
        if n == "builtins.getattr" and pos:
            nm = e.args[1].value if len(e.args) > 1 and isinstance(e.args[1], ast.Constant) else None
            r = V(self.read(pos[0].o, "." + nm)) if isinstance(nm, str) else V(self.reach(pos[0].o) - pos[0].o if False else E)
            return r | (pos[2] if len(pos) > 2 else NONE)
        if n in NP_VIEW and pos: return V(pos[0].o)
        if n == "builtins.map" and len(pos) > 1:
            g = self.prog.resolve_expr(e.args[0], self.f.module, self.f)
            if isinstance(g, Func):
                r = self.call(g, [V(self.read(p.o, "[]")) for p in pos[1:]], {}, [], [], e)
                a = self.site(e, "map"); self.put(a, "[]", r.o); return V(frozenset([a]))
            return NONE
        if n == "builtins.vars" and pos: return pos[0]
        if n == "functools.reduce": return NONE
        return NONE
    def method(self, e, fn, pos, kw, stars, dstars, env):
        if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super" and self.f.cls is not None:
            me = V(frozenset([("P", self.f.args[0], ())]), frozenset([self.f.cls])) if self.f.args and not self.f.is_classmethod and self.f.name != "__new__" else NONE
            for k in self.prog.mro(self.f.cls)[1:]:
                if fn.attr in k.methods: return self.call(k.methods[fn.attr], [me] + pos, kw, stars, dstars, e)
            if fn.attr == "__new__":
                a = self.site(e, "new"); return V(frozenset([a]), frozenset([self.f.cls]))
            return NONE
        if fn.attr == "update" and isinstance(fn.value, ast.Attribute) and fn.value.attr == "__dict__" and len(e.args) == 1:
            src = e.args[0]
            while isinstance(src, ast.Call) and (src.args or isinstance(src.func, ast.Attribute)): src = src.func.value if isinstance(src.func, ast.Attribute) else src.args[0]
            if isinstance(src, ast.Attribute) and src.attr == "__dict__": src = src.value
            b = self.ev(fn.value.value, env); v = self.ev(src, env)
            self.mutate(b.o, e, ".update() on " + ast.unparse(fn.value), "attr")
            for o in b.o: self.put(o, "<copy>", v.o)
            return NONE
        b = self.ev(fn.value, env); name = fn.attr
        targets = set()
        for c in b.t:
            m = self.prog.lookup_method(c, name)
            if m: targets.add(m)
            for s in self.prog.subclasses(c):
                if name in s.methods: targets.add(s.methods[name])
        iscls = isinstance(fn.value, ast.Name) and self.f.cls is not None and (self.f.is_classmethod or self.f.name == "__new__") and self.f.args and fn.value.id == self.f.args[0]
        if iscls:
            m = self.prog.lookup_method(self.f.cls, name)
            if m: targets.add(m)
        if not targets and not b.t and name not in COMMON_EXT and name not in _M:
            c = self.prog.methods_named(name)
            if 1 <= len(c) <= 2: targets = set(c)
        if targets:
            r = NONE
            for m in targets: r = r | self.call(m, pos if m.is_static else [b] + pos, kw, stars, dstars, e)
            return r
        if name in _M and name not in NOT_MUT:
            if name == "add" and (len(pos) != 1): pass
            self.mutate(b.o, e, ".%s() on %s" % (name, ast.unparse(fn.value)[:60]))
            if name in ("append", "add", "appendleft", "insert", "setdefault"):
                step = "[]"
                if name == "setdefault" and e.args and isinstance(e.args[0], ast.Constant): step = key_step(e.args[0].value)
                v = pos[-1] if pos and (name not in ("insert", "setdefault") or len(pos) > 1) else NONE
                for o in b.o: self.put(o, step, v.o)
                if name == "setdefault": return V(self.read(b.o, step)) | v
            elif name in ("extend", "update", "extendleft"):
                for p in pos:
                    for o in b.o:
                        self.put(o, "[]", self.read(p.o, "[]"))
                for k, v in kw.items():
                    for o in b.o: self.put(o, "['%s']" % k, v.o)
                for d in dstars:
                    for o in b.o: self.put(o, "[]", self.read(d.o, "[]"))
            if name in ("pop", "popleft", "popitem"):
                step = key_step(e.args[0].value) if name == "pop" and e.args and isinstance(e.args[0], ast.Constant) and isinstance(e.args[0].value, str) else "[]"
                return V(self.read(b.o, step)) | (pos[1] if len(pos) > 1 else NONE)
            return NONE
        if name == "get" or name == "__getitem__":
            step = key_step(e.args[0].value) if e.args and isinstance(e.args[0], ast.Constant) else "[]"
            return V(self.read(b.o, step)) | (pos[1] if len(pos) > 1 else NONE) | kw.get("default", NONE)
        if name == "items":
            els = self.read(b.o, "[]")
            if not els: return NONE
            a, t = self.site(e, "it"), self.site(e, "itt")
            self.put(t, "[1]", els); self.put(a, "[]", frozenset([t])); return V(frozenset([a]))
        if name == "values":
            els = self.read(b.o, "[]")
            if not els: return NONE
            a = self.site(e, "it"); self.put(a, "[]", els); return V(frozenset([a]))
        if name in ("copy", "__copy__"): return V(self.copy_of(e, b.o).o, b.t)
        if name in ("reshape", "transpose"): return V(self.views(b.o))
        if name in ("view", "ravel", "squeeze", "swapaxes", "to_field", "to_sdm", "to_ddm", "to_sparse", "to_dense", "unify", "convert_to"): return V(b.o)
        return NONE

    def call(self, g, args, kw, stars, dstars, e):
        al = self.al; al.calls += 1
        al.deps.setdefault(g, set()).add(self.f)
        sg = al.sum[g]
        names = g.args
        bind = {}
        for n, a in zip(names, args): bind[n] = a
        rest = args[len(names):]
        va = g.node.args.vararg.arg if g.node.args.vararg else None
        ka = g.node.args.kwarg.arg if g.node.args.kwarg else None
        formal = set(g.all_params) - {va, ka}
        kws = {}
        for k, v in kw.items():
            if k in formal: bind[k] = v
            else: kws[k] = v
        for n in formal:
            if n in bind: continue
            v = NONE
            for s in stars: v = v | V(self.read(s.o, "[]"))
            for d in dstars: v = v | V(self.read(d.o, "['%s']" % n))
            bind[n] = v
        if va:
            a = self.site(e, "va" + va)
            for i, r in enumerate(rest): self.put(a, key_step(i), r.o)
            for s in stars: self.put(a, "[]", self.read(s.o, "[]"))
            bind[va] = V(frozenset([a]))
        if ka:
            a = self.site(e, "ka" + ka)
            for k, v in kws.items(): self.put(a, "['%s']" % k, v.o)
            for d in dstars: self.put(a, "<copy>", d.o)
            bind[ka] = V(frozenset([a]))
        cache = {}
        def subst(o):
            r = cache.get(o)
            if r is not None: return r
            if o[0] == "P": r = self.walk(bind.get(o[1], NONE).o, o[2])
            elif o[0] == "U" and o[1] == self.f.qual: r = self.walk(self.all.get(o[2], NONE).o, o[3])
            else: r = frozenset([o])
            cache[o] = r
            return r
        def substs(os):
            r = E
            for o in os: r = r | subst(o)
            return r
        for o, w in list(sg.mut.items()):
            if len(w[3]) > 10: continue
            if o[0] == "U" and o[1] != self.f.qual and g.parent is not self.f and not self.inside(o[1]): continue
            for x in subst(o):
                if x[0] != "A": self.rec(x, (w[0], w[1], w[2], (("%s:%d" % (self.f.module.rel, e.lineno), self.f.qual),) + w[3], w[4]))
        a1 = self.site(e, "r1:" + g.name)
        def deep():
            for st, vals in sg.deep.items():
                if st == "<copy>" or True: self.put(a1, st, substs(vals))
            if sg.deepfresh:
                self.put(a1, "[]", frozenset([a1]))
        used = False
        for (o, st), (vals, fr) in list(sg.stores.items()):
            vv = substs(vals)
            if fr: vv = vv | {a1}; used = True
            if st.startswith(".$"):      # setattr(obj, <parameter>, value) with a constant name at this call
                st = self.field_name(g, st[2:], e, args)
                if st is None: continue
            for x in subst(o):
                self.put(x, st, vv)
        obj = substs(sg.ret)
        if sg.fresh:
            a0 = self.site(e, "r0:" + g.name)
            for st, (vals, fr) in sg.retf.items():
                vv = substs(vals)
                if fr: vv = vv | {a1}; used = True
                self.put(a0, st, vv)
            obj = obj | {a0}
        if used: deep()
        if g in al.memo: return V(frozenset([("C", g.qual, ())]), sg.rett)
        return V(obj, sg.rett)
    def field_name(self, g, prm, e, args):
        if not isinstance(e, ast.Call): return None
        for k in e.keywords:
            if k.arg == prm: return "." + k.value.value if isinstance(k.value, ast.Constant) else None
        off = len(args) - len([x for x in e.args if not isinstance(x, ast.Starred)])
        i = g.args.index(prm) - off if prm in g.args else -1
        if 0 <= i < len(e.args) and isinstance(e.args[i], ast.Constant): return "." + str(e.args[i].value)
        d = g.defaults.get(prm)
        return "." + str(d.value) if isinstance(d, ast.Constant) else None
    def inside(self, q):
        p = self.f.parent
        while isinstance(p, Func):
            if p.qual == q: return True
            p = p.parent
        return False

def s_ret(ps): return getattr(ps.al, "_ret", {}).get(ps.f, E)
