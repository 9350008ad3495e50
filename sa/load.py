"""Program model: every module of /repo parsed, names resolved through imports, classes and scopes."""
import ast, os, builtins, hashlib

EXCLUDE_DIRS = {"tests", "test", "__pycache__", ".git", "notebooks", "static", "node_modules", "testset"}
BUILTINS = set(dir(builtins))


class Func:
    kind = "func"
    def __init__(self, qual, node, module, cls=None, parent=None):
        self.qual, self.node, self.module, self.cls, self.parent = qual, node, module, cls, parent
        self.name = node.name if not isinstance(node, ast.Lambda) else "<lambda>"
        self.nested = {}
        self._locals = None
        self._imports = None
        self.decorators = getattr(node, "decorator_list", [])
    @property
    def args(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args]
    @property
    def all_params(self):
        a = self.node.args
        r = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if a.vararg: r.append(a.vararg.arg)
        if a.kwarg: r.append(a.kwarg.arg)
        return r
    @property
    def defaults(self):
        a = self.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        d = {}
        for n, v in zip(names[len(names) - len(a.defaults):], a.defaults): d[n] = v
        for n, v in zip(a.kwonlyargs, a.kw_defaults):
            if v is not None: d[n.arg] = v
        return d
    @property
    def body(self):
        if isinstance(self.node, ast.Lambda):
            r = ast.Return(value=self.node.body); ast.copy_location(r, self.node.body); return [r]
        return self.node.body
    @property
    def is_static(self): return any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in self.decorators)
    @property
    def is_classmethod(self): return any(isinstance(d, ast.Name) and d.id == "classmethod" for d in self.decorators)
    @property
    def is_property(self):
        for d in self.decorators:
            n = d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", None)
            if n in ("property", "cached_property"): return True
        return False
    @property
    def is_generator(self):
        return any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(self.node))
    @property
    def loc(self): return "%s:%d" % (self.module.rel, self.node.lineno)
    def __repr__(self): return "<Func %s>" % self.qual
    def locals_(self):
        if self._locals is None:
            s = set(self.all_params)
            glob = set()
            for n in walk_own(self.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): s.add(n.id)
                elif isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n is not self.node: s.add(n.name)
                elif isinstance(n, ast.ExceptHandler) and n.name: s.add(n.name)
                elif isinstance(n, (ast.Global, ast.Nonlocal)): glob.update(n.names)
                elif isinstance(n, (ast.Import, ast.ImportFrom)):
                    for al in n.names: s.add((al.asname or al.name).split(".")[0])
            self._locals = s - glob
        return self._locals


class Cls:
    kind = "class"
    def __init__(self, qual, node, module):
        self.qual, self.node, self.module, self.name = qual, node, module, node.name
        self.methods, self.attrs = {}, {}
    @property
    def loc(self): return "%s:%d" % (self.module.rel, self.node.lineno)
    def __repr__(self): return "<Cls %s>" % self.qual


class Ext:
    """Something outside /repo, by dotted name."""
    kind = "ext"
    def __init__(self, name): self.name = self.qual = name
    def __repr__(self): return "<Ext %s>" % self.name
    def __eq__(self, o): return isinstance(o, Ext) and o.name == self.name
    def __hash__(self): return hash(self.name)


class Var:
    """A module-level variable."""
    kind = "var"
    def __init__(self, module, name): self.module, self.name, self.qual = module, name, module.name + "." + name
    def __repr__(self): return "<Var %s>" % self.qual
    def __eq__(self, o): return isinstance(o, Var) and o.qual == self.qual
    def __hash__(self): return hash(self.qual)


class Module:
    kind = "module"
    def __init__(self, name, path, rel, src, is_pkg):
        self.name = self.qual = name
        self.path, self.rel, self.src, self.is_pkg = path, rel, src, is_pkg
        self.tree = ast.parse(src, filename=rel)
        self.defs, self.imports, self.assigns, self.stars = {}, {}, {}, []
        self.linemap = {}
    def __repr__(self): return "<Module %s>" % self.name


def walk_own(fn):
    """Walk a function's own statements (and comprehensions), not nested defs/lambdas/classes."""
    body = fn.body if isinstance(fn.body, list) else [fn.body]
    stack = list(reversed(body))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(reversed(list(ast.iter_child_nodes(n))))


class Program:
    def __init__(self, root, normalise=True):
        self.root, self.normalise = root, normalise
        self.modules, self.funcs, self.classes = {}, {}, {}
        self.errors = []
        self._load()
        self.by_node = {f.node: f for f in self.funcs.values()}
        self._subs = None
        self._mbn = None

    # ---- loading -----------------------------------------------------
    def _load(self):
        h = hashlib.sha256()
        for dp, dn, fn in sorted(os.walk(self.root)):
            dn[:] = sorted(d for d in dn if d not in EXCLUDE_DIRS and not d.startswith("."))
            for f in sorted(fn):
                if not f.endswith(".py"): continue
                path = os.path.join(dp, f)
                rel = os.path.relpath(path, self.root)
                if os.path.basename(rel).startswith(("test_", "conftest")) or rel.startswith(("setup.py",)): continue
                parts = rel[:-3].split(os.sep)
                is_pkg = parts[-1] == "__init__"
                if is_pkg: parts = parts[:-1]
                name = ".".join(p.replace(".", "_") for p in parts)
                src = open(path, encoding="utf-8").read()
                h.update(rel.encode()); h.update(src.encode())
                import warnings
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    m = Module(name, path, rel, src, is_pkg)
                self.modules[name] = m
        self.digest = h.hexdigest()
        if self.normalise:
            from .canon import canon
            canon(list(self.modules.values()))
        for m in self.modules.values():
            self._index(m)

    def _index(self, m):
        self._index_body(m, m.tree.body)

    def _index_body(self, m, body):
        for st in body:
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                m.defs[st.name] = self._mkfunc(st, m, m.name + "." + st.name)
            elif isinstance(st, ast.ClassDef):
                c = self._mkcls(st, m, m.name + "." + st.name)
                m.defs[st.name] = c
            elif isinstance(st, ast.Import):
                for al in st.names:
                    if al.asname: m.imports[al.asname] = ("mod", al.name)
                    else: m.imports[al.name.split(".")[0]] = ("mod", al.name.split(".")[0])
            elif isinstance(st, ast.ImportFrom):
                base = self._abs(m, st)
                for al in st.names:
                    if al.name == "*": m.stars.append(base)
                    else: m.imports[al.asname or al.name] = ("from", base, al.name)
            elif isinstance(st, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                tg = st.targets if isinstance(st, ast.Assign) else [st.target]
                for t in tg:
                    for n in ast.walk(t):
                        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and st.value is not None:
                            m.assigns.setdefault(n.id, []).append(st.value)
            elif isinstance(st, (ast.If, ast.For, ast.While, ast.With, ast.Try)):
                for fld in ("body", "orelse", "finalbody"):
                    self._index_body(m, getattr(st, fld, []) or [])
                for hd in getattr(st, "handlers", []): self._index_body(m, hd.body)

    def _abs(self, m, st):
        if st.level == 0: return st.module or ""
        parts = m.name.split(".")
        if not m.is_pkg: parts = parts[:-1]
        parts = parts[:len(parts) - (st.level - 1)]
        return ".".join(parts + ([st.module] if st.module else []))

    def _mkcls(self, node, m, qual):
        c = Cls(qual, node, m)
        self.classes[qual] = c
        for s in node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                f = self._mkfunc(s, m, qual + "." + s.name, cls=c)
                # keep getter when a setter of the same name follows
                if s.name in c.methods and any(isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter") for d in s.decorator_list):
                    continue
                c.methods[s.name] = f
            elif isinstance(s, (ast.Assign, ast.AnnAssign)):
                tg = s.targets if isinstance(s, ast.Assign) else [s.target]
                for t in tg:
                    if isinstance(t, ast.Name) and s.value is not None: c.attrs[t.id] = s.value
            elif isinstance(s, ast.ClassDef):
                self._mkcls(s, m, qual + "." + s.name)
        return c

    def _mkfunc(self, node, m, qual, cls=None, parent=None):
        k = qual; i = 2
        while k in self.funcs: k = "%s#%d" % (qual, i); i += 1
        f = Func(k, node, m, cls, parent)
        self.funcs[k] = f
        for n in walk_own(node):
            if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) and n is not node:
                f.nested[n.name] = self._mkfunc(n, m, k + ".<locals>." + n.name, cls, f)
            elif isinstance(n, ast.ClassDef):
                f.nested[n.name] = self._mkcls(n, m, k + ".<locals>." + n.name)
            elif isinstance(n, ast.Lambda):
                lf = Func("%s.<lambda>@%d:%d" % (k, n.lineno, n.col_offset), n, m, cls, f)
                self.funcs[lf.qual] = lf
        return f

    # ---- resolution --------------------------------------------------
    def mod_attr(self, modname, name, _seen=()):
        m = self.modules.get(modname)
        if m is None:
            return Ext((modname + "." if modname else "") + name)
        if (modname, name) in _seen: return None
        _seen = _seen + ((modname, name),)
        if name in m.defs: return m.defs[name]
        if name in m.imports:
            im = m.imports[name]
            if im[0] == "mod": return self.modules.get(im[1]) or Ext(im[1])
            sub = self.modules.get(im[1] + "." + im[2] if im[1] else im[2])
            if im[1] in self.modules:
                r = self.mod_attr(im[1], im[2], _seen)
                if r is not None and not (isinstance(r, Ext) and sub): return r
                if sub: return sub
                return r
            return sub or Ext((im[1] + "." if im[1] else "") + im[2])
        if name in m.assigns:
            vs = m.assigns[name]
            if len(vs) == 1 and isinstance(vs[0], (ast.Name, ast.Attribute)):   # alias  X = Y
                r = self.resolve_expr(vs[0], m, None, _seen)
                if r is not None: return r
            return Var(m, name)
        if m.is_pkg and modname + "." + name in self.modules: return self.modules[modname + "." + name]
        for s in m.stars:
            if s in self.modules:
                r = self.mod_attr(s, name, _seen)
                if r is not None and not isinstance(r, Ext): return r
        return None

    def func_imports(self, f):
        if f._imports is None:
            d = {}
            for n in walk_own(f.node):
                if isinstance(n, ast.Import):
                    for al in n.names:
                        d[al.asname or al.name.split(".")[0]] = ("mod", al.name if al.asname else al.name.split(".")[0])
                elif isinstance(n, ast.ImportFrom):
                    base = self._abs(f.module, n)
                    for al in n.names: d[al.asname or al.name] = ("from", base, al.name)
            f._imports = d
        return f._imports

    def resolve_name(self, name, module, func=None):
        """Entity, or ('local', func) when it is a plain local variable, or None if unknown."""
        f = func
        while f is not None:
            if name in f.nested: return f.nested[name]
            im = self.func_imports(f)
            if name in im:
                i = im[name]
                if i[0] == "mod": return self.modules.get(i[1]) or Ext(i[1])
                if i[1] in self.modules: return self.mod_attr(i[1], i[2])
                return self.modules.get(i[1] + "." + i[2]) or Ext(i[1] + "." + i[2])
            if name in f.locals_(): return ("local", f)
            f = f.parent
        r = self.mod_attr(module.name, name)
        if r is not None: return r
        if name in BUILTINS: return Ext("builtins." + name)
        return None

    def resolve_expr(self, e, module, func=None, _seen=()):
        """Resolve a Name / dotted Attribute to an entity (or None)."""
        if isinstance(e, ast.Name):
            if func is None:
                r = self.mod_attr(module.name, e.id, _seen)
                if r is None and e.id in BUILTINS: return Ext("builtins." + e.id)
                return r
            return self.resolve_name(e.id, module, func)
        if isinstance(e, ast.Attribute):
            b = self.resolve_expr(e.value, module, func, _seen)
            return self.attr_of(b, e.attr)
        return None

    def attr_of(self, b, attr):
        if isinstance(b, Module): return self.mod_attr(b.name, attr)
        if isinstance(b, Ext): return Ext(b.name + "." + attr)
        if isinstance(b, Cls): return self.lookup_method(b, attr)
        return None

    # ---- classes -----------------------------------------------------
    def bases(self, c):
        out = []
        for b in c.node.bases:
            r = self.resolve_expr(b, c.module, None)
            if r is not None: out.append(r)
        return out

    def mro(self, c, _d=0):
        """C3 linearisation over the in-repository classes"""
        cache = self.__dict__.setdefault("_mro", {})
        if c in cache: return cache[c]
        if _d > 12: return [c]
        bs = [b for b in self.bases(c) if isinstance(b, Cls) and b is not c]
        seqs = [list(self.mro(b, _d + 1)) for b in bs] + [list(bs)]
        out = [c]
        while any(seqs):
            seqs = [q for q in seqs if q]
            for q in seqs:
                if not any(q[0] in r[1:] for r in seqs): h = q[0]; break
            else: h = seqs[0][0]
            if h not in out: out.append(h)
            seqs = [[x for x in q if x is not h] for q in seqs]
        cache[c] = out
        return out

    def ext_bases(self, c):
        return {b.name for k in self.mro(c) for b in self.bases(k) if isinstance(b, Ext)}

    def lookup_method(self, c, name):
        for k in self.mro(c):
            if name in k.methods: return k.methods[name]
        return None

    def lookup_attr(self, c, name):
        for k in self.mro(c):
            if name in k.attrs: return k.attrs[name]
        return None

    def is_subclass(self, c, base): return base in self.mro(c)

    def subclasses(self, c):
        if self._subs is None:
            self._subs = {}
            for k in self.classes.values():
                for b in self.mro(k)[1:]: self._subs.setdefault(b, []).append(k)
        return self._subs.get(c, [])

    def methods_named(self, name):
        if self._mbn is None:
            self._mbn = {}
            for c in self.classes.values():
                for n, f in c.methods.items(): self._mbn.setdefault(n, []).append(f)
        return self._mbn.get(name, [])

    def func(self, qual): return self.funcs.get(qual)

    def find_funcs(self, name, under=""):
        return [f for q, f in self.funcs.items() if f.name == name and q.startswith(under)]
