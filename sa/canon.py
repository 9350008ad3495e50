"""Source normalisation: undo, on the syntax tree, rewritings that leave the behaviour as it is.

Functions, local variables and loops that the analysed tree had when the rules were written are never touched; only constructs
that are new against that record (known_shapes.json) are folded back:
  - a new helper function is put in the place of its calls (as statement, as result, or as single expression),
  - a new local variable that is read once, in the statement after its definition, is replaced by its value,
  - a loop that only appends to a new list becomes a list comprehension where one stood, and the other way round.
Line numbers in reports are those of the source file."""
import ast, copy, json, os

FN = (ast.FunctionDef, ast.AsyncFunctionDef)
SCOPES = FN + (ast.Lambda, ast.ClassDef)
COMPS = (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)
_HERE = os.path.dirname(os.path.abspath(__file__))


def functions(tree, modname):
    """(qualified name, node, class node or None, enclosing function or None) of every def"""
    def go(body, pre, cls, fn):
        for s in body:
            if isinstance(s, FN):
                q = pre + "." + s.name
                yield q, s, cls, fn
                yield from go(s.body, q + ".<locals>", cls, s)
            elif isinstance(s, ast.ClassDef): yield from go(s.body, pre + "." + s.name, s, fn)
            else:
                for fld in ("body", "orelse", "finalbody"):
                    if isinstance(getattr(s, fld, None), list): yield from go(getattr(s, fld), pre, cls, fn)
                for h in getattr(s, "handlers", []): yield from go(h.body, pre, cls, fn)
    yield from go(tree.body, modname, None, None)


def own(fn):
    stack = list(reversed(fn.body))
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, SCOPES): continue
        stack.extend(reversed(list(ast.iter_child_nodes(n))))


def blocks(fn):
    """every statement list of the function itself"""
    def go(b):
        yield b
        for s in b:
            if isinstance(s, FN + (ast.ClassDef,)): continue
            for fld in ("body", "orelse", "finalbody"):
                if isinstance(getattr(s, fld, None), list): yield from go(getattr(s, fld))
            for h in getattr(s, "handlers", []): yield from go(h.body)
    yield from go(fn.body)


def locals_of(fn):
    a = fn.args
    s = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | {x.arg for x in (a.vararg, a.kwarg) if x}
    for n in own(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): s.add(n.id)
        elif isinstance(n, FN + (ast.ClassDef,)): s.add(n.name)
        elif isinstance(n, ast.ExceptHandler) and n.name: s.add(n.name)
    return s


# ------------------------------------------------------------------ loops that append
def empty_list(e):
    return isinstance(e, ast.List) and not e.elts or isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "list" and not e.args and not e.keywords

def append_loop(b, i):
    """(name, element, target, iter, conditions) of `x = []; for t in it: [if c:] x.append(e)` at b[i], b[i+1]"""
    if i + 1 >= len(b): return None
    s, l = b[i], b[i + 1]
    if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and empty_list(s.value)): return None
    if not (isinstance(l, ast.For) and not l.orelse): return None
    x, conds, body = s.targets[0].id, [], l.body
    while len(body) == 1 and isinstance(body[0], ast.If) and not body[0].orelse: conds.append(body[0].test); body = body[0].body
    if len(body) != 1 or not isinstance(body[0], ast.Expr): return None
    c = body[0].value
    if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "append" and isinstance(c.func.value, ast.Name) and c.func.value.id == x and len(c.args) == 1 and not c.keywords): return None
    if any(isinstance(n, ast.Name) and n.id == x for p in [c.args[0], l.iter, l.target] + conds for n in ast.walk(p)): return None
    if any(isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)) for n in ast.walk(l)): return None
    return x, c.args[0], l.target, l.iter, conds

def list_comp(s):
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1: return s.targets[0].id
    return None

def shapes(tree, modname):
    loc, comps, loops = {}, set(), set()
    for q, f, c, p in functions(tree, modname):
        loc.setdefault(q, set()).update(locals_of(f))
        for b in blocks(f):
            for i, s in enumerate(b):
                m = append_loop(b, i)
                if m: loops.add((q, m[0]))
                if list_comp(s): comps.add((q, list_comp(s)))
    return loc, comps, loops


class Known:
    def __init__(self, path=os.path.join(_HERE, "known_shapes.json")):
        d = json.load(open(path)) if os.path.exists(path) else {"locals": {}, "comps": [], "loops": []}
        self.locals = {k: set(v) for k, v in d["locals"].items()}
        self.comps = {tuple(x) for x in d["comps"]}
        self.loops = {tuple(x) for x in d["loops"]}


def used_outside(fn, names, node):
    """a name of the loop is used outside it, other than in loops that bind it themselves"""
    inside = {id(n) for n in ast.walk(node)}
    for n in ast.walk(fn):
        t = [n.target] if isinstance(n, ast.For) else [g.target for g in n.generators] if isinstance(n, COMPS) else []
        bound = {x.id for y in t for x in ast.walk(y) if isinstance(x, ast.Name)}
        if bound & names: inside |= {id(x) for x in ast.walk(n) if isinstance(x, ast.Name) and x.id in bound}
    return any(isinstance(n, ast.Name) and n.id in names and id(n) not in inside for n in ast.walk(fn))

def loops(fn, q, known):
    ch = False
    for b in blocks(fn):
        i = 0
        while i < len(b):
            m = append_loop(b, i)
            if m and (q, m[0]) in known.comps and (q, m[0]) not in known.loops:
                x, e, t, it, conds = m
                tn = {n.id for n in ast.walk(t) if isinstance(n, ast.Name)}
                if not used_outside(fn, tn, b[i + 1]):
                    comp = ast.ListComp(e, [ast.comprehension(t, it, conds, 0)])
                    ast.copy_location(comp, b[i + 1])
                    a = ast.copy_location(ast.Assign(b[i].targets, comp), b[i])
                    b[i:i + 2] = [a]; ch = True
            x = list_comp(b[i])
            if x and (q, x) in known.loops and (q, x) not in known.comps:
                g = b[i].value.generators[0]
                tn = {n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
                if x not in {n.id for n in ast.walk(b[i].value) if isinstance(n, ast.Name)} and not used_outside(fn, tn, b[i]) and not g.is_async:
                    body = [ast.Expr(ast.Call(ast.Attribute(ast.Name(x, ast.Load()), "append", ast.Load()), [b[i].value.elt], []))]
                    for c in reversed(g.ifs): body = [ast.If(c, body, [])]
                    lp = ast.For(g.target, g.iter, body, [])
                    a = ast.Assign(b[i].targets, ast.List([], ast.Load()))
                    for n in [a, lp] + body:
                        for y in ast.walk(n):
                            if not hasattr(y, "lineno"): ast.copy_location(y, b[i])
                    b[i:i + 1] = [a, lp]; ch = True; i += 1
            i += 1
    return ch


# ------------------------------------------------------------------ variables read once
def single_use(fn, q, known):
    """t = e; <statement reading t once> -> <statement with e>, for variables the analysed tree did not have"""
    have = known.locals.get(q)
    if have is None: return False
    new = locals_of(fn) - have
    if not new: return False
    ch = False
    count = {}
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in new: count.setdefault(n.id, []).append(n)
        elif isinstance(n, (ast.Global, ast.Nonlocal)): new -= set(n.names)
    for b in blocks(fn):
        i = 0
        while i + 1 < len(b):
            s, nx = b[i], b[i + 1]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id in new:
                t = s.targets[0].id
                spot = [n for n in head(nx) if isinstance(n, ast.Name) and n.id == t]
                stores = [n for n in count.get(t, []) if isinstance(n.ctx, ast.Store)]
                # every definition is followed by its own single use
                if len(spot) == 1 and isinstance(spot[0].ctx, ast.Load) and count.get(t) and 2 * len(stores) == len(count[t]) and (len(stores) == 1 or all_adjacent(fn, t)) and not isinstance(s.value, (ast.Yield, ast.YieldFrom, ast.Await)):
                    if replace(nx, spot[0], s.value):
                        del b[i]; ch = True
                        count[t] = [n for n in count[t] if n is not spot[0] and n is not s.targets[0]]
                        i = max(i - 1, 0); continue
            i += 1
    return ch

def all_adjacent(fn, t):
    for b in blocks(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == t for x in s.targets):
                if len(s.targets) != 1 or i + 1 >= len(b) or sum(isinstance(n, ast.Name) and n.id == t and isinstance(n.ctx, ast.Load) for n in head(b[i + 1])) != 1: return False
    return True

def head(s):
    """the expressions a statement evaluates once, first, outside its blocks and inner scopes"""
    if isinstance(s, (ast.Return, ast.Expr, ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Raise, ast.Assert)): roots = [s]
    elif isinstance(s, ast.If): roots = [s.test]
    elif isinstance(s, ast.For): roots = [s.iter]
    else: return
    stack = roots
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, SCOPES): continue
        if isinstance(n, COMPS): stack.append(n.generators[0].iter); continue
        if isinstance(n, ast.BoolOp): stack.append(n.values[0]); continue
        if isinstance(n, ast.IfExp): stack.append(n.test); continue
        stack.extend(ast.iter_child_nodes(n))

def replace(s, old, new):
    for n in ast.walk(s):
        for fld, v in ast.iter_fields(n):
            if v is old: setattr(n, fld, new); return True
            if isinstance(v, list):
                for i, x in enumerate(v):
                    if x is old: v[i] = new; return True
    return False


# ------------------------------------------------------------------ new helper functions
def body_of(f):
    b = f.body
    if b and isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) and isinstance(b[0].value.value, str): b = b[1:]
    return b

def plain(s):
    return isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)

def ends(b):
    if not b: return False
    s = b[-1]
    if isinstance(s, (ast.Return, ast.Raise)): return True
    if isinstance(s, ast.If): return bool(s.orelse) and ends(s.body) and ends(s.orelse)
    if isinstance(s, ast.With): return ends(s.body)
    if isinstance(s, ast.Try): return (ends(s.body) or ends(s.orelse)) and all(ends(h.body) for h in s.handlers) or ends(s.finalbody)
    if isinstance(s, ast.While): return isinstance(s.test, ast.Constant) and bool(s.test.value) and not any(isinstance(x, ast.Break) for x in ast.walk(s))
    return False

class Helper:
    def __init__(self, q, node, cls, parent):
        self.q, self.node, self.cls, self.parent = q, node, cls, parent
        d = [x.id if isinstance(x, ast.Name) else None for x in node.decorator_list]
        self.static, self.clsm = "staticmethod" in d, "classmethod" in d
        self.ok = all(x in ("staticmethod", "classmethod") for x in d) and isinstance(node, ast.FunctionDef)
        a = node.args
        self.params = [x.arg for x in a.posonlyargs + a.args]
        self.kwonly = [x.arg for x in a.kwonlyargs]
        self.defaults = dict(zip(self.params[len(self.params) - len(a.defaults):], a.defaults))
        self.defaults.update({k.arg: v for k, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        self.vararg, self.kwarg = a.vararg and a.vararg.arg, a.kwarg and a.kwarg.arg
        for n in ast.walk(node):
            if isinstance(n, (ast.Global, ast.Nonlocal, ast.Await)): self.ok = False
            if isinstance(n, (ast.Name, ast.Attribute)) and (getattr(n, "id", None) or getattr(n, "attr", None)) == node.name: self.ok = False
        for n in own(node):
            if isinstance(n, (ast.Yield, ast.YieldFrom)): self.ok = False
        self.rets = [n for n in own(node) if isinstance(n, ast.Return)]
        b = [s for s in body_of(node) if not plain(s)]
        self.body = b
        last = b[-1] if b else None
        # straight: one return, at the end; none: no return with a value
        self.straight = len(self.rets) == 1 and self.rets[0] is last and last.value is not None
        self.none = not self.rets
        self.expr = self.straight and len(b) == 1

    def bound(self, call, caller_cls, caller):
        """parameter -> argument, or None when the call is not understood"""
        ps = list(self.params)
        m = {}
        if self.cls is not None and not self.static:
            if not isinstance(call.func, ast.Attribute): return None
            r = call.func.value
            if not isinstance(r, ast.Name) or not ps: return None
            first = [x.arg for x in caller.args.args][:1]
            if self.clsm and r.id == self.cls.name: pass
            elif r.id not in first or caller_cls is None: return None
            if self.clsm and r.id != self.cls.name and not any(isinstance(d, ast.Name) and d.id == "classmethod" for d in caller.decorator_list): return None
            m[ps.pop(0)] = r
        star = [a for a in call.args if isinstance(a, ast.Starred)]
        if star:
            if not (len(star) == 1 and call.args[-1] is star[0] and self.vararg and isinstance(star[0].value, ast.Name) and len(call.args) - 1 == len(ps)): return None
            m[self.vararg] = star[0].value
        pos = [a for a in call.args if not isinstance(a, ast.Starred)]
        if len(pos) > len(ps): return None
        for p, a in zip(ps, pos): m[p] = a
        for k in call.keywords:
            if k.arg is None:
                if not (self.kwarg and isinstance(k.value, ast.Name)): return None
                m[self.kwarg] = k.value
            elif k.arg in self.params + self.kwonly and k.arg not in m: m[k.arg] = k.value
            else: return None
        if self.vararg and self.vararg not in m: m[self.vararg] = ast.Tuple([], ast.Load())
        if self.kwarg and self.kwarg not in m: m[self.kwarg] = ast.Dict([], [])
        for p in self.params + self.kwonly:
            if p not in m:
                d = self.defaults.get(p)
                if not isinstance(d, ast.Constant): return None
                m[p] = d
        return m

    def instance(self, call, caller_cls, caller, target=None, dead=False):
        """(statements before, body copy) with parameters and locals renamed for the caller, or None"""
        m = self.bound(call, caller_cls, caller)
        if m is None: return None
        node = copy.deepcopy(self.node)
        mine = locals_of(node)
        inner = set()       # names bound in inner scopes
        for n in ast.walk(node):
            if n is not node and isinstance(n, SCOPES) and not isinstance(n, ast.ClassDef):
                inner |= {x.arg for x in ast.walk(n.args) if isinstance(x, ast.arg)}
                if isinstance(n, FN): inner |= locals_of(n)
        rebound = {n.id for n in own(node) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))}
        # a nested helper shares the caller's variables; they are not its own
        theirs = {n.id for n in ast.walk(caller) if isinstance(n, ast.Name)} | locals_of(caller)
        ren, pre = {}, []
        args_used = {x.id for a in m.values() for x in ast.walk(a) if isinstance(x, ast.Name)}
        stores = {n.id for n in own(caller) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | locals_of(caller)
        for p, a in m.items():
            if isinstance(a, ast.Name) and (p not in rebound) and a.id not in (rebound - set(m)):
                if a.id != p: ren[p] = a
                continue
            if isinstance(a, ast.Name) and a.id == p and dead: continue
            if isinstance(a, ast.Constant) and p not in rebound: ren[p] = a; continue
            new = p
            if (p in args_used if dead else p in theirs): new = fresh(p, theirs | mine)
            if new != p: ren[p] = ast.Name(new, ast.Load())
            pre.append(ast.Assign([ast.Name(new, ast.Store())], a))
        for v in mine - set(m):
            # after a result the caller's own variables are dead; the variable assigned is overwritten
            if v in args_used and v in theirs or v in stores and not dead and v != target: ren[v] = ast.Name(fresh(v, theirs | mine), ast.Load())
        if set(ren) & inner: return None
        for s in node.body:
            for n in ast.walk(s):
                if isinstance(n, ast.Name) and n.id in ren:
                    r = ren[n.id]
                    if isinstance(r, ast.Name): n.id = r.id
                elif isinstance(n, FN + (ast.ClassDef,)) and n.name in ren: return None
                elif isinstance(n, ast.ExceptHandler) and n.name in ren: n.name = ren[n.name].id
        consts = {k: v for k, v in ren.items() if isinstance(v, ast.Constant)}
        if consts:
            class T(ast.NodeTransformer):
                def visit_Name(self, n): return ast.copy_location(copy.deepcopy(consts[n.id]), n) if n.id in consts and isinstance(n.ctx, ast.Load) else n
            node = T().visit(node)
        for a in pre:
            for y in ast.walk(a):
                if not hasattr(y, "lineno"): ast.copy_location(y, call)
        return pre, [s for s in body_of(node) if not plain(s)]

def fresh(p, names):
    i = 2
    while "%s_%d" % (p, i) in names: i += 1
    names.add("%s_%d" % (p, i))
    return "%s_%d" % (p, i)


def inline(tree, modname, known, others):
    """put new helpers in the place of their calls; others: does a name occur in another module"""
    fs = list(functions(tree, modname))
    H = {}
    fresh_ones = [q for q, f, c, p in fs if q not in known.locals]
    for q, f, c, p in fs:
        # the parts of a new helper are judged once it stands in its place
        if q in known.locals or any(q.startswith(k + ".<locals>.") for k in fresh_ones): continue
        h = Helper(q, f, c, p)
        if h.ok: H[(id(c) if c is not None and p is None else None, id(p) if p is not None else None, f.name)] = h
    if not H: return False
    names = {k[2] for k in H}
    ch = False
    for q, f, c, p in fs:
        if not any(isinstance(n, (ast.Name, ast.Attribute)) and (getattr(n, "id", None) or getattr(n, "attr", None)) in names for n in ast.walk(f)): continue
        chain = [f] + enclosing(fs, f)
        def helper(call):
            fn = call.func
            if isinstance(fn, ast.Name) and fn.id in names:
                for e in chain:
                    h = H.get((None, id(e), fn.id))
                    if h: return h
                    if fn.id in locals_of(e): return None
                return H.get((None, None, fn.id))
            if isinstance(fn, ast.Attribute) and fn.attr in names and isinstance(fn.value, ast.Name) and c is not None:
                h = H.get((id(c), None, fn.attr))
                if h is None: return None
                me = [x.arg for x in f.args.args][:1]
                if fn.value.id in me or fn.value.id == c.name: return h
                # a nested function of a method sees the method's self
                return None
            return None
        for b in list(blocks(f)):
            i = 0
            while i < len(b):
                s = b[i]
                call = None
                if isinstance(s, (ast.Return, ast.Expr)) and isinstance(s.value, ast.Call): call = s.value
                elif isinstance(s, ast.Assign) and isinstance(s.value, ast.Call): call = s.value
                h = helper(call) if call is not None else None
                if h is not None and h.node is not f and not h.expr:
                    r = None
                    final = b is f.body and i == len(b) - 1
                    if isinstance(s, ast.Return) and (ends(h.body) or final): r = h.instance(call, c, f, dead=True); tail = []
                    elif isinstance(s, ast.Expr) and h.none: r = h.instance(call, c, f); tail = []
                    elif isinstance(s, ast.Expr) and final and all(x.value is None for x in h.rets): r = h.instance(call, c, f); tail = []
                    elif isinstance(s, ast.Assign) and h.straight: r = h.instance(call, c, f, target=s.targets[0].id if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(h.rets[0].value, ast.Name) and h.rets[0].value.id == s.targets[0].id else None); tail = None
                    if r is not None:
                        pre, body = r
                        if tail is None:
                            v = body[-1].value
                            if not (len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(v, ast.Name) and v.id == s.targets[0].id):
                                body = body[:-1] + [ast.copy_location(ast.Assign(s.targets, v), s)]
                            else: body = body[:-1]
                        b[i:i + 1] = pre + body; ch = True
                        i += len(pre + body); continue
                i += 1
        # helpers that are one expression, anywhere
        class T(ast.NodeTransformer):
            hit = False
            def visit_Call(self, n):
                self.generic_visit(n)
                h = helper(n)
                if h is None or not h.expr or h.node is f: return n
                m = h.bound(n, c, f)
                if m is None: return n
                e = h.body[0].value
                if any(isinstance(x, SCOPES) or isinstance(x, COMPS) and False for x in ast.walk(e)): return n
                cnt = {}
                for x in ast.walk(e):
                    if isinstance(x, ast.Name): cnt[x.id] = cnt.get(x.id, 0) + 1
                bound_in = {x.id for x in ast.walk(e) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                for p_, a in m.items():
                    if cnt.get(p_, 0) > 1 and not isinstance(a, (ast.Name, ast.Constant, ast.Attribute)): return n
                    if p_ in bound_in or any(isinstance(x, ast.Name) and x.id in bound_in for x in ast.walk(a)): return n
                e = copy.deepcopy(e)
                class S(ast.NodeTransformer):
                    def visit_Name(self, x): return copy.deepcopy(m[x.id]) if x.id in m and isinstance(x.ctx, ast.Load) else x
                T.hit = True
                return S().visit(e)
            def visit_FunctionDef(self, n): return n if n is not f else self.generic_visit(n)
        if T().visit(f) is not None and T.hit: ch = True
    if ch: drop(tree, H, others)
    return ch

def enclosing(fs, f):
    par = {id(x[1]): x[3] for x in fs}
    out, p = [], par.get(id(f))
    while p is not None: out.append(p); p = par.get(id(p))
    return out

def drop(tree, H, others):
    """helpers that nothing refers to any more"""
    for h in H.values():
        n = h.node.name
        if others(n): continue
        refs = [x for x in ast.walk(tree) if isinstance(x, ast.Name) and x.id == n or isinstance(x, ast.Attribute) and x.attr == n or isinstance(x, ast.Constant) and x.value == n or isinstance(x, ast.alias) and n in (x.name, x.asname)]
        if refs: continue
        for x in ast.walk(tree):
            for fld in ("body", "orelse", "finalbody"):
                v = getattr(x, fld, None)
                if isinstance(v, list) and h.node in v:
                    v.remove(h.node)
                    if not v: v.append(ast.copy_location(ast.Pass(), h.node))


def stmts(tree):
    return [n for n in ast.walk(tree) if isinstance(n, (ast.stmt, ast.ExceptHandler))]

def canon(modules, known=None):
    known = known or Known()
    idents = {}
    def others_of(m):
        def others(n): return any(n in o.src for o in modules if o is not m)
        return others
    for m in modules:
        try: tree, changed = normal(copy.deepcopy(m.tree), m, known, others_of(m))
        except Exception: continue      # the module is analysed as it is written
        if not changed: continue
        try:
            src = ast.unparse(ast.fix_missing_locations(tree))
            new = ast.parse(src, filename=m.rel)
        except (SyntaxError, ValueError, RecursionError): continue
        a, b = stmts(tree), stmts(new)
        m.linemap = {}
        if len(a) == len(b):
            for x, y in zip(a, b): m.linemap.setdefault(y.lineno, x.lineno)
        m.original, m.tree = m.tree, new

def normal(tree, m, known, others):
    changed = False
    for _ in range(5):
        ch = False
        for q, f, c, p in list(functions(tree, m.name)):
            ch |= loops(f, q, known)
            ch |= single_use(f, q, known)
        ch |= inline(tree, m.name, known, others)
        changed |= ch
        if not ch: break
    return tree, changed
