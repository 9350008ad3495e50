"""May-be-None dataflow: a flow-sensitive analysis of local variables holding the result of functions that can answer None."""
import ast
from .load import Func, Cls, Ext, Var, Module, walk_own

NEEDS = {"len", "sum", "list", "tuple", "dict", "set", "zip", "sorted", "iter", "next", "enumerate", "map", "max", "min", "abs", "int", "float", "reversed", "any", "all"}

# method names that the libraries use too: an unknown receiver may be theirs
COMMON = set(dir(list)) | set(dir(dict)) | set(dir(str)) | set(dir(set)) | set("""solve degree expand subs doit factor diff eval evalf
 shape reshape dot norm det rank transpose conjugate as_expr as_poly func has match replace xreplace rewrite simplify together""".split())
STORES = {"append", "add", "insert", "appendleft"}

def falls_off(stmts):
    """can control reach the end of the statement list"""
    for s in stmts:
        if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)): return False
        if isinstance(s, ast.If) and s.orelse and not falls_off(s.body) and not falls_off(s.orelse): return False
        if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value and not any(isinstance(x, ast.Break) for x in ast.walk(s)): return False
        if isinstance(s, ast.Try):
            if s.finalbody and not falls_off(s.finalbody): return False
            if not falls_off(s.body + s.orelse) and all(not falls_off(h.body) for h in s.handlers): return False
        if isinstance(s, ast.With) and not falls_off(s.body): return False
    return True

def rets(f):
    return [n for n in walk_own(f.node) if isinstance(n, ast.Return)]

def is_none(e): return e is None or isinstance(e, ast.Constant) and e.value is None


class Optionals:
    """functions that may answer None as well as a value"""
    def __init__(self, prog, C):
        self.prog, self.C = prog, C
        self.opt = {}          # Func -> reason location
        self.items = {}        # Func -> {index: loc} tuple elements that may be None
        fs = list(prog.funcs.values())
        self.cand = {}
        self.methods = {}
        for f in fs:
            if f.cls is not None and not isinstance(f.node, ast.Lambda): self.methods.setdefault(f.name, []).append(f)
        for f in fs:
            if isinstance(f.node, ast.Lambda) or f.is_generator: continue
            rs = rets(f)
            val = [r for r in rs if not is_none(r.value)]
            if not val: continue
            self.cand[f] = val
            non = [r for r in rs if is_none(r.value)]
            if non: self.opt[f] = "%s:%d" % (f.module.rel, non[0].lineno)
            elif falls_off(f.body): self.opt[f] = "%s:%d" % (f.module.rel, f.node.lineno)
            for r in val:
                if isinstance(r.value, ast.Tuple):
                    for i, e in enumerate(r.value.elts):
                        if is_none(e) and e is not None: self.items.setdefault(f, {})[i] = "%s:%d" % (f.module.rel, r.lineno)
        ch = True
        while ch:
            ch = False
            for f, val in self.cand.items():
                if f in self.opt: continue
                nn = Flow(self, f, summary=True)
                why = nn.returns_none()
                if why: self.opt[f] = why; ch = True

    def call(self, call, func):
        """reason why this call may answer None, or None"""
        v = self.C.values(call.func, func)
        if not v and isinstance(call.func, ast.Attribute):
            ms = self.methods.get(call.func.attr)
            if ms and call.func.attr not in COMMON and all(m in self.opt for m in ms):
                r = self.prog.resolve_expr(call.func.value, func.module, func)
                if not isinstance(r, (Ext, Module)): v = {("bound", m) for m in ms}
        return self.any_of(v)

    def any_of(self, v):
        if not v: return None
        for x in sorted(v, key=lambda x: getattr(x[1], "qual", "") if len(x) > 1 else ""):
            if x[0] in ("fn", "bound") and isinstance(x[1], Func) and x[1] in self.opt and not x[1].is_generator: return x[1], self.opt[x[1]]
        return None

    def call_items(self, call, func):
        v = self.C.values(call.func, func)
        out = {}
        for x in v or []:
            if x[0] in ("fn", "bound") and x[1] in self.items: out.update({i: (x[1], l) for i, l in self.items[x[1]].items()})
        return out


class Flow:
    """state: var -> (callee, reason, line) when it may be None; unreachable state is None"""
    def __init__(self, opts, f, summary=False, params=None):
        self.o, self.f, self.summary = opts, f, summary
        self.reports = {}
        self.ret = None
        st = {}
        if params: st = {p: params[p] for p in params}
        self.brk, self.cont = [], []
        self.safe = 0
        self.run(f.body, st)

    def returns_none(self): return self.ret

    # -- expression evaluation: reports dereferences, returns origin if value may be None
    def report(self, node, origin, how):
        if self.safe: return
        k = (origin[0], origin[2], origin[3:])
        if k not in self.reports: self.reports[k] = (node, origin, how)

    def deref(self, e, st, how):
        o = self.ev(e, st)
        if o: self.report(e, o, how)

    def ev(self, e, st):
        if e is None or st is None: return None
        t = type(e)
        if t is ast.Constant: return None
        if t is ast.Name: return st.get(e.id)
        if t is ast.NamedExpr:
            o = self.ev(e.value, st); self.bind(e.target, o, st); return o
        if t is ast.Call:
            if isinstance(e.func, ast.Attribute): self.deref(e.func.value, st, "its attribute '%s' is used" % e.func.attr)
            elif isinstance(e.func, ast.Name):
                o = st.get(e.func.id)
                if o: self.report(e, o, "it is called")
            else: self.deref(e.func, st, "it is called")
            need = isinstance(e.func, ast.Name) and e.func.id in NEEDS
            store = isinstance(e.func, ast.Attribute) and e.func.attr in STORES and len(e.args) <= 2
            ext = "sympy." + e.func.attr if isinstance(e.func, ast.Attribute) and e.func.attr in ("Add", "Mul") else None
            for a in e.args:
                if isinstance(a, ast.Starred): self.deref(a.value, st, "it is unpacked")
                elif store and a is e.args[-1]: self.deref(a, st, "it is put into a collection")
                elif ext: self.deref(a, st, "it becomes an operand of %s" % ext)
                elif need: self.deref(a, st, "%s() is applied to it" % e.func.id)
                else: self.arg(e, a, st)
            for k in e.keywords:
                if k.arg is None: self.deref(k.value, st, "it is unpacked")
                else: self.arg(e, k.value, st, k.arg)
            r = self.o.call(e, self.f)
            if not r and isinstance(e.func, ast.Name): r = self.o.any_of(st.get(("fv", e.func.id, ())))
            return (r[0].name, r[1], e.lineno, e.col_offset) if r else None
        if t is ast.Attribute: self.deref(e.value, st, "its attribute '%s' is used" % e.attr); return None
        if t is ast.Subscript: self.deref(e.value, st, "it is indexed"); self.ev(e.slice, st); return None
        if t is ast.BinOp: self.deref(e.left, st, "it is used in arithmetic"); self.deref(e.right, st, "it is used in arithmetic"); return None
        if t is ast.UnaryOp:
            if isinstance(e.op, ast.Not): self.ev(e.operand, st)
            else: self.deref(e.operand, st, "it is used in arithmetic")
            return None
        if t is ast.Compare:
            ops = e.ops; vals = [e.left] + e.comparators
            for i, v in enumerate(vals):
                bad = (i > 0 and isinstance(ops[i - 1], (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.In, ast.NotIn))) or (i < len(ops) and isinstance(ops[i], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)))
                if bad: self.deref(v, st, "it is compared")
                else: self.ev(v, st)
            return None
        if t is ast.BoolOp:
            cur, out = st, None
            for i, v in enumerate(e.values):
                o = self.ev(v, cur)
                last = i == len(e.values) - 1
                # `x or y`: None only passes through when last; `x and y`: a None x is the result
                if o and (last or isinstance(e.op, ast.And)): out = o
                y, n = self.split(v, cur)
                cur = y if isinstance(e.op, ast.And) else n
                if cur is None: break
            return out
        if t is ast.IfExp:
            self.ev(e.test, st)
            y, n = self.split(e.test, st)
            a, b = self.ev(e.body, y), self.ev(e.orelse, n)
            if is_none(e.body) or is_none(e.orelse): return a or b or ("conditional expression", "%s:%d" % (self.f.module.rel, e.lineno), e.lineno) if False else a or b
            return a or b
        if t is ast.Starred: self.deref(e.value, st, "it is unpacked"); return None
        if t in (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp):
            s = dict(st)
            for g in e.generators:
                self.deref(g.iter, s, "it is iterated over")
                self.bind(g.target, None, s)
                for c in g.ifs:
                    self.ev(c, s)
                    s = self.split(c, s)[0]
                    if s is None: return None
            if t is ast.DictComp: self.ev(e.key, s); self.ev(e.value, s)
            else: self.ev(e.elt, s)
            return None
        if t is ast.Lambda: return None
        if t in (ast.Tuple, ast.List, ast.Set):
            for x in e.elts: self.ev(x, st)
            return None
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.expr): self.ev(x, st)
        return None

    def arg(self, call, a, st, kw=None):
        o = self.ev(a, st)
        if not o or (self.summary and o[0] != "<param>"): return
        v = self.o.C.values(call.func, self.f)
        if v and not self.summary and any(x[0] == "fn" and isinstance(x[1], Cls) and any(k.name == "Solution" for k in self.o.prog.mro(x[1])) for x in v):
            self.report(a, o, "it is presented as a solution (%s)" % next(x[1].name for x in v if isinstance(x[1], Cls))); return
        # does the callee use this parameter without a test?
        v = self.o.C.values(call.func, self.f)
        if not v or len(v) != 1: return
        (x,) = v
        if x[0] not in ("fn", "bound") or not isinstance(x[1], Func): return
        g = x[1]
        ps = g.args
        if kw is not None: p = kw
        else:
            i = call.args.index(a) + (1 if x[0] == "bound" else 0)
            if any(isinstance(b, ast.Starred) for b in call.args[:call.args.index(a)]) or i >= len(ps): return
            p = ps[i]
        how = needs(self.o, g, p)
        if how: self.report(a, o, "it is given to %s, where %s" % (g.name, how))

    def bind(self, t, o, st, value=None):
        if isinstance(t, ast.Name):
            for k in [k for k in st if isinstance(k, tuple) and (k[1] == t.id or t.id in k[2])]: del st[k]
            if value is not None and isinstance(value, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Call)) and not any(isinstance(x, ast.NamedExpr) for x in ast.walk(value)):
                names = frozenset(x.id for x in ast.walk(value) if isinstance(x, ast.Name))
                if t.id not in names: st[("?", t.id, names)] = value
            if isinstance(value, (ast.Name, ast.Attribute, ast.IfExp)):
                v = st.get(("fv", value.id, ())) if isinstance(value, ast.Name) else None
                v = v or self.o.C.values(value, self.f)
                if v: st[("fv", t.id, ())] = frozenset(v)
            if o: st[t.id] = o
            else: st.pop(t.id, None)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts: self.bind(x.value if isinstance(x, ast.Starred) else x, None, st)
        elif isinstance(t, ast.Attribute): self.deref(t.value, st, "its attribute '%s' is set" % t.attr)
        elif isinstance(t, ast.Subscript):
            self.deref(t.value, st, "it is indexed"); self.ev(t.slice, st)
            if o: self.report(t, o, "it is put into a collection")

    # -- conditions
    def split(self, test, st):
        """(state when true, state when false)"""
        if st is None: return None, None
        t = test
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            a, b = self.split(t.operand, st); return b, a
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And):
                cur, fs = st, []
                for v in t.values:
                    y, n = self.split(v, cur); fs.append(n); cur = y
                    if cur is None: break
                return cur, join(*fs)
            cur, ts = st, []
            for v in t.values:
                y, n = self.split(v, cur); ts.append(y); cur = n
                if cur is None: break
            return join(*ts), cur
        if isinstance(t, ast.Constant): return (st, None) if t.value else (None, st)
        if isinstance(t, ast.NamedExpr):
            s = dict(st); self.bind(t.target, None, s)
            return s, st
        if isinstance(t, ast.Name):
            for k in st:
                if isinstance(k, tuple) and k[0] == "?" and k[1] == t.id: return self.split(st[k], st)
            y = dict(st); y.pop(t.id, None)
            return y, st
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            l, r = t.left, t.comparators[0]
            if isinstance(l, ast.Constant) and l.value is None: l, r = r, l
            if isinstance(l, ast.NamedExpr): l = l.target
            if is_none(r) and isinstance(l, ast.Name):
                nn = dict(st); nn.pop(l.id, None)
                if isinstance(t.ops[0], (ast.Is, ast.Eq)): return st, nn
                if isinstance(t.ops[0], (ast.IsNot, ast.NotEq)): return nn, st
            if is_none(l) or is_none(r): return st, st
            if isinstance(t.ops[0], ast.Eq) and isinstance(l, ast.Name) and isinstance(r, ast.Constant):
                nn = dict(st); nn.pop(l.id, None); return nn, st
        if isinstance(t, ast.Call):
            if getattr(t.func, "id", "") == "isinstance" and t.args and isinstance(t.args[0], ast.Name):
                nn = dict(st); nn.pop(t.args[0].id, None); return nn, st
            b = self.predicate(t)
            if b is not None: return self.split(b, st)
            if getattr(t.func, "id", "") in ("any", "all") and len(t.args) == 1 and isinstance(t.args[0], (ast.GeneratorExp, ast.ListComp)):
                # any(x is None for x in (p, q))
                g = t.args[0].generators[0]
                if isinstance(g.iter, (ast.Tuple, ast.List)) and isinstance(t.args[0].elt, ast.Compare) and is_none(t.args[0].elt.comparators[0]):
                    nn = dict(st)
                    for x in g.iter.elts:
                        if isinstance(x, ast.Name): nn.pop(x.id, None)
                    return (st, nn) if t.func.id == "any" and isinstance(t.args[0].elt.ops[0], ast.Is) else (nn, st)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.In, ast.NotIn)) and is_none(t.left) and isinstance(t.comparators[0], (ast.Tuple, ast.List)):
            nn = dict(st)
            for x in t.comparators[0].elts:
                if isinstance(x, ast.Name): nn.pop(x.id, None)
            return (st, nn) if isinstance(t.ops[0], ast.In) else (nn, st)
        return st, st

    def guarded_name(self, s, st):
        """x = None; try: x = step() except: pass   -- the step may have failed"""
        if isinstance(s, ast.Assign) and is_none(s.value) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            self.nones = getattr(self, "nones", {}); self.nones[s.targets[0].id] = s
        if isinstance(s, ast.Try) and getattr(self, "nones", None):
            if any(catches(h) and falls_off(h.body) for h in s.handlers):
                for x in [x for b in s.body for x in ast.walk(b)]:
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id in self.nones and x.id not in st:
                        n = self.nones[x.id]
                        st[x.id] = ("the guarded step", "%s:%d" % (self.f.module.rel, n.lineno), n.lineno)

    def predicate(self, call):
        """the body of a one-expression function, over the caller's variables"""
        if call.keywords or not all(isinstance(a, ast.Name) for a in call.args): return None
        v = self.o.C.values(call.func, self.f)
        if not v or len(v) != 1: return None
        (x,) = v
        if x[0] not in ("fn", "bound") or not isinstance(x[1], Func): return None
        g = x[1]
        if isinstance(g.node, ast.Lambda): e = g.node.body
        else:
            body = [b for b in g.body if not (isinstance(b, ast.Expr) and isinstance(b.value, ast.Constant))]
            if len(body) != 1 or not isinstance(body[0], ast.Return): return None
            e = body[0].value
        if not isinstance(e, (ast.Compare, ast.BoolOp, ast.UnaryOp)): return None
        ps = g.args[1:] if x[0] == "bound" else g.args
        if len(ps) != len(call.args): return None
        m = {p: a for p, a in zip(ps, call.args)}
        import copy
        class T(ast.NodeTransformer):
            def visit_Name(self, n): return ast.copy_location(ast.Name(m[n.id].id, ast.Load()), n) if n.id in m else ast.copy_location(ast.Name("__" + n.id, ast.Load()), n)
        return T().visit(copy.deepcopy(e))

    # -- statements; returns the state after, None if unreachable
    def run(self, stmts, st):
        for s in stmts:
            if st is None: return None
            st = self.stmt(s, dict(st))
        return st

    def stmt(self, s, st):
        t = type(s)
        self.guarded_name(s, st)
        if t is ast.Return:
            o = self.ev(s.value, st)
            if o and self.brk: self.report(s, o, "it ends the search: it is returned from inside the loop over the alternatives")
            if o and self.ret is None: self.ret = "%s:%d" % (self.f.module.rel, s.lineno)
            return None
        if t is ast.Raise: self.ev(s.exc, st); return None
        if t is ast.Break: self.brk[-1].append(st); return None
        if t is ast.Continue: self.cont[-1].append(st); return None
        if t is ast.Assign:
            if len(s.targets) == 1 and isinstance(s.targets[0], (ast.Tuple, ast.List)):
                tg = s.targets[0]
                if isinstance(s.value, (ast.Tuple, ast.List)) and len(s.value.elts) == len(tg.elts):
                    os_ = [self.ev(x, st) for x in s.value.elts]
                    for x, o in zip(tg.elts, os_): self.bind(x, o, st)
                    return st
                o = self.ev(s.value, st)
                if o: self.report(s.value, o, "it is unpacked")
                self.bind(tg, None, st)
                if isinstance(s.value, ast.Call) and not self.summary:
                    for i, (g, l) in self.o.call_items(s.value, self.f).items():
                        if i < len(tg.elts) and isinstance(tg.elts[i], ast.Name) and not any(isinstance(x, ast.Starred) for x in tg.elts): st[tg.elts[i].id] = (g.name + "[%d]" % i, l, s.lineno)
                return st
            o = self.ev(s.value, st)
            for tg in s.targets: self.bind(tg, o, st, s.value)
            return st
        if t is ast.AnnAssign:
            o = self.ev(s.value, st)
            if s.value is not None: self.bind(s.target, o, st, s.value)
            return st
        if t is ast.AugAssign:
            if isinstance(s.target, ast.Name):
                o = st.get(s.target.id)
                if o: self.report(s, o, "it is used in arithmetic")
            self.deref(s.value, st, "it is used in arithmetic")
            return st
        if t is ast.Expr: self.ev(s.value, st); return st
        if t is ast.If:
            self.ev(s.test, st)
            y, n = self.split(s.test, st)
            return join(self.run(s.body, y) if y is not None else None, self.run(s.orelse, n) if n is not None else None)
        if t is ast.While:
            self.brk.append([]); self.cont.append([])
            cur = st
            for _ in range(2):
                self.ev(s.test, cur)
                y, n = self.split(s.test, cur)
                e = self.run(s.body, y) if y is not None else None
                cur = join(cur, e, *self.cont[-1])
            y, n = self.split(s.test, cur)
            b = self.brk.pop(); self.cont.pop()
            n = self.run(s.orelse, n) if n is not None and s.orelse else n
            return join(n, *b)
        if t in (ast.For, ast.AsyncFor):
            self.deref(s.iter, st, "it is iterated over")
            self.brk.append([]); self.cont.append([])
            cur = st
            for _ in range(2):
                x = dict(cur); self.bind(s.target, None, x)
                e = self.run(s.body, x)
                cur = join(cur, e, *self.cont[-1])
            b = self.brk.pop(); self.cont.pop()
            n = self.run(s.orelse, dict(cur)) if s.orelse else cur
            return join(n, *b)
        if t in (ast.With, ast.AsyncWith):
            for i in s.items:
                self.ev(i.context_expr, st)
                if i.optional_vars is not None: self.bind(i.optional_vars, None, st)
            return self.run(s.body, st)
        if t is ast.Try:
            self.safe += (g := any(catches(h) for h in s.handlers))
            states = [st]
            cur = st
            for x in s.body:
                if cur is None: break
                cur = self.stmt(x, dict(cur))
                if cur is not None: states.append(cur)
            self.safe -= g
            e = self.run(s.orelse, cur) if cur is not None else None
            ends = [e]
            hs = join(*states)
            for h in s.handlers: ends.append(self.run(h.body, dict(hs)))
            r = join(*ends)
            if s.finalbody:
                if r is None: self.run(s.finalbody, dict(hs)); return None
                return self.run(s.finalbody, r)
            return r
        if t is ast.Assert:
            self.ev(s.test, st)
            return self.split(s.test, st)[0]
        if t is ast.Delete or t in (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef): return st
        return st


def catches(h):
    """the handler takes the TypeError/AttributeError that using None raises"""
    if h.type is None: return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return any(isinstance(x, ast.Name) and x.id in ("Exception", "BaseException", "TypeError") for x in ts)


def join(*ss):
    ss = [s for s in ss if s is not None]
    if not ss: return None
    out = {}
    for s in ss:
        for k, v in s.items():
            if isinstance(k, tuple) and k[0] == "fv": out[k] = out.get(k, frozenset()) | v
            elif not isinstance(k, tuple) or all(x.get(k) is v for x in ss): out.setdefault(k, v)
    return out


def needs(o, g, p):
    """how g uses its parameter p before any test, if it does"""
    cache = o.__dict__.setdefault("_needs", {})
    k = (g, p)
    if k not in cache:
        cache[k] = None
        if p in g.all_params and not isinstance(g.node, ast.Lambda):
            d = g.defaults.get(p)
            if not (d is not None and is_none(d)):
                fl = Flow(o, g, summary=True, params={p: ("<param>", "", 0)})
                for (n, *_), (node, org, how) in fl.reports.items():
                    if n == "<param>": cache[k] = how
    return cache[k]
