"""Path-sensitive forward dataflow over one function (plus inlined helpers).

Abstract state: environment (name -> value number), attribute/subscript stores, contents of locally created
containers, the set of branch facts that hold, and the trace of recorded events.  Loops are taken zero times or
once in a generic iteration whose loop variable is the value number bv(iterable); facts that hold at the end of every
non-breaking iteration (and mention the loop variable) hold for all elements afterwards.  States that agree on
everything but facts are joined by intersecting facts.
"""
import ast, builtins
from .load import Func, Cls, Ext, Var, Module, walk_own
from .terms import T, C, NONE, TRUE, FALSE, subterms, is_const, cval, callee

class Overflow(Exception): pass

class Event:
    __slots__ = ("kind", "term", "val", "node", "st", "func")
    def __init__(self, kind, term, val, node, st, func):
        self.kind, self.term, self.val, self.node, self.func = kind, term, val, node, func
        self.st = st
    @property
    def facts(self): return self.st.facts
    @property
    def line(self): return getattr(self.node, "lineno", 0)
    @property
    def loc(self): return "%s:%d" % (self.func.module.rel, self.line)
    def key(self): return (self.kind, self.term, self.val, self.line)
    def __repr__(self): return "<%s %s = %s @%s>" % (self.kind, self.term, self.val, self.loc)

class State:
    __slots__ = ("env", "attrs", "heap", "facts", "events")
    def __init__(self, env, attrs, heap, facts, events):
        self.env, self.attrs, self.heap, self.facts, self.events = env, attrs, heap, facts, events
    def clone(self): return State(dict(self.env), self.attrs, self.heap, self.facts, self.events)
    def setv(self, n, v):
        s = self.clone(); s.env[n] = v; return s
    def with_fact(self, t, b):
        s = State(self.env, self.attrs, self.heap, dict(self.facts), self.events); s.facts[t] = b; return s
    def setattr(self, base, name, v):
        s = State(self.env, dict(self.attrs), self.heap, self.facts, self.events); s.attrs[(base, name)] = v; return s
    def seth(self, new, items):
        s = State(self.env, self.attrs, dict(self.heap), self.facts, self.events); s.heap[new] = items; return s
    def key(self, facts=True):
        return (frozenset(self.env.items()), frozenset(self.attrs.items()), frozenset(self.heap.items()),
                tuple(e.key() for e in self.events), frozenset(self.facts.items()) if facts else None)
    def snapshot(self): return self
    def expand(self, t, d=6):
        return expand(self, t, d)

def expand(st, t, d=6):
    """Replace locally created containers by their contents; comprehensions and accumulating loops look alike."""
    if d <= 0 or not isinstance(t, T): return t
    if t.op == "new":
        items = st.heap.get(t, ())
        out = []
        for it in items:
            if it[0] == "i": out.append(expand(st, it[1], d - 1))
            elif it[0] == "kv": out.append(T("kv", expand(st, it[1], d - 1), expand(st, it[2], d - 1)))
            elif it[0] == "each": out.append(T("each", it[1], expand(st, it[2], d - 1), *it[3]))
            elif it[0] == "eachkv": out.append(T("each", it[1], T("kv", expand(st, it[2], d - 1), expand(st, it[3], d - 1)), *it[4]))
            else: out.append(T(*[x if isinstance(x, str) else expand(st, x, d - 1) for x in it]))
        return T(t.a[0], *out)
    if t.op == "comp":
        kind = {"gen": "list"}.get(t.a[0], t.a[0])
        return T(kind, T("each", t.a[2], expand(st, t.a[1], d - 1), *t.a[3]))
    def go(x):
        if isinstance(x, T): return expand(st, x, d - 1)
        if isinstance(x, tuple): return tuple(go(y) for y in x)
        return x
    if t.op in ("c", "p", "g", "fn"): return t
    return T(t.op, *[go(x) for x in t.a])


class Exit:
    __slots__ = ("kind", "st", "val", "node", "func")
    def __init__(self, kind, st, val, node, func): self.kind, self.st, self.val, self.node, self.func = kind, st, val, node, func
    @property
    def facts(self): return self.st.facts
    @property
    def events(self): return self.st.events
    @property
    def loc(self): return "%s:%d" % (self.func.module.rel, getattr(self.node, "lineno", 0))
    def __repr__(self): return "<%s %s @%s>" % (self.kind, self.val, self.loc)

NONNONE_OPS = {"new", "tuple", "comp", "fn", "bin", "lt", "eq", "not", "is", "in", "isnone", "fstr", "list", "dict", "set", "idx", "kv", "slice"}
BROAD = {"builtins.Exception", "builtins.BaseException"}
TRANSPARENT_ITER = {"builtins.list", "builtins.tuple", "builtins.iter", "builtins.sorted", "builtins.reversed", "builtins.set",
                    "tqdm.tqdm", "builtins.frozenset"}
MUT_APPEND = {"append", "add", "appendleft"}
MUT_EXTEND = {"extend", "update", "extendleft"}
OTHER_MUT = {"insert", "pop", "remove", "clear", "sort", "reverse", "setdefault", "popitem", "discard"}


class Interp:
    def __init__(self, prog, inline=None, want=None, implicit=False, max_states=3000, max_depth=4, want_store=None, unroll=0, self_cls=None, pure_inline=None, merge=True):
        self.prog = prog
        self.inline = inline or (lambda f: False)
        self.want = want or (lambda t: False)
        self.want_store = want_store or (lambda t, v: False)
        self.implicit = implicit
        self.max_states, self.max_depth = max_states, max_depth
        self.unroll = unroll
        self.merge = merge
        self.stack = []
        self.pure = 0
        self.self_cls = self_cls
        self.uid = 0
        self.inlined = set()
        self.path_count = 0

    # ------------------------------------------------------------------ entry
    def run(self, func, bind=None, facts=None):
        env = {}
        for p in func.all_params: env[p] = T("p", p)
        if bind: env.update(bind)
        st = State(env, {}, {}, dict(facts or {}), ())
        self.stack = [(func, func.cls if self.self_cls is None else self.self_cls)]
        self.implicit_on = [self.implicit]
        ex = self.exits_of(func, st)
        self.path_count += len(ex)
        return ex

    def exits_of(self, func, st):
        out = []
        for k, s, v, n in self.block(func.body, [st]):
            if k == "fall": out.append(Exit("return", s, NONE, n or func.node, func))
            elif k in ("return", "raise"): out.append(Exit(k, s, v, n, func))
        return out

    @property
    def f(self): return self.stack[-1][0]

    # ------------------------------------------------------------------ joins
    def dedupe(self, states):
        if len(states) <= 1: return states
        groups = {}
        for s in states:
            groups.setdefault(s.key(facts=not self.merge), []).append(s)
        out = []
        for g in groups.values():
            if len(g) == 1: out.append(g[0]); continue
            f = g[0].facts
            f = {k: v for k, v in f.items() if all(x.facts.get(k) is v for x in g[1:])}
            s = g[0]
            out.append(State(s.env, s.attrs, s.heap, f, s.events))
        if len(out) > self.max_states: raise Overflow("%s: more than %d states" % (self.f.qual, self.max_states))
        return out

    # ------------------------------------------------------------------ statements
    def block(self, body, states):
        """-> list of (kind, state, value, node)"""
        done = []
        cur = states
        for st in body:
            nxt = []
            for s in cur:
                for r in self.stmt(st, s):
                    if r[0] == "fall": nxt.append(r[1])
                    else: done.append(r)
            cur = self.dedupe(nxt)
            if len(done) > 4 * self.max_states: raise Overflow(self.f.qual)
            if not cur: break
        last = body[-1] if body else None
        return done + [("fall", s, None, last) for s in cur]

    def rec(self, kind, term, val, node, s):
        e = Event(kind, term, val, node, s, self.f)
        return State(s.env, s.attrs, s.heap, s.facts, s.events + (e,))

    def stmt(self, st, s):
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None: return [("fall", s, None, st)]
        self.raised = []
        save = self.raised
        out = m(st, s)
        if self.implicit_on[-1] and not isinstance(st, (ast.If, ast.For, ast.While, ast.Try, ast.With, ast.FunctionDef, ast.ClassDef, ast.Raise, ast.Pass)):
            if may_raise(st):
                out = list(out) + [("raise", s, T("exc", "*"), st)]
        return out

    def with_values(self, e, s):
        """(state, term) list; exits raised by inlined callees are appended to self.pend"""
        return self.ev(e, s)

    def s_Expr(self, st, s): return self.fin(self.ev(st.value, s), st)
    def fin(self, pairs, st):
        out = [("fall", a, None, st) for a, _ in pairs]
        if self.pend: out += self.pend; self.pend = []
        return out
    pend = []
    on_loop = None

    def take_pend(self):
        p = self.pend; self.pend = []
        return p

    def s_Assign(self, st, s):
        res = []
        for s2, v in self.ev(st.value, s):
            ss = [s2]
            for t in st.targets:
                ss = [y for x in ss for y in self.assign(t, v, x, st)]
            res += [("fall", x, None, st) for x in ss]
        return res + self.take_pend()
    def s_AnnAssign(self, st, s):
        if st.value is None: return [("fall", s, None, st)]
        res = []
        for s2, v in self.ev(st.value, s):
            res += [("fall", x, None, st) for x in self.assign(st.target, v, s2, st)]
        return res + self.take_pend()
    def s_AugAssign(self, st, s):
        res = []
        op = type(st.op).__name__
        load = ast.copy_location(_as_load(st.target), st.target)
        for s1, cur in self.ev(load, s):
            for s2, v in self.ev(st.value, s1):
                if cur.op == "new" and cur.a[0] in ("list", "set", "dict") and cur in s2.heap:
                    res.append(("fall", self.extend(cur, v, s2), None, st))
                else:
                    nv = self.binop(op, cur, v)
                    res += [("fall", x, None, st) for x in self.assign(st.target, nv, s2, st)]
        return res + self.take_pend()
    def s_Return(self, st, s):
        if st.value is None: return [("return", s, NONE, st)]
        r = [("return", a, v, st) for a, v in self.ev(st.value, s)]
        return r + self.take_pend()
    def s_Raise(self, st, s):
        if st.exc is None: return [("raise", s, T("exc", "reraise"), st)]
        r = []
        for a, v in self.ev(st.exc, s): r.append(("raise", a, self.exc_of(v), st))
        return r + self.take_pend()
    def exc_of(self, v):
        if v.op == "call" and v.a[0].op == "g": return T("exc", v.a[0].a[0], v)
        if v.op == "g": return T("exc", v.a[0])
        return T("exc", "?", v)
    def s_Assert(self, st, s):
        out = []
        for a, b in self.cond(st.test, s):
            out.append(("fall", a, None, st) if b else ("raise", a, T("exc", "builtins.AssertionError"), st))
        return out + self.take_pend()
    def s_Pass(self, st, s): return [("fall", s, None, st)]
    def s_Break(self, st, s): return [("break", s, None, st)]
    def s_Continue(self, st, s): return [("continue", s, None, st)]
    def s_Global(self, st, s): return [("fall", s, None, st)]
    s_Nonlocal = s_Import = s_ImportFrom = s_Global
    def s_FunctionDef(self, st, s):
        f = self.prog.by_node.get(st)
        return [("fall", s.setv(st.name, T("fn", f.qual if f else st.name)), None, st)]
    s_AsyncFunctionDef = s_FunctionDef
    def s_ClassDef(self, st, s): return [("fall", s, None, st)]
    def s_Delete(self, st, s):
        for t in st.targets:
            if isinstance(t, ast.Name):
                if t.id in s.env:
                    s = s.clone(); s.env.pop(t.id, None)
            elif isinstance(t, (ast.Subscript, ast.Attribute)):
                r = self.ev(_as_load(t), s)
                if r:
                    s2, v = r[0]; s = s2
                    if self.want_store(v, T("deleted")): s = self.rec("store", v, T("deleted"), st, s)
        return [("fall", s, None, st)] + self.take_pend()

    def s_If(self, st, s):
        out, a, b = [], [], []
        conds = self.cond(st.test, s)
        out += self.take_pend()
        if self.implicit_on[-1] and may_raise(ast.Expr(value=st.test)): out.append(("raise", s, T("exc", "*"), st))
        for x, v in conds: (a if v else b).append(x)
        a, b = self.dedupe(a), self.dedupe(b)
        fa = self.block(st.body, a) if a else []
        fb = self.block(st.orelse, b) if b and st.orelse else [("fall", x, None, st) for x in b]
        fall = []
        for r in fa + fb:
            if r[0] == "fall": fall.append(r[1])
            else: out.append(r)
        return out + [("fall", x, None, st) for x in self.dedupe(fall)]

    def s_With(self, st, s):
        states = [s]
        pre = []
        for it in st.items:
            nxt = []
            for x in states:
                for y, v in self.ev(it.context_expr, x):
                    if self.want(T("with", v)): y = self.rec("with", v, NONE, st, y)
                    if it.optional_vars is not None:
                        nxt += self.assign(it.optional_vars, T("enter", v), y, st)
                    else: nxt.append(y)
            states = nxt
        pre = self.take_pend()
        if self.implicit_on[-1]: pre.append(("raise", s, T("exc", "*"), st))
        return pre + self.block(st.body, states)
    s_AsyncWith = s_With

    # ---- loops ----
    def s_For(self, st, s):
        out = []
        its = self.ev(st.iter, s)
        out += self.take_pend()
        if self.implicit_on[-1] and may_raise(ast.Expr(value=st.iter)): out.append(("raise", s, T("exc", "*"), st))
        for s1, it in its: out += self.loop_for(st, s1, it)
        fall = self.dedupe([r[1] for r in out if r[0] == "fall"])
        return [r for r in out if r[0] != "fall"] + [("fall", x, None, st) for x in fall]
    s_AsyncFor = s_For

    def loop_for(self, st, s1, it):
        lit = self.literal_items(it, s1)
        out = []
        if lit is not None and len(lit) <= self.unroll:
            cur = [s1]; brk = []
            for el in lit:
                nxt = []
                for x in cur:
                    for y in self.assign(st.target, el, x, st):
                        for r in self.block(st.body, [y]):
                            if r[0] in ("fall", "continue"): nxt.append(r[1])
                            elif r[0] == "break": brk.append(r[1])
                            else: out.append(r)
                cur = self.dedupe(nxt)
            ends = cur
            if st.orelse: 
                for r in self.block(st.orelse, ends): out.append(r)
            else: out += [("fall", x, None, st) for x in ends]
            return out + [("fall", x, None, st) for x in brk]
        el = self.elemof(it, s1)
        g = self.havoc(st.body, s1, st)
        pre_heap = s1.heap
        results = []
        gs = [g]
        for c in self.filters(it, s1): gs = [z for y in gs for z in self.assume(c, True, y)]
        given = {k for y in gs for k in y.facts if g.facts.get(k) is not y.facts[k]}
        for g in gs:
            for x in self.assign(st.target, el, g, st):
                results += self.block(st.body, [x])
        return out + self.after_loop(st, s1, it, el, results, s1, given)

    def filters(self, it, s):
        """the conditions every element of the iterable has passed"""
        if it.op == "call" and it.a[1] and callee(it) in TRANSPARENT_ITER | {"builtins.enumerate"}: return self.filters(it.a[1][0], s)
        if it.op == "comp": return it.a[3]
        if it.op == "new":
            x = s.heap.get(it, ())
            if len(x) == 1 and x[0][0] == "each" and len(x[0]) > 3: return x[0][3]
        return ()

    def after_loop(self, st, s1, it, el, results, zero, given=()):
        out = []
        normal = [r[1] for r in results if r[0] in ("fall", "continue")]
        if self.on_loop is not None: self.on_loop(self.f, st, it, el, s1, results)
        bvs = {x for x in subterms(el) if x.op in ("bv", "idx")} if el is not None else set()
        forall = {}
        if normal and el is not None:
            f0 = normal[0].facts
            for k, v in f0.items():
                if s1.facts.get(k) is v or k in given: continue
                if bvs & subterms(k) and all(n.facts.get(k) is v for n in normal[1:]): forall[k] = v
        ends = []
        def addf(x, fs):
            if not fs: return x
            return State(x.env, x.attrs, x.heap, {**x.facts, **fs}, x.events)
        if zero is not None: ends.append(addf(zero, forall))
        for n in normal:
            facts = {k: v for k, v in n.facts.items() if s1.facts.get(k) is v or not (bvs & subterms(k)) or k in forall}
            ends.append(State(n.env, n.attrs, self.wrap_heap(s1.heap, n.heap, it, el, s1.facts, n.facts), facts, n.events))
        ends = self.dedupe(ends)
        for r in results:
            if r[0] == "break":
                x = r[1]
                out.append(("fall", State(x.env, x.attrs, self.wrap_heap(s1.heap, x.heap, it, el, s1.facts, x.facts), x.facts, x.events), None, st))
            elif r[0] in ("return", "raise"): out.append(r)
        if st.orelse: out += self.block(st.orelse, ends)
        else: out += [("fall", x, None, st) for x in ends]
        return out

    def wrap_heap(self, h0, h1, it, el, f0=None, f1=None):
        if h0 is h1: return h1
        conds = ()
        if f1 is not None and el is not None:
            bvs = {x for x in subterms(el) if x.op in ("bv", "idx")}
            conds = tuple(k if v else neg(k) for k, v in f1.items() if f0.get(k) is not v and bvs & subterms(k))
        h = dict(h1)
        for k, items in h1.items():
            if k in h0 and items != h0[k]:
                old = h0[k]
                n = len(old)
                if items[:n] == old:
                    add = []
                    for x in items[n:]:
                        if x[0] == "i": add.append(("each", it, x[1], conds))
                        elif x[0] == "kv": add.append(("eachkv", it, x[1], x[2], conds))
                        else: add.append(x)
                    h[k] = old + tuple(add)
                else: h[k] = items + (("dirty",),)
        return h

    def havoc(self, body, s, st):
        names = set()
        for b in body:
            for n in ast.walk(b):
                if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)): names.add(n.id)
        g = s.clone()
        lid = "%d:%d" % (st.lineno, st.col_offset)
        for n in names:
            if n in g.env: g.env[n] = T("phi", lid, n, g.env[n])
        return g

    def s_While(self, st, s):
        g = self.havoc(st.body, s, st)
        out = []
        exits0 = []
        results = []
        is_true = isinstance(st.test, ast.Constant) and bool(st.test.value)
        ent = self.cond(st.test, s); out += self.take_pend()
        if self.implicit_on[-1] and may_raise(ast.Expr(value=st.test)): out.append(("raise", s, T("exc", "*"), st))
        zero = [x for x, b in ent if not b]
        gen = [x for x, b in self.cond(st.test, g) if b]; out += self.take_pend()
        gen = self.dedupe(gen)
        if any(b for _, b in ent):
            results = self.block(st.body, gen)
        if self.on_while is not None: self.on_while(self.f, st, g, results)
        ends = list(zero)
        for r in results:
            if r[0] in ("fall", "continue"):
                if is_true: continue
                n = r[1]
                hv = self.havoc_terms(n, g)
                for x, b in self.cond(st.test, n):
                    if not b: ends.append(State(x.env, x.attrs, self.wrap_heap(s.heap, x.heap, T("while", st.lineno), None), x.facts, x.events))
                out += self.take_pend()
                if not any(not b for _, b in self.cond(st.test, n)):
                    # exit condition not visible on this path: keep an exit with the condition false
                    ends.append(State(n.env, n.attrs, self.wrap_heap(s.heap, n.heap, T("while", st.lineno), None), n.facts, n.events))
            elif r[0] == "break":
                x = r[1]
                out.append(("fall", State(x.env, x.attrs, self.wrap_heap(s.heap, x.heap, T("while", st.lineno), None), x.facts, x.events), None, st))
            else: out.append(r)
        ends = self.dedupe(ends)
        if st.orelse and ends: out += self.block(st.orelse, ends)
        else: out += [("fall", x, None, st) for x in ends]
        fall = self.dedupe([r[1] for r in out if r[0] == "fall"])
        return [r for r in out if r[0] != "fall"] + [("fall", x, None, st) for x in fall]
    def havoc_terms(self, n, g): return n

    # ---- exceptions ----
    def s_Try(self, st, s):
        self.implicit_on.append(True if st.handlers else self.implicit_on[-1])
        body = self.block(st.body, [s])
        self.implicit_on.pop()
        outer = self.implicit_on[-1]
        res = []
        raised = []
        falls = []
        for r in body:
            if r[0] == "raise": raised.append(r)
            elif r[0] == "fall": falls.append(r[1])
            else: res.append(r)
        if falls:
            if st.orelse: res += self.block(st.orelse, self.dedupe(falls))
            else: res += [("fall", x, None, st) for x in falls]
        # group raised states by exception term
        by = {}
        for r in raised: by.setdefault(r[2], []).append(r)
        for exc, rs in by.items():
            sts = self.dedupe([r[1] for r in rs])
            pending = sts
            caught = False
            for h in st.handlers:
                m = self.matches(exc, h)
                if m == "no": continue
                hs = []
                for x in pending:
                    y = x
                    if h.name: y = x.setv(h.name, T("excval", exc))
                    if self.mark_exc: y = y.setv("<exc>", TRUE)
                    hs.append(y)
                for q in self.block(h.body, hs):
                    if q[0] == "raise" and q[2] is T("exc", "reraise"): q = ("raise", q[1], exc, q[3])
                    res.append(q)
                if m == "yes": caught = True; break
            if not caught:
                if exc is T("exc", "*") and not outer and not self.always_prop: pass
                else:
                    bn = {}
                    for r in rs: bn.setdefault(id(r[3]), []).append(r)
                    for g in bn.values(): res += [("raise", x, exc, g[0][3]) for x in self.dedupe([r[1] for r in g])]
        if st.finalbody:
            out = []
            self.implicit_on.append(False)   # cleanup code is taken not to fail itself
            fin = [(r, self.block(st.finalbody, [r[1]])) for r in res]
            self.implicit_on.pop()
            for r, qs in fin:
                for q in qs:
                    if q[0] == "fall": out.append((r[0], q[1], r[2], r[3]))
                    else: out.append(q)
            # an exception thrown by the body itself when implicit flow is not tracked
            res = out
        groups = {}
        for r in res: groups.setdefault((r[0], r[2], id(r[3]) if r[0] != "fall" else 0), []).append(r)
        out = []
        for (k, v, _), rs in groups.items():
            out += [(k, x, v, rs[0][3]) for x in self.dedupe([r[1] for r in rs])]
        return out
    s_TryStar = s_Try
    always_prop = False
    mark_exc = False
    on_while = None

    def matches(self, exc, h):
        """does handler h catch exception term exc: yes / no / maybe"""
        if h.type is None: return "yes"
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        best = "no"
        q = exc.a[0]
        for t in types:
            r = self.prog.resolve_expr(t, self.f.module, self.f)
            hn = r.qual if isinstance(r, (Cls, Ext)) else None
            if hn is None: best = "maybe"; continue
            if hn in BROAD: return "yes"
            if q in ("*", "?", "reraise"): best = "maybe"; continue
            m = exc_subclass(self.prog, q, hn)
            if m == "yes": return "yes"
            if m == "maybe": best = "maybe"
        return best

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, s, st):
        """-> list of states"""
        if isinstance(t, ast.Name):
            if any(isinstance(n, ast.Global) and t.id in n.names for n in walk_own(self.f.node)):
                r = self.prog.mod_attr(self.f.module.name, t.id)
                q = T("g", r.qual if r is not None else self.f.module.name + "." + t.id)
                s = s.setattr(q, "", v)
                if self.want_store(q, v): s = self.rec("store", q, v, st, s)
                return [s]
            return [s.setv(t.id, v)]
        if isinstance(t, (ast.Tuple, ast.List)):
            parts = self.unpack(v, len(t.elts), any(isinstance(x, ast.Starred) for x in t.elts), s)
            ss = [s]
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred): x = x.value
                ss = [y for z in ss for y in self.assign(x, parts[i], z, st)]
            return ss
        if isinstance(t, ast.Attribute):
            out = []
            for s2, b in self.ev(t.value, s):
                s3 = s2.setattr(b, t.attr, v)
                ft = T("attr", b, t.attr)
                if ft in s3.facts or any(ft in subterms(k) for k in s3.facts):
                    s3 = State(s3.env, s3.attrs, s3.heap, {k: x for k, x in s3.facts.items() if ft not in subterms(k)}, s3.events)
                if self.want_store(ft, v): s3 = self.rec("store", ft, v, st, s3)
                out.append(s3)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s2, b in self.ev(t.value, s):
                for s3, k in self.ev(t.slice, s2):
                    if b.op == "new" and b in s3.heap:
                        s3 = s3.seth(b, s3.heap[b] + (("kv", k, v),))
                    s3 = s3.setattr(b, ("[]", k), v)
                    if self.want_store(T("sub", b, k), v): s3 = self.rec("store", T("sub", b, k), v, st, s3)
                    out.append(s3)
            return out
        if isinstance(t, ast.Starred): return self.assign(t.value, v, s, st)
        return [s]

    def unpack(self, v, n, star, s):
        if v.op == "tuple" and len(v.a) == n and not star: return list(v.a)
        if v.op == "new" and v.a[0] == "list":
            it = s.heap.get(v, ())
            if len(it) == n and all(x[0] == "i" for x in it) and not star: return [x[1] for x in it]
        return [T("item", v, i) for i in range(n)]

    # ------------------------------------------------------------------ iteration
    def literal_items(self, it, s):
        if it.op == "tuple": return list(it.a)
        if it.op == "new" and it.a[0] == "list":
            x = s.heap.get(it, ())
            if all(y[0] == "i" for y in x): return [y[1] for y in x]
        return None

    def elemof(self, it, s):
        if it.op == "call":
            f, pos, kw = it.a
            q = callee(it)
            args = list(pos) + [v for _, v in kw]
            if q == "builtins.enumerate" and args: return T("tuple", T("idx", args[0]), self.elemof(args[0], s))
            if q == "builtins.zip" and args: return T("tuple", *[self.elemof(a, s) for a in args])
            if q in TRANSPARENT_ITER and args: return self.elemof(args[0], s)
            if q == "builtins.range" and len(args) == 1 and args[0].op == "call" and callee(args[0]) == "builtins.len":
                return T("idx", args[0].a[1][0])
            if q == ".items" and not args:
                d = f.a[0]; k = T("bv", d); return T("tuple", k, T("sub", d, k))
            if q == ".keys" and not args: return T("bv", f.a[0])
            if q == ".values" and not args: return T("sub", f.a[0], T("bv", f.a[0]))
        if it.op == "comp": return it.a[1]
        if it.op == "new":
            x = s.heap.get(it, ())
            if len(x) == 1 and x[0][0] == "each": return x[0][2]
        return T("bv", it)

    # ------------------------------------------------------------------ conditions
    def cond(self, e, s):
        """-> list of (state, bool)"""
        if isinstance(e, ast.BoolOp):
            conj = isinstance(e.op, ast.And)
            cur = [s]; out = []
            for i, x in enumerate(e.values):
                nxt = []
                for y in cur:
                    for z, b in self.cond(x, y):
                        if b == conj: nxt.append(z)
                        else: out.append((z, b))
                cur = nxt
            return out + [(y, conj) for y in cur]
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(a, not b) for a, b in self.cond(e.operand, s)]
        if isinstance(e, ast.NamedExpr):
            out = []
            for a, v in self.ev(e.value, s):
                a = a.setv(e.target.id, v)
                out += self.branch(v, a)
            return out
        out = []
        for a, v in self.ev(e, s): out += self.branch(v, a)
        return out

    def branch(self, v, s):
        out = []
        for b in (True, False):
            for x in self.assume(v, b, s): out.append((x, b))
        return out

    def truth(self, t, s):
        """known boolean value of term t in state s, or None"""
        if t.op == "c":
            try: return bool(t.a[1])
            except Exception: return None
        if t.op == "not":
            r = self.truth(t.a[0], s); return None if r is None else not r
        if t.op == "tuple": return len(t.a) > 0
        if t.op in ("fn", "g"): return True if t.op == "fn" else s.facts.get(t)
        if t.op == "isnone":
            x = t.a[0]
            if x is NONE: return True
            if x.op in NONNONE_OPS or (x.op == "c"): return False
            if x in s.facts and s.facts[x]: return False
            if x.op == "call" and x.a[0].op == "g" and x.a[0].a[0] in self.prog.classes: return False
            if x.op == "phi" and self.truth(T("isnone", x.a[2]), s) is not None and t not in s.facts: return None
        if t.op == "and":
            rs = [self.truth(x, s) for x in t.a]
            if all(r is True for r in rs): return True
            if any(r is False for r in rs): return False
        if t.op == "or":
            rs = [self.truth(x, s) for x in t.a]
            if any(r is True for r in rs): return True
            if all(r is False for r in rs): return False
        r = s.facts.get(t)
        if r is None and t.op not in ("isnone",) and s.facts.get(T("isnone", t)) is True: return False
        return r

    def assume(self, t, b, s):
        if t.op == "not": return self.assume(t.a[0], not b, s)
        if t.op == "call" and callee(t) == "builtins.bool" and len(t.a[1]) == 1: return self.assume(t.a[1][0], b, s)
        k = self.truth(t, s)
        if k is not None: return [s] if k == b else []
        if t.op in ("and", "or"):
            conj = (t.op == "and")
            if b == conj:
                cur = [s]
                for x in t.a: cur = [z for y in cur for z in self.assume(x, b, y)]
                return cur
            out = []; cur = [s]
            for x in t.a:
                nxt = []
                for y in cur:
                    out += self.assume(x, b, y)
                    nxt += self.assume(x, not b, y)
                cur = nxt
            return out
        if t.op == "ite":
            c, x, y = t.a
            return [w for z in self.assume(c, True, s) for w in self.assume(x, b, z)] + [w for z in self.assume(c, False, s) for w in self.assume(y, b, z)]
        s2 = s.with_fact(t, b)
        if t.op == "isnone" and b: pass
        if t.op == "call" and t.a[0].op == "g" and t.a[1]:
            q = t.a[0].a[0]
            x = t.a[1][0]
            if (q == "builtins.all" and b) or (q == "builtins.any" and not b):
                body = None
                if x.op == "comp" and not x.a[3]: body = x.a[1]
                elif x.op == "comp" and q == "builtins.all":   # all(c for x if d): (not d) or c
                    body = T("or", *([neg(d) for d in x.a[3]] + [x.a[1]]))
                elif x.op == "comp": body = T("and", *(list(x.a[3]) + [x.a[1]]))
                elif x.op == "new" and len(s2.heap.get(x, ())) == 1 and s2.heap[x][0][0] == "each": body = s2.heap[x][0][2]
                if body is not None:
                    for (k2, v2) in conj_facts(body, b): s2.facts[k2] = v2
        if b and t.op == "eq":
            x, y = t.a
            # equality with None / constants
            if x is NONE: s2.facts[T("isnone", y)] = True
            elif y is NONE: s2.facts[T("isnone", x)] = True
        return [s2]

    # ------------------------------------------------------------------ expressions
    def ev(self, e, s):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None: return [(s, T("expr", ast.unparse(e)))]
        return m(e, s)

    def ev1(self, e, s):
        """single-valued evaluation (comprehension bodies)"""
        self.pure += 1
        try:
            r = self.ev(e, s)
        finally: self.pure -= 1
        return r[0] if r else (s, T("expr", ast.unparse(e)))

    def evs(self, es, s):
        cur = [(s, ())]
        for e in es:
            nxt = []
            for st, vs in cur:
                if isinstance(e, ast.Starred):
                    for a, v in self.ev(e.value, st):
                        if v.op == "tuple": nxt.append((a, vs + v.a))
                        else: nxt.append((a, vs + (T("star", v),)))
                else:
                    for a, v in self.ev(e, st): nxt.append((a, vs + (v,)))
            cur = nxt
        return cur

    def e_Constant(self, e, s): return [(s, C(e.value))]
    def e_JoinedStr(self, e, s):
        cur = [(s, ())]
        for p in e.values:
            if isinstance(p, ast.FormattedValue):
                cur = [(b, vs + (v,)) for a, vs in cur for b, v in self.ev(p.value, a)]
            else: cur = [(a, vs + (C(p.value),)) for a, vs in cur]
        return [(a, T("fstr", *vs)) for a, vs in cur]
    def e_Name(self, e, s):
        if e.id in s.env: return [(s, s.env[e.id])]
        return [(s, self.global_term(e.id, s))]
    def global_term(self, name, s):
        r = self.prog.resolve_name(name, self.f.module, self.f)
        if isinstance(r, tuple): return T("unbound", name)
        if r is None: return T("g", "?." + name)
        if isinstance(r, Var):
            k = (T("g", r.qual), "")
            if k in s.attrs: return s.attrs[k]
        return T("g", r.qual)
    def e_Tuple(self, e, s): return [(a, T("tuple", *vs)) for a, vs in self.evs(e.elts, s)]
    def fresh(self, kind, e): return T("new", kind, "%s:%d:%d" % (self.f.module.rel, getattr(e, "lineno", 0), getattr(e, "col_offset", 0)))
    def e_List(self, e, s):
        out = []
        kind = {"List": "list", "Set": "set"}[type(e).__name__]
        for a, vs in self.evs(e.elts, s):
            n = self.fresh(kind, e)
            out.append((a.seth(n, tuple(("star", v.a[0]) if v.op == "star" else ("i", v) for v in vs)), n))
        return out
    e_Set = e_List
    def e_Dict(self, e, s):
        cur = [(s, ())]
        for k, v in zip(e.keys, e.values):
            nxt = []
            for a, items in cur:
                if k is None:
                    for b, x in self.ev(v, a): nxt.append((b, items + (("merge", x),)))
                else:
                    for b, kt in self.ev(k, a):
                        for c, vt in self.ev(v, b): nxt.append((c, items + (("kv", kt, vt),)))
            cur = nxt
        out = []
        for a, items in cur:
            n = self.fresh("dict", e)
            out.append((a.seth(n, items), n))
        return out
    def e_Attribute(self, e, s):
        r = None
        if isinstance(e.value, (ast.Name, ast.Attribute)):
            root = e.value
            while isinstance(root, ast.Attribute): root = root.value
            if isinstance(root, ast.Name) and root.id not in s.env:
                r = self.prog.resolve_expr(e, self.f.module, self.f)
        if r is not None and not isinstance(r, tuple):
            k = (T("g", r.qual), "")
            b = self.prog.resolve_expr(e.value, self.f.module, self.f)
            if b is not None and not isinstance(b, tuple):
                kb = (T("g", b.qual), e.attr)
                if kb in s.attrs: return [(s, s.attrs[kb])]
            if k in s.attrs: return [(s, s.attrs[k])]
            return [(s, T("g", r.qual))]
        out = []
        for a, b in self.ev(e.value, s):
            v = a.attrs.get((b, e.attr))
            if v is None: v = self.attr_term(b, e.attr, a)
            if self.want(T("attr", b, e.attr)): a = self.rec("read", T("attr", b, e.attr), v, e, a)
            out.append((a, v))
        return out
    def attr_term(self, b, attr, s):
        return T("attr", b, attr)
    def e_Subscript(self, e, s):
        out = []
        for a, b in self.ev(e.value, s):
            for c, k in self.ev(e.slice, a):
                out.append((c, self.sub(b, k, c)))
        return out
    def sub(self, b, k, s):
        v = s.attrs.get((b, ("[]", k)))
        if v is not None: return v
        if b.op == "tuple" and k.op == "c" and isinstance(cval(k), int) and -len(b.a) <= cval(k) < len(b.a): return b.a[cval(k)]
        if b.op == "new" and b in s.heap:
            items = s.heap[b]
            for it in reversed(items):
                if it[0] in ("kv",) and it[1] is k: return it[2]
                if it[0] not in ("kv", "i"): break
            if b.a[0] == "list" and k.op == "c" and isinstance(cval(k), int) and all(x[0] == "i" for x in items) and -len(items) <= cval(k) < len(items):
                return items[cval(k)][1]
        if k.op == "c" and isinstance(cval(k), int) and b.op in ("call", "attr", "p", "phi") and 0 <= cval(k) < 6: return T("item", b, cval(k))
        if k is T("idx", b): return T("bv", b)
        return T("sub", b, k)
    def e_Slice(self, e, s):
        cur = [(s, ())]
        for p in (e.lower, e.upper, e.step):
            if p is None: cur = [(a, vs + (NONE,)) for a, vs in cur]
            else: cur = [(b, vs + (v,)) for a, vs in cur for b, v in self.ev(p, a)]
        return [(a, T("slice", *vs)) for a, vs in cur]
    def e_Starred(self, e, s): return [(a, T("star", v)) for a, v in self.ev(e.value, s)]
    def e_BinOp(self, e, s):
        op = type(e.op).__name__
        out = []
        for a, x in self.ev(e.left, s):
            for b, y in self.ev(e.right, a):
                t = self.binop(op, x, y)
                if self.want(t): b = self.rec("op", t, NONE, e, b)
                out.append((b, t))
        return out
    def binop(self, op, x, y):
        if x.op == "c" and y.op == "c" and isinstance(cval(x), (int, float)) and isinstance(cval(y), (int, float)):
            try:
                if op == "Add": return C(cval(x) + cval(y))
                if op == "Sub": return C(cval(x) - cval(y))
                if op == "Mult": return C(cval(x) * cval(y))
                if op == "Pow" and abs(cval(y)) < 200: return C(cval(x) ** cval(y))
                if op == "FloorDiv" and cval(y): return C(cval(x) // cval(y))
                if op == "Mod" and cval(y): return C(cval(x) % cval(y))
            except Exception: pass
        return T("bin", op, x, y)
    def e_UnaryOp(self, e, s):
        out = []
        for a, x in self.ev(e.operand, s):
            if isinstance(e.op, ast.Not): out.append((a, neg(x)))
            elif isinstance(e.op, ast.USub):
                out.append((a, C(-cval(x)) if x.op == "c" and isinstance(cval(x), (int, float)) else T("neg", x)))
            elif isinstance(e.op, ast.UAdd): out.append((a, x))
            else: out.append((a, T("un", type(e.op).__name__, x)))
        return out
    def e_BoolOp(self, e, s):
        conj = isinstance(e.op, ast.And)
        if self.pure:
            vs = []; cur = s
            for x in e.values:
                cur, v = self.ev1(x, cur); vs.append(v)
            return [(cur, T("and" if conj else "or", *vs))]
        cur = [s]; out = []
        for i, x in enumerate(e.values):
            last = i == len(e.values) - 1
            nxt = []
            for y in cur:
                for z, v in self.ev(x, y):
                    if last: out.append((z, v)); continue
                    for w, b in self.branch(v, z):
                        if b == conj: nxt.append(w)
                        else: out.append((w, v))
            cur = nxt
        return out
    def e_IfExp(self, e, s):
        if self.pure:
            s, c = self.ev1(e.test, s); s, a = self.ev1(e.body, s); s, b = self.ev1(e.orelse, s)
            return [(s, a if a is b else T("ite", c, a, b))]
        out = []
        for a, b in self.cond(e.test, s): out += self.ev(e.body if b else e.orelse, a)
        return out
    def e_Compare(self, e, s):
        cur = [(s, None, ())]
        res = []
        for a, l in self.ev(e.left, s): res.append((a, l, ()))
        for op, c in zip(e.ops, e.comparators):
            nxt = []
            for a, l, ts in res:
                for b, r in self.ev(c, a): nxt.append((b, r, ts + (compare(op, l, r),)))
            res = nxt
        return [(a, ts[0] if len(ts) == 1 else T("and", *ts)) for a, _, ts in res]
    def e_NamedExpr(self, e, s): return [(a.setv(e.target.id, v), v) for a, v in self.ev(e.value, s)]
    def e_Lambda(self, e, s):
        f = self.prog.by_node.get(e)
        return [(s, T("fn", f.qual if f else "lambda"))]
    def e_Await(self, e, s): return self.ev(e.value, s)
    def e_Yield(self, e, s):
        if e.value is None: return [(self.rec("yield", NONE, NONE, e, s), T("sent"))]
        return [(self.rec("yield", v, NONE, e, a), T("sent")) for a, v in self.ev(e.value, s)]
    def e_YieldFrom(self, e, s): return [(self.rec("yieldfrom", v, NONE, e, a), T("sent")) for a, v in self.ev(e.value, s)]

    def comp(self, e, s, kind, elt):
        saved = s.env
        cur = s
        its, conds = [], []
        self.pure += 1
        try:
            for g in e.generators:
                cur, it = self.ev1(g.iter, cur)
                its.append(it)
                r = self.assign(g.target, self.elemof(it, cur), cur, e)
                cur = r[0]
                for c in g.ifs:
                    cur, v = self.ev1(c, cur); conds.append(v)
            if isinstance(elt, tuple):
                cur, k = self.ev1(elt[0], cur); cur, v = self.ev1(elt[1], cur); t = T("kv", k, v)
            else: cur, t = self.ev1(elt, cur)
        finally: self.pure -= 1
        out = State(saved, s.attrs, cur.heap, s.facts, cur.events)
        it = its[0] if len(its) == 1 else T("prod", *its)
        return [(out, T("comp", kind, t, it, tuple(conds)))]
    def e_ListComp(self, e, s): return self.comp(e, s, "list", e.elt)
    def e_SetComp(self, e, s): return self.comp(e, s, "set", e.elt)
    def e_GeneratorExp(self, e, s): return self.comp(e, s, "gen", e.elt)
    def e_DictComp(self, e, s): return self.comp(e, s, "dict", (e.key, e.value))

    # ---- calls ----
    def extend(self, new, v, s):
        items = s.heap[new]
        if v.op == "tuple": items = items + tuple(("i", x) for x in v.a)
        elif v.op == "new" and v in s.heap: items = items + s.heap[v]
        elif v.op == "comp":
            if isinstance(v.a[1], T) and v.a[1].op == "kv": items = items + (("eachkv", v.a[2], v.a[1].a[0], v.a[1].a[1], v.a[3]),)
            else: items = items + (("each", v.a[2], v.a[1], v.a[3]),)
        else: items = items + (("ext", v),)
        return s.seth(new, items)

    def e_Call(self, e, s):
        out = []
        fn = e.func
        # container construction / mutation
        if isinstance(fn, ast.Attribute):
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == "super":
                target = None
                cls = self.stack[-1][1]
                own = self.f.cls
                if own is not None:
                    for k in self.prog.mro(own)[1:]:
                        if fn.attr in k.methods: target = k.methods[fn.attr]; break
                me = s.env.get(self.f.args[0]) if self.f.args else None
                return self.do_call(e, s, T("attr", T("super", me if me is not None else NONE), fn.attr), target, me)
            heads = None
            root = fn.value
            while isinstance(root, ast.Attribute): root = root.value
            ent = None
            if isinstance(root, ast.Name) and root.id not in s.env:
                ent = self.prog.resolve_expr(fn, self.f.module, self.f)
            if ent is not None and not isinstance(ent, (tuple, Var)):
                # Class.method(...) or module.function(...)
                recv = None
                if isinstance(ent, Func) and ent.is_classmethod:
                    recv = T("g", ent.cls.qual)
                return self.do_call(e, s, T("g", ent.qual), ent, recv)
            for a, b in self.ev(fn.value, s):
                out += self.do_call(e, a, T("attr", b, fn.attr), self.method_of(b, fn.attr), b)
            return out
        for a, f in self.ev(fn, s):
            ent = None
            if f.op == "g": ent = self.prog.funcs.get(f.a[0]) or self.prog.classes.get(f.a[0]) or Ext(f.a[0])
            elif f.op == "fn": ent = self.prog.funcs.get(f.a[0])
            out += self.do_call(e, a, f, ent, None)
        return out

    def method_of(self, b, name):
        if b is T("p", "self") or (b.op == "p" and self.stack[0][0].args[:1] == [b.a[0]] and self.stack[0][0].cls is not None):
            cls = self.stack[0][1]
            if cls is not None:
                return self.prog.lookup_method(cls, name)
        if b.op == "call" and b.a[0].op == "g" and b.a[0].a[0] in self.prog.classes:
            return self.prog.lookup_method(self.prog.classes[b.a[0].a[0]], name)
        return None

    def do_call(self, e, s, fterm, ent, recv):
        out = []
        kwnames = [k.arg for k in e.keywords]
        nodes = list(e.args) + [k.value for k in e.keywords]
        for a, vs in self.evs_flat(e, s):
            pos, kw = vs
            out += self.apply(e, a, fterm, ent, recv, pos, kw)
        return out

    def evs_flat(self, e, s):
        res = []
        for a, pos in self.evs(e.args, s):
            cur = [(a, ())]
            for k in e.keywords:
                nxt = []
                for b, items in cur:
                    for c, v in self.ev(k.value, b):
                        if k.arg is None:
                            if v.op == "new" and v.a[0] == "dict" and all(x[0] == "kv" and x[1].op == "c" for x in c.heap.get(v, (("?",),))):
                                nxt.append((c, items + tuple((cval(x[1]), x[2]) for x in c.heap[v])))
                            else: nxt.append((c, items + (("**", v),)))
                        else: nxt.append((c, items + ((k.arg, v),)))
                cur = nxt
            res += [(b, (pos, items)) for b, items in cur]
        return res

    def apply(self, e, s, fterm, ent, recv, pos, kw):
        name = fterm.a[1] if fterm.op == "attr" else None
        # builtin container constructors
        q = fterm.a[0] if fterm.op == "g" else None
        if q in ("builtins.list", "builtins.dict", "builtins.set") and not kw and len(pos) <= 1:
            kind = q[9:]
            if not pos:
                n = self.fresh(kind, e); return [(s.seth(n, ()), n)]
            if kind == "list" and pos[0].op == "tuple":
                n = self.fresh(kind, e); return [(s.seth(n, tuple(("i", x) for x in pos[0].a)), n)]
            if kind == "dict" and pos[0].op in ("g", "p", "attr", "new"):
                n = self.fresh(kind, e); return [(s.seth(n, s.heap.get(pos[0], (("merge", pos[0]),)) if pos[0].op == "new" else (("merge", pos[0]),)), n)]
            if pos[0].op == "comp" and kind == "list":
                return [(s, T("comp", "list", *pos[0].a[1:]))]
        if q == "builtins.tuple" and len(pos) == 1 and pos[0].op == "tuple": return [(s, pos[0])]
        if q in ("builtins.filter", "builtins.map") and len(pos) == 2 and pos[0].op == "fn":
            lam = self.prog.funcs.get(pos[0].a[0])
            if lam is not None and isinstance(lam.node, ast.Lambda) and len(lam.args) == 1:
                el = self.elemof(pos[1], s)
                cur, v = self.ev1(lam.node.body, s.setv(lam.args[0], el))
                s = State(s.env, s.attrs, cur.heap, s.facts, cur.events)
                if q.endswith("filter"): return [(s, T("comp", "gen", el, pos[1], (v,)))]
                return [(s, T("comp", "gen", v, pos[1], ()))]
        if name is not None and recv is not None and recv.op == "new" and recv in s.heap and ent is None:
            items = s.heap[recv]
            if name in MUT_APPEND and len(pos) == 1: 
                s = s.seth(recv, items + (("i", pos[0]),))
                return [(self.note(e, s, T("call", fterm, pos, ())), NONE)]
            if name in MUT_EXTEND and len(pos) == 1 and not kw:
                return [(self.note(e, self.extend(recv, pos[0], s), T("call", fterm, pos, ())), NONE)]
            if name == "update" and not pos:
                return [(s.seth(recv, items + tuple(("kv", C(k), v) if k != "**" else ("merge", v) for k, v in kw)), NONE)]
            if name in OTHER_MUT:
                s = s.seth(recv, items + (("mut", name) + tuple(pos),))
            if name == "get" and pos and pos[0].op == "c":
                for it in reversed(items):
                    if it[0] == "kv" and it[1] is pos[0]: return [(s, it[2])]
                    if it[0] not in ("kv", "i"): break
        g = ent if isinstance(ent, Func) else None
        cargs, ckw = pos, kw
        sig = g
        skip = 0
        if isinstance(ent, Cls):
            sig = self.prog.lookup_method(ent, "__init__") or self.prog.lookup_method(ent, "__new__")
            skip = 1
        elif g is not None and g.cls is not None and g.parent is None and not g.is_static and (recv is not None): skip = 1
        if sig is not None and not any(x.op == "star" for x in pos):
            names = sig.args[skip:]
            if len(pos) <= len(names) or sig.node.args.vararg:
                k2 = list(zip(names, pos)); rest = tuple(pos[len(names):])
                order = {n: i for i, n in enumerate(sig.all_params)}
                k2 += list(kw)
                k2.sort(key=lambda x: order.get(x[0], 999))
                cargs, ckw = rest, tuple(k2)
        else:
            ckw = tuple(sorted(kw, key=lambda x: x[0]))
        term = T("call", fterm, tuple(cargs), tuple(ckw))
        if q == "builtins.isinstance" or q == "builtins.len": pass
        if q == "builtins.bool" and len(pos) == 1: term = pos[0] if pos[0].op in ("lt", "eq", "isnone", "not", "and", "or") else term
        if g is not None and len(self.stack) <= self.max_depth and not self.pure and all(f is not g for f, _ in self.stack) and not g.is_generator and self.inline(g):
            r = self.do_inline(e, s, g, recv, cargs, ckw)
            if r is not None: return r
        s = self.note(e, s, term)
        return [(s, term)]

    def note(self, e, s, term):
        if self.want(term): return self.rec("call", term, NONE, e, s)
        return s

    def do_inline(self, e, s, g, recv, pos, kw):
        a = g.node.args
        bind = {}
        params = g.all_params
        if g.cls is not None and g.parent is None and not g.is_static and recv is not None and g.args:
            bind[g.args[0]] = recv
        extra = []
        for k, v in kw:
            if k == "**": extra.append(("merge", v)); continue
            if k in params and k != (a.kwarg.arg if a.kwarg else None): bind[k] = v
            elif a.kwarg: extra.append(("kv", C(k), v))
            else: return None
        st = s
        if any(x.op == "star" for x in pos) and not a.vararg: return None
        if a.vararg: bind[a.vararg.arg] = T("tuple", *pos)
        elif pos: return None
        if a.kwarg:
            n = T("new", "dict", "kwargs:%s:%d" % (g.qual, getattr(e, "lineno", 0)))
            st = st.seth(n, tuple(extra)); bind[a.kwarg.arg] = n
        elif extra: return None
        caller_env = s.env
        base = {}
        if g.parent is not None: base = dict(caller_env)
        defaults = g.defaults
        env = dict(base)
        self.stack.append((g, self.stack[-1][1]))
        try:
            cur = State({}, st.attrs, st.heap, st.facts, st.events)
            for p in params:
                if p in bind: env[p] = bind[p]
                elif p in defaults:
                    r = self.ev(defaults[p], State({}, cur.attrs, cur.heap, cur.facts, cur.events))
                    cur = r[0][0]; env[p] = r[0][1]
                else: env[p] = T("missing", p)
            st2 = State(env, cur.attrs, cur.heap, cur.facts, cur.events)
            save = self.pend; self.pend = []
            ex = self.exits_of(g, st2)
            self.pend = save + self.pend
        finally:
            self.stack.pop()
        self.inlined.add(g.qual)
        groups = {}
        for x in ex:
            ns = State(caller_env, x.st.attrs, x.st.heap, x.st.facts, x.st.events)
            if self.mark_exc and x.st.env.get("<exc>") is TRUE: ns = ns.setv("<exc>", TRUE)
            if x.kind == "return": groups.setdefault(x.val, []).append(ns)
            else: self.pend = self.pend + [("raise", ns, x.val, x.node)]
        out = []
        for v, ss in groups.items():
            out += [(x, v) for x in self.dedupe(ss)]
        return out


def neg(t):
    if t.op == "not": return t.a[0]
    if t.op == "c" and isinstance(t.a[1], bool): return C(not t.a[1])
    return T("not", t)

def conj_facts(t, b):
    """facts implied when t is b"""
    if t.op == "not": return conj_facts(t.a[0], not b)
    if (t.op == "and" and b) or (t.op == "or" and not b):
        return [x for y in t.a for x in conj_facts(y, b)]
    return [(t, b)]

def _ord(a, b): return (a, b) if repr(a) <= repr(b) else (b, a)

def compare(op, l, r):
    if l.op == "c" and r.op == "c":
        try:
            x, y = cval(l), cval(r)
            v = {ast.Eq: lambda: x == y, ast.NotEq: lambda: x != y, ast.Lt: lambda: x < y, ast.LtE: lambda: x <= y,
                 ast.Gt: lambda: x > y, ast.GtE: lambda: x >= y, ast.Is: lambda: x is y if x is None or y is None or isinstance(x, bool) else None,
                 ast.IsNot: lambda: x is not y if x is None or y is None or isinstance(x, bool) else None}.get(type(op))
            if v is not None:
                w = v()
                if w is not None: return C(bool(w))
        except Exception: pass
    if isinstance(op, (ast.Is, ast.Eq)):
        if r is NONE: return T("isnone", l)
        if l is NONE: return T("isnone", r)
        if isinstance(op, ast.Is): return T("is", *_ord(l, r))
        return T("eq", *_ord(l, r))
    if isinstance(op, (ast.IsNot, ast.NotEq)):
        return neg(compare(ast.Is() if isinstance(op, ast.IsNot) else ast.Eq(), l, r))
    if isinstance(op, ast.Lt): return T("lt", l, r)
    if isinstance(op, ast.Gt): return T("lt", r, l)
    if isinstance(op, ast.LtE): return neg(T("lt", r, l))
    if isinstance(op, ast.GtE): return neg(T("lt", l, r))
    if isinstance(op, ast.In): return T("in", l, r)
    if isinstance(op, ast.NotIn): return neg(T("in", l, r))
    return T("cmp", type(op).__name__, l, r)

def _as_load(t):
    import copy
    t = copy.copy(t)
    if hasattr(t, "ctx"): t.ctx = ast.Load()
    return t

_mr = {}
def may_raise(st):
    k = id(st)
    if isinstance(st, ast.Expr) and not hasattr(st, "lineno"):
        return any(isinstance(n, (ast.Call, ast.Subscript, ast.BinOp, ast.Compare, ast.Attribute)) and not isinstance(n, ast.Lambda) for n in ast.walk(st))
    r = _mr.get(st)
    if r is None:
        r = any(isinstance(n, (ast.Call, ast.Subscript, ast.BinOp, ast.Attribute, ast.Compare, ast.Await, ast.Yield, ast.YieldFrom, ast.Import, ast.ImportFrom, ast.ListComp)) for n in ast.walk(st))
        if not r and isinstance(st, ast.Assign) and isinstance(st.targets[0], (ast.Tuple, ast.List)) and not isinstance(st.value, (ast.Tuple, ast.List)): r = True
        _mr[st] = r
    return r

def exc_subclass(prog, q, h):
    """is exception class q a subclass of h: yes/no/maybe"""
    if q == h: return "yes"
    c = prog.classes.get(q)
    if c is not None:
        quals = {k.qual for k in prog.mro(c)} | prog.ext_bases(c)
        if h in quals: return "yes"
        for e in prog.ext_bases(c):
            if exc_subclass(prog, e, h) == "yes": return "yes"
        return "no" if h in prog.classes or h.startswith("builtins.") else "maybe"
    def py(n):
        n = n.split(".")
        return getattr(builtins, n[-1], None) if n[0] == "builtins" else None
    a, b = py(q), py(h)
    if isinstance(a, type) and isinstance(b, type): return "yes" if issubclass(a, b) else "no"
    if isinstance(b, type) and b in (Exception, BaseException): return "yes"
    if isinstance(a, type) and h in prog.classes: return "no"
    return "maybe"


# ---------------------------------------------------------------------- order reasoning on facts
def bounds(facts, t):
    """(lo, lo_strict, hi, hi_strict) for term t from facts lt(c,t)/lt(t,c)/eq"""
    lo, ls, hi, hs = None, False, None, False
    def up_lo(v, s):
        nonlocal lo, ls
        if lo is None or v > lo or (v == lo and s): lo, ls = v, s
    def up_hi(v, s):
        nonlocal hi, hs
        if hi is None or v < hi or (v == hi and s): hi, hs = v, s
    for k, b in facts.items():
        if k.op == "lt":
            x, y = k.a
            if y is t and x.op == "c" and isinstance(cval(x), (int, float)):
                (up_lo(cval(x), True) if b else up_hi(cval(x), False))
            elif x is t and y.op == "c" and isinstance(cval(y), (int, float)):
                (up_hi(cval(y), True) if b else up_lo(cval(y), False))
        elif k.op == "eq" and b and t in k.a:
            o = k.a[0] if k.a[1] is t else k.a[1]
            if o.op == "c" and isinstance(cval(o), (int, float)): up_lo(cval(o), False); up_hi(cval(o), False)
    return lo, ls, hi, hs

def int_ge(facts, t, n):
    """facts imply integer term t >= n"""
    if t.op == "c": return isinstance(cval(t), (int, float)) and cval(t) >= n
    lo, ls, _, _ = bounds(facts, t)
    if lo is not None and (lo >= n or (ls and lo >= n - 1)): return True
    if facts.get(t) is True and n == 1:      # truthy non-negative counter
        lo, ls, _, _ = bounds(facts, t)
        return lo is not None and lo >= 0
    return False
