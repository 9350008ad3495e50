"""P11: internal stop signals never escape from the solvers."""
import ast
from sa.load import Func, Cls, Ext, Var, Module, walk_own
from sa.callables import Callables, entries, chain
from sa.util import *
from rules.p18 import loop_paths, atoms, atoms_in

TECHNIQUE = "interprocedural exception-escape analysis: a fixpoint over the call graph of which internal exceptions can leave each function, with handlers matched through the class hierarchy"
EXPLANATION = ("For every function the set of internal exceptions that can leave it is computed as a least fixpoint over the call graph (named calls, registry and table lookups, lists of functions, methods by name, functions handed to other functions), "
  "subtracting what the enclosing handlers catch according to the class hierarchy and adding what they raise again. A solver that is only known as a parameter may raise either of the structural signals. An exception that is raised only when the caller asked for exceptions is followed as conditional on that flag. "
  "No internal exception may be in the set of a public solving function. A handler that catches such a signal has to lead to the answer None, or on to the next attempt. "
  "Not covered: exceptions of third-party libraries and argument errors.")

PUBLIC_MODULES = ("triples.core", "triples.sdp", "triples.gui")
FLAG = "raise_exception"
UNS, NON = "triples.core.structsos.utils.PolynomialUnsolvableError", "triples.core.structsos.utils.PolynomialNonpositiveError"
DOCUMENTED = {"triples.sdp.utils.IteratorAlignmentError"}     # argument errors
SIGNAL_HOME = ("triples.core.", )
EXTRA_SIGNALS = {"triples.sdp.ipm.SDPRationalizeError"}
VIRTUAL = "<param>"
EXC_PARENTS = {"BaseException": None, "Exception": "BaseException", "RuntimeError": "Exception", "ValueError": "Exception", "ArithmeticError": "Exception", "LookupError": "Exception", "StopIteration": "Exception", "TypeError": "Exception", "KeyError": "LookupError"}

class An:
    def __init__(self, ctx):
        self.ctx, self.prog = ctx, ctx.prog
        self.C = ctx.__dict__.setdefault("_callables", None) or Callables(ctx.prog)
        self.signals = {c.qual: c for c in self.prog.classes.values() if self.is_exc(c) and (c.qual.startswith(SIGNAL_HOME) or c.qual in EXTRA_SIGNALS) and c.qual not in DOCUMENTED}
        self.esc = {}
        self.sites = {}
        self.calls = {}
        self.nsites = 0

    def is_exc(self, c):
        return any(b.split(".")[-1] in EXC_PARENTS or b.split(".")[-1].endswith(("Error", "Exception")) for b in self.prog.ext_bases(c))

    def supers(self, q):
        c = self.signals.get(q) or self.prog.classes.get(q)
        if c is None: return {q}
        out = {b.qual for b in self.prog.mro(c)}
        for b in self.prog.ext_bases(c):
            n = b.split(".")[-1]
            while n: out.add("builtins." + n); n = EXC_PARENTS.get(n, "Exception" if n not in EXC_PARENTS else None)
        return out | {"builtins.Exception", "builtins.BaseException"} if "builtins.Exception" in out else out | {"builtins.BaseException"}

    def catches(self, func, h, q):
        """'yes' / 'no' / 'maybe'"""
        if h.type is None: return "yes"
        sup = self.supers(q)
        best = "no"
        for t in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]):
            r = self.prog.resolve_expr(t, func.module, func)
            if isinstance(r, (Cls, Ext)):
                if r.qual in sup: return "yes"
            elif isinstance(r, Var):
                for v in r.module.assigns.get(r.name, []):
                    for k, e in entries(v) or []:
                        rr = self.prog.resolve_expr(e, r.module, None)
                        if isinstance(rr, (Cls, Ext)) and rr.qual in sup: return "yes"
                best = "maybe"
            else: best = "maybe"
        return best

    def reraises(self, func, h, q, cond):
        """does the handler let the caught signal out again"""
        for k, nd, fc, hd in loop_paths(h.body, ()):
            if k != "raise": continue
            if nd.exc is None or isinstance(nd.exc, ast.Name) and nd.exc.id == h.name:
                # guarded by isinstance on the exception?
                ok = True
                for t, pol in fc:
                    for a, p in atoms_in(func, t, pol):
                        if isinstance(a, ast.Call) and getattr(a.func, "id", "") == "isinstance" and len(a.args) == 2:
                            es = a.args[1].elts if isinstance(a.args[1], ast.Tuple) else [a.args[1]]
                            qs = {getattr(self.prog.resolve_expr(x, func.module, func), "qual", "?") for x in es}
                            if p and not (qs & self.supers(q)) and not any(q in self.supers(z) for z in qs): ok = False
                            if not p and qs & self.supers(q): ok = False
                        if isinstance(a, ast.Name) and a.id == FLAG: 
                            if p: cond = True
                if ok: return True, cond or any(isinstance(a, ast.Name) and a.id == FLAG and p for t, pol in fc for a, p in atoms_in(func, t, pol))
        return False, cond

    def passes(self, func, node, q, cond=False):
        """(escapes the function, conditional on the flag) for a signal q arising at node"""
        for t, part in enclosing_trys(func, node):
            if part != "body": continue
            for h in t.handlers:
                c = self.catches(func, h, q)
                if c == "no": continue
                if c == "maybe": return None, cond
                out, cond = self.reraises(func, h, q, cond)
                if not out: return False, cond
                break
        return True, cond

    def flag_guard(self, func, node):
        """the node is reached only when the function's own flag asks for exceptions"""
        ps = parents(func)
        n = node
        while n in ps:
            p = ps[n]
            if isinstance(p, ast.If):
                pol = n in p.body
                if not pol and n not in p.orelse and n is not p.test: pol = None
                if pol is not None:
                    for a, q in atoms(p.test, pol):
                        if isinstance(a, ast.Name) and a.id == FLAG and q: return True
            # early return of the opposite case
            for f in ("body", "orelse", "finalbody"):
                b = getattr(p, f, None)
                if isinstance(b, list) and n in b:
                    for s in b[:b.index(n)]:
                        if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], (ast.Return, ast.Continue, ast.Break)):
                            for a, q in atoms(s.test, False):
                                if isinstance(a, ast.Name) and a.id == FLAG and q: return True
            n = p
        return False

    # ---- facts per function ------------------------------------------------------------
    def own(self, f):
        """[(signal, node, cond)] raised in f itself"""
        out = []
        for n in walk_own(f.node):
            if isinstance(n, ast.Raise) and n.exc is not None:
                e = n.exc.func if isinstance(n.exc, ast.Call) else n.exc
                r = self.prog.resolve_expr(e, f.module, f)
                if isinstance(r, Cls) and r.qual in self.signals:
                    self.nsites += 1
                    out.append((r.qual, n, self.flag_guard(f, n)))
        return out

    def edges(self, f):
        """[(kind, target, call node)]"""
        out = []
        P = self.prog
        outer = []
        g = f
        while g is not None: outer.append(g); g = g.parent
        params = {p: g for g in reversed(outer) for p in g.all_params}
        loopvars = {}
        for g in outer:
            for n in walk_own(g.node):
                if isinstance(n, (ast.For, ast.comprehension)) and isinstance(n.target, ast.Name):
                    for x in ast.walk(n.iter):
                        if isinstance(x, ast.Name) and x.id in params: loopvars[n.target.id] = x.id
                elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    v = n.value
                    if isinstance(v, ast.Subscript) and isinstance(v.value, ast.Name) and v.value.id in params: loopvars[n.targets[0].id] = v.value.id
                    if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "get" and isinstance(v.func.value, ast.Name) and v.func.value.id in params: loopvars[n.targets[0].id] = v.func.value.id
        for n in walk_own(f.node):
            if not isinstance(n, ast.Call): continue
            tgt = set()
            v = self.C.values(n.func, f)
            if v: tgt |= {x[1] for x in v if x[0] in ("fn", "bound")}
            elif isinstance(n.func, ast.Name) and (n.func.id in params and n.func.id not in ("cls", "self") or n.func.id in loopvars):
                p = loopvars.get(n.func.id, n.func.id)
                own = params.get(p)
                out.append(("param", (own, p), n))
            elif isinstance(n.func, ast.Attribute):
                r = P.resolve_expr(n.func, f.module, f)
                if not isinstance(r, Ext):
                    for g in P.methods_named(n.func.attr): tgt.add(g)
            for g in tgt:
                if isinstance(g, Cls):
                    for nm in ("__init__", "__new__"):
                        m = P.lookup_method(g, nm)
                        if m is not None: out.append(("call", m, n))
                else: out.append(("call", g, n))
            # functions handed to something that is not analysed may be called there
            if not any(isinstance(g, Func) for g in tgt):
                for a in list(n.args) + [k.value for k in n.keywords]:
                    a = a.value if isinstance(a, ast.Starred) else a
                    if isinstance(a, (ast.Name, ast.Attribute)):
                        for x in self.C.values(a, f) or []:
                            if x[0] in ("fn", "bound") and isinstance(x[1], Func): out.append(("call", x[1], n))
        return out

    def param_sources(self, f, p, call):
        """functions handed over for parameter p of f in this call; None if not understood"""
        g = self.cur
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        es = []
        if a.vararg is not None and a.vararg.arg == p: es = call.args[len(names):]
        else:
            i = names.index(p) if p in names else None
            if i is not None and f.cls is not None and not f.is_static and isinstance(call.func, ast.Attribute): i -= 1
            if i is not None and 0 <= i < len(call.args): es = [call.args[i]]
            es += [k.value for k in call.keywords if k.arg == p]
        out = set()
        for e in es:
            if isinstance(e, ast.Starred): return None
            x = self.C.values(e, g)
            if x is None:
                t = self.C.table(e, g)
                if t is None: return None
                x = set()
                for k, v, ow in t:
                    y = self.C.values(v, ow)
                    if y is None: return None
                    x |= y
            out |= {z[1] for z in x if z[0] in ("fn", "bound")}
        return out

    def solve(self):
        fs = list(self.prog.funcs.values())
        for f in fs:
            self.sites[f] = self.own(f)
            self.calls[f] = self.edges(f)
            self.esc[f] = {}
        rev = {}
        for f in fs:
            for k, g, n in self.calls[f]:
                if k == "call": rev.setdefault(g, set()).add(f)
        work = list(fs)
        inq = set(work)
        while work:
            f = work.pop(); inq.discard(f)
            self.cur = f
            new = {}
            def add(q, node, cond, via, flagcall=None):
                if q.startswith(VIRTUAL):
                    # a signal of an unknown solver given as a parameter: caught if both signals are
                    res = [self.passes(f, node, s, cond) for s in (UNS, NON) if s in self.signals]
                    for s, (esc, c2) in zip([s for s in (UNS, NON) if s in self.signals], res):
                        if esc: new.setdefault((q + "|" + s if "|" not in q else q, c2), via)
                    return
                esc, c2 = self.passes(f, node, q, cond)
                if esc: new.setdefault((q, c2), via)
            for q, node, cond in self.sites[f]: add(q, node, cond, ["%s:%d raises %s" % (f.module.rel, node.lineno, q.split(".")[-1])])
            for k, g, node in self.calls[f]:
                here = "%s:%d" % (f.module.rel, node.lineno)
                if k == "param":
                    own, p = g
                    if "solver" not in p: continue
                    for s in (UNS, NON):
                        if s not in self.signals or not f.module.name.startswith("triples.core.structsos"): continue
                        esc, c2 = self.passes(f, node, s, False)
                        if esc: new.setdefault(("%s%s.%s|%s" % (VIRTUAL, own.qual if own else "?", p, s), c2), ["%s calls the given solver '%s'" % (here, p)])
                    continue
                for (q, cond), via in list(self.esc.get(g, {}).items()):
                    via2 = ["%s calls %s" % (here, g.name)] + via
                    if q.startswith(VIRTUAL):
                        own, sig = q[len(VIRTUAL):].split("|")
                        fq, _, p = own.rpartition(".")
                        if fq == g.qual:
                            src = self.param_sources(g, p, node)
                            if src is None:
                                esc, c2 = self.passes(f, node, sig, cond)
                                if esc: new.setdefault((sig, c2), via2)
                            else:
                                for h in src:
                                    for (q2, cond2), v2 in self.esc.get(h, {}).items():
                                        s2 = q2.split("|")[-1]
                                        esc, c2 = self.passes(f, node, s2, cond2)
                                        if esc: new.setdefault((q2 if q2.startswith(VIRTUAL) else s2, c2), ["%s calls %s with %s" % (here, g.name, h.name)] + v2)
                                    rev.setdefault(h, set()).add(f)
                        elif any(x.qual == fq for x in outers(f)) :
                            esc, c2 = self.passes(f, node, sig, cond)
                            if esc: new.setdefault((q, c2), via2)
                        else:
                            esc, c2 = self.passes(f, node, sig, cond)
                            if esc: new.setdefault((sig, c2), via2)
                        continue
                    if cond:
                        kw = next((x.value for x in node.keywords if x.arg == FLAG), None)
                        if kw is None and g.args and FLAG in g.args:
                            i = g.args.index(FLAG) - (1 if g.cls is not None and not g.is_static else 0)
                            if i < len(node.args) and not any(isinstance(a, ast.Starred) for a in node.args[:i + 1]): kw = node.args[i]
                        if kw is None:
                            if g.defaults.get(FLAG) is None or isinstance(g.defaults[FLAG], ast.Constant) and not g.defaults[FLAG].value: continue
                            kw = g.defaults[FLAG]
                        if isinstance(kw, ast.Constant):
                            if not kw.value: continue
                            c = False
                        elif isinstance(kw, ast.Name) and kw.id == FLAG and FLAG in f.all_params: c = True
                        else: continue
                        add(q, node, c, via2)
                    else: add(q, node, False, via2)
            if set(new) - set(self.esc[f]):
                d = dict(self.esc[f])
                for kk, vv in new.items(): d.setdefault(kk, vv[:14])
                self.esc[f] = d
                for g in rev.get(f, ()):
                    if g not in inq: inq.add(g); work.append(g)
                # closures hand their effects to whoever defines them
        return self

def outers(f):
    while f is not None:
        yield f
        f = f.parent

def public_functions(prog):
    out = []
    seen = set()
    for mn in ("triples.core", "triples.core.structsos", "triples.core.linsos", "triples.core.symsos", "triples.core.sdpsos", "triples.sdp", "triples.gui"):
        m = prog.modules.get(mn)
        if m is None: continue
        for v in m.assigns.get("__all__", []):
            for k, e in entries(v) or []:
                if isinstance(e, ast.Constant) and isinstance(e.value, str):
                    r = prog.mod_attr(mn, e.value)
                    if isinstance(r, Func): fs = [r]
                    elif isinstance(r, Cls): fs = [g for c in [r] + prog.mro(r) for n, g in c.methods.items() if not n.startswith("_")]
                    else: fs = []
                    for g in fs:
                        if g not in seen: seen.add(g); out.append(g)
    for q in ("triples.gui.sos_manager.SOS_Manager",):
        c = prog.classes.get(q)
        if c is not None:
            for n, g in c.methods.items():
                if not n.startswith("_") and g not in seen: seen.add(g); out.append(g)
    return out

def run(ctx):
    ctx.rule("escape", "no internal stop signal can leave a public function")
    ctx.rule("guard", "a caught stop signal leads to 'no solution' or to the next attempt")
    ctx.rule("hierarchy", "the stop signals form one family that the guards catch")
    A = ctx.section(lambda: An(ctx).solve())
    if A is None: return
    for fn in (check_escape, check_guard, check_hierarchy): ctx.section(fn, ctx, A)

def check_escape(ctx, A):
    pub = public_functions(ctx.prog)
    ctx.count("public functions", len(pub))
    ctx.count("functions analysed", len(A.esc))
    ctx.count("call edges", sum(len(v) for v in A.calls.values()))
    ctx.count("sites raising an internal signal", A.nsites)
    seen = set()
    for f in pub:
        out = [(q, via) for (q, cond), via in A.esc[f].items() if not cond and not q.startswith(VIRTUAL)]
        if not out: ctx.ok("escape", f.loc, "no internal signal leaves %s" % f.qual); continue
        for q, via in out:
            key = "escape:%s:%s" % (f.name, q.split(".")[-1])
            if key in seen: continue
            seen.add(key)
            ctx.bad("escape", f.loc, f.qual, "%s can leave %s" % (q.split(".")[-1], f.name), key, via)

def check_guard(ctx, A):
    n = 0
    for f in ctx.prog.funcs.values():
        if not f.module.name.startswith(("triples.core", "triples.sdp")): continue
        for t in walk_own(f.node):
            if not isinstance(t, ast.Try): continue
            for h in t.handlers:
                # which signals can arrive here
                arr = set()
                for k, g, node in A.calls.get(f, []):
                    if k != "call" or not in_body(t, node): continue
                    for (q, cond) in A.esc.get(g, {}):
                        q = q.split("|")[-1]
                        if A.catches(f, h, q) == "yes": arr.add(q)
                for q, node, cond in A.sites.get(f, []):
                    if in_body(t, node) and A.catches(f, h, q) == "yes": arr.add(q)
                named = [x.qual for x in [ctx.prog.resolve_expr(e, f.module, f) for e in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type] if h.type is not None else [])] if isinstance(x, Cls) and x.qual in A.signals]
                if not arr and not named: continue
                ps = parents(f)
                x, inloop = t, False
                while x in ps:
                    x = ps[x]
                    if isinstance(x, (ast.For, ast.While)): inloop = True
                n += 1
                loc = "%s:%d" % (f.module.rel, h.lineno)
                badv = None
                for k, nd, fc, hd in loop_paths(h.body, ()):
                    if k == "return": v = answer(f, t, h, nd.value)
                    elif k == "fall" and not inloop: v = after(f, t, h, ps)
                    else: continue
                    if v == "value": badv = nd if nd is not None else h
                if badv is not None: ctx.bad("guard", "%s:%d" % (f.module.rel, badv.lineno), f.qual, "after a stop signal was caught the answer is not 'no solution'", "guard:" + f.name)
                else: ctx.ok("guard", loc, "the handler leads to None or to the next attempt")
    ctx.count("guards", n)

def in_body(t, node): return any(node is x for s in t.body for x in ast.walk(s))

def answer(f, t, h, e):
    """'none' / 'value' / '?' for an answer expression given after handler h of try t"""
    if e is None or isinstance(e, ast.Constant) and e.value is None: return "none"
    if isinstance(e, ast.Name):
        for s in reversed(h.body):
            if isinstance(s, ast.Assign) and any(isinstance(x, ast.Name) and x.id == e.id for x in s.targets): return answer(f, t, h, s.value) if not isinstance(s.value, ast.Name) else "value" if s.value.id in f.all_params else "?"
        tried = any(isinstance(x, ast.Name) and x.id == e.id and isinstance(x.ctx, ast.Store) for s in t.body for x in ast.walk(s))
        before = [x for x in walk_own(f.node) if isinstance(x, ast.Assign) and x.lineno < t.lineno and any(isinstance(y, ast.Name) and y.id == e.id for y in x.targets)]
        if before: return "none" if isinstance(before[-1].value, ast.Constant) and before[-1].value.value is None else "value" if not tried or True else "?"
        if e.id in f.all_params: return "value"
        return "?"
    if isinstance(e, (ast.Constant, ast.Call, ast.BinOp, ast.Tuple, ast.List, ast.Dict)): 
        if isinstance(e, ast.Constant) and e.value is False: return "none"
        return "value"
    return "?"

def after(f, t, h, ps):
    """answer of the code that follows the try statement"""
    p = ps.get(t, f.node)
    body = None
    for fld in ("body", "orelse", "finalbody"):
        b = getattr(p, fld, None)
        if isinstance(b, list) and t in b: body = b[b.index(t) + 1:]
    if body is None: return "?"
    for s in body:
        if isinstance(s, ast.Return): return answer(f, t, h, s.value)
        if isinstance(s, ast.If) and s.body and isinstance(s.body[-1], ast.Return):
            # `if x is None: return None`
            for a, q in atoms(s.test, True):
                if isinstance(a, ast.Compare) and isinstance(a.ops[0], ast.Is) and isinstance(a.left, ast.Name) and answer(f, t, h, a.left) == "none" and answer(f, t, h, s.body[-1].value) == "none": return "none"
        if not isinstance(s, (ast.Expr, ast.Pass, ast.Assign, ast.AugAssign)): return "?"
    return "none" if p is f.node else "?"

def check_hierarchy(ctx, A):
    sup = lambda q: A.supers(q)
    if UNS in A.signals and NON in A.signals:
        c = A.signals[NON]
        ctx.decide(UNS in sup(NON), "hierarchy", c.loc, c.qual, "a proof of non-positivity is no longer one of the signals that the solver chains catch", "nonpos-base", "PolynomialNonpositiveError is a PolynomialUnsolvableError")
    else: ctx.unres("hierarchy", "structural signals not found")
    for q, c in A.signals.items():
        ctx.decide("builtins.Exception" in sup(q), "hierarchy", c.loc, c.qual, "%s is not an ordinary exception, so general guards do not catch it" % c.name, "base:" + c.name, "%s is an ordinary exception" % c.name)
