"""P06 - numerical SDP backends are interchangeable."""
import ast, sys
from sa.util import *
from sa.load import Cls

TECHNIQUE = "class-hierarchy and registry resolution plus provenance-and-sign dataflow from every adder of a backend to the solver call, over all paths"
EXPLANATION = ("Every registry entry is resolved to a class and its method resolution is checked for a concrete implementation of the calling convention and for declared dependencies. "
  "For each backend the matrices, rows, right-hand sides and the objective are followed from the adders through the object's attributes to the code that runs the solver, with their signs, for each relation. "
  "In the common driver every path is checked to hand over every part, to scale them consistently, to test the length of the answer and to contain failures. "
  "Not covered: what the external solvers compute, and numerical quality.")
B = "triples.sdp.backend."
OPS = ("__eq__", "__le__", "__ge__")

def run(ctx):
    ctx.rule("registry", "every selectable name denotes a complete backend whose availability test covers what it imports")
    ctx.rule("choice", "automatic selection only picks an available backend of the right kind")
    ctx.rule("handed", "the driver hands every part of the problem to the backend")
    ctx.rule("scale", "all parts of a matrix inequality are scaled alike")
    ctx.rule("stored", "what an adder receives reaches the solver call")
    ctx.rule("relation", "a row is stored with the direction of its relation")
    ctx.rule("eigen", "both parts of a minimal eigenvalue are applied to every diagonal entry and undone in the answer")
    ctx.rule("answer", "an answer is used only with the expected length and without the relaxation variable")
    ctx.rule("contain", "a failing solver gives no answer instead of an exception, unless requested")
    ctx.rule("layout", "sizes, triangle order, diagonal positions and cones describe the matrices that are handed over")
    ctx.rule("options", "solver options reach the solver")
    regs = ctx.section(check_registry, ctx) or {}
    ctx.section(check_choice, ctx)
    for n in ("dual", "primal"):
        ctx.section(check_builder, ctx, n)
        ctx.section(check_solver, ctx, n)
    ctx.section(check_operators, ctx)
    done = set()
    for kind, cs in regs.items():
        for c in cs: ctx.section(check_class, ctx, kind, c, done)
    ctx.section(check_base, ctx)
    ctx.section(check_base2, ctx)
    ctx.section(check_layout, ctx)

def cname(t):
    if t.op != "call": return None
    n = callee_name(t)
    if n is None and t.a[0].op in ("fn", "g"): n = t.a[0].a[0].split(".")[-1]
    return n

# ------------------------------------------------------------------ registries
def check_registry(ctx):
    m = ctx.prog.modules.get(B + "caller")
    out = {}
    if m is None: ctx.unres("registry", "no caller module"); return out
    known = set()
    for reg, base, kind in (("_DUAL_BACKENDS", "DualBackend", "dual"), ("_PRIMAL_BACKENDS", "PrimalBackend", "primal")):
        b = ctx.prog.classes.get(B + "backend." + base)
        es = m.assigns.get(reg, [])
        if b is None or len(es) != 1 or not isinstance(es[0], ast.Dict): ctx.unres("registry", "%s not understood" % reg); continue
        cs = out.setdefault(kind, [])
        for k, v in zip(es[0].keys, es[0].values):
            key = getattr(k, "value", None)
            known.add(key)
            c = ctx.prog.resolve_expr(v, m)
            loc = "%s:%d" % (m.rel, v.lineno)
            if not isinstance(c, Cls): ctx.unres("registry", "%s: %s" % (loc, ast.unparse(v))); continue
            ok = b in ctx.prog.mro(c)
            ctx.decide(ok, "registry", loc, reg, "%r is a %s" % (key, base) if ok else "%r is registered as a %s backend but %s is none" % (key, kind, c.name), "kind:%s:%s" % (reg, key), "", [])
            if ok and c not in cs: cs.append(c)
        for c in cs: complete(ctx, c, b, kind)
    rec = m.assigns.get("_RECOMMENDED_BACKENDS", [])
    for e in rec:
        for x in getattr(e, "elts", []):
            v = getattr(x, "value", None)
            if isinstance(v, str): ctx.decide(v in known, "registry", "%s:%d" % (m.rel, x.lineno), "_RECOMMENDED_BACKENDS", "recommended backend %r %s" % (v, "exists" if v in known else "does not exist"), "recommended:%s" % v, "", [])
    return out

def abstract(f): return any("abstractmethod" in ast.dump(d) for d in f.decorators)

def complete(ctx, c, base, kind):
    prog = ctx.prog
    need = ["solve", "_set_objective", "_add_constraint", "_add_linear_matrix_inequality" if kind == "dual" else "_add_linear_matrix_equality"]
    for n in need:
        f = prog.lookup_method(c, n)
        ok = f is not None and not abstract(f)
        ctx.decide(ok, "registry", c.loc, c.qual, "%s.%s is implemented" % (c.name, n) if ok else "%s does not implement %s" % (c.name, n), "abstract:%s" % n, "", [])
        if not ok: continue
        ref = prog.lookup_method(base, n)
        if ref is not None and n != "solve":
            ra, fa = len(ref.args), len(f.args)
            fd = len(f.node.args.defaults)
            va = f.node.args.vararg is not None
            ok = va or (fa >= ra and fa - fd <= ra)
            ctx.decide(ok, "registry", f.loc, f.qual, "%s accepts the arguments of the calling convention" % n if ok else "%s.%s cannot be called with the %d arguments of the calling convention" % (c.name, n, ra - 1), "arity:%s" % n, "", [])
        if n == "solve":
            ok = f.node.args.vararg is not None or (len(f.args) >= 2 and len(f.args) - len(f.node.args.defaults) <= 2)
            ctx.decide(ok, "registry", f.loc, f.qual, "solve accepts solver options" if ok else "solve does not accept solver options", "arity:solve", "", [])
    # dependencies
    av = prog.lookup_method(c, "is_available")
    used = {}
    for k in prog.mro(c):
        for f in prog.funcs.values():
            if f.cls is k:
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Import):
                        for a in n.names: used.setdefault(a.name.split(".")[0], n)
                    elif isinstance(n, ast.ImportFrom) and not n.level and n.module: used.setdefault(n.module.split(".")[0], n)
    std = set(getattr(sys, "stdlib_module_names", ())) | {"numpy", "sympy", "triples"}
    used = {k: v for k, v in used.items() if k not in std}
    if av is None: ctx.unres("registry", "%s has no is_available" % c.name); return
    if av.cls is not None and av.cls.name != "SDPBackend" and not any(isinstance(n, ast.Attribute) and n.attr == "_dependencies" for n in ast.walk(av.node)):
        own = {n.module.split(".")[0] for n in ast.walk(av.node) if isinstance(n, ast.ImportFrom) and n.module} | {a.name.split(".")[0] for n in ast.walk(av.node) if isinstance(n, ast.Import) for a in n.names} | {n.args[0].value.split(".")[0] for n in ast.walk(av.node) if isinstance(n, ast.Call) and getattr(n.func, "id", getattr(n.func, "attr", "")) in ("__import__", "find_spec", "import_module") and n.args and isinstance(n.args[0], ast.Constant) and isinstance(n.args[0].value, str)}
        if not own: ctx.unres("registry", "%s: availability test" % av.loc); return
        deps = own
    else:
        d = prog.lookup_attr(c, "_dependencies")
        e = d if isinstance(d, ast.AST) else None
        if e is None:
            for k in prog.mro(c):
                for st in k.node.body:
                    if isinstance(st, ast.Assign) and any(getattr(t, "id", None) == "_dependencies" for t in st.targets): e = st.value; break
                if e is not None: break
        if isinstance(e, ast.Call) and getattr(e.func, "id", "") in ("tuple", "list"): e = e.args[0] if e.args else ast.Tuple(elts=[])
        if not isinstance(e, (ast.Tuple, ast.List, ast.Set)) or not all(isinstance(x, ast.Constant) for x in e.elts): ctx.unres("registry", "%s: dependencies" % c.loc); return
        deps = {x.value.split(".")[0] for x in e.elts}
    for u, n in used.items():
        if u == "scipy" and "scipy" not in deps and any(o in deps for o in used if o != "scipy") and any(x.name in ("scipy",) for x in ()): continue
        ok = u in deps
        ctx.decide(ok, "registry", "%s:%d" % (c.module.rel, n.lineno), c.qual, "availability of %s depends on %s" % (c.name, u) if ok else "%s needs %s but is reported as available without it" % (c.name, u), "dependency:" + u, "", [])

def check_choice(ctx):
    f = find(ctx, "choice", B + "caller.get_default_sdp_backend")
    if f is None: return
    for dual in (True, False):
        ex = runf(ctx, "choice", f, merge=False, bind={f.args[0]: C(dual)} if f.args else None)
        for x in ex or []:
            if x.kind != "return": continue
            v = x.val
            if v.op == "c":
                m = f.module
                reg = m.assigns.get("_DUAL_BACKENDS" if dual else "_PRIMAL_BACKENDS", [None])[0]
                if isinstance(reg, ast.Dict) and isinstance(cval(v), str):
                    ok = cval(v) in {getattr(k, "value", None) for k in reg.keys}
                    ctx.decide(ok, "choice", x.loc, f.qual, "the fallback is a known backend" if ok else "the fallback is no known %s backend" % ("dual" if dual else "primal"), "fallback", "", [])
                continue
            if v.op != "bv":
                ctx.unres("choice", "%s: returns %s" % (x.loc, str(v)[:80])); continue
            av = [(k, w) for k, w in x.facts.items() if k.op == "call" and callee_name(k) == "is_available" and any(s is v for s in subterms(k))]
            ok = any(w is True for k, w in av)
            want = "_DUAL_BACKENDS" if dual else "_PRIMAL_BACKENDS"
            other = "_PRIMAL_BACKENDS" if dual else "_DUAL_BACKENDS"
            right = any(want in str(s) for k, w in av for s in subterms(k) if s.op == "g") or not any(other in str(s) for k, w in av for s in subterms(k) if s.op == "g")
            ctx.decide(ok and right, "choice", x.loc, f.qual, "an available %s backend is chosen" % ("dual" if dual else "primal") if ok and right else ("a backend is chosen without being available" if not ok else "the backend is looked up in the wrong table"), "available", "", path_of(x))
    g = find(ctx, "choice", B + "backend.SDPBackend.is_available")
    if g is None: return
    n = 0
    for t in ast.walk(g.node):
        if isinstance(t, ast.Try) and any(isinstance(c, ast.Call) and getattr(c.func, "id", getattr(c.func, "attr", "")) in ("__import__", "import_module") for s in t.body for c in ast.walk(s)):
            n += 1
            for h in t.handlers:
                rs = [r for s in h.body for r in ast.walk(s) if isinstance(r, ast.Return)]
                ok = any(isinstance(r.value, ast.Constant) and r.value.value is False for r in rs)
                bad = any(isinstance(r.value, ast.Constant) and r.value.value is True for r in rs) or all(isinstance(s, (ast.Pass, ast.Continue)) for s in h.body)
                if ok or bad: ctx.decide(ok and not bad, "choice", "%s:%d" % (g.module.rel, h.lineno), g.qual, "a missing dependency makes a backend unavailable" if ok else "a missing dependency does not make a backend unavailable", "import", "", [])
    if not n: ctx.unres("choice", "%s: availability test" % g.loc)

# ------------------------------------------------------------------ driver
ADD = ("set_objective", "add_constraint", "add_linear_matrix_inequality", "add_linear_matrix_equality", "add_relax_var_nonnegative_inequality")

def from_param(t, p):
    """t is made of parameter p (its items), possibly rescaled"""
    return any(s.op == "p" and s.a[0] == p for s in subterms(t))

def root_params(t): return {s.a[0] for s in subterms(t) if s.op == "p"}

def check_builder(ctx, kind):
    f = find(ctx, "handed", B + "caller._create_numerical_%s_sdp" % kind)
    if f is None: return
    loops = []
    def on_loop(func, node, it, el, start, results): loops.append((node, it, el, start, results))
    lmi = "add_linear_matrix_inequality" if kind == "dual" else "add_linear_matrix_equality"
    ex = runf(ctx, "handed", f, merge=False, max_states=8000, on_loop=on_loop, want=lambda t: t.op == "call" and cname(t) in ADD, want_store=lambda t, v: t.op == "sub")
    if ex is None: return
    spaces = "x0_and_space" if kind == "dual" else "space"
    # each pass through a loop hands its element over
    got = {lmi: 0, "add_constraint": 0}
    for node, it, el, start, results in loops:
        calls = [e for r in results for e in r[1].events if e.kind == "call" and not any(e is b for b in start.events)]
        which = {cname(e.term) for e in calls} & set(got)
        for w in which:
            got[w] += 1
            for kd, st, val, nd in results:
                if kd in ("raise", "return"): continue
                new = [e for e in st.events if e.kind == "call" and not any(e is b for b in start.events) and cname(e.term) == w]
                loc = "%s:%d" % (f.module.rel, node.lineno)
                if kd == "break":
                    ctx.bad("handed", loc, f.qual, "the remaining %s are not handed to the backend" % ("matrices" if w == lmi else "constraints"), "break:" + w, [str(k)[:100] for k in st.facts]); continue
                if new: ctx.ok("handed", loc, "%s on this pass" % w); continue
                why = [k for k, b in st.facts.items() if k not in start.facts and empty_fact(k, b)] if w == lmi else []
                ctx.decide(bool(why), "handed", loc, f.qual, "only an empty matrix is skipped" if why else "a %s is skipped" % ("matrix" if w == lmi else "constraint"), "skip:" + w, "", ["%s = %s" % (str(k)[:120], b) for k, b in st.facts.items() if k not in start.facts])
    done = set()
    for x in ex:
        if x.kind != "return": continue
        ev = [e for e in x.events if e.kind == "call"]
        names = [cname(e.term) for e in ev]
        if "Degenerated" in str(x.val): continue
        sig = (tuple(id(e.node) for e in x.events), tuple(sorted((str(k), str(w)) for k, w in x.facts.items())))
        if sig in done: continue
        done.add(sig)
        obj = [e for e in ev if cname(e.term) == "set_objective" and any(from_param(a, "objective") for a in call_args(e.term) + [z for _, z in e.term.a[2]])]
        ctx.decide(bool(obj), "handed", x.loc, f.qual, "the objective is handed over" if obj else "the objective is not handed to the backend", "objective", "", path_of(x))
        if got[lmi] == 0 and not any(isinstance(n, (ast.For, ast.comprehension)) for n in ast.walk(f.node)): ctx.unres("handed", "no loop over the matrices")
        elif got[lmi] == 0: ctx.bad("handed", x.loc, f.qual, "the matrices are not handed to the backend", "matrices", [])
        if got["add_constraint"] == 0: ctx.bad("handed", x.loc, f.qual, "the constraints are not handed to the backend", "constraints", [])
        for e in ev:
            a = call_args(e.term) + [z for _, z in e.term.a[2]]
            if cname(e.term) == "add_constraint" and any(s.op == "p" and s.a[0] == "constraints" for y in a for s in subterms(y)):
                idx = {s.a[1] for y in a for s in subterms(y) if s.op == "item" and s.a[0].op == "bv" and root_params(s.a[0]) == {"constraints"}}
                starred = any(y.op == "star" for y in a)
                ok = starred or idx >= {0, 1, 2}
                ctx.decide(ok, "handed", e.loc, f.qual, "row, bound and relation are handed over" if ok else "part of a constraint is dropped (components %s are used)" % sorted(idx), "row", "", [str(e.term)[:150]])
                if idx >= {0, 1, 2} and len(call_args(e.term)) >= 3:
                    order = [y.a[1] if y.op == "item" else None for y in call_args(e.term)[:3]]
                    if None not in order: ctx.decide(order == [0, 1, 2], "handed", e.loc, f.qual, "row, bound and relation are in order" if order == [0, 1, 2] else "row, bound and relation are exchanged", "order", "", [str(e.term)[:150]])
            if cname(e.term) == lmi:
                want = {spaces, "min_eigen"} if kind == "primal" else {"x0_and_space", "min_eigen"}
                have = set().union(*(root_params(e.st.expand(y)) for y in a)) if a else set()
                for w in want: ctx.decide(w in have, "handed", e.loc, f.qual, "%s reaches the backend" % w if w in have else "%s does not reach the backend" % w, "part:" + w, "", [str(e.term)[:150]])
        if kind == "dual" and "lower_bound" in f.all_params:
            lb = T("p", "lower_bound")
            has = any(cname(e.term) == "add_constraint" and any(s is lb for y in call_args(e.term) + [z for _, z in e.term.a[2]] for s in subterms(y)) for e in ev)
            none = any(k.op == "isnone" and k.a[0] is lb and w is True for k, w in x.facts.items())
            if not none: ctx.decide(has, "handed", x.loc, f.qual, "the lower bound is handed over" if has else "a lower bound that was given is not handed over", "lower_bound", "", path_of(x))
            for e in ev:
                if cname(e.term) == "add_constraint" and any(s is lb for y in call_args(e.term) for s in subterms(y)):
                    op = call_kw(e.term, "operator", 2)
                    r, b = call_kw(e.term, "constraint", 0), call_kw(e.term, "rhs", 1)
                    if op is not None and op.op == "c" and r is not None and b is not None:
                        flip = b.op == "neg" and (r.op == "neg")
                        good = (cval(op) in ("__ge__", ">=", ">", "__gt__", "__geq__")) != flip
                        ctx.decide(good, "handed", e.loc, f.qual, "the bound is a lower bound" if good else "the lower bound is used as an upper bound", "lower_bound-op", "", [])
        if "add_relax_var_nonnegative_inequality" in f.all_params:
            p = T("p", "add_relax_var_nonnegative_inequality")
            if not any((k is p and w is False) or (k.op == "not" and k.a[0] is p and w is True) for k, w in x.facts.items()):
                has = "add_relax_var_nonnegative_inequality" in names
                if not any(k is p for k in x.facts) and not has and any(p in subterms(k) for k in x.facts) and not any(k.op in ("and", "or") and p in subterms(k) for k in x.facts): ctx.unres("handed", "%s: relaxation variable" % x.loc); continue
                ctx.decide(has, "handed", x.loc, f.qual, "the relaxation variable is nonnegative" if has else "the relaxation variable is left unbounded", "relax", "", path_of(x))
        check_scale(ctx, f, kind, x, ev, lmi)

def empty_fact(k, b=True):
    """shape[i] == 0 or size == 0"""
    if k.op == "not": return empty_fact(k.a[0], not b)
    dim = lambda t: any(s.op == "attr" and s.a[1] in ("shape", "size") for s in subterms(t)) or (t.op == "call" and cname(t) == "len")
    if b is False:
        if k.op == "lt": return k.a[0].op == "c" and cval(k.a[0]) == 0 and dim(k.a[1])
        return dim(k) and k.op in ("attr", "sub", "call")
    if b is not True: return False
    if k.op == "eq":
        z = [y for y in k.a if y.op == "c" and cval(y) == 0]
        o = [y for y in k.a if not (y.op == "c")]
        return bool(z) and len(o) == 1 and (any(s.op == "attr" and s.a[1] in ("shape", "size") for s in subterms(o[0])) or (o[0].op == "call" and cname(o[0]) == "len"))
    if k.op == "lt":
        return k.a[1].op == "c" and cval(k.a[1]) == 1 and any(s.op == "attr" and s.a[1] in ("shape", "size") for s in subterms(k.a[0]))
    return False

def mults(t):
    """(base, [factors]) of a product/quotient"""
    fs = []
    while t.op == "bin" and t.a[0] in ("Mult", "Div"):
        fs.append((t.a[0], t.a[2])); t = t.a[1]
    return t, fs

def check_scale(ctx, f, kind, x, ev, lmi):
    st = [e for e in x.events if e.kind == "store" and e.term.op == "sub"]
    if kind == "dual":
        fac = None
        for e in st:
            v = e.val
            if v.op != "tuple" or len(v.a) != 2: continue
            m = [mults(y)[1] for y in v.a]
            if not any(m): continue
            if len(m[0]) == 1 and len(m[1]) == 1 and m[0][0] == m[1][0]:
                fac = m[0][0][1]; ctx.ok("scale", e.loc, "constant part and space are scaled by the same factor")
            elif all(len(q) <= 1 for q in m): ctx.bad("scale", e.loc, f.qual, "the constant part and the space of a matrix are scaled differently", "pair", [str(v)[:150]]); return
            else: ctx.unres("scale", "%s: %s" % (e.loc, str(v)[:80])); return
        if fac is None: return
        for e in ev:
            if cname(e.term) != lmi: continue
            me = call_kw(e.term, "min_eigen", 2)
            if me is None: continue
            me = x.st.expand(me)
            pairs = [s for s in subterms(me) if s.op == "tuple" and len(s.a) == 2 and any(q.op == "item" or q.op == "sub" for y in s.a for q in [mults(y)[0]])]
            scaled = [s for s in pairs if any(any(z is fac for _, z in mults(y)[1]) for y in s.a)]
            if not scaled:
                if any(s is fac for s in subterms(me)): ctx.unres("scale", "%s: minimal eigenvalue %s" % (e.loc, str(me)[:100]))
                else: ctx.bad("scale", e.loc, f.qual, "the matrices are scaled but their minimal eigenvalues are not", "eigen", [str(me)[:150]])
                return
            for s in scaled:
                ok = all(any(z is fac for _, z in mults(y)[1]) for y in s.a)
                ctx.decide(ok, "scale", e.loc, f.qual, "both parts of the minimal eigenvalue are scaled" if ok else "only one part of the minimal eigenvalue is scaled with the matrix", "eigen-part", "", [str(s)[:150]])
    else:
        fac = None
        for e in st:
            b, fs = mults(e.val)
            if len(fs) == 1 and b.op in ("sub", "item"): fac = fs[0]
        ctor = next((s for s in subterms(x.val) if s.op == "call" and len(call_args(s)) == 1 and s.a[0].op == "sub"), None)
        if ctor is None: ctx.unres("scale", "%s: construction of the backend" % x.loc); return
        if fac is None:
            # a path that walks the matrices and leaves them alone while the right-hand side is scaled
            b0, f0 = mults(x.st.expand(call_args(ctor)[0]))
            if f0 and any(e.val.op in ("bv", "item", "sub") or root_params(e.val) == {"space"} for e in st if "space" in root_params(e.term) | root_params(e.val)):
                ctx.bad("scale", x.loc, f.qual, "the right-hand side of the equations is scaled but the matrices are not", "sides", path_of(x)); return
        b, fs = mults(call_args(ctor)[0])
        if not fs:
            b, fs = mults(x.st.expand(call_args(ctor)[0]))
            if fac is not None: fac = (fac[0], x.st.expand(fac[1]))
        if fac is None and not fs: return
        ok = fac is not None and len(fs) == 1 and fs[0] == fac
        loops0 = fac is None and fs
        if loops0: return   # no matrix on this path
        ctx.decide(ok, "scale", x.loc, f.qual, "both sides of the equations are scaled alike" if ok else "the two sides of the equations are scaled differently", "sides", "", path_of(x))

def check_solver(ctx, kind):
    f = find(ctx, "answer", B + "caller.solve_numerical_%s_sdp" % kind)
    if f is None: return
    ex = runf(ctx, "answer", f, merge=False, inline=lambda g: is_new(g), mark_exc=True, want=lambda t: t.op == "call" and cname(t) in ("solve", "_create_numerical_%s_sdp" % kind))
    if ex is None: return
    rp = T("p", "raise_exception")
    calls = events(ex, lambda e: e.kind == "call" and cname(e.term) == "solve")
    if not calls: ctx.unres("contain", "%s: no solve call" % f.qual)
    for e in calls:
        opt = call_args(e.term) + [z for _, z in e.term.a[2]]
        ok = any(s.op == "p" and s.a[0] == "solver_options" for y in opt for s in subterms(y))
        ctx.decide(ok, "options", e.loc, f.qual, "the options are handed to the backend" if ok else "the solver options are not handed to the backend", "pass", "", [])
        tr = [t for t in enclosing_trys(e.func, e.node) if t[1] == "body"] if e.func is f else None
        if tr is None: ctx.unres("contain", "%s: solve in a helper" % e.loc); continue
        hs = [h for t in tr for h in (t[0] if isinstance(t, tuple) else t).handlers]
        types = [x for h in hs for x in (handler_types(ctx.prog, e.func, h) or ["*"])]
        names = [str(getattr(t, "qual", t)).split(".")[-1] for t in types]
        ok = any(n in ("Exception", "BaseException", "*") for n in names)
        ctx.decide(ok, "contain", e.loc, f.qual, "any exception of the solver is caught" if ok else "only %s of the solver is caught" % (", ".join(names) or "nothing"), "caught", "", [])
    for x in ex:
        if x.kind == "raise":
            asked = any((k is rp and w is True) or (k.op == "not" and k.a[0] is rp and w is False) for k, w in x.facts.items())
            if str(x.val).startswith("exc('builtins.ValueError'") or "'*'" in str(x.val) or "?" in str(x.val):
                ctx.decide(asked, "contain", x.loc, f.qual, "raises only on request" if asked else "an exception of the solver escapes although none was requested", "escape", "", path_of(x))
            continue
        if x.kind != "return": continue
        v = x.val
        if v is NONE: ctx.ok("answer", x.loc, "no answer"); continue
        if v.op == "call" and cname(v) == "solve":
            none = any(k.op == "isnone" and k.a[0] is v and w is True for k, w in x.facts.items())
            size = any(k.op == "eq" and w is True and any(s.op == "attr" and s.a[0] is v and s.a[1] == "size" or (s.op == "call" and cname(s) == "len" and s.a[1][0] is v) for s in k.a) and any(s.op == "attr" and s.a[1] == "dof" for s in k.a) for k, w in x.facts.items())
            ctx.decide(none or size, "answer", x.loc, f.qual, "the answer has the expected length" if none or size else "an answer of unexpected length is returned", "size", "", path_of(x))
        else: ctx.unres("answer", "%s: returns %s" % (x.loc, str(v)[:100]))

# ------------------------------------------------------------------ relations
def meaning(s):
    if not isinstance(s, str): return None
    if any(c in s for c in ("g", ">")): return "__ge__"
    if any(c in s for c in ("l", "<")): return "__le__"
    if "=" in s or "eq" in s: return "__eq__"
    return None

def check_operators(ctx):
    m = ctx.prog.modules.get(B + "backend")
    es = m.assigns.get("_STANDARDIZED_OPERATORS", []) if m else []
    if len(es) != 1 or not isinstance(es[0], ast.Dict): ctx.unres("relation", "table of relations not understood")
    else:
        for k, v in zip(es[0].keys, es[0].values):
            a, b = getattr(k, "value", None), getattr(v, "value", None)
            if meaning(a) is None: continue
            ctx.decide(meaning(a) == b, "relation", "%s:%d" % (m.rel, k.lineno), "_STANDARDIZED_OPERATORS", "%r means %s" % (a, b) if meaning(a) == b else "%r is taken to mean %s" % (a, b), "table:%s" % a, "", [])
    f = find(ctx, "relation", B + "backend.SDPBackend.add_constraint")
    if f is not None:
        ex = runf(ctx, "relation", f, merge=False, want=lambda t: t.op == "call" and cname(t) == "_add_constraint")
        for x in ex or []:
            if x.kind != "return": continue
            ev = [e for e in x.events if e.kind == "call" and cname(e.term) == "_add_constraint"]
            ctx.decide(bool(ev), "relation", x.loc, f.qual, "every row is passed on" if ev else "a row is dropped", "passed", "", path_of(x))
            for e in ev:
                for n, p in (("constraint", f.args[1]), ("rhs", f.args[2]), ("operator", f.args[3])):
                    v = call_kw(e.term, n, ("constraint", "rhs", "operator").index(n))
                    s = sgn(x.st.expand(v)) if v is not None else None
                    if n == "operator":
                        ok = v is not None and any(y.op == "p" and y.a[0] == p for y in subterms(v))
                        raw = v is not None and v.op == "p"
                        ctx.decide(ok and not raw, "relation", e.loc, f.qual, "the relation is normalised and passed on" if ok and not raw else "the relation of a row is lost", "operator", "", [])
                    elif s is None and v is not None and any(y.op == "call" and cname(y) in ("abs", "fabs") for y in subterms(x.st.expand(v))): ctx.bad("relation", e.loc, f.qual, "the sign of %s is lost" % n, n, [str(v)[:80]])
                    elif s is None: ctx.unres("relation", "%s: %s" % (e.loc, str(v)[:80]))
                    else: ctx.decide(s == (p, 1), "relation", e.loc, f.qual, "%s is passed on" % n if s == (p, 1) else "%s is not passed on unchanged" % n, n, "", [str(v)[:80]])
    f = find(ctx, "relation", B + "backend.DualBackend._add_constraint")
    if f is not None:
        ex = runf(ctx, "relation", f, merge=False, want=lambda t: t.op == "call" and cname(t) == "_add_linear_matrix_inequality")
        for x in ex or []:
            if x.kind != "return": continue
            op = rel(x.facts, f.args[3])
            if op is None: continue
            have = []
            unk = False
            for e in x.events:
                if e.kind != "call": continue
                a, b = call_kw(e.term, "x0", 0), call_kw(e.term, "extended_space", 1)
                s, t = (sgn(e.st.expand(y)) if y is not None else None for y in (a, b))
                if s is None or t is None: unk = True; continue
                have.append((s, t))
            if unk: ctx.unres("relation", "%s: %s" % (x.loc, [str(e.term)[:80] for e in x.events])); continue
            p, r = f.args[1], f.args[2]
            ge, le = ((r, -1), (p, 1)), ((r, 1), (p, -1))
            for o in op:
                want = {"__ge__": {ge}, "__le__": {le}, "__eq__": {ge, le}}[o]
                ok = set(have) == want
                ctx.decide(ok, "relation", x.loc, f.qual, "%s is expressed by %d inequalities" % (o, len(want)) if ok else "the relation %s is expressed by the wrong inequalities" % o, "dual:" + o, "", [str(h) for h in have])

def rel(facts, p):
    """relations possible on this path"""
    P_ = T("p", p)
    cur = set(OPS)
    for k, w in facts.items():
        if k.op == "eq" and P_ in k.a:
            v = next((cval(y) for y in k.a if y.op == "c"), None)
            if v in OPS: cur = cur & {v} if w else cur - {v}
        elif k.op == "in" and k.a[0] is P_:
            vs = {cval(y) for y in k.a[1].a if isinstance(y, T) and y.op == "c"} if k.a[1].op in ("tuple", "list", "set") else None
            if vs: cur = cur & vs if w else cur - vs
    return cur

WRAP = {"array", "matrix", "np_array", "asarray", "float", "csc_matrix", "csr_matrix", "dense", "to_square", "_convert_space_to_isometric", "list", "extend_vector", "int", "ascontiguousarray", "transpose", "ravel", "reshape", "isometric"}
METH = {"copy", "reshape", "flatten", "tolist", "astype", "ravel", "transpose", "view"}

def sgn(t, depth=0):
    """(parameter, sign) of a value that is plus or minus a parameter up to rearrangement"""
    if depth > 20: return None
    if t.op == "p": return (t.a[0], 1)
    if t.op in ("neg",):
        s = sgn(t.a[0], depth + 1)
        return s and (s[0], -s[1])
    if t.op in ("list", "tuple") and len(t.a) == 1 and isinstance(t.a[0], T): return sgn(t.a[0], depth + 1)
    if t.op == "attr" and t.a[1] == "T": return sgn(t.a[0], depth + 1)
    if t.op == "sub" and t.a[0].op == "p": return sgn(t.a[0], depth + 1) if "slice(None, None" in str(t.a[1]) else None
    if t.op == "bin":
        if t.a[0] == "Mult":
            for i, j in ((1, 2), (2, 1)):
                if t.a[i].op == "c" and cval(t.a[i]) in (-1, -1.0, 1, 1.0):
                    s = sgn(t.a[j], depth + 1)
                    return s and (s[0], s[1] * int(cval(t.a[i])))
        if t.a[0] == "Sub" and t.a[1].op == "c" and cval(t.a[1]) == 0:
            s = sgn(t.a[2], depth + 1)
            return s and (s[0], -s[1])
        return None
    if t.op == "ite":
        ss = {sgn(y, depth + 1) for y in t.a[1:]}
        return ss.pop() if len(ss) == 1 else None
    if t.op == "call":
        n = cname(t)
        if t.a[0].op == "attr" and n in METH: return sgn(t.a[0].a[0], depth + 1)
        if n in WRAP and len(t.a[1]) >= 1: return sgn(t.a[1][0], depth + 1)
        if n in WRAP and t.a[2]: return sgn(t.a[2][0][1], depth + 1)
    return None

# ------------------------------------------------------------------ one backend
CONV = {"cvxopt": (-1, 1), "clarabel": (-1, 1), "sdpap": (1, -1), "mosek": (1, 1)}

def closure(prog, c, start):
    """methods of the object reachable from a method, with the attributes of self they read"""
    seen, work, attrs = [], [start], {}
    while work:
        f = work.pop()
        if f in seen: continue
        seen.append(f)
        if not f.args: continue
        me = f.args[0]
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                g = prog.lookup_method(c, n.attr)
                if g is not None: work.append(g)
                elif isinstance(n.ctx, ast.Load): attrs.setdefault(n.attr, []).append((f, n))
            elif isinstance(n, ast.Attribute) and isinstance(n.value, ast.Call) and getattr(n.value.func, "id", "") == "super":
                ms = prog.mro(c)
                i = ms.index(f.cls) if f.cls in ms else -1
                for k in ms[i + 1:]:
                    g = next((h for h in prog.funcs.values() if h.cls is k and h.name == n.attr), None)
                    if g is not None: work.append(g); break
    return seen, attrs

SINKM = ("append", "extend", "insert", "add")

def sinks(x, me):
    """(attribute, value, event) stored into the object on a path; attribute None: handed directly to a solver object"""
    out = []
    for e in x.events:
        if e.kind == "call" and e.term.a[0].op == "attr":
            recv, n = e.term.a[0].a
            args = call_args(e.term) + [z for _, z in e.term.a[2]]
            if n in SINKM and recv.op == "attr" and recv.a[0] is me:
                for a in args: out.append((recv.a[1], a, e))
            elif recv.op == "attr" and recv.a[0] is me and n not in SINKM and args:
                for a in args: out.append((None, a, e))
            elif (recv is me or "super" in str(recv)[:6]) and n.startswith("_add_"):
                for a in args: out.append((None, a, e))
        elif e.kind == "store" and e.term.op == "attr" and e.term.a[0] is me: out.append((e.term.a[1], e.val, e))
    return out

def check_class(ctx, kind, c, done):
    prog = ctx.prog
    solve = prog.lookup_method(c, "solve")
    if solve is None or abstract(solve): return
    meths, attrs = closure(prog, c, solve)
    helper = lambda f: is_new(f) or f.name in ("to_square", "_convert_space_to_isometric") and False
    lmi = "_add_linear_matrix_inequality" if kind == "dual" else "_add_linear_matrix_equality"
    deps = {n.split(".")[0] for f in prog.funcs.values() if f.cls is c for n in [m.module for m in ast.walk(f.node) if isinstance(m, ast.ImportFrom) and m.module] + [a.name for m in ast.walk(f.node) if isinstance(m, ast.Import) for a in m.names]}
    conv = next((CONV[d] for d in CONV if d in deps), None) if kind == "dual" else None
    rows = {}
    for name in (lmi, "_add_constraint", "_set_objective"):
        f = prog.lookup_method(c, name)
        if f is None or f.cls is None or abstract(f): continue
        if name == "_add_constraint" and f.cls.name == "DualBackend": continue
        me = T("p", f.args[0])
        ex = runf(ctx, "stored", f, merge=False, inline=is_new, want=lambda t: t.op == "call", want_store=lambda t, v: True)
        for x in ex or []:
            if x.kind != "return": continue
            sk = sinks(x, me)
            ops = rel(x.facts, f.args[3]) if name == "_add_constraint" and len(f.args) > 3 else None
            if ops is not None and not ops: continue
            for p in f.args[1:]:
                if p in ("operator",) and name == "_add_constraint" and len(ops or ()) == 1: continue
                mine = [(a, v, e) for a, v, e in sk if any(s.op == "p" and s.a[0] == p for s in subterms(e.st.expand(v))) or (p == "operator" and any(s.op == "p" and s.a[0] == p for s in subterms(e.term)))]
                where = "%s.%s" % (c.name, name)
                if not mine:
                    if p == "operator": ctx.unres("stored", "%s: relation" % f.loc); continue
                    if ops is not None and len(ops) == 3 and name == "_add_constraint": ctx.unres("stored", "%s: relation" % f.loc); continue
                    ctx.bad("stored", x.loc, where, "%s receives %s but does not keep it" % (where, p), "%s:%s" % (name, p), path_of(x)); continue
                used = [a for a, v, e in mine if a is None or a in attrs]
                ctx.decide(bool(used), "stored", x.loc, where, "%s reaches the solver through %s" % (p, ", ".join(str(a or "the solver object") for a in used)) if used else "%s is stored in %s, which solving never reads" % (p, ", ".join(str(a) for a, v, e in mine)), "%s:%s" % (name, p), "", path_of(x))
            if name == "_add_constraint" and ops is not None and len(ops) == 1:
                o = next(iter(ops))
                sg = {}
                for a, v, e in sk:
                    s = sgn(e.st.expand(v))
                    if s and a is not None and a in attrs: sg[s[0]] = (s[1], a, e)
                p, r = f.args[1], f.args[2]
                if p in sg and r in sg:
                    (sp, ap, e), (sr, ar, _) = sg[p], sg[r]
                    rows.setdefault(o, (sp, sr, ap, ar, e))
            if name == lmi and conv is not None:
                sg = {}
                for a, v, e in sk:
                    s = sgn(e.st.expand(v))
                    if s and a in attrs and a is not None:
                        ks = [w for w in attrs[a]]
                        sg.setdefault(s[0], set()).add((s[1], a))
                x0, sp = f.args[1], f.args[2]
                # several attributes may keep the same matrix (e.g. only for its size): at least one combination must fit
                if x0 in sg and sp in sg:
                    ok = (conv[0] in {s for s, a in sg[sp]}) and (conv[1] in {s for s, a in sg[x0]})
                    ctx.decide(ok, "relation", x.loc, "%s.%s" % (c.name, name), "the matrix inequality is handed over in the solver's sign convention" if ok else "the matrix inequality is handed over with a wrong sign", "lmi", "", [str(sg)])
                else: ctx.unres("relation", "%s.%s: signs" % (c.name, name))
            if name == lmi and kind == "dual" and conv is None:
                x0, sp = f.args[1], f.args[2]
                lins = [s for a, v, e in sk for s in subterms(e.st.expand(v)) if s.op == "bin" and s.a[0] in ("Add", "Sub") and {q.a[0] for q in subterms(s) if q.op == "p"} >= {x0, sp}]
                if not lins: ctx.unres("relation", "%s.%s: signs" % (c.name, name))
                for s in lins[:1]:
                    def lin(t, g=1):
                        if t.op == "bin" and t.a[0] in ("Add", "Sub"):
                            return lin(t.a[1], g) + lin(t.a[2], g if t.a[0] == "Add" else -g)
                        if t.op == "neg": return lin(t.a[0], -g)
                        if t.op == "bin" and t.a[0] in ("Mult", "MatMult"): return lin(t.a[1], g)
                        q = sgn(t)
                        return [(q[0], q[1] * g)] if q else [None]
                    l = lin(s)
                    if None in l: ctx.unres("relation", "%s.%s: signs" % (c.name, name)); continue
                    ok = set(l) == {(x0, 1), (sp, 1)}
                    ctx.decide(ok, "relation", x.loc, "%s.%s" % (c.name, name), "the matrix inequality is handed over in the solver's sign convention" if ok else "the matrix inequality is handed over with a wrong sign", "lmi", "", [str(s)[:150]])
            if name == "_set_objective":
                for a, v, e in sk:
                    s = sgn(e.st.expand(v))
                    if s is not None: ctx.decide(s[1] == 1, "relation", e.loc, c.name, "the objective is minimised" if s[1] == 1 else "the objective is negated", "objective", "", [])
    check_direction(ctx, c, meths + [f for f in (prog.lookup_method(c, n) for n in (lmi, "_set_objective")) if f is not None and f.cls is not None and not abstract(f)])
    # rows of a primal backend
    if rows:
        for o, (sp, sr, ap, ar, e) in rows.items():
            loc = e.loc
            good = sp == sr if o == "__eq__" else None
            if o == "__eq__": ctx.decide(good, "relation", loc, c.name, "row and bound keep their signs" if good else "an equation is stored with a bound of the opposite sign", "row:" + o, "", [])
            else:
                # 'lessThan' lists
                want = {"__le__": (1, 1), "__ge__": (-1, -1)}[o]
                eqs = rows.get("__eq__")
                if eqs and ap == eqs[2]: ctx.bad("relation", loc, c.name, "an inequality is stored as an equation", "row:" + o, []); continue
                ctx.decide((sp, sr) == want, "relation", loc, c.name, "row and bound are stored in the direction of %s" % o if (sp, sr) == want else "a row with relation %s is stored in the wrong direction" % o, "row:" + o, "", [str((sp, sr))])
    check_use(ctx, c, kind, meths, attrs, rows)
    check_result(ctx, c, kind, solve)

MATVAR = {"SymmetricVariable"}

def check_direction(ctx, c, meths):
    """the objective is minimised, and every matrix variable is constrained to be positive semidefinite"""
    for f in dict.fromkeys(meths):
        ex = runf(ctx, "relation", f, merge=False, inline=is_new, max_states=3000, want=lambda t: True)
        for x in ex or []:
            if x.kind != "return": continue
            ts = [e for e in x.events if isinstance(e.term, T)]
            for e in ts:
                t = e.term
                if t.op != "call": continue
                n = cname(t)
                if n == "set_objective" and len(call_args(t)) == 2 and call_args(t)[0].op == "c": d = {"min": 1, "max": -1}.get(cval(call_args(t)[0])); o = call_args(t)[1]
                elif n in ("Minimize", "Maximize") and len(call_args(t)) == 1: d = 1 if n == "Minimize" else -1; o = call_args(t)[0]
                else: continue
                if d is None: continue
                while o.op == "neg": d, o = -d, o.a[0]
                ctx.decide(d == 1, "relation", e.loc, "%s.%s" % (c.name, f.name), "the objective is minimised" if d == 1 else "the objective is maximised instead of minimised", "objective-dir", "", [str(t)[:120]])
            for e in ts:
                t = e.term
                if t.op != "call" or e.kind != "call": continue
                n = cname(t)
                shape = next((y for y in call_args(t) if y.op == "tuple" and len(y.a) == 2), None)
                if n in MATVAR: pass
                elif n == "Variable" and shape is not None and not all(y.op == "c" for y in shape.a): pass
                else: continue
                psd = call_kw(t, "PSD", 99)
                if psd is not None and psd.op == "c" and cval(psd) is True: ctx.ok("relation", e.loc, "matrix variable is positive semidefinite"); continue
                sh = any(s.op == "bin" and s.a[0] == "RShift" and any(q is t for q in subterms(s.a[1])) for e2 in ts for s in subterms(x.st.expand(e2.term)))
                held = any(s is t for s in subterms(x.val)) if isinstance(x.val, T) else False
                if sh: ctx.ok("relation", e.loc, "matrix variable is constrained to be positive semidefinite")
                elif any(s.op == "bin" and s.a[0] == "RShift" for e2 in ts for s in subterms(x.st.expand(e2.term))) or any(s.op == "call" and cname(s) in ("PSD", "__rshift__") for e2 in ts for s in subterms(e2.term)): ctx.unres("relation", "%s: cone of a matrix variable" % e.loc)
                else: ctx.bad("relation", e.loc, "%s.%s" % (c.name, f.name), "a matrix variable is not constrained to be positive semidefinite", "psd", [str(t)[:120]])

def check_use(ctx, c, kind, meths, attrs, rows):
    """every stored list is used whenever it is not empty"""
    lists = {a: set() for a in attrs}
    for f in meths:
        mine = {a for a, us in attrs.items() for g, n in us if g is f and a.startswith("_") and (a.strip("_").endswith(("eqs", "As", "bs", "Gs", "hs", "spaces")))}
        if not mine: continue
        ex = runf(ctx, "stored", f, merge=False, inline=is_new, max_states=3000, want=lambda t: True, want_store=lambda t, v: True)
        me = T("p", f.args[0])
        if not ex: continue
        for a in mine:
            at = T("attr", me, a)
            for x in ex:
                if x.kind != "return": continue
                terms = [e.term for e in x.events if e.kind in ("call", "store")] + [e.val for e in x.events if isinstance(e.val, T)] + [x.val]
                used = [t for t in terms if t is not at and any(s is at for s in subterms(x.st.expand(t))) and not (t.op == "call" and cname(t) == "len")]
                if used:
                    part = [t for t in used if all(has_slice(s, at) for s in [t])]
                    ctx.ok("stored", x.loc, "%s is used" % a); continue
                emp = any((k.op == "call" and cname(k) == "len" and k.a[1][0] is at and w is False) or (k is at and w is False) or (k.op in ("eq", "lt") and any(s is at for s in subterms(k)) and truth_empty(k, w)) for k, w in x.facts.items())
                partner = a.replace("eq_bs", "eqs").replace("_bs", "_As")
                pt = T("attr", me, partner)
                emp = emp or any((k.op == "call" and cname(k) == "len" and k.a[1][0] is pt and w is False) or (k is pt and w is False) or (k.op in ("eq", "lt") and any(s is pt for s in subterms(k)) and truth_empty(k, w)) for k, w in x.facts.items())
                zero = not any(isinstance(n, ast.Attribute) and n.attr == a for n in own_stmts(f, a))
                if emp: ctx.ok("stored", x.loc, "%s is empty" % a)
                elif looped_only(f, a): continue
                else: ctx.bad("stored", x.loc, "%s.%s" % (c.name, f.name), "rows kept in %s are not handed to the solver on this path" % a, "use:" + a, path_of(x))
        # directions
        for x in ex:
            for e in x.events:
                for s in subterms(x.st.expand(e.term)):
                    if s.op in ("eq", "lt", "not") and s.op != "not":
                        names = {q.a[1] for q in subterms(s) if q.op == "attr" and q.a[0] is me}
                        if "_leqs" in names and s.op == "eq" and "_leq_bs" in names: ctx.bad("relation", e.loc, c.name, "inequality rows are handed over as equations", "use-leq", [])
                        if "_eqs" in names and "_eq_bs" in names and s.op == "lt": ctx.bad("relation", e.loc, c.name, "equations are handed over as inequalities", "use-eq", [])
                        if s.op == "lt" and "_leqs" in names and "_leq_bs" in names:
                            l = {q.a[1] for q in subterms(s.a[0]) if q.op == "attr" and q.a[0] is me}
                            r = {q.a[1] for q in subterms(s.a[1]) if q.op == "attr" and q.a[0] is me}
                            # row <= bound  is  not (bound < row)
                            if "_leq_bs" in l and "_leqs" in r: ctx.ok("relation", e.loc, "rows are bounded from above")
                            elif "_leqs" in l and "_leq_bs" in r:
                                neg_ = any(q.op == "not" and q.a[0] is s for q in subterms(x.st.expand(e.term)))
                                if neg_: ctx.bad("relation", e.loc, c.name, "rows are bounded from below instead of above", "use-dir", [])

def has_slice(t, at): return any(s.op == "sub" and s.a[0] is at for s in subterms(t))
def truth_empty(k, w):
    if k.op == "eq": return w is True and any(y.op == "c" and cval(y) == 0 for y in k.a)
    if k.op == "lt":
        if k.a[0].op == "c" and cval(k.a[0]) == 0: return w is False
        if k.a[1].op == "c" and cval(k.a[1]) == 1: return w is True
    return False
def own_stmts(f, a): return list(ast.walk(f.node))
def looped_only(f, a):
    """the attribute is only used to iterate over (by index or directly)"""
    ps = parents(f)
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr == a and isinstance(n.ctx, ast.Load):
            q, inloop = n, False
            while q in ps:
                q = ps[q]
                if isinstance(q, (ast.For, ast.ListComp, ast.GeneratorExp)): inloop = True
            if not inloop: return False
    return True

def check_result(ctx, c, kind, solve):
    ex = runf(ctx, "answer", solve, merge=False, inline=lambda f: is_new(f), want=lambda t: t.op == "call")
    me = T("p", solve.args[0])
    for x in ex or []:
        if x.kind != "return": continue
        v = x.st.expand(x.val)
        subs = list(subterms(v))
        if kind == "dual":
            if solve.cls is not None and "Degenerated" in solve.cls.name: continue
            ok = any(s.op == "sub" and "slice" in str(s.a[1]) and re_slice(s.a[1]) == (None, -1) for s in subs)
            oth = [re_slice(s.a[1]) for s in subs if s.op == "sub" and s.a[1].op == "slice"]
            if not ok and any(s.op == "sub" and s.a[1].op == "slice" and any(q.op == "attr" and q.a[1] == "dof" for q in subterms(s.a[1])) for s in subs): ok = True
            ctx.decide(ok, "answer", x.loc, "%s.solve" % c.name, "the relaxation variable is cut off" if ok else "the answer is not cut to the variables of the problem (%s)" % oth, "cut", "", [str(v)[:150]])
        else:
            ok = v.op == "call" and cname(v) == "restore_eigen"
            if not ok and not any(s.op == "call" and cname(s) == "restore_eigen" for s in subs):
                ctx.bad("answer", x.loc, "%s.solve" % c.name, "the answer is returned without undoing the shift of the matrices", "restore", [str(v)[:150]])
            elif ok: ctx.ok("answer", x.loc, "the shift of the matrices is undone")
    # options
    if len(solve.args) >= 2:
        o = solve.args[1]
        names = [n for n in ast.walk(solve.node) if isinstance(n, ast.Name) and n.id == o and isinstance(n.ctx, ast.Load)]
        ctx.decide(bool(names), "options", solve.loc, "%s.solve" % c.name, "options are used" if names else "the solver options are ignored", "used", "", [])

def re_slice(t):
    if t.op != "slice": return None
    g = lambda y: None if y is NONE or y.op != "c" else cval(y)
    if any(y is not NONE and y.op not in ("c", "neg") for y in t.a[:2]): return None
    h = lambda y: -cval(y.a[0]) if y.op == "neg" and y.a[0].op == "c" else g(y)
    return (h(t.a[0]), h(t.a[1]))

# ------------------------------------------------------------------ shared base class
def terms_of(t): return [s for s in subterms(t)]

def check_base(ctx):
    f = find(ctx, "eigen", B + "backend.DualBackend.extend_space")
    if f is not None:
        ex = runf(ctx, "eigen", f, merge=False, want_store=lambda t, v: t.op == "sub")
        me_p = f.args[3] if len(f.args) > 3 else "min_eigen"
        for x in ex or []:
            if x.kind != "return": continue
            v = x.st.expand(x.val)
            if v.op != "tuple" or len(v.a) != 2: ctx.unres("eigen", "%s: %s" % (x.loc, str(v)[:80])); continue
            p = T("p", me_p)
            zero = any(k.op == "eq" and p in k.a and any(y.op == "c" and cval(y) == 0 for y in k.a) and w is True for k, w in x.facts.items())
            if zero: ctx.ok("eigen", x.loc, "no minimal eigenvalue"); continue
            tup = [w for k, w in x.facts.items() if k.op == "call" and callee(k) == "builtins.isinstance" and k.a[1][0] is p]
            istup = True in tup
            st = [e for e in x.events if e.kind == "store" and e.term.op == "sub"]
            kk, bb = (T("item", p, 0), T("item", p, 1)) if istup else (None, p)
            if kk is not None:
                ok = any(s is kk for s in terms_of(v.a[1]))
                wrong = any(s is bb for s in terms_of(v.a[1]))
                ctx.decide(ok and not wrong, "eigen", x.loc, f.qual, "the slope becomes the column of the relaxation variable" if ok and not wrong else "the relaxation variable does not enter with the slope of the minimal eigenvalue", "slope", "", path_of(x))
                if ok: sign(ctx, x, f, v.a[1], kk)
            if not st:
                if any(isinstance(n, (ast.For,)) for n in ast.walk(f.node)): continue    # no pass through the loop on this path
                ok = any(s is bb for s in terms_of(v.a[0]))
                if ok: ctx.ok("eigen", x.loc, "offset applied")
                else: ctx.bad("eigen", x.loc, f.qual, "the offset of the minimal eigenvalue is not applied", "offset", path_of(x))
                continue
            for e in st:
                val = e.val
                ok = val.op == "bin" and val.a[0] == "Sub" and any(s is bb for s in terms_of(val.a[2])) and (kk is None or not any(s is kk for s in terms_of(val)))
                unk = not any(s is bb or s is kk for s in terms_of(val)) and val.op != "bin"
                if unk: ctx.unres("eigen", "%s: %s" % (e.loc, str(val)[:80])); continue
                ctx.decide(ok, "eigen", e.loc, f.qual, "the offset is subtracted from the diagonal" if ok else "the offset of the minimal eigenvalue is applied wrongly", "offset", "", [str(val)[:100]])
                diag(ctx, f, e, e.term.a[1])
    f = find(ctx, "eigen", B + "backend.PrimalBackend.add_linear_matrix_equality")
    if f is not None:
        ex = runf(ctx, "eigen", f, merge=False, want=lambda t: t.op == "call", want_store=lambda t, v: True)
        p = T("p", f.args[2]) if len(f.args) > 2 else None
        me = T("p", f.args[0])
        for x in ex or []:
            if x.kind != "return" or p is None: continue
            istup = any(k.op == "call" and callee(k) == "builtins.isinstance" and k.a[1][0] is p and w is True for k, w in x.facts.items())
            kk, bb = (T("item", p, 0), T("item", p, 1)) if istup else (None, p)
            st = {}
            for e in x.events:
                if e.kind == "store" and e.term.op == "attr" and e.term.a[0] is me: st[e.term.a[1]] = e
            app = {e.term.a[0].a[0].a[1]: e for e in x.events if e.kind == "call" and e.term.a[0].op == "attr" and e.term.a[0].a[1] == "append" and e.term.a[0].a[0].op == "attr"}
            for q, attr, sg_ in ((kk, "_min_eigen_space", "Add"), (bb, "x0", "Sub")):
                if q is None: continue
                zero = any(k.op == "eq" and any(s is q for s in terms_of(k)) and any(y.op == "c" and cval(y) == 0 for y in k.a) and w is True for k, w in x.facts.items())
                if zero: continue
                e = st.get(attr)
                ok = e is not None and e.val.op == "bin" and e.val.a[0] == sg_ and any(s is q for s in terms_of(e.val.a[2]))
                if e is not None and e.val.op != "bin": ctx.unres("eigen", "%s: %s" % (e.loc, str(e.val)[:80])); continue
                ctx.decide(ok, "eigen", e.loc if e else x.loc, f.qual, "%s takes the minimal eigenvalue into account" % attr if ok else "%s does not take the minimal eigenvalue into account" % attr, "primal:" + attr, "", path_of(x))
            for a in ("_mat_size", "_eigen_relaxations"):
                ok = a in app or a in st
                ctx.decide(ok, "stored", x.loc, f.qual, "%s is kept for the answer" % a if ok else "%s is not kept" % a, "keep:" + a, "", path_of(x))
            ok = any(e.kind == "call" and cname(e.term) == "_add_linear_matrix_equality" for e in x.events)
            ctx.decide(ok, "stored", x.loc, f.qual, "the matrix is passed on" if ok else "a matrix is dropped", "pass", "", path_of(x))
            ok = "dof" in st
            ctx.decide(ok, "stored", x.loc, f.qual, "the number of variables is updated" if ok else "the number of variables is not updated", "dof", "", path_of(x))
    f = find(ctx, "eigen", B + "backend.PrimalBackend.restore_eigen")
    if f is not None:
        loops = []
        ex = runf(ctx, "eigen", f, merge=False, want_store=lambda t, v: t.op == "sub", on_loop=lambda *a: loops.append(a))
        st = events(ex or [], lambda e: e.kind == "store" and e.term.op == "sub")
        if not st: ctx.unres("eigen", "%s: no restoration found" % f.loc)
        for e in st:
            v = e.val
            its = {s.a[1] for s in terms_of(v) if s.op == "item" and any(q.op == "attr" and q.a[1] == "_eigen_relaxations" for q in terms_of(s.a[0]))}
            if not its: ctx.unres("eigen", "%s: %s" % (e.loc, str(v)[:100])); continue
            ok = its == {0, 1} and all(sg == 1 for sg in signs_in(v, lambda s: s.op == "item" and s.a[1] in (0, 1) and any(q.op == "attr" and q.a[1] == "_eigen_relaxations" for q in terms_of(s.a[0]))))
            ctx.decide(ok, "eigen", e.loc, f.qual, "slope times relaxation plus offset is added back" if ok else "the shift of a matrix is not undone completely", "restore", "", [str(v)[:150]])
            diag(ctx, f, e, e.term.a[1])
        for (func, node, it, el, start, results) in loops:
            for kd, s, val, nd in results:
                if kd in ("break",): ctx.bad("eigen", "%s:%d" % (f.module.rel, node.lineno), f.qual, "the shift of the remaining matrices is not undone", "restore-break", [])
                if kd in ("fall", "continue") and st and not any(b.kind == "store" and b.term.op == "sub" for b in s.events if not any(b is q for q in start.events)):
                    why = [k for k, w in s.facts.items() if k not in start.facts and k.op == "eq" and w is True]
                    if not why: ctx.bad("eigen", "%s:%d" % (f.module.rel, node.lineno), f.qual, "the shift of a matrix is not undone", "restore-skip", [str(k)[:100] for k in s.facts if k not in start.facts])
            # the number of matrices restored
            if it.op == "call" and cname(it) == "range" and len(call_args(it)) == 1:
                r = call_args(it)[0]
                n_ = r.op == "bin" and r.a[0] == "Sub" and r.a[2].op == "c"
                if n_: ctx.decide(cval(r.a[2]) == 1, "eigen", "%s:%d" % (f.module.rel, node.lineno), f.qual, "all matrices are restored" if cval(r.a[2]) == 1 else "not all matrices are restored", "restore-range", "", [str(it)[:100]])
        for x in ex or []:
            if x.kind == "return":
                v = x.st.expand(x.val)
                sl = [re_slice(s.a[1]) for s in terms_of(v) if s.op == "sub" and s.a[1].op == "slice"]
                if sl: ctx.decide((None, -1) in sl, "answer", x.loc, f.qual, "only the relaxation variable is cut off" if (None, -1) in sl else "the answer is cut wrongly", "cut", "", [str(sl)])
    f = find(ctx, "stored", B + "backend.SDPBackend.extend_vector")
    if f is not None:
        ex = runf(ctx, "stored", f, merge=False)
        for x in ex or []:
            if x.kind != "return": continue
            v = x.st.expand(x.val)
            dofq = [(k, w) for k, w in x.facts.items() if k.op == "eq" and any(s.op == "attr" and s.a[1] == "dof" for s in terms_of(k))]
            if not dofq: ctx.unres("stored", "%s: test of the length" % x.loc); continue
            need = dofq[0][1] is True and not any(s.op == "bin" for y in dofq[0][0].a for s in [y])
            has = any(s.op == "call" and cname(s) in ("concatenate", "append", "hstack", "pad") for s in terms_of(v))
            if any(s.op == "bin" for y in dofq[0][0].a for s in [y]): ctx.unres("stored", "%s: test of the length" % x.loc); continue
            ctx.decide(has == need, "stored", x.loc, f.qual, "a vector over the variables is extended by the relaxation variable" if has == need else "a vector over the variables is not extended by the relaxation variable", "extend", "", path_of(x))
            if has and any(s.op == "call" and cname(s) == "ones" for s in terms_of(v)): ctx.bad("stored", x.loc, f.qual, "a vector is extended by a nonzero entry", "extend-zero", [])
    f = find(ctx, "stored", B + "backend.SDPBackend.set_objective")
    if f is not None:
        ex = runf(ctx, "stored", f, merge=False, want=lambda t: t.op == "call" and cname(t) == "_set_objective")
        for x in ex or []:
            if x.kind != "return": continue
            ev = [e for e in x.events if e.kind == "call" and cname(e.term) == "_set_objective"]
            ok = bool(ev)
            ctx.decide(ok, "stored", x.loc, f.qual, "the objective is passed on" if ok else "the objective is dropped", "objective", "", path_of(x))
            for e in ev:
                a = (call_args(e.term) + [z for _, z in e.term.a[2]])[0]
                s = sgn(a)
                if s is None: ctx.unres("stored", "%s: %s" % (e.loc, str(a)[:80])); continue
                ctx.decide(s == (f.args[1], 1), "stored", e.loc, f.qual, "the objective is unchanged" if s == (f.args[1], 1) else "the objective is changed", "objective-sign", "", [str(a)[:80]])
    f = find(ctx, "stored", B + "backend.DualBackend.add_linear_matrix_inequality")
    if f is not None:
        ex = runf(ctx, "stored", f, merge=False, inline=is_new, want=lambda t: t.op == "call" and cname(t) in ("_add_linear_matrix_inequality", "extend_space"))
        for x in ex or []:
            if x.kind != "return": continue
            ev = [e for e in x.events if cname(e.term) == "_add_linear_matrix_inequality"]
            ctx.decide(bool(ev), "stored", x.loc, f.qual, "the matrix is passed on" if ev else "a matrix is dropped", "pass", "", path_of(x))
            es = [e for e in x.events if cname(e.term) == "extend_space"]
            for e in ev:
                a = call_args(e.term) + [z for _, z in e.term.a[2]]
                src = set().union(*(root_params(y) for y in a)) if a else set()
                for p in f.args[1:4]: ctx.decide(p in src, "stored", e.loc, f.qual, "%s is passed on" % p if p in src else "%s is not passed on" % p, "lmi:" + p, "", [str(e.term)[:150]])
                idx = [y.a[1] if y.op == "item" else None for y in a[:2]]
                if None not in idx: ctx.decide(idx == [0, 1], "stored", e.loc, f.qual, "constant part and space are in order" if idx == [0, 1] else "constant part and space are exchanged", "lmi-order", "", [])

def check_base2(ctx):
    prog = ctx.prog
    f = find(ctx, "handed", B + "backend.SDPBackend.add_relax_var_nonnegative_inequality")
    if f is not None:
        for x in runf(ctx, "handed", f, merge=False, want=lambda t: t.op == "call" and cname(t) == "add_constraint", want_store=lambda t, v: t.op == "sub") or []:
            if x.kind != "return": continue
            for e in x.events:
                if e.kind == "store" and e.term.a[1].op == "c" and cval(e.term.a[1]) == -1 and e.val.op == "c":
                    ctx.decide(cval(e.val) > 0, "handed", e.loc, f.qual, "the relaxation variable itself is bounded below" if cval(e.val) > 0 else "the negated relaxation variable is bounded below", "relaxsign", f.qual)
                elif e.kind == "store" and e.term.a[1].op == "c" and e.val.op == "c" and cval(e.val) != 0: ctx.bad("handed", e.loc, f.qual, "another variable than the relaxation variable is bounded", "relaxpos")
            if not any(e.kind == "call" for e in x.events): ctx.bad("handed", x.loc, f.qual, "the bound of the relaxation variable is not added", "relaxadd")
    for q in ("set_objective", "add_constraint"):
        f = find(ctx, "stored", B + "backend.SDPBackend." + q)
        if f is None: continue
        for e in events(runf(ctx, "stored", f, inline=is_new, want=lambda t: t.op == "call" and cname(t) == "_" + q) or [], lambda e: e.kind == "call"):
            a = (call_args(e.term) + [z for _, z in e.term.a[2]])
            if not a: continue
            a = e.st.expand(a[0])
            ok = any(z.op == "call" and (cname(z) == "extend_vector" or cname(z) in ("concatenate", "append", "hstack", "pad")) for z in subterms(a))
            if ok or all(z.op != "call" or cname(z) in ("np_array", "flatten", "array", "astype", "reshape", "ravel") for z in subterms(a)):
                ctx.decide(ok, "stored", e.loc, f.qual, "the vector is extended to the relaxation variable" if ok else "the vector has no entry for the relaxation variable", q + ":extend", f.qual)
    f = find(ctx, "eigen", B + "backend.PrimalBackend.add_linear_matrix_equality")
    if f is not None:
        for x in runf(ctx, "eigen", f, merge=False, want=lambda t: t.op == "call" and cname(t) == "append", want_store=lambda t, v: True) or []:
            if x.kind != "return": continue
            p = T("p", f.args[2])
            for e in x.events:
                if e.kind == "call" and "_eigen_relaxations" in str(e.term.a[0]) and call_args(e.term):
                    v = e.st.expand(call_args(e.term)[0])
                    if v.op != "tuple" or len(v.a) != 2: continue
                    k = [next((z.a[1] for z in subterms(q) if z.op == "item" and z.a[0] is p), "b" if any(z is p for z in subterms(q)) else 0) for q in v.a]
                    ok = k in ([0, 1], [0, "b"])
                    ctx.decide(ok, "eigen", e.loc, f.qual, "slope and offset are kept in order" if ok else "slope and offset of a minimal eigenvalue are exchanged", "keep-order", f.qual, path_of(x))
                if e.kind == "store" and e.term.op == "attr" and e.term.a[1] == "dof":
                    sh = [z for z in subterms(e.val) if z.op in ("sub", "item") and z.a[0].op == "attr" and z.a[0].a[1] == "shape"]
                    if sh: ctx.decide(all((cval(z.a[1]) if isinstance(z.a[1], T) else z.a[1]) in (1, -1) for z in sh), "stored", e.loc, f.qual, "the number of variables is that of the columns" if all((cval(z.a[1]) if isinstance(z.a[1], T) else z.a[1]) in (1, -1) for z in sh) else "the number of variables is counted by the equations", "dof-axis", f.qual)
    for f in prog.funcs.values():
        if not f.module.name.startswith(B) or "min_eigen" not in f.all_params: continue
        for n in ast.walk(f.node):
            # (slope, offset): a plain number is an offset
            v = None
            if isinstance(n, ast.IfExp):
                t, a, b = n.test, n.body, n.orelse
                neg = isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not)
                if neg: t = t.operand
                if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == "isinstance" and "tuple" in ast.unparse(t.args[1]) and isinstance(t.args[0], ast.Name): v = a if neg else b; nm = t.args[0].id
            if v is not None and isinstance(v, ast.Tuple) and len(v.elts) == 2:
                i = [j for j, z in enumerate(v.elts) if isinstance(z, ast.Name) and z.id == nm]
                if i: ctx.decide(i == [1], "eigen", "%s:%d" % (f.module.rel, n.lineno), f.qual, "a plain number is an offset" if i == [1] else "a plain minimal eigenvalue is taken as a slope of the relaxation variable", "plain", f.qual)

def signs_in(t, pred, s=1):
    if pred(t): return [s]
    if t.op == "neg": return signs_in(t.a[0], pred, -s)
    if t.op == "bin" and t.a[0] == "Sub": return signs_in(t.a[1], pred, s) + signs_in(t.a[2], pred, -s)
    out = []
    def kids(xs):
        for y in xs:
            if isinstance(y, T): yield y
            elif isinstance(y, tuple): yield from kids(y)
    for y in kids(t.a): out += signs_in(y, pred, s)
    return out

def sign(ctx, x, f, t, k):
    sg = signs_in(t, lambda s: s is k)
    if sg: ctx.decide(all(s == -1 for s in sg), "eigen", x.loc, f.qual, "the relaxation is subtracted" if all(s == -1 for s in sg) else "the relaxation is added instead of subtracted", "slope-sign", "", [])

def diag(ctx, f, e, idx):
    """index set start:m^2:m+1"""
    r = next((s for s in subterms(idx) if s.op == "call" and cname(s) in ("range", "arange") and len(call_args(s)) == 3), None)
    if r is None: return
    a, b, c = call_args(r)
    ok = a.op == "c" and cval(a) == 0
    if b.op == "bin" and b.a[0] == "Pow" and b.a[2].op == "c" and c.op == "bin" and c.a[0] == "Add":
        m = b.a[1]
        ok = ok and cval(b.a[2]) == 2 and c.a[1] is m and c.a[2].op == "c" and cval(c.a[2]) == 1 or (ok and c.a[2] is m and c.a[1].op == "c" and cval(c.a[1]) == 1)
    elif b.op == "bin" and b.a[0] == "Mult" and c.op == "bin" and c.a[0] == "Add": ok = ok and b.a[1] is b.a[2]
    else: ctx.unres("eigen", "%s: index %s" % (e.loc, str(r)[:80])); return
    ctx.decide(ok, "eigen", e.loc, f.qual, "every diagonal entry is shifted" if ok else "not exactly the diagonal entries are shifted", "diagonal", "", [str(r)[:100]])

# ------------------------------------------------------------------ layout
ROWS = {"clarabel_sdp": "column", "mosek_sdp": "row"}   # order of the upper triangle the solver expects
def check_layout(ctx):
    """sizes, triangle order, diagonal positions, cones: what the vectors handed over mean"""
    prog = ctx.prog
    pb, db, sb = (prog.classes.get(B + "backend." + n) for n in ("PrimalBackend", "DualBackend", "SDPBackend"))
    for f in prog.funcs.values():
        if not f.module.name.startswith(B) or f.cls is None: continue
        kind = "primal" if pb in prog.mro(f.cls) else "dual" if db in prog.mro(f.cls) else None
        short = f.module.name.split(".")[-1]
        def loc(n): return "%s:%d" % (f.module.rel, n.lineno)
        own = [n for b in f.body for n in ast.walk(b)]
        for n in own:
            # size of a matrix from the number of its entries
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name)) and (n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id) in ("sqrt", "isqrt") and len(n.args) == 1:
                a = n.args[0]
                if isinstance(a, ast.Subscript) and isinstance(a.value, ast.Attribute) and a.value.attr == "shape" and isinstance(a.slice, ast.Constant) and kind and "space" in ast.unparse(a.value.value).lower():
                    ok = a.slice.value == (0 if kind == "dual" else 1)
                    ctx.decide(ok, "layout", loc(n), f.qual, "the size of a matrix is taken from the entries of its space" if ok else "the size of a matrix is computed from the number of variables or equations", "size", f.qual)
            # length of a packed triangle
            if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.FloorDiv, ast.Div)) and isinstance(n.right, ast.Constant) and n.right.value == 2 and isinstance(n.left, ast.BinOp) and isinstance(n.left.op, ast.Mult):
                p, q = n.left.left, n.left.right
                if isinstance(p, ast.BinOp): p, q = q, p
                if isinstance(q, ast.BinOp) and isinstance(q.op, (ast.Add, ast.Sub)) and isinstance(q.right, ast.Constant) and q.right.value == 1 and ast.dump(q.left) == ast.dump(p):
                    ok = isinstance(q.op, ast.Add)
                    ctx.decide(ok, "layout", loc(n), f.qual, "a triangle with diagonal has n(n+1)/2 entries" if ok else "a packed symmetric matrix is given the length of a triangle without diagonal", "triangle", f.qual)
            # positions of the diagonal
            if isinstance(n, ast.Call) and isinstance(n.func, (ast.Attribute, ast.Name)) and (n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id) in ("arange", "range") and len(n.args) == 3:
                a, b, c = n.args
                if isinstance(b, ast.BinOp) and isinstance(b.op, ast.Pow) and isinstance(b.right, ast.Constant) and b.right.value == 2:
                    ok = isinstance(a, ast.Constant) and a.value == 0 and isinstance(c, ast.BinOp) and isinstance(c.op, ast.Add) and {ast.dump(c.left), ast.dump(c.right)} == {ast.dump(b.left), ast.dump(ast.Constant(1))}
                    if isinstance(c, (ast.BinOp, ast.Constant)) or ast.dump(c) == ast.dump(b.left): ctx.decide(ok, "layout", loc(n), f.qual, "every diagonal entry" if ok else "not exactly the diagonal entries are rescaled", "diagonal", f.qual)
            # order of the triangle
            if isinstance(n, (ast.ListComp, ast.GeneratorExp)) and len(n.generators) == 2 and short in ROWS and isinstance(n.elt, ast.BinOp) and isinstance(n.elt.op, ast.Add) and isinstance(n.elt.left, ast.BinOp) and isinstance(n.elt.left.op, ast.Mult):
                v = [g.target.id if isinstance(g.target, ast.Name) else None for g in n.generators]
                m, c = n.elt.left, n.elt.right
                r = next((z.id for z in (m.left, m.right) if isinstance(z, ast.Name) and z.id in v), None)
                tests = [t for g in n.generators for t in g.ifs]
                if r and isinstance(c, ast.Name) and {r, c.id} == set(v) and len(tests) == 1 and isinstance(tests[0], ast.Compare) and len(tests[0].ops) == 1 and isinstance(tests[0].left, ast.Name) and isinstance(tests[0].comparators[0], ast.Name):
                    t = tests[0]
                    l, g = t.left.id, t.comparators[0].id
                    if isinstance(t.ops[0], (ast.Gt, ast.GtE)): l, g = g, l
                    strict = isinstance(t.ops[0], (ast.Lt, ast.Gt))
                    upper = l == r and g == c.id        # row <= column
                    order = "row" if (v[0] == r) == upper else "column"     # the lower triangle by rows is the upper one by columns
                    ok = order == ROWS[short] and not strict
                    ctx.decide(ok, "layout", loc(n), f.qual, "the triangle is packed in %s order" % order if ok else "the triangle is packed in %s order%s" % (order, " without its diagonal" if strict else ""), "order", f.qual)
        # rows over all variables are split before they meet the matrices
        if kind == "primal":
            for n in own:
                if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "zip"): continue
                for a in n.args:
                    if not isinstance(a, ast.Name): continue
                    w = None; seen = set()
                    chain, cur, stacked = [], a.id, False
                    defs = [m for m in own if isinstance(m, ast.Assign) and len(m.targets) == 1 and isinstance(m.targets[0], ast.Name) and m.targets[0].id == cur and m.lineno < n.lineno]
                    txt = [ast.unparse(m.value) for m in defs]
                    if any("vstack(" in t for t in txt):
                        ok = any("split_vector(" in t for t in txt)
                        if ok or all("is" not in t.split() for t in txt): ctx.decide(ok, "layout", loc(n), f.qual, "rows are split per matrix" if ok else "rows over all variables are combined with single matrices", "split", f.qual)
    for c in prog.classes.values():
        if not c.module.name.startswith(B) or c.module.name == B + "backend": continue
        kind = "primal" if pb in prog.mro(c) else "dual" if db in prog.mro(c) else None
        if kind is None or c in (pb, db): continue
        loc = "%s:%d" % (c.module.rel, c.node.lineno)
        names = {n.attr for n in ast.walk(c.node) if isinstance(n, ast.Attribute)}
        if kind == "primal":
            used = [n for n in ast.walk(c.node) if isinstance(n, ast.Attribute) and n.attr in ("_min_eigen_space", "full_space") and isinstance(n.ctx, ast.Load)]
            ctx.decide(bool(used), "layout", loc, c.qual, "the relaxation variable enters the equations" if used else "the relaxation variable does not enter the equations", c.qual + ":relaxcol", c.qual)
        add = c.methods.get("_add_constraint")
        if add is not None and len(add.args) > 3:
            used = any(isinstance(n, ast.Name) and n.id == add.args[3] and isinstance(n.ctx, ast.Load) for b in add.body for n in ast.walk(b))
            ctx.decide(used, "relation", add.loc, add.qual, "the relation decides the row" if used else "the relation of a row is ignored", c.qual + ":op", c.qual)
        # the variable vector holds the relaxation variable
        if kind == "dual":
            for n in ast.walk(c.node):
                if isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)) and (n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id) in ("RealVariable", "variable", "Variable"):
                    dim = [z for a in list(n.args) + [k.value for k in n.keywords] for z in ast.walk(a) if (isinstance(z, ast.Name) and z.id == "dof") or (isinstance(z, ast.Attribute) and z.attr == "dof")]
                    if not dim: continue
                    plus = [z for a in list(n.args) + [k.value for k in n.keywords] for z in ast.walk(a) if isinstance(z, ast.BinOp) and isinstance(z.op, ast.Add) and any(d in (z.left, z.right) for d in dim) and any(isinstance(y, ast.Constant) and y.value == 1 for y in (z.left, z.right))]
                    ctx.decide(bool(plus), "layout", "%s:%d" % (c.module.rel, n.lineno), c.qual, "the variables include the relaxation variable" if plus else "the variable vector has no room for the relaxation variable", c.qual + ":dof", c.qual)
        # domains
        for f in c.methods.values():
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "constraint":
                    txt = source_names(f, n)
                    dom = [z.func.attr for a in n.args for z in ast.walk(a) if isinstance(z, ast.Call) and isinstance(z.func, ast.Attribute) and z.func.attr in ("lessThan", "greaterThan", "equalsTo", "inSVecPSDCone", "unbounded")]
                    if not dom: continue
                    d = dom[0]
                    if any("_leqs" in t or "leqs" == t for t in txt): want = "lessThan"
                    elif any("_eqs" in t or "eqs" == t for t in txt): want = "equalsTo"
                    else: want = None
                    if want: ctx.decide(d == want, "relation", "%s:%d" % (c.module.rel, n.lineno), f.qual, "%s rows are %s" % (want, d) if d == want else "rows stored as %s are handed over as %s" % ({"lessThan": "<=", "equalsTo": "=="}[want], d), c.qual + ":domain", f.qual)
                    if d == "inSVecPSDCone" and kind == "dual":
                        b = any("_bs" in t for a in n.args if not (isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr == d) for t in source_names(f, a))
                        a_ = any("_As" in t for t in txt)
                        if a_: ctx.decide(b, "stored", "%s:%d" % (c.module.rel, n.lineno), f.qual, "the constant part enters the cone constraint" if b else "the constant part of a matrix inequality is left out", c.qual + ":const", f.qual)
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and isinstance(n.slice, ast.Slice) and isinstance(n.value, ast.Attribute) and n.value.attr in ("_As", "_bs", "_eqs", "_eq_bs", "_leqs", "_leq_bs", "_Gs", "_hs", "_constraints", "_spaces") and (n.slice.lower is not None or n.slice.upper is not None):
                    ctx.bad("stored", "%s:%d" % (c.module.rel, n.lineno), f.qual, "some of the stored parts are left out", c.qual + ":cutlist")
                # loops that leave elements out
                if isinstance(n, (ast.For, ast.comprehension)):
                    it = n.iter
                    bad = None
                    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and any(isinstance(z, ast.Call) and isinstance(z.func, ast.Name) and z.func.id == "len" and z.args and isinstance(z.args[0], ast.Attribute) and isinstance(z.args[0].value, ast.Name) and z.args[0].value.id == "self" for z in it.args):
                        bad = len(it.args) != 1 and not (isinstance(it.args[0], ast.Constant) and it.args[0].value == 0 and len(it.args) == 2)
                    elif isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == "range" and len(it.args) == 1 and isinstance(it.args[0], ast.BinOp) and isinstance(it.args[0].op, ast.Sub) and any(isinstance(z, ast.Attribute) and z.attr in ("_As", "_bs", "_eqs", "_leqs", "_Gs", "_hs") for z in ast.walk(it.args[0])): bad = True
                    elif isinstance(it, ast.Subscript) and isinstance(it.slice, ast.Slice) and isinstance(it.value, ast.Attribute) and it.value.attr.startswith("_"): bad = True
                    if bad is not None: ctx.decide(not bad, "stored", "%s:%d" % (c.module.rel, it.lineno), f.qual, "every stored part is handed over" if not bad else "some of the stored parts are left out", c.qual + ":all", f.qual)
        check_trim(ctx, c)
        check_cones(ctx, c, kind)
        slv = prog.lookup_method(c, "solve")
        if kind == "dual" and slv is not None and slv.cls is c:
            for n in ast.walk(slv.node):
                # the relaxation variable is the last of the complete vector
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self" and c.methods.get(n.func.attr) is not None and n.args:
                    a = n.args[0]
                    if isinstance(a, ast.Subscript) and isinstance(a.slice, ast.Slice) and a.slice.upper is not None and ast.unparse(a.slice) == ":-1": ctx.bad("answer", "%s:%d" % (c.module.rel, n.lineno), slv.qual, "the relaxation variable is cut off before the answer is complete", c.qual + ":cut")

def source_names(f, n):
    """attribute and local names an expression is computed from (locals unfolded through assignments and loops)"""
    out, todo, seen = set(), [n], set()
    while todo:
        e = todo.pop()
        for z in ast.walk(e):
            if isinstance(z, ast.Attribute): out.add(z.attr)
            elif isinstance(z, ast.Name) and z.id not in seen:
                seen.add(z.id); out.add(z.id)
                # the definition that reaches: the last one above
                ds = []
                for m in ast.walk(f.node):
                    if isinstance(m, ast.Assign) and m.lineno < e.lineno + 1:
                        for t in m.targets:
                            if isinstance(t, ast.Name) and t.id == z.id: ds.append((m.lineno, m.value))
                            elif isinstance(t, ast.Tuple) and isinstance(m.value, ast.Tuple) and len(t.elts) == len(m.value.elts):
                                for p, v in zip(t.elts, m.value.elts):
                                    if isinstance(p, ast.Name) and p.id == z.id: ds.append((m.lineno, v))
                    elif isinstance(m, ast.For) and any(isinstance(t, ast.Name) and t.id == z.id for t in ast.walk(m.target)) and m.lineno < e.lineno + 1:
                        ts = m.target.elts if isinstance(m.target, (ast.Tuple, ast.List)) else None
                        its = m.iter.args if isinstance(m.iter, ast.Call) and isinstance(m.iter.func, ast.Name) and m.iter.func.id == "zip" else None
                        if isinstance(m.iter, ast.Call) and isinstance(m.iter.func, ast.Name) and m.iter.func.id == "enumerate" and ts and len(ts) == 2 and isinstance(ts[1], (ast.Tuple, ast.List)) and isinstance(m.iter.args[0], ast.Call) and isinstance(m.iter.args[0].func, ast.Name) and m.iter.args[0].func.id == "zip":
                            ts, its = ts[1].elts, m.iter.args[0].args
                        if ts and its and len(ts) == len(its):
                            for p, v in zip(ts, its):
                                if isinstance(p, ast.Name) and p.id == z.id: ds.append((m.lineno, v))
                        else: ds.append((m.lineno, m.iter))
                if ds:
                    l, v = max(ds, key=lambda q: q[0])
                    todo.append(v)
    return out

def check_trim(ctx, c):
    """columns that are left out are left out of matrix and objective alike, and restored in the answer"""
    for f in c.methods.values():
        masks = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2 and isinstance(n.slice.elts[0], ast.Slice) and isinstance(n.slice.elts[1], ast.Name) and n.slice.elts[0].lower is None and n.slice.elts[0].upper is None: masks[n.slice.elts[1].id] = n
        for k, n in masks.items():
            if not any(isinstance(a, ast.Attribute) and a.attr == "_c" for a in ast.walk(f.node)): continue
            obj = set()
            for _ in range(3):
                for a in ast.walk(f.node):
                    if isinstance(a, ast.Assign) and any(isinstance(y, ast.Attribute) and y.attr == "_c" or isinstance(y, ast.Name) and y.id in obj for y in ast.walk(a.value)): obj |= {t.id for t in a.targets if isinstance(t, ast.Name)}
            cs = [z for z in ast.walk(f.node) if isinstance(z, ast.Subscript) and isinstance(z.ctx, ast.Load) and (isinstance(z.value, ast.Name) and z.value.id in obj or isinstance(z.value, ast.Attribute) and z.value.attr == "_c")]
            ok = any(isinstance(z.slice, ast.Name) and z.slice.id == k for z in cs)
            if cs or not any(isinstance(z, ast.Call) for z in ()): ctx.decide(ok, "layout", "%s:%d" % (c.module.rel, n.lineno), f.qual, "matrix and objective are trimmed alike" if ok else "the columns of the matrix are trimmed but not the same entries of the objective", c.qual + ":trim", f.qual)
        for n in ast.walk(f.node):
            if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and len(n.body) == 1 and isinstance(n.body[0], ast.If) and isinstance(n.body[0].test, (ast.Name, ast.UnaryOp)) and any(isinstance(z, ast.Name) and z.id == n.target.id for z in ast.walk(n.body[0].test)):
                def apps(b): return sum(1 for s in b for z in ast.walk(s) if isinstance(z, ast.Call) and isinstance(z.func, ast.Attribute) and z.func.attr == "append")
                p, q = apps(n.body[0].body), apps(n.body[0].orelse)
                if p or q: ctx.decide(p == q, "answer", "%s:%d" % (c.module.rel, n.lineno), f.qual, "every variable gets a value" if p == q else "the variables left out are not put back", c.qual + ":restore", f.qual)

def check_cones(ctx, c, kind):
    """the cones handed over cover the rows handed over, in their order"""
    for f in c.methods.values():
        if not any(isinstance(n, ast.Name) and n.id == "PSDTriangleConeT" for n in ast.walk(f.node)): continue
        for x in runf(ctx, "layout", f, merge=False, max_states=4000, want=lambda t: t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("append", "pop", "extend")) or []:
            if x.kind != "return": continue
            v = x.val
            if v.op != "tuple" or len(v.a) < 5: ctx.unres("layout", "%s: %s" % (f.qual, str(v)[:60])); continue
            cones = x.st.expand(v.a[4]); b = x.st.expand(v.a[3]); A_ = x.st.expand(v.a[2])
            kindof = lambda z: cname(z) if z.op == "call" else None
            seq = list(cones.a) if cones.op in ("list", "tuple") else [cones]
            flat = []
            for s in seq:
                if s.op == "comp": flat += [z for z in s.a if isinstance(z, T)]
                else: flat.append(s)
            if kind == "primal":
                # sizes of the zero cones against the rows: 1 + x0.size (+ eq_b)
                if not any(cname(z) == "ZeroConeT" for s in flat for z in subterms(s) if z.op == "call"):
                    # the list is built up by calls: replay them
                    unk = False
                    for e in x.events:
                        if e.kind != "call" or not any(cname(z) == "PSDTriangleConeT" for z in subterms(x.st.expand(e.term.a[0].a[0])) if z.op == "call"): continue
                        if e.term.a[0].a[1] == "append": flat.append(call_args(e.term)[0])
                        elif e.term.a[0].a[1] == "pop" and not call_args(e.term): flat.pop()
                        else: unk = True
                    if unk: ctx.unres("layout", "%s: cones" % x.loc); continue
                zs = [z for s in flat for z in subterms(s) if kindof(z) == "ZeroConeT"]
                ns = [z for s in flat for z in subterms(s) if kindof(z) == "NonnegativeConeT"]
                def parts(t):
                    if t.op == "bin" and t.a[0] == "Add": return parts(t.a[1]) + parts(t.a[2])
                    return [t]
                ps = sorted(kindpart(p) for z in zs for a in call_args(z) for p in parts(a))
                rows = [z for z in subterms(b) if z.op == "call" and cname(z) in ("zeros",)]
                eq = any(z.op == "attr" and z.a[1] == "_eq_bs" for z in subterms(b)); le = any(z.op == "attr" and z.a[1] == "_leq_bs" for z in subterms(b))
                want = sorted(["1", "x0"] + (["eq"] if eq else []))
                if "?" in ps: ctx.unres("layout", "%s: cones %s" % (x.loc, ps)); continue
                ok = ps == want and bool(ns) == le
                ctx.decide(ok, "layout", x.loc, f.qual, "the cones cover the rows" if ok else "the cones do not cover the rows that are handed over (zero cones over %s, rows %s)" % (ps, want), c.qual + ":cones", f.qual, path_of(x))
        if kind == "primal":
            for n in ast.walk(f.node):
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("eye", "identity"):
                    par = [m for m in ast.walk(f.node) if isinstance(m, ast.UnaryOp) and isinstance(m.op, ast.USub) and m.operand is n]
                    flip = any(isinstance(m, ast.BinOp) and isinstance(m.op, ast.Mult) and any(z is n for z in ast.walk(m)) for m in ast.walk(f.node))
                    later = any(isinstance(m, ast.UnaryOp) and isinstance(m.op, ast.USub) and any(isinstance(z, ast.Name) and z.id == "psd" for z in ast.walk(m.operand)) for m in ast.walk(f.node))
                    if not flip and not later: ctx.decide(bool(par), "layout", "%s:%d" % (c.module.rel, n.lineno), f.qual, "the slack of the cone is the matrix itself" if par else "the slack of the cone is the negated matrix", c.qual + ":slack", f.qual)

def kindpart(t):
    if t.op == "c": return str(cval(t))
    s = {z.a[1] for z in subterms(t) if z.op == "attr"}
    if "_eq_bs" in s: return "eq"
    if "_leq_bs" in s: return "leq"
    if "x0" in s: return "x0"
    return "?"
