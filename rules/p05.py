"""Solutions of a reduced SDP reach every problem it was reduced from."""
import ast
from sa.util import *

TECHNIQUE = "typestate and provenance dataflow over the transformation classes (which fields of the parent are written on each path, from which fields of the child)"
EXPLANATION = ("For each transformation class the propagation method found by method resolution is interpreted along all paths: without a child solution nothing is "
  "written; with one, the vector, the matrices and the decompositions of the parent are all written (or re-registered), each from the child's data, the vector "
  "through the same matrices the child problem was built with, and the chain is followed upward. Construction must register the transformation with both ends, "
  "and solving/registration must write all three fields and propagate. Not covered: the linear algebra itself (that S(A z + b) equals the child's matrices).")

TR = "triples.sdp.transform."
FIELDS = ("y", "S", "decompositions")
SELF = T("p", "self")

def A(b, n): return T("attr", b, n)

def classes(ctx):
    prog = ctx.prog
    base = prog.classes.get(TR + "SDPTransformation")
    if base is None: return None, []
    return base, [c for c in prog.classes.values() if base in prog.mro(c) and c is not base]

def is_trivial_body(f):
    b = [s for s in f.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    return all(isinstance(s, ast.Pass) or (isinstance(s, ast.Return) and s.value is None) or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)) for s in b)

def truthy(facts, p):
    """value of a parameter used as a flag on this path: True/False/None"""
    for k, b in facts.items():
        if k is p: return b
        if k.op == "not" and k.a[0] is p: return not b
        if k.op in ("eq", "is") and p in k.a and any(z.op == "c" and cval(z) is True for z in k.a): return b
    return None

def run(ctx):
    ctx.rule("unsolved", "a child without a solution writes nothing into its parent")
    ctx.rule("complete", "a path that writes one of y, S, decompositions of a problem writes all three")
    ctx.rule("source", "each propagated field is derived from the child's solution")
    ctx.rule("affine", "the propagated vector uses the matrices the child problem was built with")
    ctx.rule("equations", "the equations and the child problem of a transformation are the same linear map applied to the offset and to the space of the parent's matrices")
    ctx.rule("chain", "the propagation continues to the problems above")
    ctx.rule("link", "a transformation is registered with both of its ends and recognises them")
    ctx.rule("override", "every transformation that builds a child problem has a propagation method")
    base, cs = classes(ctx)
    if base is None: ctx.unres("override", "SDPTransformation not found"); return
    done = set()
    for c in cs:
        ctx.section(check_class, ctx, base, c, done)
    ctx.section(check_links, ctx, base)
    ctx.section(check_mixin, ctx)
    ctx.section(check_registration, ctx)
    ctx.section(check_affine, ctx, base, cs)
    ctx.section(check_equations, ctx)
    ctx.section(check_spaces, ctx, cs)
    ctx.section(check_masks, ctx, cs)
    ctx.section(check_order, ctx)
    for f in list(ctx.prog.funcs.values()):
        if f.module.name.startswith("triples.sdp.") and "backend" not in f.module.name and f.parent is None: ctx.section(check_offsets, ctx, f)

def check_class(ctx, base, c, done):
    prog = ctx.prog
    init = prog.lookup_method(c, "_init_child_node")
    prop = prog.lookup_method(c, "propagate_to_parent")
    if init is None or init.cls is base: return      # factories and the identity transformation build no child
    if prop is None or (prop.cls is base and is_trivial_body(prop)):
        ctx.bad("override", c.loc, c.qual, "%s builds a child problem but never propagates its solution" % c.name, c.qual); return
    ctx.ok("override", c.loc, c.qual)
    if prop in done: return
    done.add(prop)
    judge_propagation(ctx, prop, A(SELF, "parent_node"), A(SELF, "child_node"))

def run_prop(ctx, f):
    return runf(ctx, "complete", f, merge=False, max_states=1500,
        want=lambda t: t.op == "call" and callee_name(t) in ("register_y", "propagate_to_parent"),
        want_store=lambda t, v: True)

def node_terms(f):
    s = T("p", f.args[0])
    return A(s, "parent_node"), A(s, "child_node")

def judge_propagation(ctx, f, parent, child):
    parent, child = node_terms(f)
    ex = run_prop(ctx, f)
    if ex is None: return
    check_indices(ctx, f, ex)
    if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "vars") for n in ast.walk(f.node)): ctx.unres("complete", "%s writes attributes by name" % f.qual); return
    rec = T("p", "recursive") if "recursive" in f.all_params else None
    SRC = {"y": [A(child, "y"), A(child, "S")], "S": [A(child, "S"), A(child, "y")], "decompositions": [A(child, "decompositions"), A(child, "S")]}
    good = {}
    for x in ex:
        for e in x.events:
            if e.kind == "store" and e.term.op == "attr" and e.term.a[0] is parent and e.term.a[1] in FIELDS and derived(x, e.val, SRC[e.term.a[1]]):
                good.setdefault(e.term.a[1], []).append(e.val)
    for x in ex:
        if x.kind != "return": continue
        stores = [e for e in x.events if e.kind == "store" and e.term.op == "attr" and e.term.a[0] is parent and e.term.a[1] in FIELDS]
        regs = [e for e in x.events if e.kind == "call" and callee_name(e.term) == "register_y" and e.term.a[0].op == "attr" and e.term.a[0].a[0] is parent]
        ups = [e for e in x.events if e.kind == "call" and callee_name(e.term) == "propagate_to_parent" and e.term.a[0].op == "attr" and e.term.a[0].a[0] is parent]
        nul = null_fact(x.facts, child)
        if not stores and not regs:
            if nul is True: ctx.ok("unsolved", x.loc, f.qual)
            elif nul is False and any(child in subterms(k) and not k.op == "isnone" and not (k.op in ("or", "and", "not") and all(z.op == "isnone" for z in k.a)) for k in x.facts): ctx.unres("unsolved", "%s returns without writing under an unrecognised condition" % f.qual); continue
            else:
                if nul is not False and truthy_unknown_guard(x, child): ctx.unres("unsolved", "%s returns without writing under an unrecognised condition" % f.qual); continue
                ctx.bad("unsolved", x.loc, f.qual, "returns without passing the child's solution on although the child may be solved", f.qual + ":drop", path_of(x))
            continue
        first = (stores + regs)[0]
        nulf = null_fact(min(stores + regs, key=lambda e: e.line).facts, child)
        for e in stores + regs:
            n = null_fact(e.facts, child)
            if n is not False:
                ctx.bad("unsolved", e.loc, f.qual, "writes into the parent although the child may have no solution", f.qual + ":null", path_of(x)); break
        else: ctx.ok("unsolved", first.loc, f.qual)
        if regs:
            y = call_kw(regs[-1].term, "y", 0)
            ok = y is not None and derived(x, y, [A(child, "y"), A(child, "S")])
            ctx.decide(ok, "source", regs[-1].loc, f.qual, "the vector registered with the parent does not come from the child's solution", f.qual + ":y", f.qual)
            pr = call_kw(regs[-1].term, "perturb", 2)
            ctx.decide(pr is None or pr is FALSE, "source", regs[-1].loc, f.qual, "a propagated solution is perturbed", f.qual + ":perturb", f.qual)
        else:
            miss = [n for n in FIELDS if not any(e.term.a[1] == n for e in stores)]
            ctx.decide(not miss, "complete", first.loc, f.qual, "writes %s of the parent but leaves %s stale" % (sorted({e.term.a[1] for e in stores}), miss), f.qual + ":missing", f.qual, path_of(x))
            for n in FIELDS:
                es = [e for e in stores if e.term.a[1] == n]
                if not es: continue
                v = es[-1].val
                src = SRC[n]
                ok = derived(x, v, src)
                if not ok and n == "y" and empty_vector(v) and len_zero(x.facts, src, x): ok = True
                if not ok and any(v is w for w in good.get(n, ())): continue   # container filled by a loop that ran zero times
                if not ok and opaque(v): ctx.unres("source", "%s.%s = %s" % (f.qual, n, v)); continue
                if ok and v is not A(child, n) and v in [A(child, m) for m in FIELDS]: ok = False
                if ok and any(z is A(parent, m) for z in subterms(x.st.expand(v)) for m in FIELDS):
                    ctx.bad("source", es[-1].loc, f.qual, "the parent's %s is computed from what the parent held before" % n, "%s:%s:stale" % (f.qual, n), path_of(x)); continue
                ctx.decide(ok, "source", es[-1].loc, f.qual, "the parent's %s is not derived from the child's solution" % n, "%s:%s" % (f.qual, n), f.qual, path_of(x))
                check_slices(ctx, f, x, es[-1], n, parent, child)
        # upward
        r = truthy(x.facts, rec) if rec is not None else True
        if r is False: continue
        ok = False
        last = max([i for i, e in enumerate(x.events) if e in stores or e in regs])
        for i, e in enumerate(x.events):
            if e in ups and i > last: ok = True
            if e in regs:
                a = call_kw(e.term, "propagate_to_parent", 3)
                if a is None or a is rec or a is TRUE: ok = True
        if r is None and rec is not None and not ok:
            ok = False
        ctx.decide(ok, "chain", x.loc, f.qual, "the problems above the parent are not updated", f.qual + ":up", f.qual, path_of(x))

def null_fact(facts, child):
    """is child.y (or its S / decompositions) known to be None on this path"""
    for k, b in facts.items():
        if k.op == "isnone" and k.a[0].op == "attr" and k.a[0].a[0] is child and k.a[0].a[1] in FIELDS: return b
        if k.op == "or" and b is False:
            r = null_fact({t: False for t in k.a}, child)
            if r is not None: return r
    return None

def truthy_unknown_guard(x, child):
    return any(child in subterms(k) for k in x.facts)

def opaque(v):
    return v.op in ("phi",) or any(s.op == "phi" for s in subterms(v))

def empty_vector(v):
    return v.op == "call" and callee_name(v) in ("zeros", "Matrix")

def len_zero(facts, src, x):
    for k, b in facts.items():
        if k.op in ("eq", "lt", "not", "call", "attr", "bool") or k.op == "len":
            ts = [s for s in subterms(k) if s.op == "call" and callee(s) == "builtins.len"]
            if ts and any(z in src for t in ts for z in subterms(t)): return True
            if any(s.op == "attr" and s.a[1] in ("rows", "shape", "dof", "size") for s in subterms(k)): return True
    return False

def derived(x, v, src):
    """does v depend on one of src, directly or through items written into it on this path"""
    taint = set()
    srcs = set(src)
    def tainted(t):
        t2 = x.st.expand(t)
        return any(s in srcs or s in taint for s in subterms(t)) or any(s in srcs or s in taint for s in subterms(t2))
    evs = [e for e in x.events if e.kind == "store" and e.term.op in ("sub", "item")]
    for _ in range(4):
        n = len(taint)
        for e in evs:
            if tainted(e.val):
                b = e.term.a[0]
                while True:
                    taint.add(b)
                    if b.op in ("sub", "item", "bv", "attr"): b = b.a[0]
                    else: break
        if len(taint) == n: break
    if tainted(v): return True
    # loop-built containers: the heap of the final state
    return any(tainted(z) for z in subterms(x.st.expand(v)))

def check_slices(ctx, f, x, e, n, parent, child):
    """a vector cut out of the child's vector is its leading part of the parent's length"""
    v = e.val
    if n != "y" or v.op not in ("sub", "item") or v.a[0] is not A(child, "y") or v.op == "item": return
    k = v.a[1]
    s = k.a[0] if k.op == "tuple" and k.a else k
    if s.op != "slice": return
    lo, hi = s.a[0], s.a[1]
    okl = lo is NONE or (lo.op == "c" and cval(lo) == 0)
    okh = any(z is A(parent, "dof") for z in subterms(hi)) if isinstance(hi, T) and hi is not NONE else False
    if not okl and lo.op == "c" or (okl and hi is NONE) or (not okl and any(z is A(parent, "dof") for z in subterms(lo))):
        ctx.bad("affine", e.loc, f.qual, "the parent's vector is not the leading part of the child's", f.qual + ":slice")
    elif okl and hi.op == "bin" and hi.a[0] in ("Add", "Sub") and A(parent, "dof") in hi.a: ctx.bad("affine", e.loc, f.qual, "the parent's vector has another length than the parent's variables", f.qual + ":slice")
    elif okl and okh: ctx.ok("affine", e.loc, f.qual)
    else: ctx.unres("affine", "%s slice %s" % (f.qual, k))

def check_indices(ctx, f, ex):
    """entries are moved from the reduced index to the original index, not back"""
    parent, child = node_terms(f)
    src = {A(child, n) for n in FIELDS}
    for e in events(ex, lambda e: e.kind == "store" and e.term.op == "sub"):
        v = e.val
        if v.op != "sub" or not any(z in src for z in subterms(v)): continue
        k1, k2 = e.term.a[1], v.a[1]
        i1 = {z.a[0] for z in (k1.a if k1.op == "tuple" else (k1,)) if z.op == "idx"}; b1 = {z.a[0] for z in (k1.a if k1.op == "tuple" else (k1,)) if z.op == "bv"}
        i2 = {z.a[0] for z in (k2.a if k2.op == "tuple" else (k2,)) if z.op == "idx"}; b2 = {z.a[0] for z in (k2.a if k2.op == "tuple" else (k2,)) if z.op == "bv"}
        if not (i1 | b1) or not (i2 | b2): continue
        ctx.decide(not (i1 & b2) and not ((i1 & i2) and not b1 and not b2) , "affine", e.loc, f.qual, "entries of the reduced matrix are written at the reduced position", f.qual + ":index", f.qual)

def check_offsets(ctx, f):
    """a running offset of consecutive slices advances in the loop"""
    for loop in ast.walk(f.node):
        if not isinstance(loop, ast.For): continue
        used = {}
        for n in ast.walk(loop):
            if isinstance(n, ast.Slice) and isinstance(n.lower, ast.Name) and isinstance(n.upper, ast.BinOp) and isinstance(n.upper.op, ast.Add):
                l, r = n.upper.left, n.upper.right
                if isinstance(l, ast.Name) and l.id == n.lower.id: used.setdefault(l.id, (r, n))
        tgt = {t.id for n in ast.walk(loop) if isinstance(n, (ast.For, ast.comprehension)) for t in ast.walk(n.target) if isinstance(t, ast.Name)}
        for name, (w, n) in used.items():
            if name in tgt: continue
            upd = [m for m in ast.walk(loop) if (isinstance(m, ast.AugAssign) and isinstance(m.target, ast.Name) and m.target.id == name) or
                   (isinstance(m, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name and isinstance(t.ctx, ast.Store) for t in ast.walk(ast.Tuple(elts=m.targets))))]
            loc = "%s:%d" % (f.module.rel, n.lower.lineno)
            if not upd: ctx.bad("affine", loc, f.qual, "the offset %s of consecutive parts never advances" % name, f.qual + ":offset:" + name); continue
            m = upd[-1]
            step = m.value if isinstance(m, ast.AugAssign) and isinstance(m.op, ast.Add) else None
            same = step is not None and same_amount(f, step, w)
            if same: ctx.ok("affine", loc, f.qual)
            elif same is False: ctx.bad("affine", loc, f.qual, "the offset %s advances by another amount than the part is long" % name, f.qual + ":offset:" + name)
            else: ctx.unres("affine", "%s offset %s" % (f.qual, name))

def same_amount(f, a, b):
    """are the two expressions the same polynomial (locals assigned once are unfolded, other subexpressions are unknowns)"""
    defs = {}
    for n in ast.walk(f.node):
        if isinstance(n, (ast.For, ast.comprehension)):
            for t in ast.walk(n.target):
                if isinstance(t, ast.Name): defs.setdefault(t.id, []).append(None)
        elif isinstance(n, ast.Assign):
            for t in n.targets:
                for z in ast.walk(t):
                    if isinstance(z, ast.Name) and isinstance(z.ctx, ast.Store): defs.setdefault(z.id, []).append(n.value if isinstance(t, ast.Name) else None)
        elif isinstance(n, (ast.AugAssign, ast.NamedExpr)) and isinstance(n.target, ast.Name): defs.setdefault(n.target.id, []).append(None)
    class Out(Exception): pass
    def val(e, r, d=0):
        if isinstance(e, ast.Constant) and isinstance(e.value, int): return e.value
        if isinstance(e, ast.Name):
            v = defs.get(e.id, [])
            if len(v) == 1 and v[0] is not None and d < 6 and isinstance(v[0], (ast.Name, ast.BinOp, ast.Constant, ast.Call)): return val(v[0], r, d + 1)
        if isinstance(e, ast.BinOp):
            x, y = val(e.left, r, d), val(e.right, r, d)
            if isinstance(e.op, ast.Add): return x + y
            if isinstance(e.op, ast.Sub): return x - y
            if isinstance(e.op, ast.Mult): return x * y
            if isinstance(e.op, ast.Pow) and 0 <= y <= 4: return x ** y
            raise Out()
        if isinstance(e, (ast.Name, ast.Attribute, ast.Subscript)) or (isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len"): return r.setdefault(ast.dump(e), 3 + 7 * len(r))
        raise Out()
    try:
        r = {}
        x, y = val(a, r), val(b, r)
        if x == y: return True
        plain = all(isinstance(z, (ast.Name, ast.BinOp, ast.Constant, ast.Load, ast.operator, ast.Call)) for e in (a, b) for z in ast.walk(e))
        return False if plain else None
    except Out: return None

# ------------------------------------------------------------------ links
def check_links(ctx, base):
    prog = ctx.prog
    f = prog.lookup_method(base, "__init__")
    if f is not None:
        s = T("p", f.args[0])
        ex = runf(ctx, "link", f, merge=False, want=lambda t: t.op == "call" and callee_name(t) in ("append", "insert", "extend", "add"), want_store=lambda t, v: True)
        for x in ex or []:
            if x.kind != "return": continue
            ps = final_attr(x, s, "parent_node"); ch = final_attr(x, s, "child_node")
            if ps is None or ch is None: ctx.unres("link", "ends of the transformation not stored in __init__"); continue
            ctx.decide(ps is T("p", "parent_node") or ps.op == "p", "link", x.loc, f.qual, "the parent is not recorded", "link:parent", f.qual)
            ok = ch.op == "call" and callee_name(ch) == "_init_child_node"
            if not ok: ctx.unres("link", "child %s" % ch)
            regd = set()
            for e in x.events:
                if e.kind == "call" and any(a is s for a in call_args(e.term)):
                    b = e.term.a[0].a[0] if e.term.a[0].op == "attr" else None
                    if b is not None and b.op == "attr" and b.a[1] == "_transforms": regd.add(b.a[0])
            for nm, node in (("parent", ps), ("child", ch)):
                hit = node in regd or A(s, nm + "_node") in regd
                if not regd: ctx.unres("link", "registration not recognised"); break
                ctx.decide(hit, "link", x.loc, f.qual, "the transformation is not registered with its %s" % nm, "link:reg:" + nm, f.qual)
    for nm in ("is_parent", "is_child"):
        g = prog.lookup_method(base, nm)
        if g is None: ctx.unres("link", nm + " not found"); continue
        s, a = T("p", g.args[0]), T("p", g.args[1])
        want = A(s, nm[3:] + "_node"); other = A(s, ("child" if nm == "is_parent" else "parent") + "_node")
        for x in runf(ctx, "link", g) or []:
            v = x.val
            if v.op in ("is", "eq") and set(v.a[:2]) == {a, want}: ctx.ok("link", g.loc, nm)
            elif other in subterms(v) or (v.op == "c"): ctx.bad("link", x.loc, g.qual, "%s does not compare with the %s" % (nm, nm[3:]), "link:" + nm)
            else: ctx.unres("link", "%s returns %s" % (nm, v))

def final_attr(x, s, n):
    return x.st.attrs.get((s, n))

# ------------------------------------------------------------------ mixin
def check_mixin(ctx):
    prog = ctx.prog
    for nm, pred, node in (("propagate_to_parent", "is_child", None), ("parents", "is_child", "parent_node"), ("children", "is_parent", "child_node"), ("propagate_to_child", "is_parent", None)):
        f = find(ctx, "chain", TR + "SDPTransformMixin." + nm, quiet=nm == "propagate_to_child")
        if f is None: continue
        s = T("p", f.args[0])
        tr = A(s, "_transforms")
        ex = runf(ctx, "chain", f, merge=False, want=lambda t: t.op == "call" and callee_name(t) == nm)
        if ex is None: continue
        if node is None:
            evs = events(ex, lambda e: e.kind == "call")
            if not evs:
                # comprehension / any other spelling
                calls = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == nm]
                if calls: ctx.unres("chain", "%s: iteration not recognised" % f.qual)
                else: ctx.bad("chain", f.loc, f.qual, "%s does not forward to any transformation" % nm, f.qual + ":none")
                continue
            for e in evs:
                r = e.term.a[0].a[0]
                if r.op != "bv": ctx.unres("chain", "%s receiver %s" % (f.qual, r)); continue
                it = unwrap(r.a[0], ("tuple", "list", "iter", "reversed", "copy"))
                if it.op == "comp":    # iterating over an already filtered list
                    conds = [(c, True) for c in it.a[3]]; src = it.a[2]; el = T("bv", src)
                else: conds = list(e.facts.items()); src = it; el = r
                if src is A(s, "parents") or src is A(s, "children"): ctx.unres("chain", "%s iterates %s" % (f.qual, src)); continue
                ctx.decide(src is tr, "chain", e.loc, f.qual, "only part of the transformations is followed (%s)" % src, f.qual + ":iter", f.qual)
                ok = [b for k, b in conds if k.op == "call" and callee_name(k) in ("is_child", "is_parent") and k.a[0].a[0] is el]
                good = [b for k, b in conds if k.op == "call" and callee_name(k) == pred and k.a[0].a[0] is el and s in (list(call_args(k)) + [w for _, w in k.a[2]])]
                isn = [(k, b) for k, b in conds if k.op in ("is", "eq") and s in k.a]
                if isn and not ok: ctx.unres("chain", "%s guard %s" % (f.qual, isn)); continue
                ctx.decide(good == [True], "chain", e.loc, f.qual, "the transformations followed are not those the problem is the %s of" % pred[3:], f.qual + ":guard", f.qual)
                a = call_kw(e.term, "recursive", 0)
                if nm == "propagate_to_parent" and a is not None and a is not T("p", "recursive") and a is not TRUE:
                    ctx.bad("chain", e.loc, f.qual, "recursion flag is not passed on", f.qual + ":rec")
            # every iteration is taken: no exit from inside the loop
            for n in ast.walk(f.node):
                if isinstance(n, (ast.Break,)) : ctx.bad("chain", "%s:%d" % (f.module.rel, n.lineno), f.qual, "stops after the first transformation", f.qual + ":break")
                if isinstance(n, ast.For):
                    for r in ast.walk(n):
                        if isinstance(r, ast.Return): ctx.bad("chain", "%s:%d" % (f.module.rel, r.lineno), f.qual, "stops after the first transformation", f.qual + ":break"); break
        else:
            for x in ex:
                v = x.st.expand(x.val)
                el = elems(v)
                if not el: ctx.unres("chain", "%s returns %s" % (f.qual, v)); continue
                for t, it, conds in el:
                    if it is None: continue
                    ctx.decide(it is tr, "chain", x.loc, f.qual, "only part of the transformations is listed", f.qual + ":iter", f.qual)
                    if t.op == "attr" and t.a[1] in ("parent_node", "child_node"): ctx.decide(t.a[1] == node, "chain", x.loc, f.qual, "lists the wrong end of the transformation", f.qual + ":end", f.qual)
                    cn = [callee_name(c) for c in conds if c.op == "call"]
                    if cn: ctx.decide(pred in cn, "chain", x.loc, f.qual, "lists transformations of the wrong direction", f.qual + ":pred", f.qual)

# ------------------------------------------------------------------ solve / register_y
def check_registration(ctx):
    prog = ctx.prog
    AB = "triples.sdp.abstract.SDPProblemBase."
    basep = prog.classes.get("triples.sdp.abstract.SDPProblemBase")
    # every method of a problem class that writes one of the fields writes all of them
    fs = []
    for f in prog.funcs.values():
        if f.cls is None or basep is None or basep not in prog.mro(f.cls) or f.parent is not None: continue
        if any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in FIELDS for n in ast.walk(f.node)): fs.append(f)
    for f in fs:
        if is_new(f): continue
        s = T("p", f.args[0])
        ex = runf(ctx, "complete", f, merge=False, max_states=1500, want=lambda t: t.op == "call" and callee_name(t) in ("propagate_to_parent", "_solve_from_multiple_configs", "S_from_y"), want_store=lambda t, v: t.op == "attr")
        for x in ex or []:
            st = [e for e in x.events if e.kind == "store" and e.term.a[0] is s and e.term.a[1] in FIELDS]
            if not st: continue
            if x.kind != "return": 
                continue
            names = {e.term.a[1] for e in st}
            ctx.decide(names == set(FIELDS), "complete", st[0].loc, f.qual, "writes %s but not %s" % (sorted(names), sorted(set(FIELDS) - names)), f.qual, f.qual, path_of(x))
            if f.name in ("solve", "register_y"):
                flag = T("p", "propagate_to_parent")
                r = truthy(x.facts, flag)
                if r is False: continue
                ups = [i for i, e in enumerate(x.events) if e.kind == "call" and callee_name(e.term) == "propagate_to_parent"]
                lasts = max(i for i, e in enumerate(x.events) if e in st)
                ctx.decide(any(i > lasts for i in ups), "chain", x.loc, f.qual, "a new solution is not propagated after it was recorded", f.qual + ":up", f.qual, path_of(x))
                for i in ups:
                    a = call_kw(x.events[i].term, "recursive", 0)
                    if a is FALSE: ctx.bad("chain", x.events[i].loc, f.qual, "only the direct parent is updated", f.qual + ":rec")
        if f.name == "solve": check_solve(ctx, f, ex, s)
    # a solution found by a problem further down is passed up
    for f in prog.funcs.values():
        if f.cls is None or basep is None or basep not in prog.mro(f.cls) or f.parent is not None or f.name != "solve": continue
        flag = T("p", "propagate_to_parent")
        if flag.a[0] not in f.all_params: continue
        for e in events(runf(ctx, "chain", f, max_states=1500, want=lambda t: t.op == "call" and callee_name(t) == "solve") or [], lambda e: e.kind == "call"):
            a = dict(e.term.a[2]).get("propagate_to_parent")
            if a is None: continue
            if a is FALSE or a is flag or a is TRUE: ctx.decide(a is not FALSE, "chain", e.loc, f.qual, "a solution of the reduced problem is not passed up although that is asked for", f.qual + ":child", f.qual)
            else: ctx.unres("chain", "%s: propagate_to_parent=%s" % (e.loc, a))

def check_solve(ctx, f, ex, s):
    for x in ex or []:
        sol = [e for e in x.events if e.kind == "call" and callee_name(e.term) == "_solve_from_multiple_configs"]
        if not sol: continue
        t = sol[-1].term
        st = [e for e in x.events if e.kind == "store" and e.term.a[0] is s and e.term.a[1] in FIELDS]
        nul = x.facts.get(T("isnone", t))
        if st:
            bad = [e for e in st if e.facts.get(T("isnone", t)) is not False]
            ctx.decide(not bad, "unsolved", st[0].loc, f.qual, "a failed solve overwrites the recorded solution", f.qual + ":null", f.qual)
            for e in st:
                v = T("both", e.val, x.st.expand(e.val))
                i0, i1 = T("item", t, 0), T("item", t, 1)
                part = {"y": i0, "S": i1, "decompositions": i1}[e.term.a[1]]
                own = [z for z in subterms(v) if z.op == "attr" and z.a[0] is s]
                if not any(z in (i0, i1) or z is t for z in subterms(v)) and own:
                    ctx.bad("source", e.loc, f.qual, "%s is taken from %s instead of the solution found" % (e.term.a[1], own[0]), f.qual + ":own:" + e.term.a[1]); continue
                if not any(z in (i0, i1) for z in subterms(v)): ctx.unres("source", "%s %s = %s" % (f.qual, e.term.a[1], v)); continue
                ctx.decide(part in list(subterms(v)), "source", e.loc, f.qual, "%s is taken from the wrong part of the solution" % e.term.a[1], f.qual + ":" + e.term.a[1], f.qual)
        elif nul is False and x.kind == "return":
            ctx.bad("complete", x.loc, f.qual, "a solution is found but not recorded", f.qual + ":lost")

# ------------------------------------------------------------------ affine maps
def check_affine(ctx, base, cs):
    """vector = M z + v: M multiplies the parent's space in the child's space, v in its offset"""
    prog = ctx.prog
    for c in cs:
        prop = prog.lookup_method(c, "propagate_to_parent"); init = prog.lookup_method(c, "_init_child_node")
        if init is None or init.cls is base or prop is None: continue
        check_blocks(ctx, c, init)
        parent, child = node_terms(prop)
        ex = run_prop(ctx, prop)
        maps = set()
        for x in ex or []:
            for e in x.events:
                v = None
                if e.kind == "store" and e.term.op == "attr" and e.term.a[0] is parent and e.term.a[1] == "y": v = e.val
                if e.kind == "call" and callee_name(e.term) == "register_y": v = call_kw(e.term, "y", 0)
                if v is None: continue
                m = affine(v, A(child, "y"))
                if m == "partial": ctx.bad("affine", e.loc, prop.qual, "the offset of the transformed vector is lost", prop.qual + ":offset"); continue
                if m is not None: maps.add((m, e))
        if not maps: continue
        s2 = T("p", init.args[0])
        # what __init__ stores before the child is built, and what the child is built from
        attrs = {}
        ini = prog.lookup_method(c, "__init__")
        argmap = {}
        if ini is not None and ini.cls is not base:
            for x in runf(ctx, "affine", ini, want=lambda t: t.op == "call" and callee_name(t) == "__init__", want_store=lambda t, v: True) or []:
                if x.kind != "return": continue
                for (b, n), v in x.st.attrs.items():
                    if b is T("p", ini.args[0]): attrs[n] = v
                for e in x.events:
                    if e.kind == "call" and callee_name(e.term) == "__init__":
                        pos = [a for a in list(call_args(e.term)) + [w for _, w in e.term.a[2]] if a.op == "p" and a.a[0] not in ("self", "parent_node")]
                        for nm, a in zip(init.args[1:], pos): argmap[a] = T("p", nm)
        for x in runf(ctx, "affine", init, max_states=800, merge=False, want_store=lambda t, v: True, want=lambda t: t.op == "call" and callee_name(t) in ("_create_dual_problem", "SDPProblem")) or []:
            if x.kind != "return": continue
            st = dict(attrs)
            for k, v in list(st.items()): st[k] = argmap.get(v, v)
            for (b, n), v in x.st.attrs.items():
                if b is s2 and isinstance(n, str): st[n] = v
            pairs = []
            for e in x.events:
                if e.kind == "call":
                    for a in list(call_args(e.term)) + [w for _, w in e.term.a[2]]:
                        for el in elems_kv(x.st.expand(a)): pairs.append(el)
            for (m, v), e in maps:
                if m not in st or v not in st: ctx.unres("affine", "%s: %s, %s not stored" % (c.qual, m, v)); continue
                mt, vt = st[m], st[v]
                for x0, sp in pairs:
                    fx, fs = set(subterms(x0)), set(subterms(sp))
                    if mt not in fs and mt not in fx and vt not in fs and vt not in fx: ctx.unres("affine", "%s: child data %s" % (c.qual, x0)); continue
                    ok = mt in fs and vt in fx and vt not in fs and mt not in fx
                    if ok:
                        EXP[0] = x.st.expand
                        judge_child(ctx, c, e, x0, sp, mt, vt)
                    ctx.decide(ok, "affine", e.loc, c.qual, "the vector is propagated with other matrices than the child was built with", c.qual + ":affine", "%s: y = %s z + %s" % (c.name, m, v))

def elems_kv(t):
    out = []
    if t.op == "dict":
        for k in t.a:
            kv = k.a[1] if k.op == "each" else k
            if kv.op == "kv" and kv.a[1].op == "tuple" and len(kv.a[1].a) == 2: out.append(kv.a[1].a)
    return out

def affine(v, y):
    """v = self.M (*|@) y + self.b -> (M, b)"""
    def attr(t): return t.a[1] if t.op == "attr" and t.a[0].op == "p" else None
    def lin(t):
        if t.op == "bin" and t.a[0] in ("Mult", "MatMult") and t.a[2] is y: return attr(t.a[1])
        if t.op == "call" and callee_name(t) in ("matmul", "dot") and len(call_args(t)) + len(t.a[2]) >= 2:
            a = list(call_args(t)) + [w for _, w in t.a[2]]
            if a[1] is y: return attr(a[0])
        return None
    if v.op == "bin" and v.a[0] == "Add":
        for p, q in ((v.a[1], v.a[2]), (v.a[2], v.a[1])):
            if lin(p) and attr(q): return (lin(p), attr(q))
    if lin(v): return "partial"
    return None

# ------------------------------------------------------------------ linear maps of (offset, space)
class Unk(Exception): pass
X0, SP = "offset", "space"

def base_part(t):
    """the offset (0) or space (1) of a matrix of the parent problem"""
    if t.op != "item" or t.a[1] not in (0, 1): return None
    b = t.a[0]
    if b.op == "sub" and b.a[0].op == "attr" and b.a[0].a[1] == "_x0_and_space": return (X0, SP)[t.a[1]]
    if b.op == "item" and b.a[1] == 1 and b.a[0].op == "bv" and any(z.op == "attr" and z.a[1] == "_x0_and_space" for z in subterms(b)): return (X0, SP)[t.a[1]]
    if b.op == "bv" and any(z.op == "attr" and z.a[1] == "values" for z in subterms(b)) and any(z.op == "attr" and z.a[1] == "_x0_and_space" for z in subterms(b)): return (X0, SP)[t.a[1]]
    return None

def has_base(t):
    """depends on the offset or space other than through its shape"""
    if base_part(t): return True
    if t.op == "attr" and t.a[1] in ("shape", "rows", "cols", "free_symbols"): return False
    if t.op == "call" and callee_name(t) in ("solve_undetermined_linear", "length_of_mat", "len"): return False
    def kids(xs):
        for y in xs:
            if isinstance(y, T): yield y
            elif isinstance(y, tuple): yield from kids(y)
    return t.op not in ("bv", "idx") and any(has_base(y) for y in kids(t.a))

def allargs(t): return list(call_args(t)) + [w for _, w in t.a[2]]

EXP = [lambda t: t]
def nf(t, d=0):
    """linear normal form {(left operations, offset|space, right factors): coefficient}"""
    if d > 40: raise Unk
    b = base_part(t)
    if b: return {((), b, ()): 1}
    def mapkey(r, g):
        out = {}
        for k, c in r.items():
            k = g(k); out[k] = out.get(k, 0) + c
        return out
    if t.op == "neg": return {k: -c for k, c in nf(t.a[0], d + 1).items()}
    if t.op == "bin":
        o, a, b = t.a
        if o in ("Add", "Sub"):
            out = dict(nf(a, d + 1))
            for k, c in nf(b, d + 1).items(): out[k] = out.get(k, 0) + (c if o == "Add" else -c)
            return {k: c for k, c in out.items() if c}
        if o in ("Mult", "MatMult"):
            ha, hb = has_base(a), has_base(b)
            if ha and not hb: return mapkey(nf(a, d + 1), lambda k: rmul(k, b))
            if hb and not ha:
                if a.op == "c" and isinstance(cval(a), int): return {k: c * cval(a) for k, c in nf(b, d + 1).items()}
                return mapkey(nf(b, d + 1), lambda k: ((("left", a),) + k[0], k[1], k[2]))
        raise Unk
    if t.op == "attr" and t.a[1] == "T": return mapkey(nf(t.a[0], d + 1), transpose)
    if t.op == "sub":
        i = t.a[1]
        if i.op == "tuple":
            full = lambda z: (z.op == "slice" and all(y is NONE for y in z.a)) or (z.op == "c" and cval(z) == 0)
            if len(i.a) != 2 or not full(i.a[1]): raise Unk
            i = i.a[0]
        i = EXP[0](i)
        return mapkey(nf(t.a[0], d + 1), lambda k: ((("rows", i),) + k[0], k[1], k[2]))
    if t.op == "call":
        n, a = callee_name(t), allargs(t)
        if n == "symmetric_bilinear_multiple" and len(a) >= 2: return mapkey(nf(a[1], d + 1), lambda k: ((("sym", a[0]),) + k[0], k[1], k[2]))
        if n == "symmetric_bilinear" and len(a) >= 2: return mapkey(nf(a[1], d + 1), lambda k: ((("sym", a[0]),) + k[0], k[1], k[2]))
        if n == "matmul_multiple" and len(a) >= 2 and not has_base(a[1]): return mapkey(nf(a[0], d + 1), lambda k: ((("mul", a[1]),) + k[0], k[1], k[2]))
        if n in ("matmul", "dot", "multiply") and len(a) >= 2 and not has_base(a[1]): return mapkey(nf(a[0], d + 1), lambda k: rmul(k, a[1]))
        if n == "matmul" and len(a) >= 2 and not has_base(a[0]) and has_base(a[1]): return mapkey(nf(a[1], d + 1), lambda k: ((("left", a[0]),) + k[0], k[1], k[2]))
        if n == "vec2mat" and a: return mapkey(nf(a[0], d + 1), lambda k: ((("mat",),) + k[0], k[1], k[2]))
        if n == "extract" and t.a[0].op == "attr" and len(a) == 2: return mapkey(nf(t.a[0].a[0], d + 1), lambda k: ((("rows", EXP[0](a[0])),) + k[0], k[1], k[2]))
        if n in ("list", "tuple", "Matrix", "copy", "as_mutable", "as_immutable", "ImmutableMatrix", "doit") and len(a) <= 1: return nf(a[0] if a else t.a[0].a[0], d + 1)
    raise Unk

def rmul(k, b):
    ops, base, r = k
    if ops and ops[0] == ("mat",): return ((("mul", b),) + ops[1:], base, r)
    return (ops, base, r + (b,))

def transpose(k):
    ops, base, r = k
    if r: raise Unk
    # "sym"/"mul" of the transposed space: one row per variable, transposed back afterwards
    if len(ops) >= 2 and ops[0][0] in ("sym", "mul") and ops[1] == ("T",): return ((ops[0],) + ops[2:], base, r)
    if ops and ops[0] == ("T",): return (ops[1:], base, r)
    return ((("T",),) + ops, base, r)

def stacked(st, t):
    """(elements, sign) of a stacked matrix: [(term, source, conditions)]"""
    sign = 1
    for _ in range(6):
        t = st.expand(t)
        if t.op == "neg": sign, t = -sign, t.a[0]; continue
        if t.op == "bin" and t.a[0] == "Mult" and any(z.op in ("c", "neg") for z in t.a[1:]):
            for z, w in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
                v = -1 if (z.op == "neg" and z.a[0].op == "c" and cval(z.a[0]) == 1) or (z.op == "c" and cval(z) == -1) else None
                if v: sign, t = -sign, w; break
            else: return None
            continue
        break
    if t.op == "call" and callee_name(t) in ("vstack", "Matrix", "ImmutableMatrix") and len(t.a[1]) == 1:
        a = st.expand(t.a[1][0])
        if a.op == "star": a = st.expand(a.a[0])
        el = []
        if a.op in ("list", "tuple"):
            for y in a.a:
                if y.op == "each": el.append((y.a[1], y.a[0], y.a[2:]))
                elif y.op == "ext": el.append((y.a[0], None, ()))
                else: el.append((y, None, ()))
            return el, sign
        if a.op == "comp": return [(a.a[1], a.a[2], a.a[3])], sign
    return None

def show_nf(r):
    def op(o): return o[0] if len(o) == 1 else "%s(%s)" % (o[0], str(o[1])[:60])
    return " + ".join("%+d %s %s%s" % (c, ".".join(op(o) for o in k[0]), k[1], "".join(" * " + str(z)[:40] for z in k[2])) for k, c in r.items())

def check_equations(ctx):
    """solve_undetermined_linear(M, B): M is L(space), B is -L(offset) for one linear map L"""
    prog = ctx.prog
    for f in prog.funcs.values():
        if not f.module.name.startswith("triples.sdp.") or f.parent is not None or f.module.name == "triples.sdp.arithmetic": continue
        if not any(isinstance(n, ast.Attribute) and n.attr == "_x0_and_space" for n in ast.walk(f.node)): continue
        if not any(isinstance(n, ast.Name) and n.id in ("solve_undetermined_linear", "SDPVectorTransform") for n in ast.walk(f.node)): continue
        ex = runf(ctx, "equations", f, merge=False, max_states=1500, want=lambda t: t.op == "call" and callee_name(t) in ("solve_undetermined_linear", "from_equations"))
        seen = set()
        for x in ex or []:
            for e in x.events:
                if e.kind != "call": continue
                a = allargs(e.term)
                if callee_name(e.term) == "from_equations": a = [w for w in a if w.op != "p"]
                if len(a) < 2: continue
                M, B = stacked(x.st, a[0]), stacked(x.st, a[1])
                if M is None or B is None: continue
                key = str((M, B))
                if key in seen: continue
                seen.add(key)
                (m, sm), (b, sb) = M, B
                EXP[0] = x.st.expand
                if not m or not b: continue
                if len(m) != len(b): ctx.unres("equations", "%s: %d equations, %d right-hand sides" % (e.loc, len(m), len(b))); continue
                for (tm, im, cm), (tb, ib, cb) in zip(m, b):
                    try: rm, rb = nf(tm), nf(tb)
                    except Unk: ctx.unres("equations", "%s: %s / %s" % (e.loc, str(tm)[:80], str(tb)[:80])); continue
                    if any(k[1] != SP for k in rm) or any(k[1] != X0 for k in rb): ctx.bad("equations", e.loc, f.qual, "the equations are not built from the space and the offset of the same matrix", f.qual + ":base"); continue
                    left = {(k[0], k[2]): sm * c for k, c in rm.items()}
                    right = {(k[0], k[2]): -sb * c for k, c in rb.items()}
                    if left != right and not comparable(rm, rb): ctx.unres("equations", "%s: %s / %s" % (e.loc, show_nf(rm), show_nf(rb))); continue
                    ctx.decide(left == right, "equations", e.loc, f.qual, "the equations force L(space) y = -L(offset) with one map L (%s)" % show_nf(rm) if left == right else "the equations solved are not those of the matrix: the space gives %s but the right-hand side %s" % (show_nf(rm), show_nf({k: sb * c for k, c in rb.items()})), f.qual + ":rhs", f.qual, path_of(x))
                    used = [o[1] for k in rm for o in k[0] if len(o) > 1]
                    for u in used:
                        ats = {z.a[1] for z in subterms(u) if z.op == "attr" and z.a[1] in ("_columnspace", "_nullspace")}
                        if ats: ctx.decide("_nullspace" in ats, "equations", e.loc, f.qual, "the equations kill the nullspace" if "_nullspace" in ats else "the equations kill the column space instead of the nullspace", f.qual + ":which", f.qual)

KNOWN_OPS = {"rows", "sym", "mul", "left", "T", "mat"}
def comparable(a, b):
    """both forms use operations of the same kinds (so that a difference is a difference)"""
    kinds = lambda r: {tuple(o[0] for o in k[0]) for k in r}
    return kinds(a) == kinds(b)

def judge_child(ctx, c, e, x0, sp, mt, vt):
    """child = (L(offset) + L(space) v, L(space) M)"""
    try: rx, rs = nf(x0), nf(sp)
    except Unk: ctx.unres("equations", "%s: child data %s" % (c.qual, str(x0)[:100])); return
    ls = [k for k in rs if k[1] == SP]
    if len(rs) == 1 and len(ls) == 1 and ls[0][2] == (mt,):
        L = ls[0][0]
        want = {(L, X0, ()): rs[ls[0]], (L, SP, (vt,)): rs[ls[0]]}
        ok = rx == want
        if not ok and {tuple(o[0] for o in k[0]) for k in rx} != {tuple(o[0] for o in L)}: ctx.unres("equations", "%s: %s / %s" % (c.qual, show_nf(rx), show_nf(rs))); return
        ctx.decide(ok, "equations", e.loc, c.qual, "the child's offset and space are one linear map of the parent's" if ok else "the child's offset is %s although its space is %s" % (show_nf(rx), show_nf(rs)), c.qual + ":child", c.name)
        for o in L:
            ats = {z.a[1] for z in subterms(o[1]) if z.op == "attr" and z.a[1] in ("_columnspace", "_nullspace")} if len(o) > 1 else ()
            if ats: ctx.decide("_columnspace" in ats, "equations", e.loc, c.qual, "the child lives on the column space" if "_columnspace" in ats else "the child is built on the nullspace instead of the column space", c.qual + ":which", c.name)
    else: ctx.unres("equations", "%s: child space %s" % (c.qual, show_nf(rs)))
    for t, i, n in ((mt, 1, "matrix"), (vt, 0, "offset")):
        if t.op == "item" and t.a[0].op == "call" and callee_name(t.a[0]) == "solve_undetermined_linear":
            ctx.decide(t.a[1] == i, "equations", e.loc, c.qual, "the %s of the map is the %s of the solution" % (n, ("particular part", "homogeneous part")[i]) if t.a[1] == i else "particular and homogeneous solution are exchanged", c.qual + ":parts", c.name)

def judge_blocks(ctx, c, e, t):
    """blocks are left out only if they are empty; the parent's variables come first"""
    if t.op == "dict":
        for k in t.a:
            if k.op != "each": continue
            kv, conds = k.a[1], k.a[2:]
            if kv.op != "kv" or kv.a[1].op != "tuple" or len(kv.a[1].a) != 2: continue
            try: used = [o[1] for q in nf(kv.a[1].a[1]) for o in q[0] if len(o) > 1]
            except Unk: used = []
            for q in conds:
                cs = [z for z in subterms(q) if z.op == "call" and callee_name(z) == "is_empty_matrix"]
                for z in cs:
                    m = allargs(z)[0] if allargs(z) else None
                    ats = {y.a[1] for y in subterms(m) if y.op == "attr" and y.a[1] in ("_columnspace", "_nullspace")} if m is not None else set()
                    if ats: ctx.decide("_nullspace" not in ats, "equations", e.loc, c.qual, "a block is left out only if its column space is empty" if "_nullspace" not in ats else "a block is left out of the reduced problem although its column space is not empty", c.qual + ":block", c.name)
            s2 = kv.a[1].a[1]
            if s2.op == "call" and callee_name(s2) == "hstack" and any(base_part(z) for z in s2.a[1]):
                i = [j for j, z in enumerate(s2.a[1]) if base_part(z) == SP]
                ctx.decide(i == [0], "equations", e.loc, c.qual, "the parent's variables are the leading ones of the child" if i == [0] else "the new variables come before the parent's, whose vector is cut from the front", c.qual + ":lead", c.name)
    elif t.op == "bin" and t.a[0] == "Add":
        isp = lambda z: any(y.op == "attr" and y.a[1] == "free_symbols" and y.a[0].op == "attr" and y.a[0].a[1] == "parent_node" for y in subterms(z))
        inner = lambda z: z.op == "call" and callee_name(z) == "list"
        a, b = t.a[1], t.a[2]
        if a.op == "attr" and isp(a) and inner(b): ctx.ok("equations", e.loc, "the parent's variables are named first")
        elif b.op == "attr" and isp(b) and inner(a): ctx.bad("equations", e.loc, c.qual, "the new variables are named before the parent's, whose vector is cut from the front", c.qual + ":names")

def check_blocks(ctx, c, init):
    for x in runf(ctx, "equations", init, max_states=800, merge=False, want_store=lambda t, v: True, want=lambda t: t.op == "call" and callee_name(t) in ("_create_dual_problem", "SDPProblem", "__class__")) or []:
        if x.kind != "return": continue
        for e in x.events:
            if e.kind == "call":
                for a in list(call_args(e.term)) + [w for _, w in e.term.a[2]]: judge_blocks(ctx, c, e, x.st.expand(a))

def check_spaces(ctx, cs):
    """_columnspace and _nullspace are what their names say; y = A z + b is built from the right parts"""
    prog = ctx.prog
    for c in cs:
        ini = c.methods.get("__init__") if hasattr(c, "methods") else None
        if ini is None: continue
        for x in runf(ctx, "equations", ini, merge=False, want_store=lambda t, v: True) or []:
            if x.kind != "return": continue
            s = T("p", ini.args[0])
            for nm, other in (("_columnspace", "nullspace"), ("_nullspace", "columnspace")):
                v = x.st.attrs.get((s, nm))
                if v is None: continue
                v = x.st.expand(v)
                own = nm[1:]
                ps = {z.a[0] for z in subterms(v) if z.op == "p" and z.a[0] in ("columnspace", "nullspace")}
                ns = [z for z in subterms(v) if z.op == "call" and (callee_name(z) in ("solve_nullspace", "nullspace", "_perp") or (z.a[0].op == "fn" and str(z.a[0].a[0]).endswith("_perp")))]
                if not ps: continue
                if ps == {own} and not ns: ctx.ok("equations", x.loc, "%s comes from the argument of that name" % nm)
                elif ps == {other} and ns: ctx.ok("equations", x.loc, "%s is the orthogonal complement of the other" % nm)
                elif ps == {other} and not ns: ctx.bad("equations", x.loc, ini.qual, "%s is set to the %s" % (nm, other), c.qual + nm, path_of(x))
                elif ps == {own} and ns and not any(p in x.facts for p in ()): ctx.unres("equations", "%s: %s = %s" % (ini.qual, nm, str(v)[:80]))
    for f in prog.funcs.values():
        if not f.module.name.startswith("triples.sdp.") or f.parent is not None: continue
        if not any(isinstance(n, ast.Name) and n.id == "SDPVectorTransform" for n in ast.walk(f.node)) or not any(isinstance(n, ast.Name) and n.id == "solve_undetermined_linear" for n in ast.walk(f.node)): continue
        for e in events(runf(ctx, "equations", f, want=lambda t: t.op == "call" and callee_name(t) == "SDPVectorTransform") or [], lambda e: e.kind == "call"):
            a = [call_kw(e.term, "A", 1), call_kw(e.term, "b", 2)]
            for t, i in zip(a, (1, 0)):
                if t is not None and t.op == "item" and t.a[0].op == "call" and callee_name(t.a[0]) == "solve_undetermined_linear":
                    ctx.decide(t.a[1] == i, "equations", e.loc, f.qual, "y = (homogeneous part) z + (particular part)" if t.a[1] == i else "particular and homogeneous solution are exchanged", f.qual + ":parts", f.qual)

def check_masks(ctx, cs):
    """masks: the kept rows are all others; entries are copied between the right positions"""
    prog = ctx.prog
    for c in cs:
        ini = c.methods.get("__init__") if hasattr(c, "methods") else None
        if ini is not None:
            for n in ast.walk(ini.node):
                # rows kept: all i of range(m) that are not masked, as comprehension or as loop
                its = []
                if isinstance(n, ast.ListComp) and len(n.generators) == 1 and any(isinstance(q, ast.Compare) and len(q.ops) == 1 and isinstance(q.ops[0], ast.NotIn) for q in n.generators[0].ifs): its = [n.generators[0].iter]
                elif isinstance(n, ast.For) and any(isinstance(q, ast.If) and isinstance(q.test, ast.Compare) and len(q.test.ops) == 1 and isinstance(q.test.ops[0], (ast.NotIn, ast.In)) for q in n.body): its = [n.iter]
                for r in its:
                    if isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == "range":
                        ok = len(r.args) == 1 and not isinstance(r.args[0], ast.BinOp)
                        if len(r.args) == 1: ctx.decide(ok, "equations", "%s:%d" % (ini.module.rel, n.lineno), ini.qual, "the kept rows run over the whole matrix" if ok else "the kept rows do not run over the whole matrix", c.qual + ":rows", c.qual)
        for nm in ("_init_child_node", "propagate_to_parent"):
            f = c.methods.get(nm) if hasattr(c, "methods") else None
            if f is None: continue
            copies = events(runf(ctx, "equations", f, merge=False, max_states=1500, want_store=lambda t, v: True) or [], lambda e: e.kind == "store" and e.term.op == "sub" and e.term.a[1].op == "tuple" and e.val.op == "sub" and e.val.a[1].op == "tuple")
            for e in copies:
                # strides of flattened indices
                def stride(k):
                    return [z.a[1].a[2] if z.a[1].a[1].op in ("bv", "idx", "item", "sub") else z.a[1].a[1] for z in k.a if z.op == "bin" and z.a[0] == "Add" and z.a[1].op == "bin" and z.a[1].a[0] == "Mult"]
                d, s = stride(e.term.a[1]), stride(e.val.a[1])
                if len(d) == len(s) == 1:
                    ln = lambda z: z.op == "call" and callee_name(z) == "len"
                    if ln(d[0]) and not ln(s[0]) or (not ln(d[0]) and d[0] is not s[0]): ctx.ok("equations", e.loc, "reduced and original entries use their own row length")
                    else: ctx.bad("equations", e.loc, f.qual, "entries of the original matrix are read with the row length of the reduced one", f.qual + ":stride", [str(e.val)[:120]])
            for outer in ast.walk(f.node):
                if not isinstance(outer, ast.For): continue
                for inner in outer.body:
                    if not isinstance(inner, ast.For): continue
                    names = [{z.id for z in ast.walk(l.target) if isinstance(z, ast.Name)} for l in (outer, inner)]
                    for q in inner.body:
                        if not isinstance(q, ast.If) or q.orelse or not isinstance(q.test, ast.Compare) or len(q.test.ops) != 1 or not isinstance(q.test.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE, ast.Eq, ast.NotEq)): continue
                        l, r = q.test.left, q.test.comparators[0]
                        if not (isinstance(l, ast.Name) and isinstance(r, ast.Name) and ((l.id in names[0] and r.id in names[1]) or (l.id in names[1] and r.id in names[0]))): continue
                        def key(t): return [z.id if isinstance(z, ast.Name) else None for z in t.slice.elts] if isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Tuple) and len(t.slice.elts) == 2 else None
                        st = [(ast.dump(t.value), key(t)) for m in ast.walk(q) if isinstance(m, ast.Assign) for t in m.targets if key(t)]
                        for base, k in st:
                            if None not in k and (base, k[::-1]) not in st and any(k[0] in ns and k[1] in ms for ns, ms in (names, names[::-1])):
                                ctx.bad("equations", "%s:%d" % (f.module.rel, q.lineno), f.qual, "only part of the entries of the matrix is copied", f.qual + ":part")

def check_order(ctx):
    """parallel lists keep their order"""
    for f in ctx.prog.funcs.values():
        if not f.module.name.startswith("triples.sdp.") or "backend" in f.module.name: continue
        own = [n for b in f.body for n in ast.walk(b)]
        for n in own:
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "zip" and len(n.args) >= 2:
                rev = [a for a in n.args if (isinstance(a, ast.Subscript) and isinstance(a.slice, ast.Slice) and a.slice.step is not None) or (isinstance(a, ast.Call) and isinstance(a.func, ast.Name) and a.func.id in ("reversed", "sorted"))]
                keyed = [a for a in n.args if any(isinstance(z, ast.Attribute) and z.attr in FIELDS for z in ast.walk(a))]
                if keyed and 0 < len(rev) < len(n.args): ctx.bad("source", "%s:%d" % (f.module.rel, n.lineno), f.qual, "matrices and decompositions are paired in different orders", f.qual + ":zip")
                elif keyed: ctx.ok("source", "%s:%d" % (f.module.rel, n.lineno), "matrices and decompositions are paired in the same order")
