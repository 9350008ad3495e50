"""Symmetric sums and products count every term of the group."""
import ast
from sa.util import *
from sa.terms import rewrite

TECHNIQUE = "path-sensitive value-numbering dataflow: result terms matched against a value-preservation grammar, guards checked as branch facts"
EXPLANATION = ("Every result path of the cyclic-expression classes (evaluation, simplification, content extraction, expansion, replacement, "
  "rewriting), of the monomial tables, of the symmetric text forms and of the collectors that pull a factor out of a symmetric sum is computed as a "
  "term. Multiplicities must be the order of the group, partitions of a product's arguments must use every argument once and pull out only "
  "arguments shown invariant, structure-preserving shortcuts must sit under the branch facts that justify them, and invariance tests may answer "
  "yes only after all generators and all entries were compared. Not covered: SymPy's own arithmetic and permutation groups.")

CY = "triples.utils.expression.cyclic."

def is_full(it):
    """does the iterable enumerate the whole group: True / False / None"""
    it = unwrap(it, ("tuple", "list", "enumerate", "iter", "sorted", "set"))
    if it.op == "attr": return {"elements": True, "_elements": True, "generators": False, "args": False}.get(it.a[1])
    if it.op == "call":
        n = callee_name(it)
        if n == "_generate_all_translations":
            f = call_kw(it, "full", 2)
            if f is None or f is TRUE: return True
            return False if f is FALSE else None
        if n in ("generate", "generate_schreier_sims", "generate_dimino", "elements"): return True
        if n in ("coset_transversal", "orbit"): return False
    if it.op == "comp": return None if it.a[3] else is_full(it.a[2])
    if it.op in ("list", "tuple"):
        e = elems(it)
        if e and len(e) == 1 and e[0][1] is not None: return None if e[0][2] else is_full(e[0][1])
    return None

def group_of(it):
    it = unwrap(it, ("tuple", "list", "enumerate", "iter", "sorted", "set"))
    if it.op == "attr": return it.a[0]
    if it.op == "call" and callee_name(it) == "_generate_all_translations": return call_kw(it, "perm", 1)
    if it.op == "call" and it.a[0].op == "attr": return it.a[0].a[0]
    if it.op == "comp": return group_of(it.a[2])
    if it.op in ("list", "tuple"):
        e = elems(it)
        if e and e[0][1] is not None: return group_of(e[0][1])
    return None

def is_order(t, groups):
    """t is the number of elements of one of the groups: True / False(understood, different) / None"""
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "order" and not t.a[1]:
        return t.a[0].a[0] in groups
    if t.op == "call" and callee(t) == "builtins.len" and t.a[1]:
        x = unwrap(t.a[1][0])
        if is_full(x): return group_of(x) in groups
        return False
    if t.op == "call" and callee_name(t) in ("Integer", "S", "int", "sympify") and len(t.a[1]) == 1: return is_order(t.a[1][0], groups)
    if t.op == "attr" and t.a[1] in ("degree", "size"): return False
    if t.op == "c": return False
    if t.op == "bin" and any(is_order(x, groups) for x in t.a[1:]): return False
    return None

def is_cyc_fact(t, el):
    return t.op == "call" and callee_name(t) == "is_cyclic_expr" and el in call_args(t)[:1] + [call_kw(t, "expr", 0)]

def run(ctx):
    R = {}
    def rule(k, text): R[k] = ctx.rule(k, text)
    rule("degenerate", "a base free of the symbols becomes base*|G| (sum) or base**|G| (product)")
    rule("pull-out", "arguments pulled out of a symmetric sum/product are shown invariant, raised to |G| in products, and every argument is used exactly once")
    rule("content", "the content of a symmetric sum is c, of a symmetric product c**|G|")
    rule("expansion", "expansion applies every group element once, as a simultaneous replacement")
    rule("invariance", "an expression counts as invariant only on evidence covering symbols, group and every argument")
    rule("replace", "replacement keeps the symmetric form only under the facts that justify it")
    rule("rewrite", "rewriting to another group divides/merges by group indices only under subgroup and equality facts")
    rule("normalise", "construction chooses a representative within the orbit of the given term")
    rule("monomials", "monomial orbits enumerate the whole group")
    rule("forms", "symmetric text forms divide by the stabiliser order and are used only for invariant polynomials")
    for g in (check_simplify, check_content, check_expansion, check_invariance, check_replace, check_rewrite, check_new, check_monomials, check_forms, check_collect):
        ctx.section(g, ctx)

# ------------------------------------------------------------------ a
def check_simplify(ctx):
    prog = ctx.prog
    for cname in ("CyclicSum", "CyclicProduct"):
        cls = prog.classes.get(CY + cname)
        if cls is None: ctx.unres("pull-out", "class %s not found" % cname); continue
        prod = cname == "CyclicProduct"
        f = prog.lookup_method(cls, "_eval_simplify_")
        d = prog.lookup_method(cls, "_eval_degenerate")
        if f is None or f.cls is not cls: ctx.unres("pull-out", "%s._eval_simplify_ not found" % cname); continue
        bad_iter = []
        def on_loop(fn, node, it, el, s0, results):
            if not (it.op == "attr" and it.a[1] == "args"): return
            for k, s, v, n in results:
                if k not in ("fall", "continue"): continue
                added = [(h, x) for h, items in s.heap.items() for x in items[len(s0.heap.get(h, ())):] if h in s0.heap and any(y is el or (isinstance(y, T) and el in subterms(y)) for y in x)]
                if len(added) != 1: bad_iter.append((fn, node, len(added)))
                loops.append((it, el, {h for h in s.heap if h in s0.heap}))
        loops = []
        it = Interp(prog, inline=inliner("_eval_degenerate"), self_cls=cls, merge=False, want_store=lambda t, v: t.op == "sub")
        it.on_loop = on_loop
        try: ex = it.run(f)
        except Overflow: ctx.unres("pull-out", f.qual); continue
        ctx.count("functions_interpreted"); ctx.count("paths", len(ex))
        for fn, node, n in bad_iter:
            ctx.bad("pull-out", "%s:%d" % (fn.module.rel, node.lineno), f.qual, "an argument of the product is used %d times instead of once" % n, "%s:%s:uses" % (cname, n))
        P = {T("p", "perm"), T("p", f.args[3]) if len(f.args) > 3 else T("p", "perm")}
        expr = T("p", f.args[1]); symb = T("p", f.args[2])
        for x in ex:
            if x.kind != "return": continue
            v = x.st.expand(x.val)
            where, key = x.loc, "%s" % cname
            if v.op == "call" and callee_name(v) in ("Mul", "Pow") and len(v.a[1]) == 2 and expr in v.a[1] and not any(y.op == "star" for y in v.a[1]) and any(is_order(y, P) is not None for y in v.a[1]):
                v = T("bin", "Mult" if callee_name(v) == "Mul" else "Pow", *v.a[1])
            # degenerate
            op = "Pow" if prod else "Mult"
            if v.op == "bin" and v.a[0] in ("Pow", "Mult") and expr in v.a[1:]:
                o = v.a[2] if v.a[1] is expr else v.a[1]
                r = is_order(o, P)
                if v.a[0] != op or (v.a[0] == "Pow" and v.a[1] is not expr): r = False
                if r is None: ctx.unres("degenerate", "%s %s" % (cname, v)); continue
                ctx.decide(r, "degenerate", where, f.qual, "a base without the symbols becomes %s" % v, key + ":deg", cname)
                just = any(k.op == "call" and b and ((callee(k) == "builtins.isinstance" and k.a[1][0] is expr and "Number" in repr(k.a[1][1])) or callee_name(k) in ("isdisjoint", "is_constant")) for k, b in x.facts.items())
                ctx.decide(just, "degenerate", where, f.qual, "a base that may contain the symbols is treated as free of them", key + ":degfact", cname, path=path_of(x))
                continue
            if v is expr: ctx.bad("degenerate", where, f.qual, "the bare term is returned for the whole sum/product", key + ":bare"); continue
            if v.op == "call" and callee_name(v) in ("__new__", "_from_args"):
                a = call_args(v)
                ctx.decide(expr in a and symb in a and any(p in a for p in P), "pull-out", where, f.qual, "the object is built from %s" % v, key + ":raw", cname)
                continue
            fs = split_mul(v)
            def is_cls(t): return t.op == "call" and (t.a[0] is T("p", f.args[0]) or callee_name(t) == cname)
            inside, outside, unknown = [], [], False
            for t in fs:
                if t.op == "star":
                    r = elems(t.a[0])
                    if r is None: unknown = True; continue
                    for el, itb, cs in r:
                        if is_cls(el): inside.append((call_args(el)[0], itb, cs, el))
                        else: outside.append((el, itb, cs))
                elif is_cls(t):
                    arg = call_args(t)[0]
                    if arg.op == "call" and (callee_name(arg) == "Mul" or (arg.a[0].op == "attr" and arg.a[0].a[1] == "func")):
                        r = star_elems(arg.a[1])
                        if r is None: unknown = True; continue
                        for el, itb, cs in r: inside.append((el, itb, cs, t))
                        if not r: inside.append((None, None, (), t))
                    else: inside.append((arg, None, (), t))
                elif t.op == "c" and cval(t) == 1: pass
                else: outside.append((t, None, ()))
            if any(e.kind == "store" for y in ex for e in y.events): unknown = True
            if unknown or not (inside or outside): ctx.unres("pull-out", "%s: result %s" % (cname, v)); continue
            for arg, itb, cs, c in inside:
                ctx.decide(symb in call_args(c) and any(p in call_args(c) for p in P), "pull-out", where, f.qual, "the inner object does not use the symbols and the group of the outer one", key + ":inner", cname)
            for el, itb, cs in outside:
                e = base_of(el, itb)
                core, ex_ok = el, None
                if prod:
                    if el.op == "bin" and el.a[0] == "Pow":
                        core = el.a[1]; ex_ok = is_order(el.a[2], P)
                    else: ex_ok = False
                    if ex_ok is None: ctx.unres("pull-out", "%s exponent %s" % (cname, el)); continue
                    ctx.decide(ex_ok, "pull-out", where, f.qual, "an argument pulled out of the product is raised to %s" % (el.a[2] if core is not el else 1), key + ":exponent", cname)
                just = any(is_cyc_fact(c, core) for c in conds_flat(el, cs)) or any(is_cyc_fact(k, core) and b for k, b in x.facts.items()) or cond_in_src(itb, core)
                ctx.decide(just, "pull-out", where, f.qual, "the factor %s is pulled out without having been shown invariant" % core, key + ":inv", cname, path=path_of(x))
                for k in conds_flat(el, cs):
                    if is_cyc_fact(k, core): judge_cyc_call(ctx, k, symb, P, where, f, key)
            # complement of comprehensions
            ins = [(e, i, c) for e, i, c, _ in inside if i is not None]
            outs = [(e, i, c) for e, i, c in outside if i is not None]
            if ins and outs and not loops:
                ci, co = src_conds(ins[0]), src_conds(outs[0])
                if ci is not None and co is not None and len(ci) == 1 and len(co) == 1:
                    a, b = list(ci)[0], list(co)[0]
                    comp = a is (b.a[0] if b.op == "not" else T("not", b))
                    if not comp and not all(is_cyc_any(z) for z in (a, b)) and not (prod and not_in_powers(a)): ctx.unres("pull-out", "%s partition by %s" % (cname, a)); continue
                    ctx.decide(comp, "pull-out", where, f.qual, "the two parts of the partition are not complementary: %s / %s" % (a, b), key + ":partition", cname)
                else: ctx.unres("pull-out", "%s partition" % cname)
            ctx.ok("pull-out", where, cname)

def judge_cyc_call(ctx, k, symb, P, where, f, key):
    a = call_args(k)
    ctx.decide(symb in a and any(p in a for p in P), "pull-out", where, f.qual, "invariance is tested for other symbols or another group", key + ":cycargs")

def base_of(el, itb): return el
def src_iter(itb):
    return itb
def conds_flat(el, cs):
    """conditions of the element, including those of the comprehension it was drawn from"""
    out = list(cs)
    return out
def is_cyc_any(t):
    if t.op == "not": t = t.a[0]
    return t.op == "call" and callee_name(t) == "is_cyclic_expr"
def not_in_powers(t):
    return t.op == "not" and t.a[0].op == "in" and any(s.op == "bin" and s.a[0] == "Pow" for s in subterms(t))
def cond_in_src(itb, core):
    t = itb
    while isinstance(t, T):
        if t.op == "comp":
            if any(is_cyc_fact(c, t.a[1]) and t.a[1] is core for c in t.a[3]): return True
            t = t.a[2]; continue
        if t.op in ("list", "tuple"):
            e = elems(t)
            if e and len(e) == 1 and e[0][1] is not None:
                if any(is_cyc_fact(c, e[0][0]) for c in e[0][2]): return True
                t = e[0][1]; continue
        return False
    return False
def src_conds(item):
    el, itb, cs = item
    out = set(cs)
    t = itb
    while isinstance(t, T):
        if t.op == "comp": out |= set(t.a[3]); t = t.a[2]; continue
        if t.op in ("list", "tuple"):
            e = elems(t)
            if e and len(e) == 1 and e[0][1] is not None: out |= set(e[0][2]); t = e[0][1]; continue
        break
    return out

# ------------------------------------------------------------------ b
def self_perms(me): 
    a = T("attr", me, "args")
    return {T("attr", me, "perm"), T("item", a, 2), T("sub", a, C(2)), T("sub", a, C(-1))}

def check_content(ctx):
    prog = ctx.prog
    for cname in ("CyclicSum", "CyclicProduct"):
        cls = prog.classes.get(CY + cname)
        f = cls and prog.lookup_method(cls, "as_content_primitive")
        if f is None: ctx.unres("content", cname); continue
        ex = runf(ctx, "content", f, self_cls=cls, merge=False)
        if ex is None: continue
        me = T("p", f.args[0])
        for x in ex:
            if x.kind != "return": continue
            v = x.st.expand(x.val)
            if v.op != "tuple" or len(v.a) != 2: ctx.unres("content", "%s %s" % (cname, v)); continue
            c, p = v.a
            if p is me:
                one = c.op == "g" and c.a[0].endswith(".One") or (c.op == "c" and cval(c) == 1)
                if not one and c.op == "attr" and c.a[1] == "One": one = True
                if not one: one = any(b and k.op in ("is", "eq") and c in k.a and any("One" in repr(y) or repr(y) == "1" for y in k.a) for k, b in x.facts.items())
                ctx.decide(one, "content", x.loc, f.qual, "content %s returned together with the unchanged object" % c, cname + ":self", cname); continue
            if not (p.op == "call" and (callee_name(p) == cname or callee_name(p) == ".func" or (p.a[0].op == "attr" and p.a[0].a[1] in ("func", "__class__")))):
                ctx.unres("content", "%s primitive %s" % (cname, p)); continue
            prim = call_args(p)[0]
            while prim.op == "star": prim = prim.a[0]
            if not (prim.op == "item" and prim.a[1] == 1): ctx.unres("content", "%s primitive %s" % (cname, prim)); continue
            cont = T("item", prim.a[0], 0)
            if cname == "CyclicSum":
                ctx.decide(c is cont, "content", x.loc, f.qual, "the content of the sum is %s" % c, cname + ":c", cname)
            else:
                if c is cont: ctx.bad("content", x.loc, f.qual, "the content of the product is not raised to the order of the group", cname + ":c"); continue
                if c.op == "bin" and c.a[0] == "Pow" and c.a[1] is cont:
                    r = is_order(c.a[2], self_perms(me))
                    if r is None: ctx.unres("content", "%s" % c); continue
                    ctx.decide(r, "content", x.loc, f.qual, "the content of the product is raised to %s" % c.a[2], cname + ":c", cname)
                elif c.op == "bin": ctx.bad("content", x.loc, f.qual, "the content of the product is %s" % c, cname + ":c")
                else: ctx.unres("content", "%s" % c)
            rest = call_args(p)[1:]
            keeps = all((a.op == "star" and "args" in repr(a)) or a in self_perms(me) or "symbols" in repr(a) or "args" in repr(a) for a in rest) and rest
            ctx.decide(bool(keeps), "content", x.loc, f.qual, "the primitive part loses the symbols or the group", cname + ":rest", cname)

# ------------------------------------------------------------------ c
def lossy(t):
    """the sequence of terms is deduplicated or filtered before it is summed or multiplied"""
    for s in subterms(t):
        if s.op == "call" and (callee(s) in ("builtins.set", "builtins.frozenset", "collections.Counter") or callee_name(s) in ("fromkeys", "unique", "uniq")): return "equal terms of the expansion are collapsed: %s" % s
        if s.op == "comp":
            for c in s.a[3]:
                if c.op == "not" and c.a[0].op in ("isnone",): continue
                if c.op == "isnot": continue
                return "terms of the expansion are left out unless %s" % c
        if s.op in ("list", "tuple"):
            for el, it, cs in elems(s) or ():
                for c in cs:
                    if c.op == "not" and c.a[0].op == "isnone": continue
                    return "terms of the expansion are left out unless %s" % c
    return None

REPL = {"_replace_symbols", "xreplace", "subs", "replace"}
def is_simul(t, expr, tr):
    """t = expr with translation tr applied simultaneously: True/False/None"""
    if t.op != "call": return None
    n = callee_name(t)
    if n == "_replace_symbols": return call_kw(t, "expr", 0) is expr and tr in call_args(t)
    if t.a[0].op == "attr" and t.a[0].a[1] == "xreplace": return t.a[0].a[0] is expr and tr in call_args(t)
    if t.a[0].op == "attr" and t.a[0].a[1] == "subs":
        return t.a[0].a[0] is expr and tr in call_args(t) and call_kw(t, "simultaneous") is TRUE
    return None

def check_expansion(ctx):
    prog = ctx.prog
    f = find(ctx, "expansion", CY + "_func_perm")
    if f is not None:
        skipped = []
        def on_loop(fn, node, it, el, s0, results):
            if is_full(it) is None and not (it.op == "call" and callee_name(it) == "enumerate"): return
            for k, s, v, n in results:
                if k == "break": skipped.append((fn, node)); continue
                if k not in ("fall", "continue"): continue
                grown = any(len(s.heap.get(h, ())) > len(s0.heap.get(h, ())) for h in s0.heap)
                st = len(s.events) > len(s0.events)
                if not grown and not st: skipped.append((fn, node))
        it = Interp(prog, inline=inliner(), want_store=lambda t, v: t.op == "sub")
        it.on_loop = on_loop
        try: ex = it.run(f)
        except Overflow: ex = []; ctx.unres("expansion", f.qual)
        for fn, node in skipped: ctx.bad("expansion", "%s:%d" % (fn.module.rel, node.lineno), f.qual, "a group element is skipped", "func_perm:skip")
        fn, e0, G = T("p", f.args[0]), T("p", f.args[1]), T("p", f.args[3]) if len(f.args) > 3 else T("p", "perm_group")
        for x in ex:
            if x.kind != "return": continue
            v = x.st.expand(x.val)
            if not (v.op == "call" and v.a[0] is fn): ctx.unres("expansion", "_func_perm result %s" % v); continue
            es = star_elems(v.a[1]) if not any(e.kind == "store" for e in x.events) else None
            for a in v.a[1]:
                lost = lossy(x.st.expand(a))
                if lost: ctx.bad("expansion", x.loc, f.qual, lost, "func_perm:lossy")
            cands = []
            if es is not None:
                for el, itb, cs in es:
                    if itb is None: continue
                    cands.append((el, itb, cs))
            for e in x.events:
                if e.kind == "store": cands.append((e.val, None, ()))
            if not cands: ctx.unres("expansion", "_func_perm: terms not understood on one path"); continue
            for el, itb, cs in cands:
                tr = next((s for s in subterms(el) if s.op == "bv"), None)
                if tr is None: ctx.unres("expansion", "no generic element"); continue
                full = is_full(itb if itb is not None else tr.a[0])
                g = group_of(itb if itb is not None else tr.a[0])
                if full is not None:
                    ctx.decide(full and (g is G), "expansion", x.loc, f.qual, "the expansion does not run over every element of the group: %s" % (itb or tr.a[0]), "func_perm:full", "full group")
                sm = is_simul(el, e0, tr)
                if sm is None and el.op == "call":
                    # translation built in place from p(symbols)
                    sm = True if any(callee_name(el) in REPL for _ in (0,)) and e0 in subterms(el) else None
                if sm is None: ctx.unres("expansion", "term %s" % el)
                else: ctx.decide(sm, "expansion", x.loc, f.qual, "a term of the expansion is %s" % el, "func_perm:term", "simultaneous replacement")
    g = find(ctx, "expansion", CY + "CyclicExpr._generate_all_translations")
    if g is not None:
        ex = runf(ctx, "expansion", g, merge=False, want=lambda t: t.op == "yield")
        for x in ex or []:
            full = x.facts.get(T("p", "full"))
            for e in x.events:
                if e.kind != "yield": continue
                t = e.st.expand(e.term)
                bv = next((s for s in subterms(t) if s.op == "bv" and is_full(s.a[0]) is not None), None)
                if bv is None: ctx.unres("expansion", "translations %s" % t); continue
                isf = is_full(bv.a[0])
                if full is not False:
                    ctx.decide(isf is True, "expansion", e.loc, g.qual, "not every element of the group is generated", "translations:full", "elements")
                # mapping symbols -> permuted symbols
                def is_map(t):
                    z = unwrap(t, ("dict",))
                    if z.op == "call" and callee(z) == "builtins.zip" and len(z.a[1]) == 2:
                        a, b = z.a[1]
                        return a is T("p", "symbols") and b.op == "call" and T("p", "symbols") in call_args(b)
                    return None
                m = is_map(t)
                if m is None: ctx.unres("expansion", "translation %s" % t)
                else: ctx.decide(m, "expansion", e.loc, g.qual, "a translation maps %s" % t, "translations:map", "map")
        dv = g.defaults.get("full")
        if isinstance(dv, ast.Constant): ctx.decide(dv.value is True, "expansion", g.loc, g.qual, "only generators are produced by default", "translations:default", "default")
    check_replace_symbols(ctx)
    d = find(ctx, "expansion", CY + "CyclicExpr.doit")
    if d is not None:
        me = T("p", d.args[0])
        ex = runf(ctx, "expansion", d, self_cls=d.cls)
        for x in ex or []:
            if x.kind != "return": continue
            fp = [s for s in subterms(x.val) if s.op == "call" and callee_name(s) == "_func_perm"]
            if not fp: ctx.unres("expansion", "doit: %s" % x.val); continue
            a = fp[0]
            args = T("attr", me, "args")
            ok = (call_kw(a, "func", 0) is T("attr", me, "base_func") and call_kw(a, "expr", 1) in (T("item", args, 0), T("sub", args, C(0)))
                  and call_kw(a, "symbols", 2) in (T("attr", me, "symbols"), T("item", args, 1)) and call_kw(a, "perm_group", 3) in self_perms(me))
            ctx.decide(ok, "expansion", x.loc, d.qual, "expansion is computed as %s" % a, "doit:args", "doit")
    for cname, want in (("CyclicSum", "Add"), ("CyclicProduct", "Mul")):
        cls = prog.classes.get(CY + cname)
        b = cls and prog.lookup_attr(cls, "base_func")
        if b is None: ctx.unres("expansion", cname + ".base_func"); continue
        r = prog.resolve_expr(b, cls.module)
        n = getattr(r, "qual", "").split(".")[-1]
        if n: ctx.decide(n == want, "expansion", cls.loc, cls.qual, "%s is expanded with %s" % (cname, n), cname + ":base", cname)

def check_replace_symbols(ctx):
    prog = ctx.prog
    r = find(ctx, "expansion", CY + "_replace_symbols")
    if r is None: return
    rec = [h for h in prog.funcs.values() if h.qual.startswith(r.qual + ".<locals>.") and any(isinstance(c.func, ast.Name) and c.func.id == h.name for c in calls_in(h))]
    if any(isinstance(c.func, ast.Name) and c.func.id == r.name for c in calls_in(r)): rec.append(r)
    if not rec: ctx.unres("expansion", "_replace_symbols: no recursion"); return
    for h in rec:
        e = T("p", h.args[0])
        for x in runf(ctx, "expansion", h, merge=False) or []:
            if x.kind != "return": continue
            v = x.st.expand(x.val)
            if v is e:
                leaf = [k for k, b in x.facts.items() if (b and k.op == "attr" and k.a[1] == "is_Atom") or (b and k.op == "call" and callee_name(k) in ("isdisjoint", "isinstance") and ("Atom" in repr(k) or "Symbol" in repr(k) or "isdisjoint" in repr(k)))
                        or (not b and k.op in ("attr",) and k.a[1] in ("args", "free_symbols")) or (not b and k.op == "call" and callee_name(k) in ("has", "intersection")) or (k.op == "call" and callee(k) == "builtins.isinstance" and not b and "Basic" in repr(k))
                        or (k.op == "eq" and b and "len" in repr(k) and "args" in repr(k))]
                nested = [k for k, b in x.facts.items() if b and k.op == "call" and callee(k) == "builtins.isinstance" and not ("Symbol" in repr(k) or "Atom" in repr(k) or "Number" in repr(k))]
                if not leaf and nested: ctx.bad("expansion", x.loc, h.qual, "an expression of the kind %s keeps its variables under a replacement" % nested[0], "replace_symbols:skip", path_of(x))
                elif leaf: ctx.ok("expansion", x.loc, "leaf")
                else: ctx.unres("expansion", "%s: argument returned" % h.name)
                continue
            if v.op == "call" and v.a[0].op == "attr" and v.a[0].a[1] in ("func", "__class__") and v.a[0].a[0] is e:
                raw = [a for a in call_args(v) if (a.op in ("item", "sub") and a.a[0] is T("attr", e, "args")) or (a.op == "attr" and a.a[0] is e and a.a[1] in ("symbols", "perm"))]
                st = [a for a in call_args(v) if a.op == "star" and not any(y.op == "call" and callee_name(y) == h.name for y in subterms(x.st.expand(a)))and T("attr", e, "args") in subterms(a)]
                ctx.decide(not raw and not st, "expansion", x.loc, h.qual, "the expression is rebuilt with an argument whose variables were not replaced: %s" % (raw + st)[:1], "replace_symbols:args", h.name, path=path_of(x)); continue
            if v.op == "call" or v.op == "sub" or v.op == "ite": continue
            ctx.unres("expansion", "%s: %s" % (h.name, v))

# ------------------------------------------------------------------ d
def check_invariance(ctx):
    prog = ctx.prog
    f = find(ctx, "invariance", CY + "CyclicExpr._eval_is_cyclic")
    if f is not None:
        me, sy, pm = T("p", f.args[0]), T("p", f.args[1]), T("p", f.args[2])
        ex = runf(ctx, "invariance", f, merge=False, self_cls=f.cls)
        for x in ex or []:
            if x.kind != "return": continue
            fs = facts_when(prog, x, True)
            if fs is None: continue
            has_s = any(k.op in ("eq", "is") and b and any(unwrap(y, ("tuple", "list", "Tuple", "sympify")) is sy for y in k.a) for k, b in fs.items())
            has_p = any(b and ((k.op in ("eq", "is") and pm in k.a) or (k.op == "call" and callee_name(k) in ("is_subgroup",) and k.a[0].op == "attr" and k.a[0].a[0] is pm)) for k, b in fs.items())
            ctx.decide(has_s and has_p, "invariance", x.loc, f.qual, "a nested symmetric expression counts as invariant without comparing its symbols and its group", "eval_is_cyclic", f.name, path=path_of(x))
    f = find(ctx, "invariance", CY + "is_cyclic_expr")
    if f is not None:
        e = T("p", f.args[0])
        ex = runf(ctx, "invariance", f, merge=False)
        for x in ex or []:
            if x.kind != "return": continue
            fs = facts_when(prog, x, True)
            if fs is None: continue
            v = x.val
            ok = None
            for k, b in fs.items():
                if not b or k.op != "call": continue
                n = callee_name(k)
                if n == "isdisjoint" and e in subterms(k): ok = True
                if n == "_eval_is_cyclic" and e in subterms(k): ok = True
                if n == "is_cyclic_expr":
                    a = call_kw(k, "expr", 0)
                    if a is None: continue
                    al = T("bv", T("attr", e, "args"))
                    if a is al:
                        ok = any(kk.op == "call" and bb and callee(kk) == "builtins.isinstance" and kk.a[1][0] is e for kk, bb in fs.items()) or None
                        if ok:   # only Add / Mul
                            ok = not_other_types(fs, e, {"Add", "Mul"})
                    elif a in (T("item", T("attr", e, "args"), 0), T("attr", e, "base"), T("sub", T("attr", e, "args"), C(0))):
                        ok = pow_ok(fs, e)
                        if not ok:
                            ctx.bad("invariance", x.loc, f.qual, "a power counts as invariant although only one of its arguments was tested", "is_cyclic_expr:pow", path_of(x)); ok = "done"
            if ok == "done": continue
            if ok is None:
                if v is TRUE or any(k.op == "call" and callee_name(k) == "is_cyclic_expr" for k in fs): 
                    ctx.bad("invariance", x.loc, f.qual, "an expression counts as invariant without evidence for all its arguments", "is_cyclic_expr:true", path_of(x))
                elif any(s.op == "call" and callee(s) == "builtins.any" for s in subterms(v)):
                    ctx.bad("invariance", x.loc, f.qual, "an expression counts as invariant when only some argument is", "is_cyclic_expr:any", path_of(x))
                elif not any(s.op == "call" and callee_name(s) != "_std_seq" and not (callee(s) or "").startswith("builtins.") for k in [k_ for k_, b_ in fs.items() if b_] + [v] for s in subterms(k)):
                    ctx.bad("invariance", x.loc, f.qual, "an expression counts as invariant by %s, which says nothing about the group" % v, "is_cyclic_expr:none", path_of(x))
                else: ctx.unres("invariance", "is_cyclic_expr: %s" % v)
            else: ctx.decide(ok is True, "invariance", x.loc, f.qual, "an expression counts as invariant without evidence for all its arguments", "is_cyclic_expr:true", f.name, path=path_of(x))
    # generator tests
    f = find(ctx, "invariance", CY + "_is_perm_invariant_dict")
    if f is not None:
        d = T("p", f.args[2])
        for x in runf(ctx, "invariance", f, merge=False) or []:
            if x.kind != "return": continue
            fs = facts_when(prog, x, True)
            if fs is None: continue
            hit = None
            for k, b in fs.items():
                if not b: continue
                bvs = [s for s in subterms(k) if s.op == "bv" and s.a[0].op == "call" and callee_name(s.a[0]) == "_generate_all_translations" or s.op == "bv" and s.a[0].op == "attr" and s.a[0].a[1] in ("generators", "elements")]
                if not bvs: continue
                if k.op == "call" and callee_name(k) == "_is_same_dict":
                    a, b2 = call_kw(k, "d1", 0), call_kw(k, "d2", 1)
                    src = a if b2 is d else b2 if a is d else None
                    if src is None: continue
                    hit = transforms_both(x.st.expand(src), d, bvs[0])
                elif k.op == "eq": hit = True if hit is None else hit
            if hit is None: ctx.bad("invariance", x.loc, f.qual, "a replacement counts as invariant without comparing it under every generator", "perm_invariant_dict:true", path_of(x))
            else: ctx.decide(hit, "invariance", x.loc, f.qual, "only one side of the replacement rules is permuted", "perm_invariant_dict:sides", f.name)
    f = find(ctx, "invariance", CY + "_is_same_dict")
    if f is not None:
        a, b = T("p", f.args[0]), T("p", f.args[1])
        for x in runf(ctx, "invariance", f, merge=False) or []:
            if x.kind != "return": continue
            fs = facts_when(prog, x, True)
            if fs is None: continue
            if x.val.op == "eq" and a in subterms(x.val) and b in subterms(x.val): ctx.ok("invariance", x.loc, f.name); continue
            ln = any(k.op == "eq" and v and all(y.op == "call" and callee(y) == "builtins.len" for y in k.a) for k, v in fs.items())
            val = any(k.op == "eq" and v and any(s.op == "bv" for s in subterms(k)) and a in subterms(k) and b in subterms(k) for k, v in fs.items())
            ctx.decide(ln and val, "invariance", x.loc, f.qual, "two rule sets count as equal without comparing %s" % ("their values" if ln else "their sizes"), "same_dict", f.name, path=path_of(x))
    f = find(ctx, "invariance", "triples.utils.expression.coeff.Coeff.is_cyclic")
    if f is not None:
        me = T("p", f.args[0])
        for x in runf(ctx, "invariance", f, merge=False, self_cls=f.cls) or []:
            if x.kind != "return": continue
            fs = facts_when(prog, x, True)
            if fs is None: continue
            one = any(k.op == "eq" and v and "nvars" in repr(k) and any(y.op == "c" and cval(y) in (0, 1) for y in k.a) for k, v in fs.items()) or any(k.op == "lt" and "nvars" in repr(k) for k in fs)
            cmp_ = [k for k, v in fs.items() if v and k.op == "eq" and sum(1 for s in subterms(k) if s.op == "bv") >= 2]
            ctx.decide(one or bool(cmp_), "invariance", x.loc, f.qual, "a polynomial counts as symmetric although not every coefficient was compared under every generator", "coeff.is_cyclic", f.name, path=path_of(x))
    ctx.need("invariance", 6)

def not_other_types(fs, e, allowed):
    for k, b in fs.items():
        if b and k.op == "call" and callee(k) == "builtins.isinstance" and k.a[1][0] is e:
            t = k.a[1][1]
            ns = {repr(y).split(".")[-1] for y in (t.a if t.op == "tuple" else [t])}
            if ns <= allowed: return True
    if any(b and k.op == "attr" and k.a[1] in ("is_Add", "is_Mul") for k, b in fs.items()): return True
    return None
def pow_ok(fs, e):
    return any(b and ((k.op == "call" and callee_name(k) in ("is_constant", "isdisjoint") and e in subterms(k)) or (k.op == "attr" and k.a[1] in ("is_Number", "is_number", "is_Integer", "is_integer", "is_Rational", "is_constant") and e in subterms(k)) or (k.op == "call" and callee(k) == "builtins.isinstance" and k.a[1][0] is not e and e in subterms(k.a[1][0])) or
                (k.op == "call" and callee_name(k) == "is_cyclic_expr" and (call_kw(k, "expr", 0) in (T("item", T("attr", e, "args"), 1), T("attr", e, "exp"))))) for k, b in fs.items())
def transforms_both(src, d, bv):
    """the permuted dictionary has both keys and values permuted"""
    n = 0
    z = unwrap(src, ("dict",))
    if z.op == "call" and callee(z) == "builtins.zip" and len(z.a[1]) == 2: parts = z.a[1]
    elif z.op == "dict" and z.a and isinstance(z.a[0], T) and z.a[0].op == "each" and z.a[0].a[1].op == "kv": parts = z.a[0].a[1].a
    elif z.op == "comp" and z.a[1].op in ("kv", "tuple"): parts = z.a[1].a
    elif z.op == "list" and z.a and isinstance(z.a[0], T) and z.a[0].op == "each" and z.a[0].a[1].op == "tuple": parts = z.a[0].a[1].a
    else: return None
    return all(any(s.op == "call" and callee_name(s) in REPL and bv in subterms(s) for s in subterms(p)) for p in parts)

# ------------------------------------------------------------------ e
def check_replace(ctx):
    prog = ctx.prog
    f = find(ctx, "replace", CY + "CyclicExpr._xreplace")
    if f is None: return
    ex = runf(ctx, "replace", f, self_cls=f.cls, merge=False, inline=lambda g: (g.parent is not None and g.name not in ("fs", "astuple")) or is_new(g))
    if ex is None: return
    me = T("p", f.args[0]); rule = T("p", f.args[1])
    args = T("attr", me, "args")
    G = self_perms(me)
    sy = T("attr", me, "symbols")
    for x in ex:
        if x.kind != "return": continue
        v = x.st.expand(x.val)
        if v.op != "tuple" or len(v.a) != 2: ctx.unres("replace", "result %s" % v); continue
        val, ch = v.a
        F = x.facts
        def fact(pred, b=True): return any(w is b and pred(k) for k, w in F.items())
        if val is me:
            # unchanged: claimed only when nothing changes
            for k, w in F.items():
                hit = next((s for s in subterms(k) if s.op == "call" and callee_name(s) in ("intersection", "isdisjoint")), None)
                empty = hit is not None and ((k.op == "eq" and C(0) in k.a and w) or (k is hit and w is (callee_name(hit) == "isdisjoint")))
                if empty and not any("_xreplace" in repr(y) for y in F) and not mentions_free(hit, me) and (sy in subterms(hit) or T("item", args, 1) in subterms(hit)):
                    ctx.bad("replace", x.loc, f.qual, "a replacement of other variables of the expression is dropped: only the symbols of the sum are looked at", "unchanged:params", path_of(x))
            ok = (fact(lambda k: k.op == "eq" and C(0) in k.a and any(s.op == "call" and callee_name(s) == "intersection" for s in subterms(k)))
                  or fact(lambda k: k.op == "call" and callee_name(k) in ("intersection",), False) or fact(lambda k: k.op == "call" and callee_name(k) == "isdisjoint", True)
                  or any(w is False and k.op == "item" and k.a[1] == 1 and callee_name(k.a[0]) == "_xreplace" for k, w in F.items())
                  or fact(lambda k: k.op == "eq" and FALSE in k.a)
                  or fact(lambda k: k.op == "phi" or k.op == "or", False)
                  or any(k.op == "call" and callee(k) in ("builtins.all", "builtins.any") and "_xreplace" in repr(k) for k in F))
            if not ok and ch is FALSE and not any("_xreplace" in repr(k) for k in F): ok = None
            if ok is None: ctx.unres("replace", "unchanged result without visible reason"); continue
            ctx.decide(ok, "replace", x.loc, f.qual, "the object is returned as unchanged although an argument may have changed", "unchanged", "unchanged", path=path_of(x)); continue
        if val.op == "sub" and val.a[0] is rule and val.a[1] is me: ctx.ok("replace", x.loc, "direct hit"); continue
        if val.op == "call" and callee_name(val) == "base_func":
            es = star_elems(val.a[1])
            if es is None: ctx.unres("replace", "expanded result %s" % val); continue
            keeps = [e for e, i, c in es if any(s.op == "call" and s.a[0] is T("attr", me, "func") for s in subterms(e))]
            if keeps:
                direct = any(w is True and k.op == "eq" and all(sum(1 for s in subterms(k) if s.op == "call" and callee_name(s) == "order") >= 3 for _ in (0,)) and any(s.op == "bin" and s.a[0] == "Mult" for s in subterms(k)) for k, w in F.items())
                ctx.decide(direct, "replace", x.loc, f.qual, "the group is split into two parts without checking that it is their direct product", "partial", "direct product", path=path_of(x))
                for e, i, c in es:
                    for s in subterms(e):
                        if s.op == "call" and s.a[0] is T("attr", me, "func"):
                            sa_ = call_args(s)
                            ctx.decide(len(sa_) >= 3 and any(y.op == "call" and callee_name(y) in ("pointwise_stabilizer", "stabilizer") for y in subterms(x.st.expand(sa_[2]))), "replace", x.loc, f.qual, "a part of the split sum does not run over the stabiliser of the changed symbols: %s" % s, "partial:group", "stabiliser")
                            moved = any(y.op == "bv" and is_full(y.a[0]) is True for y in subterms(x.st.expand(sa_[0])))
                            if i is not None: ctx.decide(moved, "replace", x.loc, f.qual, "every part of the split sum is the same term: the coset element is not applied", "partial:moved", "coset element applied")
                    if i is None: continue
                    full = is_full(i)
                    if full is not None: ctx.decide(full, "replace", x.loc, f.qual, "not every coset representative is used: %s" % i, "partial:full", "cosets")
            else:
                for e, i, c in es:
                    if i is None: continue
                    src = [s for s in subterms(i) if s.op == "call" and callee_name(s) == "_func_perm"]
                    cs = list(c) + [y for s in subterms(i) if s.op == "comp" for y in s.a[3]]
                    if src: ctx.decide(not cs, "replace", x.loc, f.qual, "terms of the expansion are left out: %s" % cs, "fallback", "fallback")
                    else: ctx.unres("replace", "expanded over %s" % i)
            continue
        if val.op == "call" and val.a[0] in (T("attr", me, "func"),):
            a = call_args(val)
            if len(a) < 3: ctx.unres("replace", "rebuilt %s" % val); continue
            # facts that justify
            ident = fact(lambda k: k.op == "eq" and sum(1 for s in subterms(k) if s.op == "call" and callee_name(s) == "signsimp") >= 2) or fact(lambda k: k.op == "eq" and any(s is T("bv", rule) for s in k.a))
            inv = fact(lambda k: k.op == "call" and callee_name(k) == "_is_perm_invariant_dict")
            novars = fact(lambda k: k.op == "eq" and C(0) in k.a and any(s.op == "call" and callee_name(s) == "intersection" and has_values(s, rule) and not is_free(s, me) for s in subterms(k))) \
                or fact(lambda k: k.op == "call" and callee_name(k) == "intersection" and has_values(k, rule), False) or fact(lambda k: k.op == "call" and callee_name(k) == "isdisjoint" and has_values(k, rule))
            distinct = fact(lambda k: k.op == "eq" and all(y.op == "call" and callee(y) == "builtins.len" for y in k.a) and any(s.op == "call" and callee(s) == "builtins.set" for s in subterms(k)))
            others = any(w is False and ((k.op == "call" and callee_name(k) in ("intersection",)) or (k.op == "bin" and k.a[0] == "BitAnd")) and bvs_of(k, rule) and symbolset(k, sy) and not mentions_new(k, rule, sy) for k, w in F.items()) or \
                     any(w is True and k.op == "call" and callee_name(k) == "isdisjoint" and bvs_of(k, rule) and symbolset(k, sy) and not mentions_new(k, rule, sy) for k, w in F.items())
            # symbols that are introduced must not occur elsewhere in the expression (capture)
            fresh = any(b in (True, False) and ((k.op == "call" and callee_name(k) in ("intersection", "isdisjoint", "any", "all")) or k.op == "bin") and mentions_free(x.st.expand(k), me) and mentions_new(k, rule, sy) for k, b in F.items())
            same_sy = unwrap(a[1]) in (sy, T("item", args, 1))
            if a[2] not in G: ctx.decide(False, "replace", x.loc, f.qual, "the rebuilt object uses another group", "group"); continue
            if same_sy: ctx.decide(ident or inv or novars, "replace", x.loc, f.qual, "the symmetric form is kept although the rule was not shown to respect the group", "kept", "kept", path=path_of(x, 60))
            else:
                ctx.decide(distinct, "replace", x.loc, f.qual, "the symbols are renamed without checking that the new ones are distinct", "rename:distinct", "rename", path=path_of(x, 60))
                ctx.decide(others, "replace", x.loc, f.qual, "the symbols are renamed although another rule may involve them", "rename:others", "rename", path=path_of(x, 60))
                ctx.decide(fresh, "replace", x.loc, f.qual, "the symbols are renamed to symbols that may occur elsewhere in the expression", "rename:capture", "rename", path=path_of(x, 60))
            continue
        ctx.unres("replace", "result %s" % val)

def has_values(t, rule): return any(s.op == "call" and callee_name(s) == "values" for s in subterms(t)) or any(s.op == "sub" and s.a[0] is rule for s in subterms(t))
def is_free(t, me): return T("attr", me, "free_symbols") in subterms(t)
def bvs_of(t, rule): return any(s.op == "bv" and rule in subterms(s) for s in subterms(t)) 
def symbolset(t, sy): return any(s.op == "call" and callee(s) == "builtins.set" and sy in subterms(s) for s in subterms(t)) or sy in subterms(t)
def mentions_free(t, me): return T("attr", me, "free_symbols") in subterms(t)
def mentions_new(t, rule, sy):
    return any(s.op == "call" and callee_name(s) == "get" and s.a[0].op == "attr" and s.a[0].a[0] is rule for s in subterms(t)) or any(s.op == "sub" and s.a[0] is rule and isinstance(s.a[1], T) and sy in subterms(s.a[1]) for s in subterms(t))

# ------------------------------------------------------------------ f
def check_rewrite(ctx):
    prog = ctx.prog
    f = prog.funcs.get(CY + "_get_rewriting_replacement.<locals>.replacement") or find(ctx, "rewrite", CY + "_get_rewriting_replacement", quiet=True)
    if f is None: ctx.unres("rewrite", "_get_rewriting_replacement"); return
    ex = runf(ctx, "rewrite", f, merge=False)
    if ex is None: return
    x0 = T("p", f.args[0]); G1 = T("item", T("attr", x0, "args"), 2)
    Gs = {G1, T("attr", x0, "perm")}
    for x in ex:
        if x.kind != "return": continue
        v = x.st.expand(x.val)
        if v is x0:
            ok = any((k.op == "call" and b is False) or (k.op == "eq" and b and any(g in k.a for g in Gs)) for k, b in x.facts.items())
            ctx.decide(ok, "rewrite", x.loc, f.qual, "an expression in another group is left as it is", "same", "identity"); continue
        if v.op == "call" and callee_name(v) == "doit": ctx.ok("rewrite", x.loc, "expanded"); continue
        num, div = v, None
        if v.op == "bin" and v.a[0] in ("Div", "Mult"): num, div = v.a[1], v
        if not (num.op == "call" and num.a[0].op == "attr" and num.a[0].a[1] == "func"): ctx.unres("rewrite", "%s" % v); continue
        body = call_args(num)[0]
        if body in (T("item", T("attr", x0, "args"), 0),):
            # index division
            if div is None or v.a[0] != "Div": ctx.bad("rewrite", x.loc, f.qual, "the sum over the larger group is not divided by the index", "index"); continue
            q = v.a[2]
            okq = q.op == "bin" and q.a[0] in ("FloorDiv", "Div") and q.a[1].op == "call" and callee_name(q.a[1]) == "order" and is_order(q.a[2], Gs) is True and is_order(q.a[1], Gs) is not True
            ctx.decide(okq, "rewrite", x.loc, f.qual, "the sum over the larger group is divided by %s" % q, "index", "index")
            eqf = any(b is True and ((k.op == "eq" and C(0) in k.a and q in subterms(k)) or (k.op == "eq" and q in subterms(k)) or (k.op == "attr" and k.a[1] == "is_zero")) for k, b in x.facts.items())
            ctx.decide(eqf, "rewrite", x.loc, f.qual, "the rewritten sum was not compared with the original", "equal", "compared", path=path_of(x))
            isum = any(b is True and k.op == "call" and callee(k) == "builtins.isinstance" and "CyclicSum" in repr(k) for k, b in x.facts.items())
            ctx.decide(isum, "rewrite", x.loc, f.qual, "the index division is applied to products", "sumonly", "sum only")
        else:
            sub = any(b is True and k.op == "call" and callee_name(k) == "is_subgroup" and k.a[0].a[0] not in Gs and any(g in call_args(k) for g in Gs) for k, b in x.facts.items())
            ctx.decide(sub, "rewrite", x.loc, f.qual, "terms are merged over cosets although the new group was not shown to be a subgroup", "coset:subgroup", "coset", path=path_of(x))
            ctx.decide(div is None, "rewrite", x.loc, f.qual, "the merged sum is scaled", "coset:scale", "coset")
            okc = any(s.op == "call" and callee_name(s) == "coset_transversal" for s in subterms(v))
            if okc:
                ct = [s for s in subterms(v) if s.op == "call" and callee_name(s) == "coset_transversal"][0]
                ctx.decide(ct.a[0].a[0] in Gs, "rewrite", x.loc, f.qual, "the cosets are taken of the wrong group", "coset:of", "coset")
            isum = any(b is True and k.op == "call" and callee(k) == "builtins.isinstance" and "CyclicSum" in repr(k) for k, b in x.facts.items())
            iprod = any(b is True and k.op == "call" and callee(k) == "builtins.isinstance" and "CyclicProduct" in repr(k) for k, b in x.facts.items())
            for s in subterms(v):
                if s.op == "call" and callee_name(s) in ("Add", "Mul", "sum", "prod") and any(y.op in ("star", "comp", "list") for y in s.a[1]):
                    ctx.decide((callee_name(s) in ("Add", "sum") and isum) or (callee_name(s) in ("Mul", "prod") and iprod), "rewrite", x.loc, f.qual, "the cosets of a sum or a product are both combined with %s" % callee_name(s), "coset:combine", "combine")
                if s.op == "call" and s.a[0].op == "attr" and s.a[0].a[1] == "base_func":
                    for y in s.a[1]:
                        lost = lossy(x.st.expand(y))
                        if lost: ctx.bad("rewrite", x.loc, f.qual, lost, "coset:lossy")
                if s.op == "attr" and s.a[1] in ("generators", "elements") and s.a[0] in Gs and any(z.op == "call" and s in subterms(z) for z in subterms(v)):
                    ctx.bad("rewrite", x.loc, f.qual, "the cosets are represented by %s" % s, "coset:reps")
            bf = [s for s in subterms(v) if s.op == "call" and s.a[0].op == "attr" and s.a[0].a[1] == "base_func"]
            if not bf and not any(s.op == "phi" for s in subterms(v)): ctx.unres("rewrite", "merged %s" % v)

# ------------------------------------------------------------------ g
def _trivial_guard(k, b):
    """a branch fact that only the trivial group satisfies (False: a size test that other groups satisfy too)"""
    if k.op == "attr" and k.a[1] == "is_trivial": return b
    if k.op == "call" and callee_name(k) in ("is_trivial", "is_identity"): return b
    def n(t): return cval(t) if t.op == "c" and isinstance(cval(t), (int, float)) else None
    def size(t): return (t.op == "attr" and t.a[1] in ("degree", "size")) or (t.op == "call" and (callee_name(t) in ("order",) or callee(t) == "builtins.len"))
    if k.op == "lt" and b and size(k.a[0]) and n(k.a[1]) is not None: return n(k.a[1]) <= 2
    if k.op == "lt" and not b and size(k.a[1]) and n(k.a[0]) is not None: return n(k.a[0]) < 2
    if k.op == "eq" and b:
        for u, w in (k.a, k.a[::-1]):
            if size(u) and n(w) is not None: return n(w) <= 1
    return False

def check_new(ctx):
    prog = ctx.prog
    f = find(ctx, "normalise", CY + "CyclicExpr.__new__")
    if f is not None:
        ex = runf(ctx, "normalise", f, merge=False)
        e = T("p", f.args[1])
        for x in ex or []:
            if x.kind != "return": continue
            v = x.val
            if v is e or unwrap(v) is e:
                ok = any(_trivial_guard(k, b) for k, b in x.facts.items())
                ctx.decide(ok, "normalise", x.loc, f.qual, "the bare term stands for the whole sum although the group may be nontrivial", "bare", "trivial group", path=path_of(x)); continue
            if v.op == "call" and callee_name(v) in ("_eval_simplify_", "__new__"):
                a = call_args(v)
                body = a[1] if callee_name(v) == "__new__" else a[0]
                gi = 3 if callee_name(v) == "__new__" else 2
                if len(a) > gi:
                    g = a[gi]
                    own = [s for s in subterms(g) if s.op == "call" and callee_name(s).endswith("Group")]
                    passed = any(not b and k.op == "isnone" and k.a[0].op in ("sub", "item") and k.a[0].a[0] is T("p", "args") for k, b in x.facts.items())
                    if passed: ctx.decide(not own, "normalise", x.loc, f.qual, "the object is built with the group %s instead of the given one" % g, "group", "given group", path=path_of(x))
                b = unwrap(body)
                if b is e: ctx.ok("normalise", x.loc, "given term"); continue
                if b.op == "phi": continue
                if b.op == "call" and callee_name(b) in REPL:
                    base = call_kw(b, "expr", 0) if b.a[0].op != "attr" or callee_name(b) == "_replace_symbols" else b.a[0].a[0]
                    if base is None: continue
                    tr = [s for s in subterms(b) if s.op == "call" and callee_name(s) == "_generate_all_translations"]
                    perm_ok = all(call_kw(t, "perm", 1) in a for t in tr)
                    sy_ok = all(call_kw(t, "symbols", 0) in a for t in tr)
                    ctx.decide(perm_ok and sy_ok, "normalise", x.loc, f.qual, "the representative is sought with other symbols or another group", "orbit", "orbit")
                    ok = e in subterms(base)
                    ctx.decide(ok, "normalise", x.loc, f.qual, "the representative is not a translate of the given term", "orbit:base", "orbit")
                else: ctx.unres("normalise", "representative %s" % b)
    if f is not None:
        def trans(t): return [s for s in subterms(t) if s.op == "bv" and s.a[0].op == "call" and callee_name(s.a[0]) == "_generate_all_translations"]
        for e_ in events(runf(ctx, "normalise", f, want=lambda t: t.op == "call" and callee_name(t) in REPL) or [], lambda e_: e_.kind == "call"):
            t = e_.st.expand(e_.term) if e_.st is not None else e_.term
            if callee_name(t) == "subs" and trans(t): ctx.decide(call_kw(t, "simultaneous") is TRUE, "normalise", e_.loc, f.qual, "a translation is substituted one variable after the other", "orbit:seq", "simultaneous")
    f = find(ctx, "normalise", CY + "_std_seq")
    if f is not None:
        ex = runf(ctx, "normalise", f)
        for x in ex or []:
            v = x.st.expand(x.val)
            ms = [s for s in subterms(v) if s.op == "call" and callee(s) in ("builtins.min", "builtins.max")]
            pg = T("p", f.args[1])
            if v.op in ("tuple", "list") and not v.a or (v.op == "call" and v.a[1] and v.a[1][0].op in ("tuple", "list") and elems(v.a[1][0]) == []): continue
            if not ms:
                if pg not in subterms(v) and not any(s.op in ("phi", "opaque") for s in subterms(v)): ctx.bad("normalise", x.loc, f.qual, "the standard order of the symbols ignores the group: %s" % v, "stdseq:group")
                else: ctx.unres("normalise", "_std_seq %s" % v)
                continue
            sy = T("p", f.args[0])
            for s in subterms(v):
                if s.op == "sub" and s.a[0] is sy:
                    raw = s.a[1].op == "bv" and s.a[1].a[0] in ms
                    ctx.decide(not raw, "normalise", x.loc, f.qual, "the minimal arrangement refers to the sorted symbols but is applied to the given ones", "stdseq:index", f.name)
            bad = [s for s in subterms(v) if s.op == "attr" and s.a[1] == "generators"]
            ctx.decide(not bad, "normalise", x.loc, f.qual, "the standard symbol order is not invariant: only generators are tried", "stdseq", f.name)

    for name, cls in (("SymmetricSum", "CyclicSum"), ("SymmetricProduct", "CyclicProduct")):
        f = find(ctx, "normalise", CY + name)
        if f is None: continue
        e, sy = T("p", f.args[0]), T("p", f.args[1])
        for x in runf(ctx, "normalise", f, merge=False) or []:
            if x.kind != "return": continue
            v = x.st.expand(x.val)
            cs = [s for s in subterms(v) if s.op == "call" and callee_name(s) in ("CyclicSum", "CyclicProduct")]
            if not cs: ctx.unres("normalise", "%s: %s" % (name, v)); continue
            for c in cs:
                a = [y for y in call_args(c) if isinstance(y, T)]
                ok = callee_name(c) == cls
                gs = [y for y in a if y.op == "call" and callee_name(y).endswith("Group")]
                want = T("call", None, ()) if False else None
                okg = any(callee_name(g) in ("SymmetricGroup",) and any(y.op == "call" and callee(y) == "builtins.len" and y.a[1][0] is sy for y in call_args(g)) for g in gs)
                if ok and not okg and not gs and len(a) >= 3 and any(y.op not in ("p", "star") for y in a): ctx.unres("normalise", "%s group %s" % (name, c)); continue
                small = any(k.op == "lt" and b and "len" in repr(k.a[0]) and k.a[1] is C(2) for k, b in x.facts.items())
                ctx.decide((ok and okg and v is c) or small, "normalise", x.loc, f.qual, "the symmetric shortcut builds %s" % v, "shortcut:" + name, name, path=path_of(x))
    f = find(ctx, "normalise", CY + "CyclicExpr._eval_subs")
    if f is not None:
        me = T("p", f.args[0])
        for x in runf(ctx, "normalise", f, self_cls=f.cls, merge=False) or []:
            if x.kind != "return": continue
            v = x.st.expand(x.val)
            raw = v.op == "call" and (v.a[0] in (T("attr", me, "func"), T("attr", me, "__class__")) or callee_name(v) in ("CyclicSum", "CyclicProduct"))
            inv = any(b and k.op == "call" and callee_name(k) in ("_is_perm_invariant_dict", "isdisjoint", "is_cyclic_expr") for k, b in x.facts.items())
            ctx.decide(not raw or inv, "normalise", x.loc, f.qual, "a substitution is carried out inside the symmetric sum, so it is applied to every translate of the term", "subs", f.name, path=path_of(x))

# ------------------------------------------------------------------ h
def check_monomials(ctx):
    prog = ctx.prog
    M = "triples.utils.monomials.MonomialManager."
    for name in ("permute", "cyclic_sum"):
        f = find(ctx, "monomials", M + name)
        if f is None: continue
        me = T("p", f.args[0])
        G = {T("attr", me, "_perm_group"), T("attr", me, "perm_group")}
        for x in runf(ctx, "monomials", f, self_cls=f.cls) or []:
            if x.kind != "return": continue
            v = x.st.expand(x.val)
            if v.op == "list" or v.op == "tuple": es = elems(v)
            elif v.op == "call": es = star_elems(v.a[1])
            else: es = None
            if es is None: ctx.unres("monomials", "%s: %s" % (name, v)); continue
            if not es: continue     # empty group path
            for el, itb, cs in es:
                if itb is None: ctx.unres("monomials", "%s element %s" % (name, el)); continue
                full = is_full(itb)
                if full is None: ctx.unres("monomials", "%s over %s" % (name, itb)); continue
                ctx.decide(full and not cs and group_of(itb) in G, "monomials", x.loc, f.qual, "the orbit is not taken over the whole group: %s" % itb, name + ":full", name)
    f = find(ctx, "monomials", M + "order")
    if f is not None:
        me = T("p", f.args[0]); G = {T("attr", me, "_perm_group"), T("attr", me, "perm_group")}
        for x in runf(ctx, "monomials", f, self_cls=f.cls) or []:
            r = is_order(x.val, G)
            if r is None: ctx.unres("monomials", "order %s" % x.val)
            else: ctx.decide(r, "monomials", x.loc, f.qual, "the order of the group is given as %s" % x.val, "order", "order")
    f = find(ctx, "monomials", M + "standard_monom")
    if f is not None:
        for x in runf(ctx, "monomials", f, self_cls=f.cls) or []:
            v = x.val
            if v.op == "call" and callee(v) in ("builtins.max",) : ctx.decide(any(s.op == "call" and callee_name(s) == "permute" or is_full(s) for s in subterms(v)), "monomials", x.loc, f.qual, "the representative is not chosen from the whole orbit", "std", "standard_monom")
            else: ctx.unres("monomials", "standard_monom %s" % v)
    f = find(ctx, "monomials", M + "invarraylize")
    if f is not None:
        loops = [n for n in walk_own(f.node) if isinstance(n, (ast.For, ast.comprehension))]
        ok = any("permute" in ast.unparse(n.iter) for n in loops)
        inl = [g for c in calls_in(f) for g in [resolve_call(prog, f, c)] if isinstance(g, Func) and is_new(g)]
        if not inl: ctx.decide(ok, "monomials", f.loc, f.qual, "the polynomial of a vector is built without the orbits of its monomials", "invarraylize", "invarraylize")
    f = find(ctx, "monomials", M + "_arraylize_list")
    if f is not None:
        ex = runf(ctx, "monomials", f, self_cls=f.cls, merge=False, want_store=lambda t, v: t.op == "sub")
        for e in events(ex or [], lambda e: e.kind == "store"):
            p = e.term.a[1]
            perm = any(s.op == "call" and callee_name(s) == "permute" for s in subterms(p))
            cyc = e.facts.get(T("p", "expand_cyc"))
            acc = e.val.op == "bin" and e.val.a[0] == "Add"
            if perm: ctx.decide(acc, "monomials", e.loc, f.qual, "the coefficients of one orbit overwrite each other instead of being summed", "arraylize:acc", "accumulates")
            elif cyc is True and not perm: ctx.bad("monomials", e.loc, f.qual, "the cyclic sum ignores the orbit of the monomial", "arraylize:orbit")
    t = find(ctx, "monomials", "triples.utils.text_process.cycle_expansion")
    if t is not None:
        for x in runf(ctx, "monomials", t) or []:
            if x.kind != "return": continue
            v = x.st.expand(x.val)
            its = [s for s in subterms(v) if s.op == "attr" and s.a[1] in ("elements", "generators")] + [s for s in subterms(v) if s.op == "call" and callee_name(s) == "generate"]
            if not its: ctx.unres("monomials", "cycle_expansion %s" % v); continue
            ctx.decide(all(is_full(i) for i in its), "monomials", x.loc, t.qual, "s(...)/p(...) is not expanded over the whole group", "cycle_expansion", t.name)

# ------------------------------------------------------------------ i
def check_forms(ctx):
    prog = ctx.prog
    f = find(ctx, "forms", "triples.utils.expression.form.poly_get_standard_form")
    if f is not None:
        g = f.nested.get("get_order")
        go = [h for h in prog.funcs.values() if h.name == "get_order" and h.qual.startswith(f.qual)]
        seen = False
        for h in go:
            for x in runf(ctx, "forms", h) or []:
                v = x.val
                if v.op == "bin":
                    seen = True
                    ok = v.a[0] in ("FloorDiv", "Div") and "size" in repr(v.a[2])
                    ctx.decide(ok, "forms", x.loc, f.qual, "the coefficient of an orbit is divided by %s instead of the stabiliser order" % v, "order", "get_order")
        # division by the order happens
        div = [n for n in walk_own(f.node) if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Div)]
        if not seen: ctx.unres("forms", "get_order")
        # perm_order really is the order
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "perm_order":
                ctx.decide(ast.unparse(n.value).endswith(".order()") or "elements" in ast.unparse(n.value), "forms", "%s:%d" % (f.module.rel, n.lineno), f.qual, "the order of the group is computed as %s" % ast.unparse(n.value), "perm_order", "order")
    f = find(ctx, "forms", "triples.utils.expression.form._reduce_factor_list")
    if f is not None:
        for n in walk_own(f.node):
            if isinstance(n, ast.For) and isinstance(n.iter, ast.Attribute) and isinstance(n.iter.value, ast.Name) and n.iter.value.id in f.args:
                ctx.decide(n.iter.attr == "elements", "forms", "%s:%d" % (f.module.rel, n.lineno), f.qual, "the orbit of a factor is taken over the generators only", "reduce:full", "factor orbit")

# ------------------------------------------------------------------ k
def check_collect(ctx):
    prog = ctx.prog
    f = find(ctx, "pull-out", "triples.core.linsos.solution._collect_eq_constraints")
    if f is None: return
    def want(t): return t.op == "bin" and t.a[0] == "Mult" and any(y.op == "call" and callee_name(y) == "cyclic_sum" for y in t.a[1:])
    ex = runf(ctx, "pull-out", f, want=want)
    for e in events(ex or [], lambda e: e.kind == "op"):
        ok = any(b and k.op == "call" and callee_name(k) in ("is_cyclic", "is_symmetric", "is_cyclic_expr") and call_args(k) for k, b in e.facts.items())
        ctx.decide(ok, "pull-out", e.loc, f.qual, "an equality constraint is pulled out of the symmetric sum without being shown invariant under the group", "eq", f.name, path=path_of(e))
