"""P18: every advertised method and internal solver can be reached, and is called in a way it accepts."""
import ast
from sa.load import Func, Cls, Ext, Var, Module, walk_own
from sa.callables import Callables, entries, bind, bind_call, chain, decorated
from sa.terms import T, subterms, callee_name, call_args, cval
from sa.util import *

TECHNIQUE = "resolution of every call through names, the solver registry, module tables and lists of functions, with argument binding against the callee's signature; reachability over the reference graph; path conditions of solver chains"
EXPLANATION = ("The solver registry is rebuilt from its registration calls, and each dotted lookup in it has to name a registered function of a module that is imported with the package. Each call whose callee is known (by name, registry, table, or as a member of a list of functions) "
  "has to bind to the callee's parameters. Registered functions, entries of function tables and solver functions have to be reachable from the public entry points in the reference graph, and the method table, default order and default options have the same keys. "
  "An entry of a per-degree table reads only coefficients of that degree and of the right number of variables, as do the functions it passes the problem on to. In a loop that tries solvers in turn, an exit needs a result that is not None or a proof of non-positivity. "
  "Not covered: whether the numeric condition under which a solver is chosen can be met.")

SOLVERNAME = ("sos_struct", "quarternary_", "structural_sos", "constrained_", "elimination_")
GENERAL = "structural_sos_constrained"
# what has to be known about a problem before it goes to a solver which takes it for granted
NEEDS = {"_structural_sos_3vars_cyclic": ("cyc",), "_structural_sos_4vars_symmetric": ("sym",), "_structural_sos_4vars_cyclic": ("cyc",), "_structural_sos_4vars_partial_symmetric": ("cyc",),
         "_sos_struct_nvars_quartic_symmetric_sdp": ("sym", "degree4"), "sym_transform": ("sym", "nvars3", "hom")}
DISPATCH = ("triples.core.structsos.ternary.solver.structural_sos_3vars", "triples.core.structsos.quarternary.solver.structural_sos_4vars",
            "triples.core.structsos.nvars.sos_struct_nvars_quartic_symmetric", "triples.core.symsos.symsos.SymmetricSOS")
# reachable by nobody in the pinned tree: superseded variants kept as documentation
DORMANT = {"triples.core.structsos.ternary.sextic._sos_struct_sextic_hexagon_full", "triples.core.structsos.constrained.solver.structural_sos_constraints_elimination",
           "triples.core.structsos.constrained.linear.elimination_linear", "triples.core.structsos.constrained.linear._elimination_linear_bound_lu"}
# two alternatives the authors switched off by returning before them
DEADOK = {"triples.core.structsos.ternary.quartic.sos_struct_quartic", "triples.core.structsos.ternary.quartic.sos_struct_acyclic_quartic"}
UNSOLV = "triples.core.structsos.utils.PolynomialUnsolvableError"
NONPOS = "triples.core.structsos.utils.PolynomialNonpositiveError"

def run(ctx):
    ctx.rule("lookup", "every lookup in the solver registry names a registered solver of an imported module")
    ctx.rule("bind", "every call with a known callee fits the callee's parameters")
    ctx.rule("table", "solvers in tables and chains accept the arguments they are called with")
    ctx.rule("reach", "every registered or tabulated solver is used by a public entry point")
    ctx.rule("methods", "method table, default order and default options name the same methods")
    ctx.rule("degree", "a per-degree solver reads coefficients of its degree")
    ctx.rule("chain", "a solver that gives no answer does not stop the next one from being tried")
    ctx.rule("dispatch", "a solver for a fixed number of variables gets problems of that number")
    C = ctx.__dict__.setdefault("_callables", None) or Callables(ctx.prog)
    for fn in (check_lookup, check_bind, check_table, check_reach, check_methods, check_degree, check_chain, check_dispatch, check_needs): ctx.section(fn, ctx, C)

# ------------------------------------------------------------------ registry
def import_closure(prog, start):
    seen, st = set(), [start]
    while st:
        n = st.pop()
        if n in seen or n not in prog.modules: continue
        seen.add(n)
        m = prog.modules[n]
        parts = n.split(".")
        for i in range(1, len(parts)): st.append(".".join(parts[:i]))
        for im in m.imports.values():
            if im[0] == "mod": st.append(im[1])
            else:
                st.append(im[1]); st.append(im[1] + "." + im[2])
        st.extend(m.stars)
        for x in ast.walk(m.tree):      # imports inside functions count too
            if isinstance(x, ast.ImportFrom):
                b = prog._abs(m, x)
                st.append(b)
                st.extend(b + "." + al.name for al in x.names)
            elif isinstance(x, ast.Import): st.extend(al.name for al in x.names)
    return seen

def module_level_closure(prog, start):
    seen, st = set(), [start]
    while st:
        n = st.pop()
        if n in seen or n not in prog.modules: continue
        seen.add(n)
        m = prog.modules[n]
        parts = n.split(".")
        for i in range(1, len(parts)): st.append(".".join(parts[:i]))
        for im in m.imports.values():
            if im[0] == "mod": st.append(im[1])
            else: st.append(im[1]); st.append(im[1] + "." + im[2])
        st.extend(m.stars)
    return seen

def check_lookup(ctx, C):
    reg = C.reg
    if not reg.roots: return ctx.unres("lookup", "no solver registry found")
    if not reg.closed(): ctx.unres("lookup", str(reg.unknown[0]) + ": " + "registration with an argument that is not understood")
    live = module_level_closure(ctx.prog, "triples.core")
    for m, loc in reg.sites:
        ctx.decide(m.name in live, "lookup", loc, m.name, "this registration never runs: its module is not imported with the package", "dead-registration:" + m.name, "module is imported with the package")
    n = 0
    for f in ctx.prog.funcs.values():
        for e in walk_own(f.node):
            if not isinstance(e, ast.Attribute) or not isinstance(e.ctx, ast.Load): continue
            root, at = chain(e)
            v = C.values(e, f)
            if not v: continue
            for x in v:
                if x[0] == "missing":
                    ctx.bad("lookup", "%s:%d" % (f.module.rel, e.lineno), f.qual, "'%s' is not a registered solver, so the lookup yields nothing" % ".".join(x[1]), "missing:%s:%s" % (f.name, ".".join(x[1])))
                elif x[0] == "fn" and reg.is_root(ctx.prog.resolve_expr(root, f.module, f)):
                    n += 1
                    ctx.ok("lookup", f.qual, "%s is %s" % (ast.unparse(e), x[1].qual))
    ctx.count("registry lookups", n)

# ------------------------------------------------------------------ binding
def check_bind(ctx, C):
    n = 0
    for q, f in ctx.prog.funcs.items():
        for c in walk_own(f.node):
            if not isinstance(c, ast.Call): continue
            v = C.values(c.func, f)
            if not v: continue
            for x in v:
                if x[0] not in ("fn", "bound"): continue
                if "#" in x[1].qual or x[1].qual + "#2" in ctx.prog.funcs: continue     # same name defined on several branches
                n += 1
                r = bind_call(ctx.prog, x[0], x[1], c)
                if r: ctx.bad("bind", "%s:%d" % (f.module.rel, c.lineno), q, "%s cannot be called like this: %s" % (x[1].name, r), "bind:%s:%s:%s" % (f.name, x[1].name, r))
    ctx.count("calls bound", n)
    ctx.ok("bind", "all modules", "%d calls fit the parameters of their callee" % n)

# ------------------------------------------------------------------ combinators
COMB = {"sos_struct_common": 1, "sos_struct_extract_factors": 1, "sos_struct_degree_specified_solver": 0}

def flat_solvers(ctx, C, e, func, d=0):
    """functions a solver expression may stand for, opening the combinators; None if not understood"""
    if d > 6: return None
    if isinstance(e, ast.Starred):
        t = C.table(e.value, func)
        if t is None: return None
        out = []
        for k, v, ow in t:
            r = flat_solvers(ctx, C, v, ow, d + 1)
            if r is None: return None
            out += r
        return out
    if isinstance(e, ast.Call):
        r = ctx.prog.resolve_expr(e.func, func.module, func if isinstance(func, Func) else None)
        if isinstance(r, Func) and r.name == "sos_struct_degree_specified_solver" and e.args:
            t = C.table(e.args[0], func)
            if t is None: return None
            out = []
            for k, v, ow in t:
                x = flat_solvers(ctx, C, v, ow, d + 1)
                if x is None: return None
                out += [(k.value if isinstance(k, ast.Constant) else None, g) for _, g in x]
            return out
        return None
    v = C.values(e, func)
    if v is None: return None
    return [(None, x[1]) for x in v if x[0] == "fn"]

def check_table(ctx, C):
    n = 0
    for f in ctx.prog.funcs.values():
        for c in walk_own(f.node):
            if not isinstance(c, ast.Call): continue
            r = ctx.prog.resolve_expr(c.func, f.module, f)
            if not isinstance(r, Func) or r.name not in ("sos_struct_common", "sos_struct_extract_factors"): continue
            kws = [k.arg for k in c.keywords if k.arg]
            args = c.args[1:]
            for a in args:
                fs = flat_solvers(ctx, C, a, f)
                if fs is None: ctx.unres("table", str("%s:%d" % (f.module.rel, c.lineno)) + ": " + "solver argument not understood"); continue
                for k, g in fs:
                    if isinstance(g, Cls) or decorated(ctx.prog, g): continue
                    n += 1
                    loc = "%s:%d" % (f.module.rel, c.lineno)
                    extra = [x for x in kws if x != "real" and x not in r.args]
                    for kw in (["real"] + extra, extra):
                        why = bind(g, 1, kw)
                        if why: ctx.bad("table", loc, f.qual, "%s is tried as a solver, but %s" % (g.name, why), "table:%s:%s" % (f.name, g.name)); break
                    else: ctx.ok("table", loc, "%s accepts the problem and 'real'%s" % (g.name, " (degree %s)" % k if k is not None else ""))
    ctx.count("tabulated solvers", n)

# ------------------------------------------------------------------ reachability
def refs(ctx, C, node, m, f):
    P, out = ctx.prog, set()
    for n in ast.walk(node):
        if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(getattr(n, "ctx", None), ast.Load):
            r = P.resolve_expr(n, m, f)
            if isinstance(r, (Func, Cls, Var)): out.add(r)
            if isinstance(n, ast.Attribute):
                if f is not None:
                    for x in C.values(n, f) or []:
                        if x[0] in ("fn", "bound"): out.add(x[1])
                out.update(P.methods_named(n.attr))
        elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier(): 
            r = m.defs.get(n.value)      # getattr / globals() by name
            if isinstance(r, (Func, Cls)) and isinstance(node, ast.AST) and any(isinstance(x, ast.Name) and x.id in ("getattr", "globals") for x in ast.walk(node)): out.add(r)
    return out

def reachable(ctx, C, roots):
    P, seen, st = ctx.prog, set(), list(roots)
    while st:
        x = st.pop()
        if x in seen: continue
        seen.add(x)
        nx = set()
        if isinstance(x, Func):
            body = x.node
            nx = refs(ctx, C, body, x.module, x) | set(x.nested.values())
            for d in x.decorators: nx |= refs(ctx, C, d, x.module, None)
        elif isinstance(x, Cls):
            nx = set(x.methods.values()) | {b for b in P.bases(x) if isinstance(b, Cls)}
            for st_ in x.node.body:
                if not isinstance(st_, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)): nx |= refs(ctx, C, st_, x.module, None)
            nx |= set(P.subclasses(x))
        elif isinstance(x, Var):
            for v in x.module.assigns.get(x.name, []): nx |= refs(ctx, C, v, x.module, None)
        st.extend(nx)
    return seen

def func_tables(ctx):
    for m in ctx.prog.modules.values():
        if not m.name.startswith("triples"): continue
        for n, vs in m.assigns.items():
            for v in vs:
                en = entries(v)
                if not en: continue
                fs = [ctx.prog.resolve_expr(x, m, None) for k, x in en]
                if all(isinstance(x, (Func, Cls)) for x in fs): yield m, n, v, [(k.value if isinstance(k, ast.Constant) else None, x) for (k, _), x in zip(en, fs)]

def check_reach(ctx, C):
    P = ctx.prog
    roots = [P.funcs[q] for q in ("triples.core.sum_of_squares.sum_of_squares", "triples.core.structsos.structsos.StructuralSOS", "triples.core.linsos.linsos.LinearSOS",
             "triples.core.symsos.symsos.SymmetricSOS", "triples.core.sdpsos.sdpsos.SDPSOS") if q in P.funcs]
    sos = next((f for f in P.funcs.values() if f.name == "sum_of_squares" and f.cls is None), None)
    if sos is None: return ctx.unres("reach", "no entry point found")
    R = reachable(ctx, C, [sos])
    for r in roots:
        ctx.decide(r in R, "reach", r.loc, r.qual, "%s is not used by the main entry point" % r.name, "method:" + r.name, "%s is used by sum_of_squares" % r.name)
    n = 0
    done = set()
    for path, t in C.reg.table.items():
        for name, (f, loc, m) in t.items():
            done.add(f); n += 1
            ctx.decide(f in R, "reach", loc, f.qual, "%s is registered as a solver but no public entry point uses it" % name, "lost:" + name, "%s is used" % name)
    for m, name, v, fs in func_tables(ctx):
        t = Var(m, name)
        if any(f in done for k, f in fs) and name == "_registry": continue
        for k, f in fs:
            if f in done: continue
            done.add(f); n += 1
            ctx.decide(f in R, "reach", "%s:%d" % (m.rel, v.lineno), f.qual, "%s is in the table %s but no public entry point uses it" % (f.name, name), "lost:" + f.name, "%s in %s is used" % (f.name, name))
    for q, f in P.funcs.items():
        if f in done or f.parent is not None or f.cls is not None or not f.module.name.startswith("triples.core.structsos"): continue
        if not f.name.lstrip("_").startswith(SOLVERNAME) or q in DORMANT or is_new(f): continue
        n += 1
        ctx.decide(f in R, "reach", f.loc, q, "the solver %s is not used by any public entry point" % f.name, "lost:" + f.name, "%s is used" % f.name)
    for m, name, v, fs in func_tables(ctx):
        if not m.name.startswith("triples.core.structsos") or not any(isinstance(f, Func) and f.name.lstrip("_").startswith(SOLVERNAME) for k, f in fs): continue
        if name == "_registry" or any(f in done for k, f in fs) and any(isinstance(x, ast.Call) and any(isinstance(a, ast.Name) and a.id == name for a in x.args) for x in ast.walk(m.tree) if isinstance(x, ast.Call) and getattr(x.func, "attr", "") == "_register_solver"): continue
        ctx.decide(any(isinstance(x, Var) and x.module is m and x.name == name for x in R), "reach", "%s:%d" % (m.rel, v.lineno), m.name, "the solver table %s is never consulted" % name, "table:" + name, "%s is consulted" % name)
    for q, f in P.funcs.items():
        if not f.module.name.startswith("triples.core"): continue
        for blk in blocks(f.node):
            for i, st in enumerate(blk[:-1]):
                if isinstance(st, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                    lost = [c for r in blk[i + 1:] for c in ast.walk(r) if isinstance(c, ast.Call) and solver_like(P, f, c)]
                    if lost and q not in DEADOK: ctx.bad("reach", "%s:%d" % (f.module.rel, lost[0].lineno), q, "this attempt can never be reached: the code before it always leaves", "dead:" + f.name)
                    break
    ctx.count("solvers checked for use", n)

def blocks(fn):
    st = [fn]
    while st:
        n = st.pop()
        for a in ("body", "orelse", "finalbody"):
            b = getattr(n, a, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b
                st.extend(x for x in b if not isinstance(x, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)))
        for h in getattr(n, "handlers", []) or []:
            yield h.body; st.extend(h.body)

def solver_like(P, f, c):
    g = resolve_call(P, f, c)
    n = g.name if isinstance(g, Func) else c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", "")
    return n.lstrip("_").startswith(SOLVERNAME)

# ------------------------------------------------------------------ method tables
def str_keys(e):
    en = entries(e)
    if en is None: return None
    out = []
    for k, v in en:
        x = k if k is not None else v
        if not (isinstance(x, ast.Constant) and isinstance(x.value, str)): return None
        out.append(x.value)
    return out

def var_value(ctx, m, name):
    vs = m.assigns.get(name, []) if m else []
    if len(vs) != 1: return None
    v = vs[0]
    if isinstance(v, ast.Call) and getattr(v.func, "id", "") in ("list", "tuple") and len(v.args) == 1 and isinstance(v.args[0], ast.Name): return var_value(ctx, m, v.args[0].id)
    return v

def check_methods(ctx, C):
    P = ctx.prog
    m = P.modules.get("triples.core.sum_of_squares")
    tab = var_value(ctx, m, "NAME_TO_METHOD")
    keys = str_keys(tab) if tab is not None else None
    if keys is None: ctx.unres("methods", "method table not understood"); keys = []
    else:
        loc = "%s:%d" % (m.rel, tab.lineno)
        ents = [(k.value, P.resolve_expr(v, m, None)) for k, v in entries(tab)]
        for k, f in ents:
            if not isinstance(f, (Func, Cls)): ctx.unres("methods", str(loc) + ": " + "method %s not resolved" % k); continue
            ctx.decide(not (f.name in keys and f.name != k), "methods", loc, f.qual, "method '%s' runs %s" % (k, f.name), "method:" + k, "method '%s' runs %s" % (k, f.name))
        for nm in ("METHOD_ORDER", "DEFAULT_CONFIGS"):
            v = var_value(ctx, m, nm)
            ks = str_keys(v) if v is not None else None
            if ks is None: ctx.unres("methods", str(loc) + ": " + nm + " not understood"); continue
            l2 = "%s:%d" % (m.rel, v.lineno)
            for k in ks: ctx.decide(k in keys, "methods", l2, nm, "'%s' in %s is not a known method" % (k, nm), "%s:%s" % (nm, k), "'%s' is a known method" % k)
            for k in keys: ctx.decide(k in ks, "methods", l2, nm, "method '%s' is missing from %s" % (k, nm), "%s-missing:%s" % (nm, k), "'%s' is in %s" % (k, nm))
        # names of methods written elsewhere
        suffix = {k for k in keys}
        for mm in P.modules.values():
            for n in ast.walk(mm.tree):
                if isinstance(n, (ast.Tuple, ast.List, ast.Set)):
                    ks = [x.value for x in n.elts if isinstance(x, ast.Constant) and isinstance(x.value, str)]
                    if len(ks) == len(n.elts) and any(k in suffix for k in ks):
                        for k in ks:
                            if k.endswith("SOS"): ctx.decide(k in suffix, "methods", "%s:%d" % (mm.rel, n.lineno), mm.name, "'%s' is not a known method" % k, "name:%s:%s" % (mm.name, k), "'%s' is a known method" % k)
    # symmetric transformations
    rep = P.modules.get("triples.core.symsos.representation")
    tv = var_value(ctx, rep, "_METHOD_TO_TRANSFORM")
    tk = str_keys(tv) if tv is not None else None
    if tk is None: ctx.unres("methods", "transformation table not understood")
    else:
        takers = set()
        for f in P.funcs.values():
            if f.module is rep and "method" in f.all_params and f.cls is None: takers.add(f)
        for f in P.funcs.values():
            for c in walk_own(f.node):
                if not isinstance(c, ast.Call): continue
                g = P.resolve_expr(c.func, f.module, f)
                if g not in takers: continue
                i = g.args.index("method") if "method" in g.args else -1
                e = next((k.value for k in c.keywords if k.arg == "method"), c.args[i] if 0 <= i < len(c.args) else None)
                if e is None: e = g.defaults.get("method")
                vals = const_strings(C, e, f)
                loc = "%s:%d" % (f.module.rel, c.lineno)
                if vals is None: continue
                for k in vals: ctx.decide(k in tk, "methods", loc, f.qual, "'%s' is not a known transformation" % k, "transform:%s:%s" % (f.name, k), "'%s' is a known transformation" % k)
        f = P.funcs.get("triples.core.symsos.symsos.SymmetricSOS")
        if f is not None:
            used = {x.value for x in ast.walk(f.node) if isinstance(x, ast.Constant) and isinstance(x.value, str)}
            for k in tk: ctx.decide(k in used or any(isinstance(x, ast.Name) and x.id == "_METHOD_TO_TRANSFORM" for x in ast.walk(f.node)) or bool(new_callees(ctx, f)), "methods", f.loc, f.qual, "the transformation '%s' is never tried" % k, "transform-unused:" + k, "'%s' is tried" % k)
    # numerical back ends
    cm = P.modules.get("triples.sdp.backend.caller")
    if cm is not None:
        ts = {}
        for nm, base in (("_DUAL_BACKENDS", "DualBackend"), ("_PRIMAL_BACKENDS", "PrimalBackend")):
            v = var_value(ctx, cm, nm)
            if v is None or str_keys(v) is None: ctx.unres("methods", str(cm.rel) + ": " + nm + " not understood"); continue
            ts[nm] = str_keys(v)
            for (k, e), kk in zip(entries(v), ts[nm]):
                c = P.resolve_expr(e, cm, None)
                if isinstance(c, Cls): ctx.decide(base in [b.name for b in P.mro(c)], "methods", "%s:%d" % (cm.rel, e.lineno), c.qual, "back end '%s' is not a %s" % (kk, base), "backend:%s:%s" % (nm, kk), "'%s' is a %s" % (kk, base))
        rv = var_value(ctx, cm, "_RECOMMENDED_BACKENDS")
        rk = str_keys(rv) if rv is not None else None
        if rk is None or len(ts) < 2: ctx.unres("methods", str(cm.rel) + ": " + "list of recommended back ends not understood")
        else:
            for k in rk: ctx.decide(k in ts["_DUAL_BACKENDS"] or k in ts["_PRIMAL_BACKENDS"], "methods", "%s:%d" % (cm.rel, rv.lineno), "_RECOMMENDED_BACKENDS", "'%s' is not a known back end" % k, "recommended:" + k, "'%s' is a known back end" % k)
            # a class in a table is recommended under at least one of its names
            for nm in ts:
                by = {}
                for k, e in entries(var_value(ctx, cm, nm)): by.setdefault(P.resolve_expr(e, cm, None), []).append(k.value)
                for c, ks in by.items():
                    ctx.decide(any(k in rk for k in ks), "methods", "%s:%d" % (cm.rel, rv.lineno), "_RECOMMENDED_BACKENDS", "back end %s is never chosen by default" % "/".join(ks), "unrecommended:" + ks[0], "%s can be chosen by default" % ks[0])
            f = next((g for g in P.funcs.values() if g.name == "get_default_sdp_backend"), None)
            if f is not None:
                for r in walk_own(f.node):
                    if isinstance(r, ast.Return) and isinstance(r.value, ast.Constant): ctx.decide(all(r.value.value in t for t in ts.values()), "methods", "%s:%d" % (cm.rel, r.lineno), f.qual, "the default back end %r is not in both tables" % (r.value.value,), "default-backend", "default back end is in both tables")

def new_callees(ctx, f):
    return [1 for c in calls_in(f) if isinstance(resolve_call(ctx.prog, f, c), Func) and is_new(resolve_call(ctx.prog, f, c))]

def const_strings(C, e, f):
    if isinstance(e, ast.Constant): return [e.value] if isinstance(e.value, str) else None
    if isinstance(e, ast.Name):
        ds = C._defs(e.id, f) if e.id not in f.all_params else None
        if not ds: return None
        out = []
        for k, x in ds:
            if k == "val" and isinstance(x, ast.Constant) and isinstance(x.value, str): out.append(x.value)
            elif k == "iter":
                t = C.table(x, f)
                if t is None: return None
                for kk, v, ow in t:
                    v = kk if kk is not None else v
                    if not (isinstance(v, ast.Constant) and isinstance(v.value, str)): return None
                    out.append(v.value)
            else: return None
        return out
    return None

# ------------------------------------------------------------------ degrees
def lit_reads(f):
    """{(degree, nvars): [line]} of literal monomials read from the function's problem parameter"""
    if not f.args: return None, {}
    p = f.args[0]
    if any(isinstance(n, ast.Name) and n.id == p and isinstance(n.ctx, ast.Store) for n in ast.walk(f.node)): return None, {}
    out = {}
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == p and len(n.args) == 1 and isinstance(n.args[0], ast.Tuple):
            es = n.args[0].elts
            if all(isinstance(x, ast.Constant) and isinstance(x.value, int) for x in es):
                out.setdefault((sum(x.value for x in es), len(es)), []).append(n.lineno)
    return p, out

def passes_on(ctx, C, f, p):
    """functions that get the problem parameter unchanged as their first argument"""
    out = []
    for n in walk_own(f.node):
        if isinstance(n, ast.Call) and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == p:
            for x in C.values(n.func, f) or []:
                if x[0] == "fn" and isinstance(x[1], Func) and x[1] is not f: out.append((x[1], n.lineno))
    return out

def multi_degree(f, p):
    """asks for the degree of its problem, so it may serve several"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Attribute) and n.attr in ("degree", "total_degree", "nvars") and isinstance(n.value, ast.Name) and n.value.id == p: return True
    return False

def check_degree(ctx, C):
    n = 0
    seen = {}
    def visit(f, deg, nv, via, loc):
        nonlocal n
        if (f, deg, nv) in seen: return
        seen[(f, deg, nv)] = 1
        p, rd = lit_reads(f)
        if p is None or multi_degree(f, p): return
        n += 1
        for (d, k), lines in sorted(rd.items()):
            good = d == deg and (nv is None or k == nv)
            if good: ctx.ok("degree", f.qual, "%d coefficients of degree %d" % (len(lines), d))
            else: ctx.bad("degree", "%s:%d" % (f.module.rel, lines[0]), f.qual, "a coefficient of degree %d%s is read, but problems of degree %d reach this solver (%s)" % (d, "" if nv in (None, k) else " in %d variables" % k, deg, via), "degree:%s:%d:%d" % (f.name, deg, d))
        for g, ln in passes_on(ctx, C, f, p):
            if g.module.name.startswith("triples.core.structsos") and g.args and not decorated(ctx.prog, g): visit(g, deg, nv, via + " -> " + g.name, "%s:%d" % (f.module.rel, ln))
    for m, name, v, fs in func_tables(ctx):
        if not m.name.startswith("triples.core.structsos"): continue
        nv = 3 if ".ternary" in m.name else 4 if ".quarternary" in m.name else None
        for k, f in fs:
            if isinstance(k, int) and not isinstance(k, bool) and isinstance(f, Func): visit(f, k, nv, "%s[%d]" % (name, k), "%s:%d" % (m.rel, v.lineno))
    # every other solver: one degree only
    for q, f in ctx.prog.funcs.items():
        if f.cls is not None or not f.module.name.startswith("triples.core.structsos.") or any(x[0] is f for x in seen): continue
        p, rd = lit_reads(f)
        if p is None or multi_degree(f, p) or not rd: continue
        n += 1
        if len(rd) == 1: ctx.ok("degree", q, "all coefficients have degree %d" % list(rd)[0][0])
        elif len(rd) > 1:
            best = max(rd, key=lambda k: len(rd[k]))
            rest = [k for k in rd if k != best]
            tot = sum(len(rd[k]) for k in rest)
            if len(rd[best]) > 2 * tot: ctx.bad("degree", "%s:%d" % (f.module.rel, rd[rest[0]][0]), q, "a coefficient of degree %d is read in a solver for degree %d" % (rest[0][0], best[0]), "degree1:%s:%d" % (f.name, rest[0][0]))
            else: ctx.unres("degree", str(f.loc) + ": " + "coefficients of several degrees")
    ctx.count("solvers with a fixed degree", n)

# ------------------------------------------------------------------ chains
def loop_paths(stmts, facts, handler=None, limit=400):
    """ways through a statement list: (kind, node, facts, handler); kind in fall/return/break/continue/raise"""
    out = []
    live = [tuple(facts)]
    for s in stmts:
        nxt = []
        for fc in live[:limit]:
            if isinstance(s, ast.Return): out.append(("return", s, fc, handler))
            elif isinstance(s, ast.Break): out.append(("break", s, fc, handler))
            elif isinstance(s, ast.Continue): out.append(("continue", s, fc, handler))
            elif isinstance(s, ast.Raise): out.append(("raise", s, fc, handler))
            elif isinstance(s, ast.If):
                for body, pol in ((s.body, True), (s.orelse, False)):
                    for k, nd, f2, h in loop_paths(body, fc + ((s.test, pol),), handler):
                        if k == "fall": nxt.append(f2)
                        else: out.append((k, nd, f2, h))
            elif isinstance(s, ast.Try):
                first = []
                for k, nd, f2, h in loop_paths(s.body, fc, handler):
                    if k == "fall": first.append(f2)
                    else: out.append((k, nd, f2, h))
                for f1 in first:
                    for k, nd, f2, h in loop_paths(s.orelse, f1, handler):
                        if k == "fall": nxt.append(f2)
                        else: out.append((k, nd, f2, h))
                for hd in s.handlers:
                    for k, nd, f2, h in loop_paths(hd.body, fc, hd):
                        if k == "fall": nxt.append(f2)
                        else: out.append((k, nd, f2, h))
            elif isinstance(s, ast.With):
                for k, nd, f2, h in loop_paths(s.body, fc, handler):
                    if k == "fall": nxt.append(f2)
                    else: out.append((k, nd, f2, h))
            elif isinstance(s, (ast.For, ast.While)):
                for k, nd, f2, h in loop_paths(s.body, fc, handler):
                    if k == "return": out.append((k, nd, f2, h))
                nxt.append(fc)
            else:
                kill = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                nxt.append(tuple(t for t in fc if not (kill & {x.id for x in ast.walk(t[0]) if isinstance(x, ast.Name)})))
        live = nxt
    out += [("fall", None, fc, handler) for fc in live]
    return out

def atoms(t, pol):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not): yield from atoms(t.operand, not pol)
    elif isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) == pol:
        for v in t.values: yield from atoms(v, pol)
    else: yield t, pol

def atoms_in(f, t, pol, d=0):
    """as atoms, with flags replaced by the test they were assigned from"""
    for a, p in atoms(t, pol):
        if isinstance(a, ast.Name) and d < 3:
            ds = [n.value for n in walk_own(f.node) if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == a.id]
            if len(ds) == 1 and isinstance(ds[0], (ast.Compare, ast.BoolOp, ast.UnaryOp)) or len(ds) == 1 and isinstance(ds[0], ast.Call) and getattr(ds[0].func, "id", "") == "isinstance":
                yield from atoms_in(f, ds[0], p, d + 1); continue
        yield a, p

def not_none(f, facts, names):
    for t, pol in facts:
        for a, p in atoms_in(f, t, pol):
            if isinstance(a, ast.Compare) and len(a.ops) == 1 and isinstance(a.comparators[0], ast.Constant) and a.comparators[0].value is None:
                l = a.left.target if isinstance(a.left, ast.NamedExpr) else a.left
                if isinstance(l, ast.Name) and l.id in names and isinstance(a.ops[0], (ast.IsNot, ast.NotEq)) == p: return True
            elif isinstance(a, ast.Name) and a.id in names and p: return True
            elif isinstance(a, ast.Call) and p and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(a)): return True      # some test of the result holds
            elif isinstance(a, ast.Attribute) and p and any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(a)): return True
    return False

def is_nonpos(ctx, f, hd, facts):
    """the exception in this handler proves the problem non-positive (or is unrelated)"""
    ts = handler_types(ctx.prog, f, hd)
    if ts and all(t != "?" and not can_catch_unsolvable(ctx, t) for t in ts): return True
    for t, pol in facts:
        for a, p in atoms_in(f, t, pol):
            if isinstance(a, ast.Call) and getattr(a.func, "id", "") == "isinstance" and len(a.args) == 2:
                e = a.args[1].elts if isinstance(a.args[1], ast.Tuple) else [a.args[1]]
                qs = [getattr(ctx.prog.resolve_expr(x, f.module, f), "qual", "?") for x in e]
                if p and all(q == NONPOS for q in qs): return True
                if not p and UNSOLV in qs: return True
    return False

def can_catch_unsolvable(ctx, q):
    if q in ("builtins.Exception", "builtins.BaseException"): return True
    c = ctx.prog.classes.get(UNSOLV)
    if c is None: return True
    quals = {b.qual for b in ctx.prog.mro(c)} | ctx.prog.ext_bases(c)
    return q in quals

def chain_loops(ctx, C):
    """(func, loop, name of the callee, result names) for loops that call a function chosen by the loop variable"""
    for f in ctx.prog.funcs.values():
        if not f.module.name.startswith("triples.core"): continue
        for lp in walk_own(f.node):
            if not isinstance(lp, ast.For) or not isinstance(lp.target, ast.Name): continue
            tv = lp.target.id
            fn = {tv}
            for n in ast.walk(lp):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                    v = n.value
                    if isinstance(v, ast.Subscript) and isinstance(v.slice, ast.Name) and v.slice.id == tv: fn.add(n.targets[0].id)
                    if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "get" and v.args and isinstance(v.args[0], ast.Name) and v.args[0].id == tv and not any(isinstance(x, ast.Call) and x is not v for x in ast.walk(v)):
                        fn.add(n.targets[0].id)
            res, call = set(), None
            for n in ast.walk(lp):
                v = n.value if isinstance(n, (ast.Assign, ast.NamedExpr)) else None
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in fn:
                    t = n.targets[0] if isinstance(n, ast.Assign) else n.target
                    if isinstance(t, ast.Name): res.add(t.id); call = v
            if res: yield f, lp, call, res

def check_chain(ctx, C):
    n = 0
    for f, lp, call, res in chain_loops(ctx, C):
        n += 1
        loc0 = "%s:%d" % (f.module.rel, lp.lineno)
        good = True
        for x in ast.walk(lp.iter):
            if (isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Slice) and not (x.slice.lower is None and x.slice.upper is None)) or (isinstance(x, ast.Call) and (getattr(x.func, "id", "") or getattr(x.func, "attr", "")) in ("islice", "takewhile", "dropwhile")):
                good = False; ctx.bad("chain", loc0, f.qual, "only some of the solvers are tried: %s" % ast.unparse(lp.iter), "chain-slice:" + f.name)
        got = {a.targets[0].id for a in ast.walk(lp) if isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(a.value, ast.Call) and isinstance(a.value.func, ast.Attribute) and a.value.func.attr == "get"
               and len(a.value.args) == 1 and isinstance(a.value.args[0], ast.Name) and a.value.args[0].id == lp.target.id}
        for k, nd, fc, hd in loop_paths(lp.body, ()):
            if k == "continue" and hd is None and nd.lineno < call.lineno:
                hit = [a for t, pol in fc for a, p_ in atoms(t, pol) if p_ and isinstance(a, ast.Compare) and isinstance(a.ops[0], ast.Is) and isinstance(a.left, ast.Name) and a.left.id in got]
                hit += [a for t, pol in fc for a, p_ in atoms(t, pol) if not p_ and isinstance(a, ast.Name) and a.id in got]
                if hit: good = False; ctx.bad("chain", "%s:%d" % (f.module.rel, nd.lineno), f.qual, "a method is skipped without being tried when %s has no entry for it" % ast.unparse(hit[0]), "chain-skip:" + f.name)
        for k, nd, fc, hd in loop_paths(lp.body, ()):
            if k not in ("return", "break"): continue
            loc = "%s:%d" % (f.module.rel, nd.lineno)
            if hd is not None:
                if not is_nonpos(ctx, f, hd, fc): good = False; ctx.bad("chain", loc, f.qual, "a solver that gives up ends the search before the remaining solvers are tried", "chain-exc:" + f.name)
            elif not not_none(f, fc, res):
                good = False
                ctx.bad("chain", loc, f.qual, "the search ends here although this solver may have given no answer", "chain-exit:" + f.name)
        if good: ctx.ok("chain", loc0, "the loop ends early only with a result or a proof of non-positivity")
        # signals raised by one solver must not lose the others when the loop handles solvers given by the caller
        its = {x.id for x in ast.walk(lp.iter) if isinstance(x, ast.Name)}
        owner = f
        while owner is not None and not (its & set(owner.all_params)): owner = owner.parent
        if owner is not None and owner.name in COMB:
            trys = enclosing_trys(f, call)
            caught = any(part == "body" and any(t == "?" or can_catch_unsolvable(ctx, t) for h in t_.handlers for t in handler_types(ctx.prog, f, h)) for t_, part in trys if lp in parents_chain(f, t_))
            ctx.decide(caught, "chain", loc0, f.qual, "a solver that gives up with an exception also loses the remaining solvers", "chain-uncaught:" + f.name, "giving up is caught inside the loop")
    for f in ctx.prog.funcs.values():
        if f.name not in COMB or f.module.name.split(".")[0] != "triples" or f.node.args.vararg is None: continue
        va = f.node.args.vararg.arg
        for x in ast.walk(f.node):
            if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == va and not (isinstance(x.slice, ast.Name)):
                n += 1; ctx.bad("chain", "%s:%d" % (f.module.rel, x.lineno), f.qual, "only some of the solvers are tried: %s" % ast.unparse(x), "chain-some:" + f.name)
    # alternatives chosen by name
    for f in ctx.prog.funcs.values():
        if not f.module.name.startswith("triples.core"): continue
        for lp in walk_own(f.node):
            if not isinstance(lp, ast.For) or not isinstance(lp.target, ast.Name): continue
            t = C.table(lp.iter, f)
            if not t or len(t) < 2 or not all(isinstance(v, ast.Constant) and isinstance(v.value, str) for k, v, ow in t): continue
            if not any(isinstance(c, ast.Call) and any(isinstance(a, ast.Name) and a.id == lp.target.id for a in list(c.args) + [k.value for k in c.keywords]) for c in ast.walk(lp)): continue
            n += 1
            blk = next((b for b in blocks(f.node) if lp in b), [lp])
            rest = blk[blk.index(lp) + 1:]
            empty = not rest or all(isinstance(r_, ast.Return) and (r_.value is None or isinstance(r_.value, ast.Constant) and r_.value.value is None) for r_ in rest)
            bad = [nd for k, nd, fc, hd in loop_paths(lp.body, ()) if hd is None and (k == "break" and (not fc or empty and blk is f.node.body) or k == "return" and (nd.value is None or isinstance(nd.value, ast.Constant) and nd.value.value is None))]
            if bad: ctx.bad("chain", "%s:%d" % (f.module.rel, bad[0].lineno), f.qual, "the search ends without an answer here although further methods remain to be tried", "chain-name:" + f.name)
            else: ctx.ok("chain", "%s:%d" % (f.module.rel, lp.lineno), "no method ends the search without an answer")
    ctx.count("solver chains", n)

def parents_chain(f, node):
    ps, out = parents(f), []
    while node in ps: node = ps[node]; out.append(node)
    return out

# ------------------------------------------------------------------ dispatch on the number of variables
def guard_nvars(f):
    """N when the function starts by refusing polynomials that do not have N variables"""
    for s in f.body:
        if isinstance(s, ast.If) and s.body and isinstance(s.body[0], ast.Raise) and isinstance(s.test, ast.Compare) and len(s.test.ops) == 1 and isinstance(s.test.ops[0], ast.NotEq):
            l, r = s.test.left, s.test.comparators[0]
            if isinstance(l, ast.Call) and getattr(l.func, "id", "") == "len" and l.args and isinstance(l.args[0], ast.Attribute) and l.args[0].attr == "gens" and isinstance(l.args[0].value, ast.Name) and l.args[0].value.id == f.args[0] and isinstance(r, ast.Constant): return r.value
    return None

def check_dispatch(ctx, C):
    want = {}
    for f in ctx.prog.funcs.values():
        if f.module.name.startswith("triples.core") and f.args and f.cls is None and guard_nvars(f) is not None: want[f.qual] = guard_nvars(f)
    ctx.count("solvers with a fixed number of variables", len(want))
    for q in want:
        g = ctx.prog.funcs[q]
        for f in ctx.prog.funcs.values():
            if not f.module.name.startswith("triples.core"): continue
            if not any(resolve_call(ctx.prog, f, c) is g for c in calls_in(f)): continue
            xs = runf(ctx, "dispatch", f, want=lambda t: t.op == "call" and callee_name(t) == g.name, merge=False)
            if xs is None: continue
            for e in events(xs, lambda e: e.kind == "call" and callee_name(e.term) == g.name):
                a = call_args(e.term)
                p = a[0] if a else next((v for k, v in e.term.a[2] if k == g.args[0]), None)
                n, of = nvars_fact(e.facts, e.st)
                if n is None and unequal_fact(e.facts, e.st):
                    ctx.bad("dispatch", e.loc, f.qual, "%s needs exactly %d variables but this call is reached with others as well" % (g.name, want[q]), "dispatch:%s:%s" % (f.name, g.name)); continue
                if n is None: ctx.unres("dispatch", str(e.loc) + ": " + "number of variables at this call is not known"); continue
                ctx.decide(n == want[q], "dispatch", e.loc, f.qual, "%s needs %d variables but is given problems with %d" % (g.name, want[q], n), "dispatch:%s:%s" % (f.name, g.name), "%s is given %d variables" % (g.name, n))
                p = e.st.expand(p) if p is not None else None
                if p is not None and p != of and any(s == of for s in subterms(p)): ctx.bad("dispatch", e.loc, f.qual, "the number of variables was counted before the problem was changed", "stale-count:%s:%s" % (f.name, g.name))

def check_needs(ctx, C):
    """what the specialised solvers take for granted has been tested; no dispatcher gives up before a solver was tried"""
    P = ctx.prog
    for q in DISPATCH:
        f = P.funcs.get(q)
        if f is None: ctx.unres("dispatch", q + " not found"); continue
        opaque = lambda t: t.op == "call" and t.a[0].op in ("bv", "phi", "item", "sub", "ite")
        want = lambda t: t.op == "call" and ((callee_name(t) or "") in NEEDS or (callee_name(t) or "").lstrip("_").startswith(SOLVERNAME) or opaque(t))
        xs = runf(ctx, "dispatch", f, want=want, merge=False)
        if xs is None: continue
        for e in events(xs, lambda e: e.kind == "call" and callee_name(e.term) in NEEDS):
            for need in NEEDS[callee_name(e.term)]:
                ok = any(known(need, e.st.expand(k), b) for k, b in e.facts.items())
                ctx.decide(ok, "dispatch", e.loc, f.qual, "%s takes for granted that the polynomial %s, which was not tested" % (callee_name(e.term), SAID[need]), "needs:%s:%s" % (callee_name(e.term), need), "%s: %s" % (callee_name(e.term), need), path=path_of(e))
    hs = lambda f: [(h.lineno, h.end_lineno) for h in ast.walk(f.node) if isinstance(h, ast.ExceptHandler)]
    for q, excuse in ((DISPATCH[0], odd_unconstrained), (DISPATCH[1], asymmetric), ("triples.core.structsos.constrained.solver." + GENERAL, unconstrained)):
        f = P.funcs.get(q)
        if f is None: ctx.unres("chain", q + " not found"); continue
        want = lambda t: t.op == "call" and ((callee_name(t) or "").lstrip("_").startswith(SOLVERNAME) or t.a[0].op in ("bv", "phi", "item", "sub", "ite"))
        xs = runf(ctx, "chain", f, want=want, merge=False)
        for x in xs or []:
            if x.kind != "return" or not isinstance(x.val, T) or x.val is not NONE: continue
            if any(e.kind == "call" for e in x.events) or any(opaque_fact(k) for k in x.facts): continue
            ln = int(str(x.loc).split(":")[1])
            if any(a <= ln <= b for a, b in hs(f)): continue
            ctx.decide(excuse(x), "chain", x.loc, f.qual, "the problem is given up before any solver was tried", "untried:" + f.name, "given up only where nothing applies", path=path_of(x))
    f = P.funcs.get("triples.core.structsos.structsos._structural_sos")
    if f is None: ctx.unres("chain", "_structural_sos not found"); return
    g = P.funcs.get("triples.core.structsos.constrained.solver." + GENERAL)
    xs = runf(ctx, "chain", f, want=lambda t: t.op == "call" and ((callee_name(t) or "").lstrip("_").startswith(SOLVERNAME) or t.a[0].op in ("bv", "phi", "item", "sub", "ite")), merge=False)
    if xs is None or g is None: return
    if not any(callee_name(e.term) == GENERAL for e in events(xs, lambda e: e.kind == "call")): ctx.unres("chain", "_structural_sos: the general solver is not called directly"); return
    for x in xs:
        if x.kind != "return": continue
        if any(e.kind == "call" and callee_name(e.term) == GENERAL for e in x.events): continue
        v = x.st.expand(x.val)
        found = any(b is False and k.op == "isnone" and x.st.expand(k.a[0]) is v for k, b in x.facts.items()) or x.facts.get(v) is True
        neg = any(b and k.op == "lt" and k.a[1] is C_(0) and callee_name(k.a[0]) == "LC" for k, b in x.facts.items()) or any(b is False and k.op == "lt" and k.a[0] is C_(0) for k, b in x.facts.items() if False)
        ctx.decide(found or neg, "chain", x.loc, f.qual, "an attempt without an answer ends the search before the general solver was tried", "last-resort", "%s is the last resort" % GENERAL, path=path_of(x))
    check_specified(ctx)

def C_(n):
    from sa.terms import C
    return C(n)

SAID = {"cyc": "is cyclic", "sym": "is symmetric", "degree4": "has degree 4", "nvars3": "has three variables", "hom": "is homogeneous"}
def known(need, k, b):
    n = callee_name(k) if k.op == "call" else None
    if need == "cyc": return b and (n in ("is_cyclic", "is_symmetric") or (k.op == "item" and callee_name(k.a[0]) == "verify_hom_cyclic" and k.a[1] == 1) or (k.op == "sub" and callee_name(k.a[0]) == "verify_hom_cyclic"))
    if need == "sym": return b and n == "is_symmetric"
    if need == "hom": return b and ((k.op == "attr" and k.a[1] == "is_homogeneous") or (k.op == "item" and callee_name(k.a[0]) == "verify_hom_cyclic"))
    num = {"degree4": 4, "nvars3": 3}[need]
    if k.op == "eq" and b:
        return any(y.op == "c" and cval(y) == num and z.op == "call" and ((callee_name(z) in ("total_degree", "degree") if need == "degree4" else callee_name(z) == "len") or "nvars" in repr(z)) or (y.op == "c" and cval(y) == num and z.op == "attr" and z.a[1] in ("nvars",)) for y, z in (k.a, k.a[::-1]))
    return False
def opaque_fact(k): return any(s.op == "call" and s.a[0].op in ("bv", "phi", "item", "sub", "ite") for s in subterms(k))
def zero_len(x, p): return any(b and k.op == "eq" and any(y.op == "c" and cval(y) == 0 for y in k.a) and any(y.op == "call" and callee_name(y) == "len" and call_args(y)[0] is T("p", p) for y in k.a) for k, b in x.facts.items()) or x.facts.get(T("p", p)) is False
def odd_unconstrained(x):
    odd = any(b and k.op == "eq" and any(y.op == "bin" and y.a[0] == "Mod" for y in k.a) for k, b in x.facts.items()) or any(b and k.op == "bin" and k.a[0] in ("Mod", "BitAnd") for k, b in x.facts.items())
    return zero_len(x, "ineq_constraints") and zero_len(x, "eq_constraints") and odd
def unconstrained(x): return zero_len(x, "ineq_constraints")
def asymmetric(x):
    F = x.facts.items()
    if any(k.op == "isnone" and b and k.a[0].op in ("fn", "g") for k, b in F): return True
    return not any(b and k.op == "call" and callee_name(k) in ("is_symmetric", "is_cyclic") for k, b in F) and any(k.op == "call" and callee_name(k) == "is_cyclic" for k, b in F)

def check_specified(ctx):
    q = "triples.core.structsos.sparse.sos_struct_degree_specified_solver"
    f = next((h for h in ctx.prog.funcs.values() if h.qual.startswith(q + ".<locals>") and h.args), None)
    if f is None: ctx.unres("degree", q); return
    xs = runf(ctx, "degree", f, merge=False)
    p = T("p", f.args[0])
    for x in xs or []:
        if x.kind != "return": continue
        v = x.st.expand(x.val)
        gets = [s for k in list(x.facts) + [v] for s in subterms(x.st.expand(k)) if s.op == "call" and callee_name(s) == "get" and call_args(s)] + [s for s in subterms(v) if s.op == "sub"]
        for gt in gets:
            key = call_args(gt)[0] if gt.op == "call" else gt.a[1]
            if key.op == "call" and callee_name(key) in ("degree", "total_degree"): ctx.ok("degree", x.loc, "key"); continue
            if key.op in ("bin", "c", "phi") or (key.op == "call" and callee_name(key) in ("max", "min", "len", "degree", "abs", "sum")): ctx.bad("degree", x.loc, f.qual, "the solver is chosen for the number %s instead of the degree of the polynomial" % key, "specified:key")
            else: ctx.unres("degree", "key %s" % key)
        if v.op == "call" and callee_name(v) == "_null_solver":
            not_ = {cval(y) for k, b in x.facts.items() if k.op == "eq" and not b for y in k.a if y.op == "c"}
            gt2 = any(k.op == "lt" and b and k.a[0].op == "c" and cval(k.a[0]) >= 2 for k, b in x.facts.items()) or any(k.op == "lt" and not b and k.a[1].op == "c" and cval(k.a[1]) >= 3 for k, b in x.facts.items())
            ctx.decide({1, 2} <= not_ or gt2, "degree", x.loc, f.qual, "polynomials of degree 1 or 2 get no solver although the general ones handle them", "specified:default", "linear and quadratic defaults", path=path_of(x))

def nvars_fact(facts, st):
    for t, pol in (facts.items() if isinstance(facts, dict) else facts):
        t = st.expand(t) if isinstance(t, T) else t
        if t.op == "eq" and pol:
            for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                if y.op == "c" and isinstance(cval(y), int) and x.op == "call" and callee_name(x) == "len" and call_args(x) and call_args(x)[0].op == "attr" and call_args(x)[0].a[1] == "gens": return cval(y), call_args(x)[0].a[0]
    return None, None

def unequal_fact(facts, st):
    """the number of variables is only known to lie in a range"""
    for t, pol in (facts.items() if isinstance(facts, dict) else facts):
        t = st.expand(t) if isinstance(t, T) else t
        if t.op in ("lt", "le"):
            for x, y in ((t.a[0], t.a[1]), (t.a[1], t.a[0])):
                if y.op == "c" and isinstance(cval(y), int) and x.op == "call" and callee_name(x) == "len" and call_args(x) and call_args(x)[0].op == "attr" and call_args(x)[0].a[1] == "gens": return True
    return False
