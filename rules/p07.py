"""P07 - calls never change the caller's data or the shared defaults."""
import ast
from sa.util import *
from sa.load import Var, Func
from sa import alias

TECHNIQUE = "interprocedural points-to and mutation analysis (field- and index-sensitive, summaries iterated to a fixpoint over the call graph)"
EXPLANATION = ("Every function is summarised by the objects it may change: item and slice assignment, deletion, in-place operators, mutating container, matrix and array methods, "
  "attribute assignment on objects that are not its own. Objects created inside a function have their own heap cells, so a new list that holds the caller's matrix is not the "
  "matrix, while a shallow copy still shares the elements. Summaries are composed along resolved calls. Then no public function or constructor changes a container it was given "
  "(directly or through anything it calls), no function changes a mutable default value or an object reached from one, no function changes a module-level or class-level table, "
  "no function hands out a default or table itself, and no method changes a container that its constructor kept from the caller. Objects maintaining their own private state (lazily filled "
  "monomial tables, the transformation graph of an SDP problem) are not arguments in this sense. Not covered: changes made by external libraries, objects reached through "
  "unresolved calls or through the return values of external methods.")

# (function name, parameter): changing it is what the function is for, and it is not an entry point of the library
BY_DESIGN = {("restore_eigen", "vec"): "works on the split vector it creates itself unless handed the pieces"}
REQUEST_LOCAL = {"web_main"}     # handlers own the request dictionary: it is created by the server for this one request
# module-level state that is meant to change
STATE = {"builtins.print", "PRINT_WITH_PARENS", "PRINT_FULL"}

def run(ctx):
    ctx.rule("arguments", "a public function or constructor does not change a container it was given")
    ctx.rule("foreign", "no function assigns an attribute of an object it was given, or changes a container that object holds, unless it maintains the SDP problem graph")
    ctx.rule("defaults", "no function changes a mutable default value or anything reached from it")
    ctx.rule("tables", "no function changes a module-level or class-level table after import")
    ctx.rule("handout", "no function returns a shared mutable default or table itself")
    ctx.rule("retained", "a container kept by a constructor is not changed by the methods of the object")
    al = alias.Alias(ctx.prog)
    ctx.count("functions summarised", len(al.sum)); ctx.count("calls composed", al.calls); ctx.count("mutation sites", al.sites)
    ctx.section(check_arguments, ctx, al)
    ctx.section(check_foreign, ctx, al)
    ctx.section(check_defaults, ctx, al)
    ctx.section(check_tables, ctx, al)
    ctx.section(check_handout, ctx, al)
    ctx.section(check_retained, ctx, al)

def me_of(f): return f.args[0] if f.cls is not None and f.parent is None and f.args and not f.is_static else None

def public(f):
    if f.parent is not None and any("wraps" in ast.unparse(d) for d in f.decorators): return True     # stands for the functions it decorates
    if f.parent is not None or isinstance(f.node, ast.Lambda): return False
    if f.cls is not None and f.cls.name.startswith("_"): return False
    return not f.name.startswith("_") or (f.name.startswith("__") and f.name.endswith("__"))

GRAPH = ("_transforms", "_monoms")
def graph_field(o, w):
    """registration of a transformation with its parent problem; lazily filled monomial table"""
    p = o[-1] if o[0] in "PUGC" else ()
    return any(st.lstrip(".") in GRAPH or "cache" in st or "memo" in st for st in p) or any(("." + g) in w[2] for g in GRAPH)

STATEFUL = {"__init__", "__new__", "__setitem__", "__delitem__", "__iadd__", "__isub__", "__imul__", "__setattr__", "__setstate__", "__enter__", "__exit__", "__next__", "__iter__", "__call__", "__init_subclass__", "__post_init__"}

def chain(w): return ["%s in %s" % c for c in w[3]] + ["%s in %s: %s" % (w[0], w[1], w[2])]

def check_arguments(ctx, al):
    for f, s in al.sum.items():
        if not public(f) or f.module.name.split(".")[0] in REQUEST_LOCAL: continue
        a = f.node.args
        skip = {a.vararg.arg if a.vararg else None, a.kwarg.arg if a.kwarg else None}
        me = me_of(f)
        if f.name.startswith("__") and f.name.endswith("__") and f.name not in STATEFUL and f.cls is not None: me = None     # operators leave both operands alone
        params = [p for p in f.all_params if p != me]
        hit = {}
        for o, w in s.mut.items():
            if o[0] != "P" or o[1] == me or (o[1] in skip and not o[2]): continue
            if o[1] == me_of(f) and not o[2]: continue
            if w[4] != "item" or "*" in o[2] or graph_field(o, w): continue
            if (f.name, o[1]) in BY_DESIGN: continue
            if o[1] not in hit or len(o[2]) < len(hit[o[1]][0][2]): hit[o[1]] = (o, w)
        for p in params:
            if p in hit:
                o, w = hit[p]
                ctx.bad("arguments", w[0], f.qual, "%s() changes its argument %s: %s in %s" % (f.name, alias.fmt(o), w[2], w[1].split(".")[-1]), "%s:%s" % (f.qual, p), chain(w))
            else: ctx.ok("arguments", f.loc, "%s(%s)" % (f.qual, p))

def check_foreign(ctx, al):
    for f, s in al.sum.items():
        me = me_of(f)
        for o, w in s.mut.items():
            if w[4] == "item" and o[0] in "PU" and o[-1] and o[-1][0][0] == "." and "*" not in o[-1] and not graph_field(o, w) and not (o[0] == "P" and o[1] == me) and not own_free(f, o):
                ctx.bad("foreign", w[0], f.qual, "%s() changes a container held by an object it was given: %s (%s)" % (f.name, alias.fmt(o), w[2]), "%s:%s:item" % (f.qual, o[1]), chain(w)); continue
            if w[4] != "attr" or w[1] != f.qual or o[0] != "P" or o[1] == me: continue
            if graph_object(ctx, f): ctx.ok("foreign", w[0], "%s %s" % (f.qual, w[2])); continue
            ctx.bad("foreign", w[0], f.qual, "%s() assigns an attribute of an object it was given: %s" % (f.name, w[2]), "%s:%s" % (f.qual, o[1]), chain(w))
        ctx.ok("foreign", f.loc, f.qual)

def own_free(f, o):
    """the free variable is the method's own object"""
    if o[0] != "U": return False
    p = f.parent
    while p is not None and not isinstance(p, tuple):
        if p.qual == o[1]: return me_of(p) == o[2]
        p = getattr(p, "parent", None)
    return False

def graph_object(ctx, f):
    """problem and transformation nodes of triples.sdp register results with each other"""
    return f.module.name.startswith("triples.sdp")

def is_mutable(ctx, f, d):
    if isinstance(d, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)): return True
    if isinstance(d, (ast.Name, ast.Attribute)):
        r = ctx.prog.resolve_expr(d, f.module, f.parent)
        return isinstance(r, Var) and is_table(r.module.assigns.get(r.name, []))
    if isinstance(d, ast.Call) and isinstance(d.func, ast.Name): return d.func.id in ("list", "dict", "set", "defaultdict", "OrderedDict", "array", "zeros")
    return False

def is_table(vs): return any(isinstance(x, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or (isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("list", "dict", "set", "defaultdict", "OrderedDict")) for x in vs)

def check_defaults(ctx, al):
    for f, s in al.sum.items():
        for n, d in f.defaults.items():
            if not is_mutable(ctx, f, d): continue
            w = next(((o, w) for o, w in sorted(s.mut.items(), key=lambda t: len(t[0][-1])) if o[0] == "P" and o[1] == n and "*" not in o[2] and w[4] in ("item", "attr") and not graph_field(o, w)), None)
            if w is None: ctx.ok("defaults", f.loc, "%s(%s=%s)" % (f.qual, n, ast.unparse(d)[:30])); continue
            o, w = w
            ctx.bad("defaults", w[0], f.qual, "the default of %s is shared between calls and is changed: %s (%s)" % (n, alias.fmt(o), w[2]), "%s:%s" % (f.qual, n), chain(w))

def import_time(ctx, f):
    """called while modules are imported (registration decorators), not afterwards"""
    for m in ctx.prog.modules.values():
        for n in ast.walk(m.tree):
            for d in getattr(n, "decorator_list", []) or []:
                t = d.func if isinstance(d, ast.Call) else d
                r = ctx.prog.resolve_expr(t, m, None)
                if r is f or (isinstance(r, Func) and (f.parent is r)): return True
                if isinstance(t, ast.Attribute) and t.attr == f.name: return True
    for m in ctx.prog.modules.values():
        for st in m.tree.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)): continue
            for n in ast.walk(st):
                if isinstance(n, ast.Call) and (ctx.prog.resolve_expr(n.func, m, None) is f or (isinstance(n.func, ast.Attribute) and n.func.attr == f.name)): return True
    return False

def check_tables(ctx, al):
    for f, s in al.sum.items():
        done = set()
        for o, w in s.mut.items():
            if o[0] != "G" or w[1] != f.qual or "*" in o[2]: continue
            if o[1] in done: continue
            nm = o[1].split(".")[-1]
            if starts_empty(ctx, o[1]): continue      # a registry or a memo, filled at run time by construction
            if o[1] in STATE or nm in STATE or w[4] == "rebind": continue
            done.add(o[1])
            if import_time(ctx, f) or in_registry(ctx, f): ctx.ok("tables", w[0], "%s fills %s at import" % (f.qual, nm)); continue
            ctx.bad("tables", w[0], f.qual, "changes the shared table %s: %s" % (alias.fmt(o), w[2]), "%s:%s" % (f.qual, o[1]), chain(w))
        ctx.ok("tables", f.loc, f.qual)

def starts_empty(ctx, q):
    mod, _, nm = q.rpartition(".")
    m = ctx.prog.modules.get(mod)
    vs = m.assigns.get(nm, []) if m else []
    if not m:
        c = ctx.prog.classes.get(mod)
        vs = [c.attrs[nm]] if c and nm in c.attrs else []
    return bool(vs) and all((isinstance(v, (ast.Dict, ast.List, ast.Set)) and not (getattr(v, "keys", None) or getattr(v, "elts", None))) or (isinstance(v, ast.Call) and not v.args) for v in vs)

def in_registry(ctx, f):
    return f.name.startswith(("_register", "register")) and f.cls is not None

def check_handout(ctx, al):
    for f, s in al.sum.items():
        for n, d in f.defaults.items():
            if not is_mutable(ctx, f, d): continue
            if ("P", n, ()) in s.ret and public(f) and returns_mutated(ctx, al, f):
                ctx.bad("handout", f.loc, f.qual, "returns its shared default %s, which a caller then changes" % n, "%s:%s" % (f.qual, n))
            else: ctx.ok("handout", f.loc, "%s(%s)" % (f.qual, n))

def returns_mutated(ctx, al, f): return False

def extra(f):
    a = f.node.args
    return {a.vararg.arg if a.vararg else None, a.kwarg.arg if a.kwarg else None}

def check_retained(ctx, al):
    for c in ctx.prog.classes.values():
        init = ctx.prog.lookup_method(c, "__init__")
        if init is None or not init.args: continue
        cache = {}
        for m in {m for k in ctx.prog.mro(c) for m in k.methods.values() if ctx.prog.lookup_method(c, m.name) is m}:
            if not m.args or m.is_static or m.is_classmethod or m is init: continue
            hit = None
            for o, w in al.sum[m].mut.items():
                if o[0] != "P" or o[1] != m.args[0] or not o[2] or "*" in o[2] or w[4] != "item" or graph_field(o, w): continue
                if o[2] not in cache: cache[o[2]] = {x for x in al.kept(init, o[2]) if "*" not in x[-1] and not graph_field(x, w)}
                if cache[o[2]]: hit = (o, w, cache[o[2]]); break
            if hit:
                o, w, xs = hit
                ctx.bad("retained", w[0], m.qual, "%s() changes %s, which is the caller's object passed to %s as %s: %s" % (m.name, "self" + "".join(o[2]), c.name,
                        "/".join(sorted(alias.fmt(x) for x in xs)), w[2]), "%s:%s" % (m.qual, "".join(o[2])), chain(w))
            else: ctx.ok("retained", m.loc, "%s.%s" % (c.name, m.name))
