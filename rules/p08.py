"""P08 - cached tables and memoised results are never modified by their users."""
import ast
from sa.util import *
from sa.load import Var, Func, Cls, walk_own
from sa import alias
from sa.effects import is_memoised

TECHNIQUE = "points-to and mutation analysis of memoised values, dependence analysis of cache keys"
EXPLANATION = ("Memoised values are found from the code: functions under a caching decorator, and hand-written memos (a container that one function both looks up and fills). "
  "A points-to analysis follows these values through returns, calls, tuples, containers and aliases; no function may change one. A container of a hand-written memo is changed only by "
  "the statement that fills it, and is not shared between objects that could answer differently. The value filed under a key may depend only on what the key is made of (and, for a "
  "container owned by one object, on that object): dependences of the filed expression, including the conditions around it, are traced back to parameters. Classes used as cache keys "
  "compare every field that determines their answers, hash only compared fields, and never reassign them on an existing object. Not covered: caches inside external libraries, keys "
  "whose equality is decided there.")

def run(ctx):
    ctx.rule("readonly", "no function changes a memoised value it received")
    ctx.rule("fill", "the container of a memo is changed only by filling it")
    ctx.rule("key", "the value filed in a hand-written memo depends only on its key and the object owning the memo")
    ctx.rule("lookup", "a memo is looked up and filled under the same key")
    ctx.rule("pure", "a memoised function reads nothing that changes between calls and returns a re-usable value")
    ctx.rule("equality", "a class used as cache key compares all fields that determine its answers and hashes only those")
    ctx.rule("frozen", "a field that takes part in a cache key is not reassigned on an existing object")
    ctx.rule("owner", "the container of a memo is not shared between objects with different answers")
    memo = sorted((f for f in ctx.prog.funcs.values() if is_memoised(ctx.prog, f)), key=lambda f: f.qual)
    hand = find_hand(ctx)
    ctx.count("functions under a caching decorator", len(memo)); ctx.count("hand-written memos", len(hand))
    for f, m in hand:
        if m.same: ctx.ok("lookup", f.loc, "%s: %s" % (f.qual, m.show()))
    al0 = alias.Alias(ctx.prog)
    fields = {m.field for f, m in hand if m.field}
    acc = accessors(ctx, al0, fields)
    ctx.count("accessors of memo tables", len(acc))
    al = alias.Alias(ctx.prog, acc)
    ctx.section(check_readonly, ctx, al, memo, acc)
    ctx.section(check_fill, ctx, al, hand, fields)
    ctx.section(check_keys, ctx, hand)
    ctx.section(check_pure, ctx, memo, al0, hand)
    ctx.section(check_forward, ctx)
    ctx.section(check_equality, ctx, memo, hand, fields)
    ctx.section(check_owner, ctx, al0, hand, fields)

def chain(w): return ["%s in %s" % c for c in w[3]] + ["%s in %s: %s" % (w[0], w[1], w[2])]

# ---------------------------------------------------------------- hand-written memos
class Memo:
    """function f looks keys up in container `base` and stores under a key in the same container (key: the subscripts below the container)"""
    def __init__(self, f, base, store, key, value, looks):
        self.f, self.base, self.store, self.key, self.value, self.looks = f, base, store, key, value, looks
        self.same = any(same_key(key, k) for k in looks)
        self.field = "." + base.attr if isinstance(base, ast.Attribute) else None
        self.root = base
        self.depth = len(key) - 1
    def show(self): return ast.unparse(self.base) + "".join("[%s]" % ast.unparse(k) for k in self.key)

def same_key(a, b): return len(a) == len(b) and all(ast.dump(x) == ast.dump(y) for x, y in zip(a, b))

def split(e):
    """container expression and the subscripts applied to it"""
    keys = []
    while isinstance(e, ast.Subscript): keys.insert(0, e.slice); e = e.value
    return e, keys

def expand(e, env, d=0):
    """names bound once to a tuple or another name, replaced by what they are bound to"""
    class T(ast.NodeTransformer):
        def visit_Name(self, n):
            v = env.get(n.id)
            if d < 4 and isinstance(v, (ast.Tuple, ast.Name)) and isinstance(n.ctx, ast.Load): return expand(v, env, d + 1)
            return n
    import copy
    return T().visit(copy.deepcopy(e))

def find_hand(ctx):
    out = []
    for f in ctx.prog.funcs.values():
        if isinstance(f.node, ast.Lambda): continue
        looks, stores = {}, {}      # dump of container -> [keys], [(container, keys, statement)]
        env = local_aliases(f)
        def look(base, key):
            b, ks = split(deref(base, env))
            b, ks2 = split(deref(b, env))
            looks.setdefault(ast.dump(b), []).append([expand(k, env) for k in ks2 + ks + [key]])
        for n in walk_own(f.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "get" and n.args: look(n.func.value, n.args[0])
            elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)): look(n.comparators[0], n.left)
            elif isinstance(n, ast.Try) and any("KeyError" in ast.unparse(h.type) for h in n.handlers if h.type is not None):
                for x in n.body:
                    for y in ast.walk(x):
                        if isinstance(y, ast.Subscript) and isinstance(y.ctx, ast.Load): look(y.value, y.slice)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Slice):
                        b, ks = split(deref(t.value, env))
                        b, ks2 = split(deref(b, env))
                        stores.setdefault(ast.dump(b), []).append((b, [expand(k, env) for k in ks2 + ks + [t.slice]], n, t))
        for k, ss in stores.items():
            if k not in looks: continue
            for b, ks, n, t in ss:
                if not persistent(ctx, f, b) or not returns_stored(f, n, t) or shared_fill(f, b): continue
                out.append((f, Memo(f, b, n, ks, n.value, looks[k])))
    return out

def shared_fill(f, b):
    """the container belongs to an enclosing call which also fills it: a working table, not a memo"""
    if not isinstance(b, ast.Name) or f.parent is None: return False
    p = f.parent
    while p is not None and hasattr(p, "locals_"):
        if b.id in p.locals_():
            for n in walk_own(p.node):
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == b.id: return True
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in alias.LIST_MUT and isinstance(n.func.value, ast.Name) and n.func.value.id == b.id: return True
            return False
        p = p.parent
    return False

def local_aliases(f):
    d = {}
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            d.setdefault(n.targets[0].id, []).append(n.value)
    return {k: v[0] for k, v in d.items() if len(v) == 1}

def deref(e, env, d=0):
    if isinstance(e, ast.Name) and e.id in env and d < 4:
        v = env[e.id]
        if isinstance(v, ast.IfExp): v = v.body
        if isinstance(v, (ast.Attribute, ast.Name, ast.Subscript)): return deref(v, env, d + 1)
    return e
def text(e, env): return ast.dump(deref(e, env))

def persistent(ctx, f, base):
    """the container outlives the call: a field of self, a global, a variable of an enclosing function, or a parameter named like a cache"""
    n = base
    while isinstance(n, ast.Subscript): n = n.value
    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name):
        if f.cls is not None and f.args and n.value.id == f.args[0] and f.parent is None: return True
        r = ctx.prog.resolve_expr(n.value, f.module, f)
        return isinstance(r, Cls)
    if isinstance(n, ast.Name):
        if n.id in f.all_params: return "cache" in n.id or "memo" in n.id
        if n.id in f.locals_(): return False
        r = ctx.prog.resolve_name(n.id, f.module, f)
        return isinstance(r, (Var, tuple))
    return False

def returns_stored(f, store, target):
    """the filed value (or the entry) is returned"""
    names = {x.id for x in ast.walk(store.value) if isinstance(x, ast.Name)} if isinstance(store.value, ast.Name) else set()
    for n in walk_own(f.node):
        if isinstance(n, ast.Return) and n.value is not None:
            for x in ast.walk(n.value):
                if isinstance(x, ast.Name) and (x.id in names or entry_of(f, x.id, target)): return True
                if isinstance(x, ast.Subscript) and container(x) == container(target): return True
    return False
def container(t): return ast.dump(split(t)[0])
def entry_of(f, name, target):
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
            if any(isinstance(x, ast.Subscript) and container(x) == container(target) for x in ast.walk(n.value)): return True
            if len(n.targets) > 1 and any(ast.dump(t) == ast.dump(target) for t in n.targets): return True
    return False

def accessors(ctx, al, fields):
    out = []
    for f, s in al.sum.items():
        for o in s.ret:
            if o[0] == "P" and any(st in fields and i + 1 < len(o[2]) for i, st in enumerate(o[2])) and "*" not in o[2] and f.cls is not None:
                out.append(f); break
    return out

# ---------------------------------------------------------------- rules
def check_readonly(ctx, al, memo, acc):
    acc_q = {f.qual for f in acc}
    for f, s in al.sum.items():
        for o, w in s.mut.items():
            if o[0] != "C" or w[4] not in ("item", "attr"): continue
            if "*" in o[2]: continue
            if any("cache" in st for st in o[2]): continue
            ctx.bad("readonly", w[0], w[1], "changes %s: %s" % (alias.fmt(o), w[2]), "%s:%s:%s" % (w[1], o[1], w[2][:40]), chain(w))
        ctx.ok("readonly", f.loc, f.qual)

def check_fill(ctx, al, hand, fields):
    allowed = {}
    for f, m in hand:
        if m.field: allowed.setdefault(m.field, set()).add((m.field,) + ("[]",) * m.depth)
    fillers = {f.qual for f, m in hand}
    for f, s in al.sum.items():
        for o, w in s.mut.items():
            if w[1] != f.qual or o[0] not in "PU" or w[4] != "item": continue
            p = o[-1]
            k = next((i for i, st in enumerate(p) if st in fields), None)
            if k is None or "*" in p: continue
            norm = tuple("[]" if st[0] == "[" else st for st in p[k:])
            if norm in allowed[p[k]] and (w[1] in fillers or is_reset(w)): ctx.ok("fill", w[0], "%s %s" % (f.qual, w[2])); continue
            if norm in allowed[p[k]] and is_new(f): continue
            ctx.bad("fill", w[0], f.qual, "changes the memo %s outside of the code that fills it: %s" % (alias.fmt(o), w[2]), "%s:%s" % (f.qual, "".join(norm)), chain(w))

def is_reset(w): return ".clear()" in w[2] or w[2].startswith("del ") or ".pop()" in w[2]

def names(e): return {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}

def assigned_in(f):
    """name -> list of (value expression or None, controlling tests)"""
    d = {}
    def bind(t, v, ctl):
        if isinstance(t, ast.Name): d.setdefault(t.id, []).append((v, ctl))
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                for a, b in zip(t.elts, v.elts): bind(a, b, ctl)
            else:
                for a in t.elts: bind(a, v, ctl)
        elif isinstance(t, ast.Starred): bind(t.value, v, ctl)
        elif isinstance(t, (ast.Subscript, ast.Attribute)):
            n = t
            while isinstance(n, (ast.Subscript, ast.Attribute)): n = n.value
            if isinstance(n, ast.Name): d.setdefault(n.id, []).append((v, ctl))
    def block(body, ctl):
        for st in body:
            if isinstance(st, ast.Assign):
                for t in st.targets: bind(t, st.value, ctl)
            elif isinstance(st, ast.AugAssign): bind(st.target, st.value, ctl)
            elif isinstance(st, ast.AnnAssign) and st.value is not None: bind(st.target, st.value, ctl)
            elif isinstance(st, ast.If): block(st.body, ctl + [st.test]); block(st.orelse, ctl + [st.test])
            elif isinstance(st, (ast.For, ast.AsyncFor)): bind(st.target, st.iter, ctl); block(st.body, ctl + [st.iter]); block(st.orelse, ctl)
            elif isinstance(st, ast.While): block(st.body, ctl + [st.test]); block(st.orelse, ctl)
            elif isinstance(st, ast.With):
                for i in st.items:
                    if i.optional_vars is not None: bind(i.optional_vars, i.context_expr, ctl)
                block(st.body, ctl)
            elif isinstance(st, ast.Try):
                block(st.body, ctl); block(st.orelse, ctl); block(st.finalbody, ctl)
                for h in st.handlers: block(h.body, ctl)
            elif isinstance(st, ast.FunctionDef): d.setdefault(st.name, []).append((st, ctl))
            elif isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) and isinstance(st.value.func.value, ast.Name) \
                    and st.value.func.attr in alias.LIST_MUT:
                for a in st.value.args: d.setdefault(st.value.func.value.id, []).append((a, ctl))
    block(f.body, [])
    return d

def depends(f, exprs, stop=()):
    """parameters and free names the expressions depend on, through assignments and the conditions around them"""
    d = assigned_in(f)
    seen, work, out = set(), list(exprs), set()
    while work:
        e = work.pop()
        for n in names(e) if not isinstance(e, ast.FunctionDef) else {x.id for x in ast.walk(e) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}:
            if n in seen or n in stop: continue
            seen.add(n)
            if n in f.all_params: out.add(n)
            if n in d:
                for v, ctl in d[n]:
                    if v is not None: work.append(v)
                    work.extend(ctl)
            elif n not in f.all_params: out.add(n)
    return out

def check_keys(ctx, hand):
    for f, m in hand:
        if not m.same:
            # the key may have been normalised between lookup and store only if it is the same variable
            ctx.bad("lookup", "%s:%d" % (f.module.rel, m.store.lineno), f.qual, "the memo %s is looked up under %s but filled under %s" % (ast.unparse(m.base), " / ".join("".join("[%s]" % ast.unparse(x) for x in k) for k in m.looks), m.show()),
                    "%s:%s" % (f.qual, m.show()))
        keyp = depends(f, m.key)
        if one_shot(ctx, f, m.value): ctx.bad("pure", "%s:%d" % (f.module.rel, m.store.lineno), f.qual, "the value filed in %s is an iterator: the second user finds it exhausted" % ast.unparse(m.base), f.qual + ":filed")
        me = f.args[0] if f.cls is not None and f.parent is None and f.args and not f.is_static else None
        root = m.root
        owned = me is not None and isinstance(root, ast.Attribute) and isinstance(root.value, ast.Name) and root.value.id == me and instance_field(ctx, f.cls, root.attr)
        basen = names(m.base)
        stop = set(basen) - {me}
        valp = depends(f, [m.value] + around(f, m.store), stop)
        params = set(f.all_params)
        extra = {p for p in valp if p in params and p not in keyp and p not in basen}
        if owned: extra.discard(me)
        elif me in valp and me not in keyp: extra.add(me)
        extra = {p for p in extra if not recursive_only(f, p)}
        # a memo that lives in the enclosing call may use what does not change within it
        ctx.decide(not extra, "key", "%s:%d" % (f.module.rel, m.store.lineno), f.qual,
                   "the value filed in %s under %s also depends on %s, which is not part of the key" % (ast.unparse(m.base), m.show(), ", ".join(sorted(extra))),
                   "%s:%s" % (f.qual, ",".join(sorted(extra))), "%s files under %s, key from %s" % (f.qual, m.show(), sorted(keyp & params)))

def around(f, store):
    """tests of the branches the store sits in"""
    out = []
    def rec(body, ctl):
        for st in body:
            if st is store: out.extend(ctl); return True
            if isinstance(st, ast.If):
                if rec(st.body, ctl + [st.test]) or rec(st.orelse, ctl + [st.test]): return True
            elif isinstance(st, (ast.For, ast.While, ast.With, ast.Try)):
                for b in (getattr(st, "body", []), getattr(st, "orelse", []), getattr(st, "finalbody", [])):
                    if rec(b, ctl): return True
                for h in getattr(st, "handlers", []):
                    if rec(h.body, ctl): return True
        return False
    rec(f.body, [])
    return out

def recursive_only(f, p):
    """a parameter handed on unchanged in every recursive call: constant for the life of a local memo"""
    calls = [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == f.name]
    if not calls or f.parent is None: return False
    i = f.args.index(p) if p in f.args else -1
    def arg(c):
        for k in c.keywords:
            if k.arg == p: return k.value
        return c.args[i] if 0 <= i < len(c.args) else None
    if not all(isinstance(arg(c), ast.Name) and arg(c).id == p for c in calls): return False
    # constant over the calls of the enclosing function as well
    outer = [n for n in ast.walk(f.parent.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == f.name and n not in calls]
    return len({ast.dump(arg(c)) for c in outer if arg(c) is not None}) <= 1 and all(isinstance(arg(c), ast.Name) for c in outer)

def instance_field(ctx, c, attr):
    """every instance gets a container of its own"""
    for k in ctx.prog.mro(c):
        for m in k.methods.values():
            if not m.args: continue
            for n in walk_own(m.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == attr and isinstance(t.value, ast.Name) and t.value.id == m.args[0] for t in n.targets):
                    return True
    # a mixin whose users create the field
    for k in ctx.prog.subclasses(c):
        for m in k.methods.values():
            if m.args and any(isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and t.attr == attr for t in n.targets) for n in walk_own(m.node)): return True
    return False

def own_name(ctx, attr, family):
    """no class outside the family has a field of this name"""
    for c in ctx.prog.classes.values():
        if c in family: continue
        for m in c.methods.values():
            for n in walk_own(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == attr: return False
    return True

def shared_entries(v):
    mutable = lambda x: isinstance(x, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp)) or isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ("dict", "list", "set")
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == "fromkeys" and len(v.args) == 2: return mutable(v.args[1])
    if isinstance(v, ast.BinOp) and isinstance(v.op, ast.Mult): return any(isinstance(x, ast.List) and any(mutable(y) for y in x.elts) for x in (v.left, v.right))
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("dict", "zip", "list"): return any(shared_entries(a) for a in v.args)
    return False

LOSSY = {"len", "sum", "min", "max", "abs", "bool", "type", "order", "degree", "hash", "round", "int"}
def lossy(eq, field):
    """the field is compared only through a projection that different values share"""
    me = eq.args[0]
    kinds = set()
    def rec(n, inside):
        if isinstance(n, ast.Attribute) and n.attr == field and isinstance(n.value, ast.Name) and n.value.id == me: kinds.add(inside); return
        if isinstance(n, ast.Call):
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
            for c in ast.iter_child_nodes(n): rec(c, inside or (nm if nm in LOSSY else None))
            return
        for c in ast.iter_child_nodes(n): rec(c, inside)
    rec(eq.node, None)
    return kinds and None not in kinds and sorted(kinds)[0]

IMPURE = ("random.", "numpy.random.", "time.", "os.environ", "os.getenv", "datetime.", "secrets.", "uuid.")

def rebound_globals(ctx):
    out = {}
    for f in ctx.prog.funcs.values():
        g = {n for st in walk_own(f.node) if isinstance(st, ast.Global) for n in st.names}
        if g:
            for n in walk_own(f.node):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id in g: out["%s.%s" % (f.module.name, n.id)] = f
        for n in walk_own(f.node):
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                    if isinstance(t, ast.Attribute):
                        r = ctx.prog.resolve_expr(t, f.module, f)
                        if isinstance(r, Var): out[r.qual] = f
    return out

def check_forward(ctx):
    """a wrapper in front of a memo hands over all arguments it was called with"""
    for f in ctx.prog.funcs.values():
        if isinstance(f.node, ast.Lambda) or not (f.node.args.vararg and f.node.args.kwarg): continue
        va, ka = f.node.args.vararg.arg, f.node.args.kwarg.arg
        owner = f.cls.node if f.cls is not None else f.parent.node if f.parent is not None else None
        if owner is None or not any(isinstance(n, (ast.Name, ast.Attribute)) and ("cache" in (n.id if isinstance(n, ast.Name) else n.attr).lower() or "memo" in (n.id if isinstance(n, ast.Name) else n.attr).lower()) for n in ast.walk(owner)): continue
        for n in walk_own(f.node):
            if not isinstance(n, ast.Call): continue
            a = any(isinstance(x, ast.Starred) and isinstance(x.value, ast.Name) and x.value.id == va for x in n.args)
            k = any(x.arg is None and isinstance(x.value, ast.Name) and x.value.id == ka for x in n.keywords)
            if a or k: ctx.decide(a and k, "key", "%s:%d" % (f.module.rel, n.lineno), f.qual, "all arguments are part of the key" if a and k else "the memo is asked with only part of the arguments", f.qual + ":forward", f.qual)

def mutated_tables(ctx, al, hand):
    from rules import p07
    own = set()
    for f, m in hand:
        try: own.add(ast.unparse(m.base).split(".")[-1])
        except Exception: pass
    out = {}
    for f, s in al.sum.items():
        for o, w in s.mut.items():
            if o[0] != "G" or w[1] != f.qual: continue
            if o[1].split(".")[-1] in own or p07.import_time(ctx, f) or p07.in_registry(ctx, f): continue
            out.setdefault(o[1], f)
    return out

def check_pure(ctx, memo, al, hand):
    reb = dict(mutated_tables(ctx, al, hand))
    reb.update(rebound_globals(ctx))
    for f in memo:
        seen = set()
        def visit(g, d):
            if g in seen or d > 4: return
            seen.add(g)
            for n in ast.walk(g.node):
                if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                    r = ctx.prog.resolve_expr(n, g.module, g)
                    if isinstance(r, Var) and r.qual in reb:
                        ctx.bad("pure", "%s:%d" % (g.module.rel, n.lineno), f.qual, "the memoised result depends on %s, which %s changes" % (r.name, reb[r.qual].qual), "%s:%s" % (f.qual, r.name))
                if isinstance(n, ast.Call):
                    r = ctx.prog.resolve_expr(n.func, g.module, g)
                    if isinstance(r, Func) and r is not f: visit(r, d + 1)
                    elif hasattr(r, "name") and not isinstance(r, (Cls, Var)) and isinstance(getattr(r, "name", None), str) and r.name.startswith(IMPURE) and used_in_result(g, n):
                        ctx.bad("pure", "%s:%d" % (g.module.rel, n.lineno), f.qual, "the memoised result depends on %s()" % r.name, "%s:%s" % (f.qual, r.name))
        visit(f, 0)
        one = f.is_generator or any(isinstance(n, ast.Return) and one_shot(ctx, f, n.value) for n in walk_own(f.node))
        ctx.decide(not one, "pure", f.loc, f.qual, "the memoised result is an iterator: the second user finds it exhausted", f.qual + ":iterator", "%s, %d functions below it" % (f.qual, len(seen) - 1))

def used_in_result(g, call):
    """the value is more than a timing printed for the user: it reaches a return statement"""
    d = assigned_in(g)
    hit = {k for k, vs in d.items() if any(v is not None and not isinstance(v, ast.FunctionDef) and any(x is call for x in ast.walk(v)) for v, c in vs)}
    for n in walk_own(g.node):
        if isinstance(n, ast.Return) and n.value is not None:
            if any(x is call for x in ast.walk(n.value)): return True
            work = list(names(n.value)); seen = set()
            while work:
                x = work.pop()
                if x in seen: continue
                seen.add(x)
                if x in hit: return True
                for v, c in d.get(x, ()):
                    if v is not None and not isinstance(v, ast.FunctionDef): work.extend(names(v))
    return False

def one_shot(ctx, f, v, d=0):
    if v is None or d > 3: return False
    if isinstance(v, ast.GeneratorExp): return True
    if isinstance(v, ast.Tuple): return any(one_shot(ctx, f, x, d + 1) for x in v.elts)
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ("zip", "map", "filter", "iter", "reversed", "enumerate"): return True
    if isinstance(v, ast.Call):
        r = ctx.prog.resolve_expr(v.func, f.module, f)
        if isinstance(r, Func) and r.is_generator: return True
    if isinstance(v, ast.Name):
        vs = [x for x, c in assigned_in(f).get(v.id, ()) if not (isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "get")]
        return len(vs) == 1 and vs[0] is not None and not isinstance(vs[0], ast.FunctionDef) and one_shot(ctx, f, vs[0], d + 1)
    return False

def self_fields(m):
    me = m.args[0] if m.args else None
    return {n.attr for n in ast.walk(m.node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me}

def resolve_fields(ctx, c, fs):
    """properties and trivial methods replaced by the fields they read"""
    out = set()
    for a in fs:
        m = ctx.prog.lookup_method(c, a)
        if m is None: out.add(a)
        elif m.name not in ("__class__",): out |= self_fields(m) if len(self_fields(m)) <= 3 else set()
    return out

def key_classes(ctx, memo, hand):
    """classes of the library whose instances are cache keys: annotated parameters of memoised functions, or owners of a memo table"""
    out = {}
    for f in memo:
        a = f.node.args
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            if x.annotation is not None:
                for n in ast.walk(x.annotation):
                    if isinstance(n, (ast.Name, ast.Attribute)):
                        r = ctx.prog.resolve_expr(n, f.module, f.parent)
                        if isinstance(r, Cls) and r.module.name.startswith("triples"): out.setdefault(r, f.qual)
    return out

def init_fields(ctx, c):
    init = ctx.prog.lookup_method(c, "__init__")
    if init is None: return {}
    out = {}
    for n in walk_own(init.node):
        if isinstance(n, (ast.Assign, ast.AnnAssign)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                for x in (t.elts if isinstance(t, ast.Tuple) else [t]):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == init.args[0]: out.setdefault(x.attr, n.value)
    return out

def check_equality(ctx, memo, hand, fields):
    for c, why in key_classes(ctx, memo, hand).items():
        eq, hs = ctx.prog.lookup_method(c, "__eq__"), ctx.prog.lookup_method(c, "__hash__")
        if eq is None:
            ctx.ok("equality", c.loc, "%s is compared by identity" % c.qual); continue
        fs = {a for a, v in init_fields(ctx, c).items() if "." + a not in fields}
        ef = resolve_fields(ctx, c, self_fields(eq))
        if any(isinstance(n, ast.Attribute) and n.attr == "__dict__" for n in ast.walk(eq.node)): ef |= fs
        helper_calls = [n for n in ast.walk(eq.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == eq.args[0]]
        for n in helper_calls:
            m = ctx.prog.lookup_method(c, n.func.attr)
            if m: ef |= resolve_fields(ctx, c, self_fields(m))
        miss = {a for a in fs if a not in ef}
        ctx.decide(not miss, "equality", eq.loc, eq.qual, "two %s objects that differ in %s compare equal, so %s answers one with the cached value of the other" % (c.name, ", ".join(sorted(miss)), why.split(".")[-1]),
                   "%s:eq:%s" % (c.qual, ",".join(sorted(miss))), "%s compares %s" % (c.qual, sorted(fs & ef)))
        for a in sorted(fs & ef):
            l = lossy(eq, a)
            if l: ctx.bad("equality", eq.loc, eq.qual, "%s objects are compared by %s of %s only, so %s answers one with the cached value of another" % (c.name, l, a, why.split(".")[-1]), "%s:eq:%s:%s" % (c.qual, a, l))
        if hs is None: continue
        hf = resolve_fields(ctx, c, self_fields(hs) - {"__class__"})
        more = {a for a in hf if a not in ef and not a.startswith("__")}
        ctx.decide(not more, "equality", hs.loc, hs.qual, "equal %s objects hash differently: __hash__ uses %s" % (c.name, ", ".join(sorted(more))), "%s:hash:%s" % (c.qual, ",".join(sorted(more))),
                   "%s hashes %s" % (c.qual, sorted(hf)))

def check_owner(ctx, al, hand, fields):
    owners = {}
    for f, m in hand:
        if m.field and f.cls is not None: owners.setdefault(f.cls, set()).add(m.field)
    for c, flds in owners.items():
        cls_family = [c] + list(ctx.prog.subclasses(c))
        keyf = {a for a in init_fields(ctx, c) if "." + a not in fields}
        # fields that the memo's answers depend on
        for f, heap in al.heap.items():
            objs = {o for (o, st) in heap if o[0] == "A"}
            p = None
            for o in objs:
                sts = [st for (x, st) in heap if x == o]
                touched = [st for st in set(sts) | {st for (x, st) in al.assigned.get(f, ()) if x == o} if st.lstrip(".") in keyf]
                if not touched: continue
                if p is None:
                    p = alias.Pass(al, f); p.idx = {}
                    for (x, st) in heap: p.idx.setdefault(x, set()).add(st)
                for fl in flds:
                    sh = [x for x in p.read1(o, fl) if x[0] in "PUG" and x[-1] and x[-1][-1] == fl]
                    if sh and "<copy>" in sts and (f.cls in cls_family or f.module is c.module):
                        ctx.bad("owner", f.loc, f.qual, "an object whose %s was changed shares its memo %s with %s" % (touched[0].lstrip("."), fl.lstrip("."), alias.fmt(sh[0])), "%s:%s" % (f.qual, fl))
                    elif sh and f.cls in cls_family and fl in sts:
                        ctx.bad("owner", f.loc, f.qual, "a new object shares its memo %s with %s" % (fl.lstrip("."), alias.fmt(sh[0])), "%s:%s" % (f.qual, fl))
        # reassigning a key field of an object that may already have filled its memo
        for f, s in al.sum.items():
            for o, w in s.mut.items():
                if w[1] != f.qual or w[4] not in ("own", "attr") or f.name in ("__init__", "__setstate__", "__new__"): continue
                attr = w[2].split(".")[-1] if w[2].startswith("assignment to ") else None
                if attr is None and w[2].startswith("setattr"): continue
                foreign = attr in keyf and f.cls not in cls_family and attr.startswith("_") and own_name(ctx, attr, cls_family) and o[0] in "PUGC"
                if foreign or attr in keyf and o[0] == "P" and f.cls in cls_family and o[1] == f.args[0] and o[2] == ():
                    ctx.bad("frozen", w[0], f.qual, "reassigns %s of an existing object: %s keeps answers computed from the old value" % (attr, ", ".join(sorted(flds))), "%s:%s" % (f.qual, attr), chain(w))
        for k in cls_family:
            for m in k.methods.values(): ctx.ok("frozen", m.loc, m.qual); ctx.ok("owner", m.loc, m.qual)
        # nested containers are separate
        for k in cls_family:
            for m in k.methods.values():
                for n in walk_own(m.node):
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Attribute) and "." + t.attr in flds for t in n.targets) and shared_entries(n.value):
                        ctx.bad("owner", "%s:%d" % (m.module.rel, n.lineno), m.qual, "every entry of the memo %s is the same container" % ast.unparse(n.targets[0]), "%s:entries" % m.qual)
        # every instance has its own container
        for fl in flds:
            a = fl.lstrip(".")
            for k in ctx.prog.mro(c):
                v = k.attrs.get(a)
                if v is not None and isinstance(v, (ast.Dict, ast.List, ast.Set, ast.Call)) and not instance_field(ctx, c, a):
                    ctx.bad("owner", k.loc, k.qual, "all %s objects share the memo %s, whatever their fields are" % (k.name, a), "%s:%s" % (k.qual, a))
