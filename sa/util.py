"""Shared helpers of the rules."""
import ast, os
from .load import Func, Cls, Ext, Var, Module, walk_own
from .terms import T, C, NONE, TRUE, FALSE, subterms, callee, callee_name, call_args, call_kw, cval
from .paths import Interp, Overflow

_KNOWN = None
def known_functions():
    global _KNOWN
    if _KNOWN is None:
        p = os.path.join(os.path.dirname(os.path.abspath(__file__)), "known_functions.txt")
        _KNOWN = set(open(p).read().split("\n"))
    return _KNOWN

def is_new(f):
    """a helper that the analysed tree did not have: judged as part of its caller"""
    return "<lambda>" not in f.qual and f.qual not in known_functions()

def inliner(*names, extra=None):
    """inline new helpers, nested functions and the named functions"""
    ns = set(names)
    def ok(f):
        return is_new(f) or f.qual in ns or f.name in ns or (f.parent is not None) or (extra is not None and extra(f))
    return ok

def find(ctx, rid, qual, quiet=False):
    """function by qualified name; falls back to a unique function of that name in the same top package"""
    f = ctx.prog.funcs.get(qual)
    if f is not None: return f
    name = qual.split(".")[-1]
    cls = qual.split(".")[-2]
    c = [g for q, g in ctx.prog.funcs.items() if g.name == name and "<lambda>" not in q and g.parent is None]
    c2 = [g for g in c if g.cls is not None and g.cls.name == cls] or [g for g in c if g.cls is None]
    if len(c2) == 1: return c2[0]
    if not quiet: ctx.unres(rid, "function %s not found" % qual)
    return None

def runf(ctx, rid, func, **kw):
    """path-sensitive run; None (and an 'unresolved' note) if the function is out of reach"""
    bind, facts = kw.pop("bind", None), kw.pop("facts", None)
    kw.setdefault("inline", inliner())
    ow = kw.pop("on_while", None)
    ol, mx = kw.pop("on_loop", None), kw.pop("mark_exc", False)
    it = Interp(ctx.prog, **kw)
    if ol is not None: it.on_loop = ol
    it.mark_exc = mx
    if ow is not None: it.on_while = ow
    try: ex = it.run(func, bind, facts)
    except Overflow as e:
        ctx.unres(rid, "%s: path limit (%s)" % (func.qual, e)); return None
    except RecursionError:
        ctx.unres(rid, "%s: recursion limit" % func.qual); return None
    ctx.count("functions_interpreted"); ctx.count("paths", len(ex))
    return ex

def events(exits, pred=None):
    seen, out = set(), []
    for x in exits:
        for e in x.events:
            k = (e.kind, e.term, e.val, id(e.node), id(e.st))
            if k in seen: continue
            seen.add(k)
            if pred is None or pred(e): out.append(e)
    return out

def path_of(x, n=25):
    """the branch facts of an exit / event, readable"""
    fs = x.facts
    return ["%s is %s" % (k, v) for k, v in list(fs.items())[-n:]]

def calls_in(func):
    for n in walk_own(func.node):
        if isinstance(n, ast.Call): yield n

_par = {}
def parents(func):
    m = _par.get(func.node)
    if m is None:
        m = {}
        for n in ast.walk(func.node):
            for c in ast.iter_child_nodes(n): m[c] = n
        _par[func.node] = m
    return m

def enclosing_trys(func, node):
    """(Try, part) pairs around a node inside func, innermost first"""
    m = parents(func); out = []
    x = node
    while x in m:
        p = m[x]
        if isinstance(p, ast.Try):
            part = "body" if x in p.body else "handler" if x in p.handlers else "orelse" if x in p.orelse else "final"
            out.append((p, part))
        x = p
    return out

def handler_types(prog, func, h):
    if h.type is None: return ["builtins.BaseException"]
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    out = []
    for t in ts:
        r = prog.resolve_expr(t, func.module, func)
        out.append(r.qual if isinstance(r, (Cls, Ext)) else "?")
    return out

def resolve_call(prog, func, call):
    """entity a call refers to (Func / Cls / Ext) or None"""
    return prog.resolve_expr(call.func, func.module, func)

def const_num(prog, t, module=None, _d=0):
    """numeric value of a constant term or module-level constant, else None"""
    if _d > 6: return None
    if t.op == "c" and isinstance(cval(t), (int, float)) and not isinstance(cval(t), bool): return cval(t)
    if t.op == "g":
        q = t.a[0]
        mn, _, nm = q.rpartition(".")
        m = prog.modules.get(mn)
        if m is not None and nm in m.assigns and len(m.assigns[nm]) == 1:
            return const_expr(prog, m, m.assigns[nm][0], _d + 1)
    if t.op == "call" and callee(t) == "builtins.int" and len(t.a[1]) == 1: return const_num(prog, t.a[1][0], module, _d + 1)
    if t.op == "attr" and t.a[1] in ("max", "min") and t.a[0].op == "call":
        return _iinfo(t.a[1], callee(t.a[0]), [x.a[1] if x.op == "c" else x.a[0] if x.op == "g" else None for x in call_args(t.a[0])])
    if t.op == "bin":
        a, b = const_num(prog, t.a[1], module, _d + 1), const_num(prog, t.a[2], module, _d + 1)
        return _arith(t.a[0], a, b)
    if t.op == "neg":
        a = const_num(prog, t.a[0], module, _d + 1); return None if a is None else -a
    return None

def _arith(op, a, b):
    if a is None or b is None: return None
    try:
        if op == "Add": return a + b
        if op == "Sub": return a - b
        if op == "Mult": return a * b
        if op == "Pow" and abs(b) < 1000: return a ** b
        if op == "FloorDiv": return a // b
        if op == "Div": return a / b
        if op == "LShift": return a << b
    except Exception: pass
    return None

def _iinfo(which, fn, args):
    if not fn or fn.split(".")[-1] != "iinfo" or not args or args[0] is None: return None
    n = str(args[0]).split(".")[-1]
    w = {"int64": 64, "int32": 32, "int16": 16, "int8": 8, "int": 64, "int_": 64, "uint64": -64, "uint32": -32, "longlong": 64, "intp": 64, "i8": 64, "i4": 32}.get(n)
    if w is None: return None
    if which == "max": return 2 ** (w - 1) - 1 if w > 0 else 2 ** (-w) - 1
    return -2 ** (w - 1) if w > 0 else 0

def const_expr(prog, m, e, _d=0):
    if isinstance(e, ast.Constant) and isinstance(e.value, (int, float)): return e.value
    if isinstance(e, ast.Name):
        r = prog.mod_attr(m.name, e.id)
        if isinstance(r, Var): return const_num(prog, T("g", r.qual), m, _d + 1)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "int" and e.args: return const_expr(prog, m, e.args[0], _d + 1)
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Call):
        r = prog.resolve_expr(e.value.func, m)
        args = []
        for x in e.value.args:
            if isinstance(x, ast.Constant): args.append(x.value)
            elif isinstance(x, (ast.Name, ast.Attribute)):
                y = prog.resolve_expr(x, m); args.append(y.qual if y is not None and not isinstance(y, tuple) else None)
        return _iinfo(e.attr, r.qual if r is not None else None, args)
    if isinstance(e, ast.BinOp): return _arith(type(e.op).__name__, const_expr(prog, m, e.left, _d + 1), const_expr(prog, m, e.right, _d + 1))
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        a = const_expr(prog, m, e.operand, _d + 1); return None if a is None else -a
    return None

def factors(t):
    """multiset of factors of a product term: {factor: exponent}; None exponent unknown"""
    out = {}
    def go(x, k):
        if x.op == "bin" and x.a[0] == "Mult": go(x.a[1], k); go(x.a[2], k)
        elif x.op == "bin" and x.a[0] == "Pow" and x.a[2].op == "c" and isinstance(cval(x.a[2]), int): go(x.a[1], k * cval(x.a[2]))
        elif x.op == "call" and callee(x) == "builtins.int" and len(x.a[1]) == 1 and not x.a[2]: go(x.a[1][0], k)
        else: out[x] = out.get(x, 0) + k
    go(t, 1)
    return out

def facts_when(prog, x, b):
    """facts that hold when the boolean result of exit x is b; None if the result cannot be b"""
    it = Interp(prog)
    v = x.val
    if v.op == "call" and callee(v) == "builtins.bool" and len(v.a[1]) == 1: v = v.a[1][0]
    st = x.st
    out = []
    it.stack = [(x.func, x.func.cls)]; it.implicit_on = [False]
    for s in it.assume(v, b, st): out.append(s.facts)
    if not out: return None
    f = out[0]
    return {k: w for k, w in f.items() if all(o.get(k) is w for o in out[1:])}

def elems(t):
    """items of an expanded container term: list of (term, iterable or None, conds); None when not understood"""
    if t.op in ("list", "tuple", "set"):
        out = []
        for x in t.a:
            if isinstance(x, T) and x.op == "each": out.append((x.a[1], x.a[0], x.a[2:]))
            elif isinstance(x, T) and x.op == "star":
                r = elems(x.a[0])
                if r is None: return None
                out += r
            elif isinstance(x, T) and x.op in ("ext", "mut", "dirty", "merge"): return None
            else: out.append((x, None, ()))
        return out
    if t.op == "call" and callee(t) in ("builtins.tuple", "builtins.list") and len(t.a[1]) == 1: return elems(t.a[1][0])
    if t.op == "star": return elems(t.a[0])
    return None

def star_elems(args):
    """items of a call's positional arguments (expanded)"""
    out = []
    for a in args:
        if a.op == "star":
            r = elems(a.a[0])
            if r is None: return None
            out += r
        else: out.append((a, None, ()))
    return out

def unwrap(t, names=("tuple", "list", "sympify", "Tuple", "sorted", "S", "iter")):
    """strip value-preserving conversions"""
    while t.op == "call" and callee_name(t) in names and len(call_args(t)) == 1: t = call_args(t)[0]
    return t

def split_mul(t):
    """factors of a product written with '*' or Mul(...): list of terms, stars kept"""
    if t.op == "bin" and t.a[0] == "Mult": return split_mul(t.a[1]) + split_mul(t.a[2])
    if t.op == "call" and callee_name(t) in ("Mul", "prod") and t.a[0].op == "g" and not t.a[2]:
        return [y for x in t.a[1] for y in (split_mul(x) if x.op != "star" else [x])]
    return [t]

def forall(k, v, expand=None):
    """(iterable, body, truth, conds) if the fact states that body has that truth for every element"""
    if not (k.op == "call" and callee_name(k) in ("all", "any") and call_args(k)): return None
    if (callee_name(k) == "all") != bool(v): return None
    g = call_args(k)[0]
    if expand is not None: g = expand(g)
    if g.op == "comp": src, p, conds = g.a[2], g.a[1], g.a[3]
    elif g.op in ("list", "set", "tuple") and len(g.a) == 1 and isinstance(g.a[0], T) and g.a[0].op == "each": src, p, conds = g.a[0].a[0], g.a[0].a[1], g.a[0].a[2:]
    else: return None
    truth = bool(v)
    while p.op == "not": p, truth = p.a[0], not truth
    return src, p, truth, tuple(conds)
