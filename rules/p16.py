"""Machine-integer fast paths never overflow."""
import ast
from sa.util import *

TECHNIQUE = "path-sensitive value-numbering dataflow: every fixed-width matrix product is matched against the branch fact that bounds it"
EXPLANATION = ("Every '@'/dot product whose operand was cast to a fixed-width integer array is located on every path of its function "
  "(helpers inlined). The branch facts that hold there must contain 'limit >= P' where P is a product of Python integers whose factor "
  "multiset covers the magnitude of every operand and the length of every contracted axis, limit is the maximum of the array's dtype, and the "
  "magnitudes are safe for the most negative integer. Casts must sit under an OverflowError handler and the result must be rescaled by the "
  "contents of its operands with matching multiplicity. Not covered: NumPy's own arithmetic, and integer index tables (linsos/basis.py).")

DTYPE_MAX = {"int64": 2**63 - 1, "int32": 2**31 - 1, "int16": 2**15 - 1, "int8": 127, "int": 2**63 - 1, "float64": 2**53, "float": 2**53, "float32": 2**24, "uint64": 2**64 - 1}
STRIP_M = {"copy", "view", "transpose", "tolist", "flatten", "ravel", "astype", "reshape"}
PRODUCTS = {"numpy.dot", "numpy.matmul", "numpy.tensordot", "numpy.einsum", "numpy.inner", "numpy.linalg.multi_dot", "numpy.vdot", "numpy.kron"}

def strip(t, shapes=None):
    """(base array, transposed?, reshape dims or None)"""
    tr, dims = False, None
    while True:
        if t.op == "attr" and t.a[1] == "T": tr = not tr; t = t.a[0]; continue
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in STRIP_M:
            m = t.a[0].a[1]
            if m == "transpose": tr = not tr
            if m == "reshape" and dims is None:
                d = t.a[1]
                if len(d) == 1 and d[0].op == "tuple": d = d[0].a
                dims = d
            t = t.a[0].a[0]; continue
        return t, tr, dims

def is_matprod(t): return (t.op == "bin" and t.a[0] == "MatMult") or (t.op == "call" and (callee(t) in PRODUCTS or callee(t) == ".dot"))

def operands(t):
    if t.op == "bin": return [t.a[1], t.a[2]]
    q = callee(t)
    if q == ".dot": return [t.a[0].a[0]] + list(t.a[1][:1])
    if q in ("numpy.einsum",): return list(t.a[1][1:])
    return [x for x in call_args(t)][:2]

def leaves(t, atoms=()):
    b, _, _ = strip(t)
    if is_matprod(b) and b not in atoms: return [y for x in operands(b) for y in leaves(x, atoms)]
    return [t]

def narrowed(t):
    """dtypes to which the operand is cast again"""
    while True:
        if t.op == "attr" and t.a[1] == "T": t = t.a[0]; continue
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in STRIP_M:
            if t.a[0].a[1] == "astype":
                a = t.a[1][0] if t.a[1] else dict(t.a[2]).get("dtype")
                if a is not None: yield str(cval(a)) if a.op == "c" else str(a.a[0]).split(".")[-1] if a.op in ("g", "fn") else str(a.a[1]) if a.op == "attr" else "?"
            t = t.a[0].a[0]; continue
        return

def content_source(arr):
    """cast(item(primitive(X._rep), 1)) -> X term (normalised), its primitive call"""
    for s in subterms(arr):
        if s.op == "item" and s.a[1] == 1 and s.a[0].op == "call" and callee_name(s.a[0]) == "primitive": return s.a[0]
    return None

def root_matrix(t):
    """strip casts/_rep/primitive: the matrix whose shape this array has"""
    while True:
        t0 = t
        t, _, dims = strip(t)
        if t.op == "call" and callee(t) and t.a[0].op == "g" and (t.a[1] or t.a[2]):
            t = call_args(t)[0]
        elif t.op == "item" and t.a[0].op == "call" and callee_name(t.a[0]) == "primitive": t = call_args(t.a[0])[0]
        elif t.op == "attr" and t.a[1] in ("_rep", "rep"): t = t.a[0]
        elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("to_field", "to_sdm", "primitive", "convert_to"): t = t.a[0].a[0]
        elif t.op == "phi": t = t.a[2]
        if t is t0: return t

def dim_of(t):
    """(root matrix, axis) if t denotes a shape component"""
    if t.op == "phi": return None
    if t.op in ("item", "sub"):
        b, i = t.a[0], t.a[1]
        if isinstance(i, T): i = cval(i) if i.op == "c" else None
        if b.op == "attr" and b.a[1] == "shape" and i in (0, 1, -1, -2): return (root_matrix(b.a[0]), i % 2 if i >= 0 else i + 2)
    if t.op == "attr" and t.a[1] in ("rows", "cols"): return (root_matrix(t.a[0]), 0 if t.a[1] == "rows" else 1)
    if t.op == "call" and callee(t) == "builtins.len" and len(t.a[1]) == 1: return (root_matrix(t.a[1][0]), 0)
    return None

def norm_dim(t):
    d = dim_of(t)
    return ("dim",) + d if d else ("t", t)

def inner_dims(l, r):
    """acceptable names of the contracted length of l @ r"""
    out = set()
    b, tr, dims = strip(l)
    if is_matprod(b):
        ops = operands(b)
        out |= inner_last(ops[-1])
    else: out |= inner_last(l)
    b, tr, dims = strip(r)
    if dims:
        if len(dims) >= 2: out.add(norm_dim(dims[-2] if not tr else dims[-1]))
    elif not is_matprod(b): out.add(("dim", root_matrix(b), 1 if tr else 0))
    return out

def inner_last(l):
    b, tr, dims = strip(l)
    if is_matprod(b): return inner_last(operands(b)[-1])
    if dims: return {norm_dim(dims[-1] if not tr else dims[-2])} if len(dims) >= 2 else set()
    return {("dim", root_matrix(b), 0 if tr else 1)}

def magnitude(f, facts=None):
    """('ok'|'unsafe', array) if f is the largest absolute value of an array"""
    r = magnitude0(f)
    if facts is None or r[0] == "ok": return r
    hl = halves(f)
    if hl is not None:
        for k, v in facts.items():
            if k.op not in ("lt", "le"): continue
            a, b = halves(k.a[0]), halves(k.a[1])
            if a is None or b is None or a[1] is not b[1] or a[0] == b[0] or a[1] is not hl[1]: continue
            big = b if v else a          # the larger side on this path
            if big[0] == hl[0]: return "ok", hl[1]
    if f.op == "ite" and f.a[0].op in ("lt", "le"):
        a, b, x, y = halves(f.a[0].a[0]), halves(f.a[0].a[1]), halves(f.a[1]), halves(f.a[2])
        if None not in (a, b, x, y) and a[0] != b[0] and x == b and y == a: return "ok", x[1]
    return r

def halves(t):
    """('max' | '-min', array) for int(arr.max()), -int(arr.min())"""
    sg = False
    if t.op == "neg": sg, t = True, t.a[0]
    if t.op == "call" and callee(t) == "builtins.int" and t.a[1]: t = t.a[1][0]
    else: return None
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("max", "min") and not t.a[1]: m, arr = t.a[0].a[1], t.a[0].a[0]
    elif t.op == "call" and callee(t) in ("numpy.max", "numpy.min", "numpy.amax", "numpy.amin") and t.a[1]: m, arr = callee(t)[-3:], t.a[1][0]
    else: return None
    if (m == "min") != sg: return None
    return ("-min" if sg else "max"), arr

def magnitude0(f):
    def intmeth(x, m):
        y = x
        wrapped = False
        if y.op == "call" and callee(y) == "builtins.abs" and y.a[1]: y = y.a[1][0]; 
        if y.op == "neg": y = y.a[0]
        while y.op == "call" and callee(y) == "builtins.int" and y.a[1]: y = y.a[1][0]; wrapped = True
        if y.op == "call" and y.a[0].op == "attr" and y.a[0].a[1] == m: return y.a[0].a[0], wrapped
        if y.op == "call" and callee(y) in ("numpy." + m, "numpy.a" + m) and y.a[1]: return y.a[1][0], wrapped
        return None, False
    if f.op == "call" and callee(f) == "builtins.max" and len(f.a[1]) == 2:
        for a, b in (f.a[1], f.a[1][::-1]):
            x, w1 = intmeth(a, "max"); y, w2 = intmeth(b, "min")
            if x is not None and x is y:
                isneg = b.op == "neg" or (b.op == "call" and callee(b) == "builtins.abs") or (
                    b.op == "call" and callee(b) == "builtins.int" and b.a[1] and b.a[1][0].op == "neg")
                # negation must happen on the Python integer
                safe = w1 and w2 and not (b.op == "call" and callee(b) == "builtins.int")
                return ("ok" if isneg and safe else "unsafe"), x
    if f.op == "call" and f.a[0].op == "attr" and f.a[0].a[1] in ("max", "min"):
        return "unsafe", [s for s in [f.a[0].a[0]]][0]
    if f.op == "call" and callee(f) in ("numpy.max", "numpy.amax") and f.a[1]: return "unsafe", f.a[1][0]
    return None, None

def cast_functions(prog):
    """functions of triples.sdp that fill and return a NumPy array of a fixed-width integer dtype"""
    out = set()
    for f in prog.funcs.values():
        if not f.module.name.startswith("triples.sdp") or f.parent is not None or "<lambda>" in f.qual: continue
        zero = None
        for n in calls_in(f):
            r = resolve_call(prog, f, n)
            if isinstance(r, Ext) and r.name in ("numpy.zeros", "numpy.empty", "numpy.array", "numpy.full"):
                for k in n.keywords:
                    if k.arg == "dtype" and not (isinstance(zero, ast.Name) and zero.id in f.all_params): zero = k.value
        if zero is None: continue
        if isinstance(zero, ast.IfExp):
            zero = next((z for z in (zero.body, zero.orelse) if isinstance(z, ast.Name)), zero.body)
        if isinstance(zero, ast.Name) and zero.id in f.all_params: out.add((f, zero.id))
        elif isinstance(zero, ast.Constant) and zero.value in DTYPE_MAX: out.add((f, zero.value))
        elif isinstance(zero, ast.Attribute) and zero.attr in DTYPE_MAX: out.add((f, zero.attr))
    return out

def run(ctx):
    prog = ctx.prog
    R1 = ctx.rule("bounded-product", "at every fixed-width product, a branch fact bounds (product of operand magnitudes) * (contracted lengths) by the dtype's maximum")
    R2 = ctx.rule("cast-contained", "every cast to a fixed-width array is under a handler for OverflowError")
    R3 = ctx.rule("rescaled", "the result is multiplied by the content of each operand, to the power with which the operand enters the product")
    R4 = ctx.rule("safe-magnitude", "magnitudes are Python integers computed from max and min separately (abs(-2**63) wraps)")
    R5 = ctx.rule("domain", "only matrices over the integers or rationals enter the fast path")
    R6 = ctx.rule("cast-exact", "a cast stores the integers themselves, in an array of the requested type")
    ctx.need(R1, 4); ctx.need(R2, 6); ctx.need(R3, 3)
    casts = cast_functions(prog)
    casts = {(f, d) for f, d in casts}
    cq = {f.qual: d for f, d in casts if f.qual.endswith("_cast_sympy_matrix_to_numpy") or is_new(f)}
    if not cq: ctx.unres(R1, "no cast function found"); return
    users = {}
    for f in prog.funcs.values():
        if "<lambda>" in f.qual: continue
        for n in calls_in(f):
            r = resolve_call(prog, f, n)
            if isinstance(r, Func) and r.qual in cq: users.setdefault(f, []).append(n)
    def catches(f, n, depth=0):
        for t, part in enclosing_trys(f, n):
            if part != "body": continue
            for h in t.handlers:
                for q in handler_types(prog, f, h):
                    if q in ("builtins.OverflowError", "builtins.ArithmeticError", "builtins.Exception", "builtins.BaseException"): return True
        if depth < 3:
            cs = [(g, c) for g in prog.funcs.values() if "<lambda>" not in g.qual for c in calls_in(g) if resolve_call(prog, g, c) is f]
            if cs and is_new(f): return all(catches(g, c, depth + 1) for g, c in cs)
        return False
    for f, ns in users.items():
        for n in ns:
            ctx.decide(catches(f, n), R2, "%s:%d" % (f.module.rel, n.lineno), f.qual, "cast to a fixed-width array outside an OverflowError handler", "%s:%s" % (f.qual, ast.unparse(n)), f.name)
    # functions to interpret: the users that existed, plus callers of new helpers
    todo = set()
    for f in users:
        g = f
        while g.parent is not None: g = g.parent
        todo.add(g)
    grow = True
    while grow:
        grow = False
        for f in list(todo):
            if is_new(f):
                for g in prog.funcs.values():
                    if g in todo or "<lambda>" in g.qual: continue
                    if any(resolve_call(prog, g, c) is f for c in calls_in(g)): todo.add(g); grow = True
    for f in sorted(todo, key=lambda x: x.qual):
        if is_new(f) and any(not is_new(g) for g in todo): continue
        check_func(ctx, f, cq, (R1, R3, R4))
    for q in sorted(cq): check_cast(ctx, prog.funcs[q], R6)

def check_func(ctx, f, cq, rules):
    R1, R3, R4 = rules
    prog = ctx.prog
    arrays = set()
    def iscast(t): return t.op == "call" and t.a[0].op == "g" and t.a[0].a[0] in cq
    def elementwise(t): return t.op == "bin" and t.a[0] in ("Mult", "Pow") and any(fixed(x) for x in t.a[1:])
    def fixed(t):
        b = strip(t)[0]
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "tolist": return False
        if b.op == "sub": b = strip(b.a[0])[0]
        return iscast(b) or is_matprod(b) and holds_cast(b)
    def want(t): return is_matprod(t) or iscast(t) or elementwise(t)
    ex = runf(ctx, R1, f, want=want, inline=inliner(extra=lambda g: not g.qual in cq and g.module is f.module and g.name in ("_max_abs", "is_zz_qq_mat")))
    if ex is None: return
    def holds_cast(t):
        b, _, _ = strip(t)
        if is_matprod(b): return any(holds_cast(x) for x in operands(b))
        return iscast(b)
    n = 0
    for e in events(ex, lambda e: is_matprod(e.term) and holds_cast(e.term)):
        n += 1
        check_product(ctx, f, e, cq, R1, R4)
    for e in events(ex, lambda e: elementwise(e.term)):
        ops = [strip(x)[0] for x in e.term.a[1:] if fixed(x)]
        if any(covers(P, [strip(o.a[0])[0] if o.op == "sub" else o for o in ops], [], e.facts) is True for k, b in e.facts.items() if k.op == "lt" for P in [k.a[1] if not b else k.a[0]]) and all(fixed(x) or x.op == "c" and cval(x) == 1 for x in e.term.a[1:]): ctx.ok(R1, e.loc, "elementwise")
        else: ctx.bad(R1, e.loc, f.qual, "the fixed-width array is multiplied without a bound: %s" % e.term, "%s:elementwise" % f.qual, path_of(e))
    if n == 0:
        ctx.unres(R1, "%s: no fixed-width product found" % f.qual)
    for e in events(ex, lambda e: iscast(e.term)): check_domain(ctx, f, e, "domain")
    # rescaling
    for x in ex:
        if x.kind != "return": continue
        v = x.st.expand(x.val)
        prods = [s for s in subterms(v) if is_matprod(s) and holds_cast(s)]
        if not prods: continue
        top = max(prods, key=lambda s: len(subterms(s)))
        need = {}
        for l in leaves(top):
            src = content_source(strip(l)[0])
            if src is not None: need[src] = need.get(src, 0) + 1
        fs = factors(v)
        have = {}
        for k, m in fs.items():
            if k.op == "item" and k.a[1] == 0 and k.a[0] in need: have[k.a[0]] = have.get(k.a[0], 0) + m
        wrong = [k for k in need if have.get(k, 0) != need[k]]
        if not need: ctx.unres(R3, "%s: contents not recognised" % f.qual); continue
        ctx.decide(not wrong, R3, x.loc, f.qual, "the product is not rescaled by the contents of its operands with the right multiplicity: needs %s, has %s" % (
            sorted(need.values()), [have.get(k, 0) for k in need]), "%s:scale" % f.qual, f.name)

def check_domain(ctx, f, e, R5):
    a = call_args(e.term)[0] if call_args(e.term) else None
    if a is None: return
    m = root_matrix(a)
    if m.op == "phi": m = m.a[2]
    good = False; odd = False
    for k, v in e.facts.items():
        if m not in subterms(k): continue
        if k.op == "call" and callee_name(k) == "is_zz_qq_mat" and v is True and m in call_args(k):
            good = True
        elif k.op == "in" and v is True and k.a[0].op == "attr" and k.a[0].a[1] == "domain" and root_matrix(k.a[0].a[0]) is m:
            d = {str(z.a[0]).split(".")[-1] for z in subterms(k.a[1]) if z.op == "g"}
            if d and d <= {"ZZ", "QQ", "ZZ_I"} - {"ZZ_I"}: good = True
        elif k.op == "attr" and k.a[1] in ("is_ZZ", "is_QQ") and v is True: good = True
        elif k.op == "call" and callee_name(k) not in ("isnan", "isinstance") and v is True: odd = True
    if not good and odd: ctx.unres(R5, "%s: condition on %s" % (f.qual, m))
    else: ctx.decide(good, R5, e.loc, f.qual, "%s enters the integer fast path although it may have entries that are not rational" % m, "%s:domain:%s" % (f.qual, m), path=path_of(e))

def check_cast(ctx, f, R6):
    par = {}
    for n in ast.walk(f.node):
        for c in ast.iter_child_nodes(n): par[c] = n
    dp = None
    for c in calls_in(f):
        loc = "%s:%d" % (f.module.rel, c.lineno)
        nm = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", "")
        if nm == "__int__" or nm == "int" and isinstance(c.func, ast.Name):
            p = par.get(c)
            ctx.decide(not isinstance(p, (ast.BinOp, ast.AugAssign)), R6, loc, f.qual, "the stored integer is changed: %s" % (ast.unparse(p)[:60] if p is not None else ""), "%s:int" % f.name)
        r = resolve_call(ctx.prog, f, c)
        if isinstance(r, Ext) and r.name.startswith("numpy.") or nm == "astype" or nm.startswith(("np_", "np.")):
            for v in [k.value for k in c.keywords if k.arg == "dtype"] + (c.args[:1] if nm == "astype" else []):
                if isinstance(v, ast.Name) and v.id in f.all_params: ctx.ok(R6, loc, "dtype"); continue
                k = v.value if isinstance(v, ast.Constant) else v.attr if isinstance(v, ast.Attribute) else v.id if isinstance(v, ast.Name) else None
                if k in ("int64", "object", "object_"): ctx.ok(R6, loc, "dtype")
                elif k in DTYPE_MAX: ctx.bad(R6, loc, f.qual, "the integers pass through %s" % k, "%s:dtype" % f.name)
                elif isinstance(v, ast.IfExp) and any(isinstance(z, ast.Constant) and z.value in DTYPE_MAX and z.value != "int64" for z in (v.body, v.orelse)): ctx.bad(R6, loc, f.qual, "the array is narrower than requested: %s" % ast.unparse(v), "%s:dtype" % f.name)
                else: ctx.unres(R6, "dtype %s" % ast.unparse(v))

def check_product(ctx, f, e, cq, R1, R4):
    prog = ctx.prog
    # intermediate products whose magnitude is measured count as arrays of their own (they are decided separately)
    atoms = {strip(arr)[0] for k in e.facts for z in subterms(k) for st, arr in [magnitude(z, e.facts)] if st == "ok" and is_matprod(strip(arr)[0]) and strip(arr)[0] is not e.term}
    ls = [y for o in operands(e.term) for y in leaves(o, atoms)] if is_matprod(e.term) else [x for x in e.term.a[1:]]
    dims = []   # list of sets of acceptable names
    def coll(t):
        b, _, _ = strip(t)
        if is_matprod(b) and b not in atoms:
            o = operands(b)
            if len(o) == 2: dims.append(inner_dims(o[0], o[1]))
            for x in o: coll(x)
    coll(e.term)
    ops = [strip(l)[0] for l in ls]
    best, why = None, "no bound on this product is established on the path"
    limit = 2**63 - 1
    for o in ops:
        if o.op == "call" and o.a[0].op == "g" and o.a[0].a[0] in cq:
            g = prog.funcs[o.a[0].a[0]]; d = cq[g.qual]
            kw = call_kw(o, d)
            if d in DTYPE_MAX: w = d
            elif kw is not None: w = cval(kw) if kw.op == "c" else None
            else:
                dv = g.defaults.get(d); w = dv.value if isinstance(dv, ast.Constant) else None
            if w in DTYPE_MAX: limit = min(limit, DTYPE_MAX[w])
            elif w is None: ctx.unres(R1, "%s: dtype of the cast unknown" % f.qual)
    for l in ls:
        for w in narrowed(l):
            if w in DTYPE_MAX: limit = min(limit, DTYPE_MAX[w])
            elif w not in ("object", "object_"): ctx.unres(R1, "%s: cast to %s" % (f.qual, w))
    for k, b in e.facts.items():
        if k.op != "lt": continue
        lo, hi = k.a
        if not b:   # not lo < hi  ->  hi <= lo
            bound, P, slack = const_num(prog, lo), hi, 0
        else: bound, P, slack = const_num(prog, hi), lo, 1
        if bound is None or not (P.op in ("bin", "call", "c")): continue
        if const_num(prog, P) is not None: continue
        r = covers(P, ops, dims, e.facts)
        if r is True:
            if bound - slack <= limit: best = True
            else: why = "the bound %d exceeds the range of the array's integers" % bound
        elif r and not best and len(r) < 200 and len(ops) > 0 and P.op == "bin": why = r
    unsafe = []
    for k in e.facts:
        for s in subterms(k):
            st, arr = magnitude(s)
            if any(halves(z) is not None and (s is z or s in subterms(z)) for kk in e.facts if kk.op in ("lt", "le") for z in kk.a) and (magnitude(s, e.facts)[0] == "ok" or compared(s, e.facts)): continue
            if st == "unsafe" and arr is not None and strip(arr)[0] in ops and not any(magnitude(z, e.facts)[0] == "ok" and s in subterms(z) for z in subterms(k)):
                if s.op == "call" and callee(s) == "builtins.max" or not any(s in subterms(z) and z.op == "call" and callee(z) == "builtins.max" for z in subterms(k)):
                    unsafe.append(s)
    for s in unsafe:
        ctx.bad(R4, e.loc, f.qual, "magnitude %s may wrap around for the most negative integer" % s, "%s:%s" % (f.qual, s))
    if not unsafe: ctx.ok(R4, e.loc, f.name)
    ctx.decide(best is True, R1, e.loc, f.qual, "fixed-width product %s: %s" % (e.term, why), "%s:%s" % (f.qual, len(ops)), f.name, path=path_of(e))

def compared(s, facts):
    """the extreme value occurs in a comparison of the maximum with the negated minimum"""
    for k in facts:
        if k.op in ("lt", "le"):
            a, b = halves(k.a[0]), halves(k.a[1])
            if a is not None and b is not None and a[0] != b[0] and a[1] is b[1] and any(s is z or s in subterms(z) for z in k.a): return True
    return False

def covers(P, ops, dims, facts=None):
    fs = factors(P)
    mags, dms, rest = {}, {}, []
    for k, m in fs.items():
        st, arr = magnitude(k, facts)
        if st is not None: a = strip(arr)[0]; mags[a] = mags.get(a, 0) + m; continue
        if k.op == "c" and isinstance(cval(k), (int, float)) and cval(k) >= 1: continue
        nd = norm_dim(k)
        if nd[0] == "dim": dms[nd] = dms.get(nd, 0) + m; continue
        rest.append(k)
    if not mags: return None
    need = {}
    for o in ops: need[o] = need.get(o, 0) + 1
    for o, m in need.items():
        if mags.get(o, 0) < m: return "the bound does not account for every occurrence of operand %s" % o
    for o in mags:
        if o not in need: return "the bound contains the magnitude of an array outside the product (may be 0)"
    pool = dict(dms)
    for acc in dims:
        acc = same_axes(acc, ops)
        hit = next((d for d in pool if pool[d] > 0 and d in acc), None)
        if hit is None: return "the bound does not account for the length of a contracted axis"
        pool[hit] -= 1
    if rest: return "the bound contains a factor of unknown size %s" % rest
    return True

def same_axes(acc, ops): return acc
