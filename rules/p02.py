"""P02 - only exactly positive-semidefinite matrices are accepted."""
import ast
from sa.util import *
from sa.terms import rewrite
from sa.sign import signs, num

TECHNIQUE = "path-sensitive dataflow with a sign domain over the decomposition, acceptance and registration code"
EXPLANATION = ("The decomposition is interpreted along every path: an iteration can only continue with a positive pivot (and then with the exact Schur "
  "complement) or with a zero pivot whose remaining row was found to be zero, and a result is returned only when the last pivot is not negative; sign functions "
  "classify without tolerance. Every acceptance (registration, rationalisation, solving) records a solution only after each matrix of the same vector was "
  "decomposed and checked, writes nothing before the last check, and perturbs only on request. Not covered: exactness of SymPy's own comparisons.")

SDP = "triples.sdp."
CONG = "triples.sdp.utils.congruence"
PERT = "triples.sdp.utils.congruence_with_perturbation"
PRESERVE = {"radsimp", "simplify", "expand", "sympify", "together", "cancel", "factor", "ratsimp", "sqrtdenest", "S", "signsimp"}
INEXACT = {"n", "evalf", "N", "float", "round", "Float", "limit_denominator", "nsimplify", "float64", "astype"}
FIELDS = ("y", "S", "decompositions")

def run(ctx):
    ctx.rule("pivot", "an iteration of the decomposition continues only with a positive pivot, or a zero pivot with a zero row")
    ctx.rule("cover", "every pivot is examined before a decomposition is returned")
    ctx.rule("schur", "after a positive pivot the remaining matrix is reduced by the exact Schur complement and the pivot is recorded")
    ctx.rule("signfunc", "a sign function never reports a sign the value does not have")
    ctx.rule("perturb", "the matrix is perturbed only when that was requested")
    ctx.rule("accept", "a vector is accepted only after every one of its matrices was decomposed and found positive semidefinite")
    ctx.rule("commit", "a registration writes nothing before its last check")
    ctx.rule("record", "a solution is recorded only by the checked routes")
    ctx.section(check_congruence, ctx)
    ctx.section(check_signfuncs, ctx)
    ctx.section(check_perturbation, ctx)
    ctx.section(check_register, ctx)
    ctx.section(check_rationalize, ctx)
    ctx.section(check_requests, ctx)
    ctx.section(check_solve, ctx)
    ctx.section(check_record, ctx)

# ------------------------------------------------------------------ congruence
def root_is(t, p):
    """t is the parameter or a copy / conversion of it"""
    while True:
        if t is p: return True
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("copy", "as_mutable", "as_immutable"): t = t.a[0].a[0]
        elif t.op == "call" and callee_name(t) in ("copy", "deepcopy", "Matrix", "array", "MutableDenseMatrix") and call_args(t): t = call_args(t)[0]
        elif t.op == "phi": t = t.a[2]
        else: return False

def check_congruence(ctx):
    f = find(ctx, "pivot", CONG)
    if f is None: return
    M = T("p", f.args[0])
    loops = []
    it = Interp(ctx.prog, inline=inliner(), merge=False, want_store=lambda t, v: True, max_states=4000)
    def on_loop(func, node, itr, el, s1, results):
        loops.append((func, node, itr, el, results))
    it.on_loop = on_loop
    try: ex = it.run(f)
    except Overflow: ctx.unres("pivot", "path limit in %s" % f.qual); return
    ctx.count("paths", len(ex)); ctx.count("functions_interpreted")
    sf = T("p", f.args[1]) if len(f.args) > 1 else None
    main = None
    for func, node, itr, el, results in loops:
        if el is None: continue
        piv = None
        for r in results:
            for k in r[1].facts:
                for t in subterms(k):
                    if t.op == "sub" and root_is(t.a[0], M) and t.a[1].op == "tuple" and len(t.a[1].a) == 2 and t.a[1].a[0] is el and t.a[1].a[1] is el: piv = t
        loc = "%s:%d" % (f.module.rel, node.lineno)
        if piv is None:
            # a loop that updates the matrix without looking at its pivot
            upd = [e for r in results if r[0] in ("fall", "continue") for e in r[1].events if e.kind == "store" and e.term.op == "sub" and root_is(e.term.a[0], M)]
            if upd and any(el in subterms(e.term) for e in upd):
                ctx.bad("pivot", loc, f.qual, "the matrix is reduced without looking at the sign of the pivot", "nopivot")
            continue
        main = (itr, el, piv)
        subj = lambda t: t is piv or (t.op == "call" and len(call_args(t)) == 1 and call_args(t)[0] is piv and t.a[0].op in ("p", "fn", "phi"))
        for r in results:
            if r[0] not in ("fall", "continue"): continue
            fs = r[1].facts
            sg = signs(fs, subj)
            if -1 in sg:
                ctx.bad("pivot", loc, f.qual, "the decomposition goes on although the pivot may be negative", "negative", ["%s is %s" % kv for kv in list(fs.items())[-6:]]); continue
            if 0 in sg:
                z = zero_row(ctx, fs, piv, el, M)
                if z is None: ctx.unres("pivot", "zero pivot: row condition not recognised")
                elif not z: ctx.bad("pivot", loc, f.qual, "a zero pivot is accepted although an entry of its row may be nonzero", "zerorow", ["%s is %s" % kv for kv in list(fs.items())[-6:]]); continue
            ctx.ok("pivot", loc, "signs %s" % sorted(sg))
            if sg == {1}: schur(ctx, f, r[1], piv, el, M, loc)
    if main is None: ctx.unres("pivot", "no pivot loop found in %s" % f.qual)
    else: coverage(ctx, f, ex, main, M)

def zero_row(ctx, facts, piv, el, M):
    seen = False
    for k, v in facts.items():
        if k.op == "call" and callee_name(k) in ("any", "all", "is_zero_matrix") and call_args(k):
            a = call_args(k)[0]
            it = a.a[2] if a.op == "comp" else a
            if a.op == "comp" and a.a[3]: continue
            body = a.a[1] if a.op == "comp" else None
            seen = True
            if (callee_name(k) == "any") == bool(v): continue
            if body is not None:
                elt = T("bv", it)
                # any(nonzero(x)) is False / all(zero(x)) is True  -> every entry is zero
                s = signs({body: callee_name(k) == "all"} if body.op != "not" else {body.a[0]: callee_name(k) != "all"},
                          lambda t: t is elt or (t.op == "call" and len(call_args(t)) == 1 and call_args(t)[0] is elt))
                if s != {0}:
                    if body.op in ("eq", "lt", "not"): return False
                    return None
            rng = row_range(it, el, M)
            if rng is None: return None
            return rng
    for k, v in facts.items():      # facts of an inner loop over the row
        for t in subterms(k):
            if t.op == "bv" and row_range(t.a[0], el, M) and signs(facts, lambda x: x is t or (x.op == "call" and len(call_args(x)) == 1 and call_args(x)[0] is t)) == {0}: return True
    if seen: return False
    # no condition about the row at all
    for k in facts:
        if k.op == "call" and callee_name(k) == "isinstance": continue
        for t in subterms(k):
            if t.op == "sub" and root_is(t.a[0], M) and t is not piv:
                return False if row_range(t, el, M) is False else None
    return False

def row_range(it, el, M):
    """True: covers all entries of the row after the pivot; False: leaves some out; None: not understood"""
    it = unwrap(it, ("list", "tuple", "iter", "flatten"))
    if it.op == "call" and it.a[0].op == "attr" and it.a[0].a[1] in ("flatten", "tolist", "flat", "values", "iter_values"): it = it.a[0].a[0]
    if not (it.op == "sub" and root_is(it.a[0], M) and it.a[1].op == "tuple" and len(it.a[1].a) == 2): return None
    a, b = it.a[1].a
    for x, y in ((a, b), (b, a)):
        if (y is el or (y.op == "slice" and y.a[0] is el)) and x.op == "slice":
            lo, hi, st = x.a
            if hi is not NONE and hi.op == "c" and hi.a[1] is not None: return False
            if hi is not NONE and hi.op == "bin" and hi.a[0] == "Sub" and is_size(hi.a[1], M) and (num(hi.a[2]) or 0) > 0: return False
            if hi is not NONE and not (hi.op == "c") and not is_size(hi, M): return None
            if st is not NONE and st.op == "c" and st.a[1] not in (None, 1): return False
            d = offset(lo, el)
            if lo is NONE or (lo.op == "c" and lo.a[1] in (None, 0)): return True
            if d is None: return None
            return d <= 1
        if y is el and offset(x, el) is not None: return False      # a single entry
    return None

def offset(t, el):
    if t is el: return 0
    if t.op == "bin" and t.a[0] in ("Add", "Sub"):
        a, b = t.a[1], t.a[2]
        if t.a[0] == "Add" and b is el: a, b = b, a
        if a is el and num(b) is not None: return num(b) if t.a[0] == "Add" else -num(b)
    return None

def coverage(ctx, f, ex, main, M):
    itr, el, piv = main
    it = itr
    if it.op == "call" and callee(it) == "builtins.enumerate": ctx.unres("cover", "loop over %s" % it); return
    c = None
    if el.op == "idx": c = 0
    elif it.op == "call" and callee(it) == "builtins.range":
        a = call_args(it)
        if len(a) == 1: start, stop = C(0), a[0]
        elif len(a) == 2: start, stop = a
        else: ctx.unres("cover", "range with a step"); return
        if num(start) is None: ctx.unres("cover", "loop start %s" % start); return
        if num(start) > 0: ctx.bad("cover", f.loc, f.qual, "the first pivots are not examined", "start"); return
        base, c = stop, 0
        if stop.op == "bin" and stop.a[0] == "Sub" and num(stop.a[2]) is not None: base, c = stop.a[1], num(stop.a[2])
        if not is_size(base, M): ctx.unres("cover", "loop end %s" % stop); return
    if c is None: ctx.unres("cover", "loop over %s" % it); return
    if c > 1: ctx.bad("cover", f.loc, f.qual, "the last pivots are not examined", "stop"); return
    for x in ex:
        if x.kind != "return" or x.val is NONE: continue
        if c == 0: ctx.ok("cover", x.loc, "all pivots in the loop"); continue
        sz = [t for t in (base,)]
        def last(t):
            if t.op == "sub" and root_is(t.a[0], M) and t.a[1].op == "tuple" and len(t.a[1].a) == 2:
                return all(num(i) == -1 or (i.op == "bin" and i.a[0] == "Sub" and num(i.a[2]) == 1 and is_size(i.a[1], M)) for i in t.a[1].a)
            return False
        subj = lambda t: last(t) or (t.op == "call" and len(call_args(t)) == 1 and last(call_args(t)[0]) and t.a[0].op in ("p", "fn", "phi"))
        sg = signs(x.facts, subj)
        if any(subj(t) for k in x.facts for t in subterms(k)) or not x.facts:
            ctx.decide(-1 not in sg, "cover", x.loc, f.qual, "a decomposition is returned although the last pivot may be negative", "last", path=path_of(x))
        else:
            # is any other condition on the tail visible?
            odd = [k for k in x.facts if any(t.op == "sub" for t in subterms(k)) and not any(t is el for t in subterms(k)) and not (k.op == "call" and callee_name(k) == "isinstance")]
            if odd: ctx.unres("cover", "last pivot condition %s" % odd[0])
            else: ctx.bad("cover", x.loc, f.qual, "a decomposition is returned without looking at the last pivot", "last", path_of(x))

def is_size(t, M):
    if t.op == "item" and t.a[0].op == "attr" and t.a[0].a[1] == "shape" and root_is(t.a[0].a[0], M): return True
    if t.op == "sub" and t.a[0].op == "attr" and t.a[0].a[1] == "shape" and root_is(t.a[0].a[0], M): return True
    if t.op == "attr" and t.a[1] in ("rows", "cols") and root_is(t.a[0], M): return True
    if t.op == "call" and callee(t) == "builtins.len" and root_is(call_args(t)[0], M): return True
    return False

def schur(ctx, f, st, piv, el, M, loc):
    stores = [e for e in st.events if e.kind == "store" and e.term.op == "sub"]
    inner = [e for e in stores if root_is(e.term.a[0], M)]
    rows = {}            # matrix term -> stored row value
    for e in stores:
        if root_is(e.term.a[0], M): continue
        ix = e.term.a[1]
        if ix.op == "tuple" and len(ix.a) == 2 and ix.a[0] is el and ix.a[1].op == "slice" and offset(ix.a[1].a[0], el) == 1: rows[e.term.a[0]] = e.val
    if not inner:
        if not any(is_copy_loop(e) for e in stores): ctx.bad("schur", loc, f.qual, "the remaining matrix is not reduced after a positive pivot", "noupdate")
        return
    def ev(t, d=0):
        """-> (kind, pivot exponent, rows) ; kind: s(calar), r(ow), c(olumn), o(uter)"""
        if d > 12: return None
        if t is piv: return ("s", 1, 0)
        if num(t) == 1: return ("s", 0, 0)
        if t.op == "sub":
            b, ix = t.a
            if ix.op == "tuple" and len(ix.a) == 2:
                i, j = ix.a
                at = lambda z: z is el or (z.op == "slice" and z.a[0] is el and offset(z.a[1], el) == 1)
                tail = lambda z: z.op == "slice" and offset(z.a[0], el) == 1 and (z.a[1] is NONE or z.a[1].op == "c" and z.a[1].a[1] is None)
                if root_is(b, M):
                    if at(i) and tail(j): return ("r", 0, 1)
                    if tail(i) and at(j): return ("c", 0, 1)
                elif b in rows and at(i) and tail(j): return ev(rows[b], d + 1)
            return None
        if t.op == "attr" and t.a[1] == "T" or (t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "transpose"):
            x = ev(t.a[0] if t.op == "attr" else t.a[0].a[0], d + 1)
            return None if x is None else ({"r": "c", "c": "r"}.get(x[0], x[0]), x[1], x[2])
        if t.op == "bin":
            o, a, b = t.a
            x, y = ev(a, d + 1), ev(b, d + 1)
            if x is None or y is None: return None
            if o == "Div" and y[0] == "s": return (x[0], x[1] - y[1], x[2])
            if o in ("Mult", "MatMult"):
                if x[0] == "s": return (y[0], x[1] + y[1], y[2])
                if y[0] == "s": return (x[0], x[1] + y[1], x[2])
                if x[0] == "c" and y[0] == "r": return ("o", x[1] + y[1], x[2] + y[2])
            return None
        return None
    for e in inner:
        ix = e.term.a[1]
        ok_ix = ix.op == "tuple" and len(ix.a) == 2 and all(z.op == "slice" and offset(z.a[0], el) == 1 for z in ix.a)
        v = e.val
        if not ok_ix or not (v.op == "bin" and v.a[0] in ("Sub", "Add") and v.a[1] is e.term):
            ctx.unres("schur", "update %s = %s" % (e.term, v)); continue
        x = ev(v.a[2])
        if x is None: ctx.unres("schur", "update by %s" % v.a[2]); continue
        ctx.decide(v.a[0] == "Sub" and x == ("o", -1, 2), "schur", e.loc, f.qual, "the remaining matrix is not reduced by (row^T row)/pivot", "update")
    for b, val in rows.items():
        x = ev(val)
        if x is None: ctx.unres("schur", "row %s" % val)
        else: ctx.decide(x == ("r", -1, 1), "schur", loc, f.qual, "the recorded row is not row/pivot", "row")
    diag = [e for e in stores if not root_is(e.term.a[0], M) and e.term.a[1] is el]
    for e in diag: ctx.decide(e.val is piv, "schur", e.loc, f.qual, "the recorded diagonal entry is not the pivot", "diag")

def is_copy_loop(e): return False

# ------------------------------------------------------------------ sign functions
def check_signfuncs(ctx):
    prog = ctx.prog
    todo = []
    for f in prog.funcs.values():
        for c in calls_in(f):
            g = resolve_call(prog, f, c)
            if not (isinstance(g, Func) and "signfunc" in g.all_params): continue
            for kw in c.keywords:
                if kw.arg == "signfunc": todo.append((f, kw.value))
            i = g.all_params.index("signfunc")
            if len(c.args) > i: todo.append((f, c.args[i]))
    done = set()
    for f, e in todo:
        fn = None
        if isinstance(e, ast.Lambda): fn = prog.lambda_func(e) if hasattr(prog, "lambda_func") else None
        if fn is None:
            r = prog.resolve_expr(e, f.module, f) if not isinstance(e, ast.Lambda) else None
            fn = r if isinstance(r, Func) else None
        if fn is None and isinstance(e, ast.Lambda):
            fn = next((h for h in prog.funcs.values() if h.node is e), None)
        if fn is None and isinstance(e, ast.Name):
            fn = prog.funcs.get(f.qual + "." + e.id)
        if fn is None:
            if isinstance(e, ast.Name) and e.id in f.all_params: continue
            if isinstance(e, ast.Constant) and e.value is None: continue
            ctx.unres("signfunc", "%s passes a sign function that is not resolved" % f.qual); continue
        if fn in done: continue
        done.add(fn); judge_signfunc(ctx, fn)

def judge_signfunc(ctx, fn):
    ex = runf(ctx, "signfunc", fn, merge=False)
    if ex is None: return
    x0 = T("p", fn.args[0])
    state = {"inexact": None}
    def subj(t):
        while True:
            if t is x0: return True
            if t.op == "call" and callee_name(t) in PRESERVE:
                t = t.a[0].a[0] if t.a[0].op == "attr" and not call_args(t) else (call_args(t)[0] if call_args(t) else t.a[0])
            elif t.op == "call" and callee_name(t) in INEXACT and x0 in subterms(t): state["inexact"] = t; return True
            else: return False
    for x in ex:
        if x.kind != "return": continue
        v = num(x.val)
        if v is None:
            ctx.unres("signfunc", "%s returns %s" % (fn.qual, x.val)); continue
        sg = signs(x.facts, subj)
        if state["inexact"] is not None and any(subj(t) for k in x.facts for t in k.a if isinstance(t, T)):
            ctx.bad("signfunc", x.loc, fn.qual, "the sign is taken from an approximation", fn.qual + ":inexact"); continue
        s = (v > 0) - (v < 0)
        if s < 0: ctx.ok("signfunc", x.loc, fn.qual); continue
        ctx.decide(sg <= {s}, "signfunc", x.loc, fn.qual, "reports sign %d for a value that may have sign %s" % (s, sorted(sg)), fn.qual + ":%d" % s, path=path_of(x))

# ------------------------------------------------------------------ perturbation
def check_perturbation(ctx):
    f = find(ctx, "perturb", PERT)
    if f is None: return
    M = T("p", f.args[0])
    P = T("p", "perturb") if "perturb" in f.all_params else None
    ex = runf(ctx, "perturb", f, merge=False, want=lambda t: t.op == "call" and callee_name(t) == "congruence")
    if ex is None or P is None: ctx.unres("perturb", "parameter perturb of %s" % PERT); return
    d = default_of(f, "perturb")
    ctx.decide(d is False or d is None, "perturb", f.loc, f.qual, "perturbation is the default", "default")
    for x in ex:
        if x.kind != "return" or x.val is NONE: continue
        v = x.val
        req = x.facts.get(P)
        if v.op == "call" and callee_name(v) == "congruence":
            a = call_kw(v, "M", 0)
            if a is M: ctx.ok("perturb", x.loc, f.qual)
            elif req is True: ctx.ok("perturb", x.loc, "perturbed on request")
            elif a is not None and M in subterms(a) and (a.op in ("bin",)): ctx.bad("perturb", x.loc, f.qual, "a perturbed matrix is decomposed without a request", "unrequested", path_of(x))
            else: ctx.unres("perturb", "decomposes %s" % a)
        elif v.op == "tuple" or v.op == "new":
            zero = [k for k, b in x.facts.items() if b and k.op == "eq" and any(is_size(t, M) for t in k.a) and any(num(t) == 0 for t in k.a)] or \
                   [k for k, b in x.facts.items() if k.op == "call" and callee_name(k) == "is_empty_matrix" and b]
            size = lambda t: is_size(t, M) or t.op == "call" and callee_name(t) in ("min", "max", "len")
            entry = [k for k in x.facts if any(t.op == "sub" and root_is(t.a[0], M) or t.op == "call" and not size(t) and callee_name(t) not in ("isinstance", "hasattr", "is_empty_matrix") and M in subterms(t) or t.op == "bv" for t in subterms(k))]
            if zero: ctx.ok("perturb", x.loc, "empty matrix")
            elif entry: ctx.unres("perturb", "returns %s" % v)
            else: ctx.bad("perturb", x.loc, f.qual, "a decomposition is returned without decomposing the matrix", "nodecomp", path_of(x))
        elif req is True: ctx.ok("perturb", x.loc, "requested")
        else: ctx.unres("perturb", "returns %s" % v)

def default_of(f, name):
    a = f.node.args
    ps = a.posonlyargs + a.args
    for p, d in list(zip(reversed(ps), reversed(a.defaults))) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
        if p.arg == name: return d.value if isinstance(d, ast.Constant) else "?"
    return None

# ------------------------------------------------------------------ acceptance
def decomp_call(t):
    for s in subterms(t):
        if s.op == "call" and callee_name(s) in ("congruence_with_perturbation", "congruence") and s.a[0].op in ("g", "fn"): return s
    return None

def check_dict(ctx, rid, x, f, D, source, key, raw=None):
    """D: expanded dict term of decompositions; source: the dict of matrices that must be covered"""
    loc = x.loc
    if D.op != "dict": ctx.unres(rid, "decompositions of %s are %s" % (f.qual, D)); return
    for el in D.a:
        if not (isinstance(el, T) and el.op == "each" and el.a[1].op == "kv"):
            ctx.unres(rid, "decompositions of %s hold %s" % (f.qual, el)); return
        it, kv, conds = el.a[0], el.a[1], el.a[2:]
        k, v = kv.a
        c = decomp_call(v)
        if c is None:
            ctx.bad(rid, loc, f.qual, "a matrix is accepted that was not decomposed", key + ":nodecomp", path_of(x)); continue
        base = it.a[0].a[0] if it.op == "call" and it.a[0].op == "attr" and it.a[0].a[1] in ("items", "keys") else it
        if source is not None and base is not source:
            if base.op == "sub" or base.op == "comp" or (base.op == "call" and callee_name(base) in ("islice", "filter")):
                ctx.bad(rid, loc, f.qual, "only some of the matrices are checked", key + ":part", path_of(x)); continue
            if unwrap(base, ("list", "tuple", "dict", "sorted")) is not source and not (base.op == "call" and source in subterms(base)):
                ctx.unres(rid, "decompositions range over %s" % base); continue
            if base.op == "call" and any(t.op == "sub" and t.a[1].op == "slice" for t in subterms(base)):
                ctx.bad(rid, loc, f.qual, "only some of the matrices are checked", key + ":part", path_of(x)); continue
        if it.op == "sub" and it.a[1].op == "slice":
            ctx.bad(rid, loc, f.qual, "only some of the matrices are checked", key + ":part", path_of(x)); continue
        a = call_kw(c, "M", 0)
        if source is not None and source not in subterms(a): ctx.bad(rid, loc, f.qual, "the decomposed matrix is not one of the accepted vector", key + ":other", path_of(x)); continue
        sh = shifted(a, source)
        if sh is not None and not any(sg_pos(x.facts, t) for t in subterms(sh) if t.op == "p") :
            ctx.bad(rid, loc, f.qual, "the decomposed matrix is not the one of the accepted vector but a shifted one", key + ":shift", path_of(x)); continue
        w = touched(v, c)
        if w is not None: ctx.bad(rid, loc, f.qual, "the recorded decomposition is not the one that was found (%s)" % w, key + ":touched", path_of(x)); continue
        nn = T("isnone", c)
        checked = any(q is T("not", nn) or q is c for q in conds) or x.facts.get(nn) is False or x.facts.get(c) is True
        if not checked and raw is not None: checked = x.facts.get(T("isnone", T("sub", raw, T("bv", raw)))) is False
        extra = [q for q in conds if q is not T("not", nn) and q is not c and not (c in subterms(q))]
        skips = [q for q in extra if skip_cond(q)]
        if not checked: ctx.bad(rid, loc, f.qual, "a failed decomposition is not noticed", key + ":unchecked", path_of(x)); continue
        if skips: ctx.unres(rid, "matrices are checked under %s" % skips[0])
        ctx.ok(rid, loc, f.qual)
    for k, b in x.facts.items():
        if b and k.op == "isnone" and k.a[0].op == "call" and callee_name(k.a[0]) in ("congruence_with_perturbation", "congruence"):
            ctx.bad(rid, loc, f.qual, "a vector is accepted although the decomposition of a matrix failed", key + ":failed", path_of(x)); return

def sg_pos(facts, p):
    """a nonzero regularisation was asked for on this path"""
    return any(p in subterms(k) for k in facts) and (0 not in signs(facts, lambda t: t is p) or facts.get(p) is True)

def shifted(a, source):
    """the amount by which the decomposed matrix differs from the matrix of the vector"""
    if a is None: return None
    while a.op == "call" and (callee_name(a) in ("Matrix", "copy", "as_mutable", "as_immutable", "ImmutableMatrix")): a = a.a[0].a[0] if a.a[0].op == "attr" and not call_args(a) else call_args(a)[0]
    if a.op == "bin" and a.a[0] in ("Add", "Sub"):
        for u, w in ((a.a[1], a.a[2]), (a.a[2], a.a[1])):
            if any(t.op == "call" and callee_name(t) in ("eye", "ones", "diag", "identity", "Identity") for t in subterms(w)): return w
    return None

def touched(v, c):
    """an operation between the decomposition and its record that may change signs"""
    for t in subterms(v):
        if t is c or c not in subterms(t): continue
        if t.op == "call" and callee_name(t) in ("abs", "Abs", "max", "Max", "fabs", "round", "n", "evalf", "clip", "maximum", "nsimplify", "rationalize"): return callee_name(t)
        if t.op == "comp" or t.op == "each":
            for q in subterms(t.a[1]) if isinstance(t.a[1], T) else ():
                if q.op == "call" and callee_name(q) in ("abs", "Abs", "max", "Max", "fabs", "round", "n", "evalf", "clip", "maximum", "nsimplify", "rationalize") and t.op == "comp": return callee_name(q)
    return None

def loop_goes_on(ctx, func, node, it, el, s1, results):
    """a loop over the matrices that goes on after a failed decomposition without remembering it"""
    def direct(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.For, ast.While)): continue
            if isinstance(c, ast.Call) and getattr(c.func, "id", getattr(c.func, "attr", "")) in ("congruence_with_perturbation", "congruence"): return True
            if direct(c): return True
        return False
    if not any(direct(b) for b in node.body if not isinstance(b, (ast.For, ast.While))): return
    tg = {n.id for n in ast.walk(node.target) if isinstance(n, ast.Name)} if isinstance(node, ast.For) else set()
    for r in results:
        if r[0] not in ("fall", "continue"): continue
        st = r[1]
        if not any(b and k.op == "isnone" and callee_name(k.a[0]) in ("congruence_with_perturbation", "congruence") and s1.facts.get(k) is not b for k, b in st.facts.items()): continue
        if any(n in s1.env and n not in tg and st.env[n] is not s1.env[n] and not (st.env[n].op == "phi") for n in st.env): ctx.unres("accept", "failure remembered in a variable in %s" % func.qual); continue
        ctx.bad("accept", "%s:%d" % (func.module.rel, node.lineno), func.qual, "the decomposition of a matrix fails and the loop goes on as if it had not", func.qual + ":goes-on", ["%s is %s" % kv for kv in list(st.facts.items())[-6:]])

def skip_cond(q): return q.op not in ("eq", "not", "lt")

def check_register(ctx):
    f = find(ctx, "accept", "triples.sdp.abstract.SDPProblemBase.register_y")
    if f is None: return
    s = T("p", f.args[0])
    ex = runf(ctx, "accept", f, merge=False, want=lambda t: t.op == "call" and callee_name(t) in ("S_from_y", "congruence_with_perturbation", "congruence", "project"), want_store=lambda t, v: True, on_loop=lambda *a: loop_goes_on(ctx, *a))
    for x in ex or []:
        own = [(i, e) for i, e in enumerate(x.events) if e.kind == "store" and e.term.op == "attr" and e.term.a[0] is s and e.term.a[1] in FIELDS]
        if x.kind == "raise":
            ctx.decide(not own, "commit", x.loc, f.qual, "a rejected registration has already changed the recorded solution", "commit", path=path_of(x)); continue
        first = own[0][0] if own else None
        if first is None: continue
        late = [e for e in x.events[first:] if e.kind == "call"]
        ctx.decide(not late, "commit", x.loc, f.qual, "the recorded solution is changed before the last check", "commit-order", path=path_of(x))
        vals = {e.term.a[1]: e.val for _, e in own}
        S = vals.get("S")
        if "decompositions" not in vals: continue      # completeness is P05's
        D = x.st.expand(vals["decompositions"])
        y = vals.get("y")
        if S is not None and S.op == "call" and callee_name(S) == "S_from_y" and y is not None:
            a = call_args(S)
            ctx.decide(any(z is y for z in a), "accept", x.loc, f.qual, "the recorded vector is not the one whose matrices were checked", "vector", path=path_of(x))
        check_dict(ctx, "accept", x, f, D, S, "register", vals["decompositions"])

def check_rationalize(ctx):
    f = find(ctx, "accept", "triples.sdp.rationalize.rationalize_and_decompose")
    if f is None: return
    mf = T("p", "mat_func") if "mat_func" in f.all_params else None
    ex = runf(ctx, "accept", f, merge=False, max_states=6000, on_loop=lambda *a: loop_goes_on(ctx, *a))
    for x in ex or []:
        if x.kind != "return" or x.val is NONE: continue
        v = x.val
        if v.op != "tuple" or len(v.a) != 2: ctx.unres("accept", "%s returns %s" % (f.qual, v)); continue
        y, D = v.a[0], x.st.expand(v.a[1])
        src = None
        cands = {t for k in list(x.facts) + [D] for t in subterms(k) if t.op == "call" and t.a[0] is mf}
        if D.op == "dict" and D.a:
            if not cands: ctx.bad("accept", x.loc, f.qual, "the matrices of the accepted vector are never computed", "rationalize:nomat", path_of(x)); continue
            ok = [c for c in cands if any(z is y for z in call_args(c))]
            if not ok: ctx.bad("accept", x.loc, f.qual, "the returned vector is not the one whose matrices were checked", "rationalize:vector", path_of(x)); continue
            src = ok[0]
            pr = T("p", "projection")
            if "projection" in f.all_params and x.facts.get(T("isnone", pr)) is not True and x.facts.get(pr) is not False:
                ctx.decide(any(t.op == "call" and t.a[0] is pr for t in subterms(y)), "accept", x.loc, f.qual, "the vector is not projected onto the equality constraints before it is checked", "rationalize:project", path=path_of(x))
        check_dict(ctx, "accept", x, f, D, src, "rationalize", v.a[1])

def in_sdp(f): return f.module.name.startswith(("triples.sdp", "triples.core"))

# ------------------------------------------------------------------ requests to perturb / regularise
def check_requests(ctx):
    prog = ctx.prog
    for f in prog.funcs.values():
        if "<lambda>" in f.qual or not in_sdp(f): continue
        cs = [c for c in calls_in(f) if any(kw.arg in ("perturb", "reg") for kw in c.keywords)]
        if not cs or f.parent is not None: continue
        check_request_func(ctx, f)
    # nested functions are reached through their parents
    for f in prog.funcs.values():
        if f.parent is not None and in_sdp(f) and any(any(kw.arg in ("perturb", "reg") for kw in c.keywords) for c in calls_in(f)):
            p = f
            while p.parent is not None: p = p.parent
            check_request_func(ctx, p)
    for q in ("triples.sdp.abstract.SDPProblemBase.register_y", "triples.sdp.rationalize.rationalize_and_decompose"):
        f = find(ctx, "perturb", q, quiet=True)
        if f is None: continue
        for nm, good in (("perturb", (False, None)), ("reg", (0, None, 0.0))):
            if nm in f.all_params: ctx.decide(default_of(f, nm) in good, "perturb", f.loc, f.qual, "%s is on by default" % nm, f.qual + ":" + nm)

def opt(z, nm):
    """the term is (part of) a request by the caller"""
    if z is T("p", nm) or z.op == "c" and not z.a[1]: return True
    if z.op in ("and",): return any(opt(q, nm) for q in z.a)
    return T("p", "allow_numer") in subterms(z) or any(t.op == "p" and t.a[0] in (nm, "allow_numer") for t in subterms(z)) or not any(t.op in ("p", "bv") for t in subterms(z))

def check_request_func(ctx, f, done={}):
    k = (id(ctx), f.qual)
    if k in done: return
    done[k] = 1
    if is_new(f): return
    ex = runf(ctx, "perturb", f, merge=False, max_states=6000, want=lambda t: t.op == "call" and any(n in ("perturb", "reg") for n, _ in t.a[2]))
    for e in events(ex or [], lambda e: e.kind == "call"):
        for nm, v in e.term.a[2]:
            if nm not in ("perturb", "reg"): continue
            if v.op == "c" and not v.a[1]: ctx.ok("perturb", e.loc, f.qual); continue
            if v is T("p", nm): ctx.ok("perturb", e.loc, "passed through"); continue
            if v.op == "c":
                an = [t for t in (T("p", "allow_numer"),)]
                sg = signs(e.facts, lambda t: t in an)
                ctx.decide(sg == {1}, "perturb", e.loc, f.qual, "%s is requested without the caller having allowed numerical answers" % nm, f.qual + ":" + nm, path=path_of(e))
            elif v.op == "or" and any(not opt(z, nm) for z in v.a): ctx.bad("perturb", e.loc, f.qual, "%s is requested when the caller did not ask for it (%s)" % (nm, [str(z)[:60] for z in v.a if not opt(z, nm)][0]), f.qual + ":" + nm + ":or", path_of(e))
            elif v.op == "call" and callee_name(v) == "isinstance": ctx.bad("perturb", e.loc, f.qual, "%s depends on the type of the data instead of on a request" % nm, f.qual + ":" + nm + ":type", path_of(e))
            elif v.op == "not": ctx.bad("perturb", e.loc, f.qual, "%s is requested when the caller did not ask for it" % nm, f.qual + ":" + nm, path_of(e))
            else: ctx.unres("perturb", "%s=%s in %s" % (nm, v, f.qual))

# ------------------------------------------------------------------ solving
def check_solve(ctx):
    f = find(ctx, "record", "triples.sdp.abstract.SDPProblemBase._solve_from_multiple_configs")
    if f is not None:
        ex = runf(ctx, "record", f, merge=False, max_states=6000, inline=lambda g: is_new(g), want=lambda t: False)
        an = T("p", "allow_numer")
        for x in ex or []:
            if x.kind != "return" or x.val is NONE: continue
            v = x.val
            if v.op == "call" and callee_name(v) in ("rationalize", "rationalize_and_decompose"): ctx.ok("record", x.loc, "rationalised and decomposed")
            elif v.op == "ite": ctx.unres("record", "returns %s" % v)
            else:
                sg = signs(x.facts, lambda t: t is an)
                if sg == {1}: ctx.ok("record", x.loc, "numerical answer on request")
                elif v.op in ("tuple", "new") or (v.op == "call" and v.a[0].op == "fn"):
                    ctx.bad("record", x.loc, f.qual, "an unverified solution is returned although the caller did not allow numerical answers", "unverified", path_of(x))
                else: ctx.unres("record", "returns %s" % v)
    f = find(ctx, "record", "triples.sdp.abstract.SDPProblemBase.rationalize")
    if f is not None:
        ex = runf(ctx, "record", f)
        for x in ex or []:
            if x.kind != "return" or x.val is NONE: continue
            v = x.val
            if v.op == "call" and callee_name(v) == "rationalize_and_decompose":
                s = T("p", f.args[0])
                mf = call_kw(v, "mat_func", 1); pj = call_kw(v, "projection", 2)
                ctx.decide(mf is T("attr", s, "S_from_y"), "record", x.loc, f.qual, "the matrices that are checked are not those of the problem", "matfunc")
                ctx.decide(pj is T("attr", s, "project"), "record", x.loc, f.qual, "the vector is not projected onto the equality constraints", "projection") if pj is None or pj is NONE or pj.op == "attr" else ctx.unres("record", "projection %s" % pj)
            elif v.op in ("tuple", "new"): ctx.bad("record", x.loc, f.qual, "a vector is accepted without decomposing its matrices", "rationalize", path_of(x))
            else: ctx.unres("record", "%s returns %s" % (f.qual, v))
    f = find(ctx, "record", "triples.sdp.abstract.SDPProblemBase.solve")
    if f is None: return
    s = T("p", f.args[0])
    ex = runf(ctx, "record", f, merge=False, max_states=6000, want_store=lambda t, v: t.op == "attr" and t.a[0] is s and t.a[1] in FIELDS)
    seen = set()
    for x in ex or []:
        for e in x.events:
            if e.kind != "store": continue
            src = [t for t in subterms(x.st.expand(e.val)) if t.op == "call" and callee_name(t) in ("_solve_from_multiple_configs", "rationalize", "rationalize_and_decompose")]
            k = (e.term, e.val, e.line)
            if not src:
                v = x.st.expand(e.val)
                if v is NONE: ctx.bad("record", e.loc, f.qual, "the recorded solution is cleared before an attempt that may be rejected", "solve:clear"); continue
                if v.op in ("sub", "attr", "p", "tuple", "list", "c") and not any(t.op == "call" for t in subterms(v)):
                    ctx.bad("record", e.loc, f.qual, "a solution is recorded that was not verified", "solve:" + e.term.a[1]); continue
                if k not in seen: ctx.unres("record", "solve records %s" % e.val) if e.val.op not in ("attr", "p") else ctx.bad("record", e.loc, f.qual, "a solution is recorded that was not verified", "solve:" + e.term.a[1])
                seen.add(k); continue
            names = {callee_name(c) for c in src}
            nn = any(k.op == "isnone" and not b and callee_name(k.a[0]) in names or k.op == "call" and b and callee_name(k) in names for k, b in e.facts.items())
            if k not in seen or not nn: ctx.decide(nn, "record", e.loc, f.qual, "the recorded solution is overwritten although the attempt may have failed", "solve-none", path=path_of(e))
            seen.add(k)
        if x.kind == "return":
            v = x.val
            stored = any(e.kind == "store" for e in x.events)
            if v is TRUE and not stored:
                childs = [k for k, b in x.facts.items() if b]
                if not any(callee_name(t) == "solve" for k in childs for t in subterms(k) if t.op == "call"):
                    ctx.bad("record", x.loc, f.qual, "success is reported without a recorded solution", "solve-true", path_of(x))
            elif not stored and any(b and k.op == "isnone" and k.a[0].op == "call" and callee_name(k.a[0]) in ("_solve_from_multiple_configs",) for k, b in x.facts.items()) and v.op in ("lt", "eq", "attr", "or", "not") and not any(t.op == "call" and callee_name(t) in ("_solve_from_multiple_configs", "solve") for t in subterms(v)):
                ctx.bad("record", x.loc, f.qual, "success may be reported although the attempt failed", "solve-or", path_of(x))
            elif v.op == "or" and any(not any(t.op == "call" and callee_name(t) in ("_solve_from_multiple_configs", "rationalize", "solve") for t in subterms(z)) for z in v.a):
                ctx.bad("record", x.loc, f.qual, "success is reported on other grounds than a recorded solution", "solve-or", path_of(x))
            elif v is FALSE and stored: ctx.bad("record", x.loc, f.qual, "failure is reported for a recorded solution", "solve-false", path_of(x))
            else: ctx.ok("record", x.loc, "solve returns %s" % v)

def check_record(ctx):
    """stores into the solution fields of SDP problems outside the checked routes"""
    base = next((c for c in ctx.prog.classes.values() if c.name == "SDPProblemBase"), None)
    n = 0
    for f in ctx.prog.funcs.values():
        m = f.module.name
        if not (m.startswith("triples.sdp") or m.startswith("triples.core.sdpsos")) or is_new(f): continue
        for node in walk_own(f.node):
            tg = []
            if isinstance(node, ast.Assign): tg = [(t, node.value) for t0 in node.targets for t in (t0.elts if isinstance(t0, ast.Tuple) else [t0])]
            elif isinstance(node, ast.AugAssign): tg = [(node.target, node.value)]
            for t, v in tg:
                while isinstance(t, ast.Subscript): t = t.value
                if not (isinstance(t, ast.Attribute) and t.attr in FIELDS): continue
                if isinstance(v, ast.Constant) and v.value is None:
                    if f.name not in ("__init__", "__new__", "reset", "clear", "_reset", "_clear") and f.name != "solve": ctx.bad("record", "%s:%d" % (f.module.rel, node.lineno), f.qual, "the recorded solution is cleared by %s" % f.name, f.qual + ":clear")
                    continue
                own = isinstance(t.value, ast.Name) and t.value.id == "self"
                if own and f.cls is not None and base is not None and base not in ctx.prog.mro(f.cls): continue
                n += 1
                if f.name in ("register_y", "solve", "propagate_to_parent", "propagate_to_child"): ctx.ok("record", "%s:%d" % (f.module.rel, node.lineno), f.qual); continue
                if f.cls is not None and f.name == "__init__" and not own: pass
                ctx.bad("record", "%s:%d" % (f.module.rel, node.lineno), f.qual, "a solution is recorded outside the checked routes", f.qual + ":" + t.attr)
    ctx.count("solution_stores", n)
