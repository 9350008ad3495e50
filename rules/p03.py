"""P03 - structural and symmetric proofs use no sign that was not granted."""
import ast
from sa.util import *
from sa.sign import signs, num

TECHNIQUE = "abstract interpretation of the nonnegativity kernel over a sign grammar, and path-sensitive guard dataflow to every hand-out of a structural or symmetric result"
EXPLANATION = ("The rewriting that makes assumed signs explicit is interpreted path by path: every value it can return must be visibly nonnegative from the branch facts (even power, nonnegative "
  "constant, marker of a symbol, sum/product/quotient of rewritten parts). Every function that hands out a heuristic result must have passed it through that rewriting, must have substituted markers "
  "only by constraints that state the sign of that one symbol, and must have rejected results that still contain a marker. The routes that skip the rewriting (bivariate, quadratic forms, symmetric quartics) are judged "
  "by the same grammar, with even powers, tested weights and stated constraints as the only sources of nonnegativity. Not covered: that the closed formulas of the heuristics equal the polynomial (algebra).")

B = "triples.core.structsos."
KER = B + "solution.SolutionStructural._extract_nonnegative_exprs"
KINDS = {"Symbol": ("Symbol", "Dummy"), "Add": ("Add",), "Mul": ("Mul",), "Pow": ("Pow",), "CyclicSum": ("CyclicSum", "CyclicExpr"), "CyclicProduct": ("CyclicProduct", "CyclicExpr")}
NUMT = {"Number", "Rational", "Integer", "Float", "NumberSymbol"}

def run(ctx):
    ctx.rule("grammar", "every value the rewriting returns is visibly nonnegative")
    ctx.rule("square", "the predicate that exempts an expression from rewriting accepts only even powers and nonnegative constants")
    ctx.rule("guard", "a heuristic result is handed out only after rewriting, substitution and rejection of leftover markers")
    ctx.rule("grant", "markers are substituted only by a constraint that states the sign of that one symbol")
    ctx.rule("route", "the structural method returns only results of guarded routes")
    ctx.rule("shortcut", "the monomial shortcut is limited to nonnegative coefficients")
    ctx.rule("bivariate", "a bivariate result multiplies squares and proven factors with a nonnegative sign")
    ctx.rule("halfplane", "a bivariate result uses as many constraints as its degree parity requires, each with its own label")
    ctx.rule("weights", "sums of squares have tested nonnegative weights and even powers")
    ctx.rule("positive", "methods that need nonnegative variables run only when every variable is constrained")
    ctx.rule("pivot", "the pivoting proof multiplies a coefficient proof by a power only if that power is nonnegative")
    for fn in (check_grammar, check_guards, check_routes, check_bivariate, check_weights, check_univariate, check_positive, check_pivot): ctx.section(fn, ctx)

def _ok(ctx, rid, loc, q, what): ctx.ok(rid, loc, what)

# ------------------------------------------------------------------ small judgements
def isinst(k):
    """(subject, class names) of an isinstance test"""
    if k.op == "call" and callee(k) == "builtins.isinstance" and len(k.a[1]) == 2: return k.a[1][0], {n.split(".")[-1] for n in cls_names(k.a[1][1])}
    if k.op == "attr" and k.a[1] in ("is_Symbol", "is_Add", "is_Mul", "is_Pow", "is_Integer", "is_Rational", "is_Function"): return k.a[0], {k.a[1][3:]}
    return None, set()

def cname(t):
    """name of the called function, also for local functions"""
    if t.op != "call": return None
    n = callee_name(t)
    if n is None and t.a[0].op == "fn": n = t.a[0].a[0].split(".")[-1]
    return n

def is_int(t): return t.op == "c" and isinstance(cval(t), int) and not isinstance(cval(t), bool)
def mod2(t):
    if t.op == "bin" and t.a[0] == "Mod" and t.a[2].op == "c" and cval(t.a[2]) == 2: return t.a[1]
    if t.op == "bin" and t.a[0] == "BitAnd" and t.a[2].op == "c" and cval(t.a[2]) == 1: return t.a[1]

def parity(x, facts, d=0):
    """0, 1 or None"""
    if d > 6: return None
    v = num(x)
    if v is not None: return int(v) % 2 if v == int(v) else None
    for k, w in facts.items():
        if k.op == "eq":
            for i in (0, 1):
                y = mod2(k.a[i])
                if y is x and is_int(k.a[1 - i]):
                    c = cval(k.a[1 - i])
                    if c in (0, 1): return c if w else 1 - c
        elif mod2(k) is x: return 1 if w else 0
        elif k.op == "lt" and mod2(k.a[1]) is x and num(k.a[0]) == 0: return 1 if w else 0
        elif k.op == "attr" and k.a[0] is x and k.a[1] in ("is_even", "is_odd") and w: return 0 if k.a[1] == "is_even" else 1
    if x.op == "neg": return parity(x.a[0], facts, d + 1)
    if x.op == "bin" and x.a[0] in ("Add", "Sub"):
        a, b = parity(x.a[1], facts, d + 1), parity(x.a[2], facts, d + 1)
        if a is not None and b is not None: return (a + b) % 2
        p, q = x.a[1], x.a[2]                        # n - n % 2
        if x.a[0] == "Sub" and mod2(q) is p: return 0
    if x.op == "bin" and x.a[0] == "Mult":
        a, b = parity(x.a[1], facts, d + 1), parity(x.a[2], facts, d + 1)
        if a == 0 or b == 0: return 0
        if a == 1 and b == 1: return 1
    return None

def kinds_of(t, facts):
    """classes t can still be under isinstance facts"""
    out = set(KINDS)
    for k, v in facts.items():
        subj, ns = isinst(k)
        if subj is not t: continue
        hit = {K for K in out if ns & set(KINDS[K])}
        if v and not (ns & {"Expr", "Basic", "object"}): out &= hit
        elif not v:
            if ns & {"Expr", "Basic"}: return set()
            out -= hit
    return out

def cls_names(t):
    if t.op in ("tuple", "list"): return {n for x in t.a if isinstance(x, T) for n in cls_names(x)}
    if t.op in ("g", "cls", "fn"): return {t.a[0]}
    if t.op == "attr": return {t.a[1]}
    if t.op == "name" or t.op == "unbound": return {t.a[0]}
    return {str(t)}

def is_const(t, facts):
    """facts say t has no free symbols"""
    for k, v in facts.items():
        if k.op == "eq" and v is True:
            for i in (0, 1):
                s = k.a[1 - i]
                if num(k.a[i]) == 0 and s.op == "call" and callee(s) == "builtins.len" and fs(s.a[1][0]) is t: return True
        if fs(k) is t and v is False: return True
        if k.op == "lt" and v is False and num(k.a[0]) == 0 and k.a[1].op == "call" and callee(k.a[1]) == "builtins.len" and fs(k.a[1].a[1][0]) is t: return True
        if k.op == "attr" and k.a[0] is t and k.a[1] in ("is_number", "is_Number", "is_Rational", "is_Integer") and v is True: return True
        if k.op == "call" and k.a[0].op == "attr" and k.a[0].a[0] is t and k.a[0].a[1] in ("is_constant",) and v is True: return True
        if isinst(k)[0] is t and v is True and isinst(k)[1] <= NUMT: return True
    return False

def nonconst(t, facts):
    return any((k.op == "eq" and v is False and any(num(k.a[i]) == 0 and k.a[1 - i].op == "call" and callee(k.a[1 - i]) == "builtins.len" and fs(k.a[1 - i].a[1][0]) is t for i in (0, 1)))
        or (fs(k) is t and v is True) or (k.op == "lt" and v is True and num(k.a[0]) == 0 and k.a[1].op == "call" and callee(k.a[1]) == "builtins.len" and fs(k.a[1].a[1][0]) is t) for k, v in facts.items())

def fs(t):
    return t.a[0] if t.op == "attr" and t.a[1] == "free_symbols" else None

def nonneg_const(t, facts):
    if not is_const(t, facts): return None
    if -1 not in signs(facts, lambda u: u is t): return True
    for k, v in facts.items():
        if k.op == "attr" and k.a[0] is t:
            if k.a[1] in ("is_nonnegative", "is_positive", "is_zero") and v is True: return True
            if k.a[1] in ("is_negative", "is_extended_negative") and v is False: return True
    return False

def exponents(t):
    """the terms that denote the exponent of t"""
    return lambda x: (x.op == "item" and x.a[1] == 1 and x.a[0].op == "call" and callee_name(x.a[0]) == "as_base_exp" and x.a[0].a[0].a[0] is t) or \
        (x.op == "attr" and x.a[1] == "exp" and x.a[0] is t) or \
        (x.op == "item" and x.a[1] == 1 and x.a[0].op == "attr" and x.a[0].a[1] == "args" and x.a[0].a[0] is t) or \
        (x.op == "sub" and len(x.a) > 1 and isinstance(x.a[1], T) and num(x.a[1]) == 1 and x.a[0].op == "attr" and x.a[0].a[1] == "args" and x.a[0].a[0] is t)

def even_power(t, facts):
    """facts show that t is a power with an even exponent (or even numerator of the exponent)"""
    isexp = exponents(t)
    cand = set()
    for k in facts:
        for s in subterms(k):
            if isexp(s): cand.add(s)
            elif s.op == "attr" and s.a[1] in ("p", "numerator") and isexp(s.a[0]): cand.add(s)
    return any(parity(c, facts) == 0 for c in cand)

def arg_item(t):
    return (t.op in ("item", "sub")) and t.a[0].op == "attr" and t.a[0].a[1] == "args"

# ------------------------------------------------------------------ grammar
def marker_names(ctx, parent):
    """local names of the kernel bound to Function(func_name)"""
    out = {}
    for n in ast.walk(parent.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            r = ctx.prog.resolve_expr(n.value.func, parent.module, parent)
            if getattr(r, "qual", "").split(".")[-1] == "Function": out[n.targets[0].id] = n.value
    return out

def check_grammar(ctx):
    par = find(ctx, "grammar", KER)
    if par is None: return
    subs = [f for f in ctx.prog.funcs.values() if f.parent is par and "<lambda>" not in f.qual]
    marks = marker_names(ctx, par)
    recs = [f for f in subs if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == f.name for n in ast.walk(f.node))]
    recs += [f for f in ctx.prog.funcs.values() if f.qual == KER and not recs]
    # a kernel moved to a new method
    if not subs:
        recs = [f for f in ctx.prog.funcs.values() if is_new(f) and f.module is par.module and any(isinstance(n, ast.Call) and getattr(n.func, "attr", getattr(n.func, "id", None)) == f.name for n in ast.walk(f.node))]
    if not recs: ctx.unres("grammar", "no recursive rewriting found in %s" % KER); return
    for f in recs: judge_kernel(ctx, par, f, marks)
    # the outer function returns the rewritten expression or None
    ex = runf(ctx, "grammar", par, inline=lambda g: is_new(g))
    rq = {f.qual for f in recs}
    for x in ex or []:
        if x.kind != "return" or x.val is NONE: continue
        v = x.st.expand(x.val)
        if v.op == "call" and (called(v) in rq or callee_name(v) in {f.name for f in recs}): _ok(ctx, "grammar", x.loc, par.qual, "the rewriting returns the rewritten expression")
        elif v.op == "p" or v is T("p", "expr"):
            ctx.bad("grammar", x.loc, par.qual, "the expression is returned without being rewritten", "raw", path_of(x))
        else: ctx.unres("grammar", "%s returns %s" % (par.qual, str(v)[:120]))

def called(t):
    """qualified name of the function a call term refers to"""
    f = t.a[0]
    if f.op in ("fn", "g"): return f.a[0]
    return None

def judge_kernel(ctx, par, f, marks):
    pn = [a for a in f.args if a not in ("self", "cls")][0]
    preds = {}
    for g in ctx.prog.funcs.values():
        if g.parent is f or g.parent is par and g is not f: preds[g.name] = g
    ex = runf(ctx, "grammar", f, merge=False, inline=lambda g: is_new(g) or (g.parent is f and "<lambda>" not in g.qual), max_states=20000)
    if ex is None: return
    pargs = set(par.args)
    def rec(t):
        return t.op == "call" and (called(t) == f.qual or callee_name(t) == f.name)
    def marker(t):
        if t.op != "call": return False
        h = t.a[0]
        if h.op == "unbound" and h.a[0] in marks: return True
        return h.op == "call" and callee_name(h) == "Function"
    def external(t):
        return t.op == "call" and t.a[0].op == "unbound" and t.a[0].a[0] in pargs
    def ok(t, facts, st, arg, d=0):
        """True / False / None"""
        if d > 10: return None
        v = num(t)
        if v is not None: return v >= 0
        if rec(t) or external(t): return True
        if marker(t):
            a = call_args(t)
            return True if a and (a[0] is arg or a[0].op in ("item", "attr", "bv")) else None
        if t.op == "bin":
            if t.a[0] in ("Add", "Mult", "Div"):
                r = [ok(t.a[1], facts, st, arg, d + 1), ok(t.a[2], facts, st, arg, d + 1)]
                return False if False in r else None if None in r else True
            if t.a[0] == "Pow": return okpow(t.a[1], t.a[2], facts, st, arg, d)
            if t.a[0] == "Sub": return False if ok(t.a[2], facts, st, arg, d + 1) else None
        if t.op == "neg": return False if ok(t.a[0], facts, st, arg, d + 1) else None
        if t.op == "call" and callee_name(t) == "Pow" and len(t.a[1]) >= 2: return okpow(t.a[1][0], t.a[1][1], facts, st, arg, d)
        if t.op == "call" and (callee_name(t) in ("Add", "Mul", "prod", "sum") or rebuilt(t, arg)):
            ks = kinds_of(arg, facts)
            targs = t.a[1]
            if rebuilt(t, arg) and ks and ks <= {"CyclicSum", "CyclicProduct"}: targs = targs[:1]   # the symbols and the group follow
            items = star_elems([st.expand(x) for x in targs])
            if items is None and len(targs) == 1: items = elems(st.expand(targs[0]))
            if items is None: return None
            if rebuilt(t, arg) and not ks <= {"Add", "Mul", "CyclicSum", "CyclicProduct"}: return False
            r = [ok(e, facts, st, arg, d + 1) for e, it, cs in items]
            if rebuilt(t, arg) and ks <= {"Add", "Mul"} and any(cs for e, it, cs in items): return None
            return False if False in r else None if None in r else True
        if t.op == "call" and callee_name(t) in ("CyclicSum", "CyclicProduct", "SymmetricSum", "SymmetricProduct"):
            a = call_args(t)
            return ok(a[0], facts, st, arg, d + 1) if a else None
        if t.op == "call" and callee_name(t) in ("abs", "Abs"): return True
        if raw(t, facts, arg): return True
        if t is arg or (t.op in ("item", "attr", "bv", "sub") and any(s is arg for s in subterms(t))): return False
        if t.op == "call" and callee_name(t) in ("sympify", "S", "together", "doit", "expand", "factor", "simplify"):
            a = call_args(t); return ok(a[0] if a else t.a[0].a[0], facts, st, arg, d + 1)
        return None
    def rebuilt(t, arg):
        return t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "func" and t.a[0].a[0] is arg
    def okpow(b, e, facts, st, arg, d):
        p = parity(e, facts)
        if p == 0: return True
        r = ok(b, facts, st, arg, d + 1)
        if r is True: return True
        isexp = exponents(arg)
        if any(isexp(s) for s in subterms(e)) or p == 1: return False if r is False else r
        return None if r is None else r
    def raw(t, facts, arg):
        if is_const(t, facts): return bool(nonneg_const(t, facts))
        if even_power(t, facts): return True
        for k, v in facts.items():
            if v is True and k.op == "call" and cname(k) in preds and call_args(k) and call_args(k)[0] is t: return True
        ks = kinds_of(t, facts)
        if t is arg:
            if not ks: return True                      # nothing that can be negative by construction is left
            if ks <= {"CyclicSum", "CyclicProduct"}:
                for b in bases(t, facts):
                    if raw(b, facts, arg): return True
                    if kinds_of(b, facts) <= {"Mul"} and all_squares(b, facts): return True
        return False
    def bases(t, facts):
        out = set()
        for k in facts:
            for s in subterms(k):
                if arg_item(s) and s.a[0].a[0] is t and (s.a[1] == 0 or (isinstance(s.a[1], T) and num(s.a[1]) == 0)): out.add(s)
        return out
    def all_squares(b, facts):
        for k, v in facts.items():
            q = forall(k, v)
            if q is None or not q[2]: continue
            src, pr, _, conds = q
            if src.op == "attr" and src.a[1] == "args" and src.a[0] is b and not conds and pr.op == "call" and (cname(pr) in preds or is_new_call(pr)): return True
        return False
    def is_new_call(t):
        q = called(t)
        return q in ctx.prog.funcs and is_new(ctx.prog.funcs[q])
    for x in ex:
        if x.kind != "return": continue
        v = x.st.expand(x.val)
        # the argument term as it appears in the facts
        a0 = T("p", pn)
        r = ok(v, x.facts, x.st, a0)
        what = "the rewriting returns %s for %s" % (str(v)[:80], describe(x.facts, a0))
        if r is None: ctx.unres("grammar", "%s %s" % (x.loc, what))
        else: ctx.decide(r, "grammar", x.loc, f.qual, what + (": visibly nonnegative" if r else ", which is not shown to be nonnegative"), "grammar", what, path_of(x))
    used = set()
    for x in ex:
        for k in x.facts:
            for s in subterms(k):
                if s.op == "call" and cname(s) in preds: used.add(cname(s))
    for n in sorted(used): judge_predicate(ctx, preds[n])

def describe(facts, arg):
    ks = kinds_of(arg, facts)
    if is_const(arg, facts): return "a constant"
    return "/".join(sorted(ks)) or "an opaque expression"

def judge_predicate(ctx, g):
    pn = [a for a in g.args if a not in ("self", "cls")][0]
    ex = runf(ctx, "square", g, merge=False)
    for x in ex or []:
        if x.kind != "return": continue
        f = facts_when(ctx.prog, x, True)
        if f is None: continue
        p = T("p", pn)
        if not any(s is p for k in f for s in subterms(k)): ctx.unres("square", "%s accepts without a test at %s" % (g.qual, x.loc)); continue
        good = even_power(p, f) or bool(nonneg_const(p, f)) or any(k.op == "call" and callee_name(k) == g.name and v is True for k, v in f.items())
        if good: _ok(ctx, "square", x.loc, g.qual, "accepts an even power or a nonnegative constant")
        elif any(v is True and k.op == "call" and called(k) and called(k) != g.qual for k, v in f.items()): ctx.unres("square", "%s relies on %s" % (g.qual, [str(k)[:60] for k, v in f.items()][:4]))
        else: ctx.bad("square", x.loc, g.qual, "the predicate accepts an expression that is neither an even power nor a nonnegative constant", "square", ["%s is %s" % (k, v) for k, v in f.items()])

# ------------------------------------------------------------------ guards
KERN = "_extract_nonnegative_exprs"
CHAIN = {"xreplace", "subs", "together", "doit", "replace", "simplify", "factor", "expand", "radsimp", "signsimp", "as_expr", "cancel"}
GUARDED = [B + "ternary.solver.structural_sos_3vars", B + "quarternary.solver.structural_sos_4vars", B + "constrained.acute.constrained_acute",
    B + "structsos._replace_nonnegative_symbols", "triples.core.symsos.symsos.SymmetricSOS"]

def chain(t):
    """values a result went through, from the outside in"""
    out = [t]
    while t.op == "call":
        if t.a[0].op == "attr" and t.a[0].a[1] in CHAIN: t = t.a[0].a[0]
        elif callee_name(t) in ("together", "radsimp", "signsimp", "factor", "expand", "sympify", "S") and len(call_args(t)) >= 1: t = call_args(t)[0]
        else: break
        out.append(t)
    return out

def fname(t):
    """argument of Function(...)"""
    return call_args(t)[0] if t.op == "call" and callee_name(t) == "Function" and call_args(t) else None

def check_guards(ctx):
    for q in GUARDED:
        f = find(ctx, "guard", q)
        if f is None: continue
        ex = runf(ctx, "guard", f, max_states=4000)
        for x in ex or []:
            if x.kind == "return" and x.val is not NONE: judge_guard(ctx, f, x)

def judge_guard(ctx, f, x):
    v = x.val
    if v is NONE: return
    if v.op == "call" and callee_name(v) and (callee_name(v).startswith("Solution")):
        s = call_kw(v, "solution", 1)
        if s is None: ctx.unres("guard", "%s: no solution argument" % x.loc); return
        v = s
    ch = chain(v)
    E = ch[-1]
    facts = x.facts
    if any(k.op == "isnone" and k.a[0] is v and w is True for k, w in facts.items()): return
    if not (E.op == "call" and callee_name(E) == KERN):
        if not any(s.op == "call" and callee_name(s) == KERN for s in subterms(v)):
            if v.op == "call" or v.op == "bin":
                ctx.bad("guard", x.loc, f.qual, "the result of the heuristics is handed out without the nonnegativity rewriting", "unguarded", path_of(x))
            else: ctx.unres("guard", "%s: %s" % (x.loc, str(v)[:100]))
        else: ctx.unres("guard", "%s: the rewriting is inside %s" % (x.loc, str(v)[:100]))
        return
    _ok(ctx, "guard", x.loc, f.qual, "the result went through the nonnegativity rewriting")
    n = call_kw(E, "func_name", 1)
    chk = call_kw(E, "extra_checker", 2)
    want = [n] if n is not None else []
    extra = None
    if chk is not None and chk is not NONE: extra = checker_class(ctx, f, chk, x)
    if n is None: want = [T("c", "_G")]
    need = [("marker", w) for w in want] + ([("extra", extra)] if extra is not None else [])
    for label, w in need:
        hits, other = [], []
        for k, val in facts.items():
            if k.op == "call" and k.a[0].op == "attr" and k.a[0].a[1] in ("has", "atoms", "find", "has_free") and call_args(k):
                for a in k.a[1]:
                    fn = fname(a)
                    if (fn is not None and fn is w) or (a is w): (hits if val is False else other).append((k.a[0].a[0], val))
            if k.op == "eq" and val is True and any(num(k.a[i]) == 0 for i in (0, 1)):
                for s in k.a:
                    if s.op == "call" and callee(s) == "builtins.len" and s.a[1][0].op == "call" and callee_name(s.a[1][0]) in ("atoms", "find"):
                        for a in call_args(s.a[1][0]):
                            fn = fname(a)
                            if (fn is not None and fn is w) or a is w: hits.append((s.a[1][0].a[0].a[0], False))
        same = [h for h in hits if h[0] is v]
        if same: _ok(ctx, "guard", x.loc, f.qual, "leftover markers of the returned expression are rejected")
        elif hits and any(h[0] in ch for h in hits) and harmless(ch, [h[0] for h in hits], w): _ok(ctx, "guard", x.loc, f.qual, "leftover markers of the returned expression are rejected")
        elif any(o[0] in ch for o in other): ctx.bad("guard", x.loc, f.qual, "a result that still contains markers of ungranted signs is handed out", "leftover", path_of(x))
        elif hits: ctx.bad("guard", x.loc, f.qual, "the test for leftover markers is made on another expression than the one handed out", "leftover", path_of(x))
        elif any(k.op == "call" and k.a[0].op == "attr" and k.a[0].a[1] in ("has", "atoms", "find") and k.a[0].a[0] is v and not all(fname(a) is not None and fname(a) in [u for _, u in need] for a in k.a[1]) for k in facts): ctx.unres("guard", "%s: markers tested as %s" % (x.loc, str(w)[:80]))
        elif any(callee_name(k) not in (None, "is_symmetric", "is_cyclic", "verify_hom_cyclic", "any", "all", "has") and k.op == "call" and any(s is v for s in subterms(k)) for k in facts): ctx.unres("guard", "%s: result tested by an unknown predicate" % x.loc)
        else: ctx.bad("guard", x.loc, f.qual, "a result is handed out without rejecting leftover markers of ungranted signs", "leftover", path_of(x))
    for t in ch:
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("xreplace", "subs", "replace") and t is not E:
            for m in t.a[1]: judge_replacement(ctx, f, x, m, want, extra)

def harmless(ch, tested, w):
    """steps applied after the test bring no marker in"""
    i = min(ch.index(t) for t in tested if t in ch)
    return not any(s is w or fname(s) is w for t in ch[:i] for a in (t.a[1] if t.op == "call" else ()) for s in subterms(a))

def checker_class(ctx, f, chk, x):
    """class whose members the extra checker lets through"""
    q = chk.a[0] if chk.op in ("lambda", "fn", "g") else None
    g = ctx.prog.funcs.get(q) if isinstance(q, str) else None
    if g is None:
        for h in ctx.prog.funcs.values():
            if h.parent is f and ("<lambda>" in h.qual) and any(isinstance(n, ast.Call) and getattr(n.func, "id", None) == "isinstance" for n in ast.walk(h.node)): g = h
    if g is None: ctx.unres("guard", "extra checker of %s not understood" % f.qual); return None
    ex = runf(ctx, "guard", g)
    name = None
    for y in ex or []:
        if y.kind != "return" or y.val is NONE: continue
        fs_ = [isinst(k) for k, w in y.facts.items() if isinst(k)[0] is not None and w is True]
        if not fs_ or not any(k is y.val for k, w in fs_):
            ctx.bad("guard", y.loc, g.qual, "the extra checker lets expressions through that are not markers", "checker", path_of(y)); continue
        _ok(ctx, "guard", y.loc, g.qual, "the extra checker lets only markers through")
        name = [n for k, w in fs_ for n in w][0]
    if name is None: return None
    t = x.st.env.get(name.split(".")[-1])
    t = x.st.expand(t) if isinstance(t, T) else None
    n = fname(t) if t is not None else None
    return n if n is not None else None

def judge_replacement(ctx, f, x, m, want, extra):
    m = x.st.expand(m)
    if m.op == "call" and callee_name(m) == "dict" and len(m.a[1]) == 1 and not m.a[2] and m.a[1][0].op == "call": return   # renaming of variables
    entries = []
    if m.op == "dict":
        for e in m.a:
            if not isinstance(e, T): continue
            if e.op == "each" and e.a[1].op == "kv": entries.append((e.a[1].a[0], e.a[1].a[1], e.a[2:], e.a[0]))
            elif e.op == "kv": entries.append((e.a[0], e.a[1], (), None))
            else: ctx.unres("grant", "%s: entry %s" % (x.loc, str(e)[:100]))
    else:
        ctx.unres("grant", "%s: substitution %s" % (x.loc, str(m)[:100])); return
    for k, v, conds, src in entries:
        n = fname(k.a[0]) if k.op == "call" else None
        if n is None: continue
        if src is None:
            if extra is not None and n is extra: _ok(ctx, "grant", x.loc, f.qual, "marker of a stated constraint"); continue
            ctx.unres("grant", "%s: %s -> %s" % (x.loc, str(k)[:60], str(v)[:60])); continue
        if n not in want: ctx.unres("grant", "%s: other marker %s" % (x.loc, str(k)[:80])); continue
        # the constraint the symbol comes from
        cons = [s for s in subterms(k) if s.op == "item" and s.a[0].op == "bv" or s.op == "bv"]
        sym = call_args(k)[0] if call_args(k) else None
        c = None
        if sym is not None:
            for s in subterms(sym):
                if fs(s) is not None: c = fs(s); break
        if c is None: ctx.unres("grant", "%s: symbol of %s" % (x.loc, str(k)[:80])); continue
        cf = conjuncts(conds)
        one = any(kk.op == "eq" and w and any(num(kk.a[i]) == 1 and kk.a[1 - i].op == "call" and callee(kk.a[1 - i]) == "builtins.len" and fs(kk.a[1 - i].a[1][0]) is c for i in (0, 1)) for kk, w in cf.items())
        mono = any(kk.op == "attr" and kk.a[0] is c and kk.a[1] in ("is_monomial",) and w for kk, w in cf.items())
        lc = lambda t: t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("LC",) and t.a[0].a[0] is c
        pos = -1 not in signs(cf, lc)
        unk = [kk for kk in cf if kk.op == "call" and any(s is c for s in subterms(kk)) and callee_name(kk) not in ("LC",)]
        lin = any(kk.op == "attr" and kk.a[0] is c and kk.a[1] == "is_linear" and w for kk, w in cf.items())
        for cond, what, key in ((mono, "a constraint that is a single monomial", "monomial"), (pos, "a constraint with a nonnegative coefficient", "coefficient")):
            if not cond and unk: ctx.unres("grant", "%s: tested by %s" % (x.loc, [str(u)[:60] for u in unk])); continue
            ctx.decide(cond, "grant", x.loc, f.qual, ("the marker is substituted only by " if cond else "the marker of a symbol is substituted without testing for ") + what, key, what, [str(z)[:160] for z in conds])
        if not one:
            if unk: ctx.unres("grant", "%s: single symbol tested by %s" % (x.loc, [str(u)[:60] for u in unk]))
            else: ctx.bad("grant", x.loc, f.qual, "the marker of a symbol is substituted by a constraint in several symbols", "single", [str(z)[:160] for z in conds])
        else: _ok(ctx, "grant", x.loc, f.qual, "the constraint is in that symbol only")
        # the value is the label divided by the leading coefficient
        if v.op == "bin" and v.a[0] == "Div" and lc(v.a[2]):
            lab = v.a[1]
            okk = label_of(lab, c)
            if okk is None: ctx.unres("grant", "%s: label %s" % (x.loc, str(lab)[:80]))
            else: ctx.decide(okk, "grant", x.loc, f.qual, "the label of the same constraint, divided by its coefficient" if okk else "the marker is substituted by the label of another constraint", "label", str(v)[:120], [])
        elif label_of(v, c) and not any(kk.op == "eq" and w and any(num(kk.a[i]) == 1 and lc(kk.a[1 - i]) for i in (0, 1)) for kk, w in cf.items()):
            ctx.bad("grant", x.loc, f.qual, "the label replaces the symbol without being divided by the coefficient of the constraint", "scale", [str(v)[:160]])
        else: ctx.unres("grant", "%s: value %s" % (x.loc, str(v)[:100]))

def label_of(lab, c):
    """lab is the dict value stored under the constraint c"""
    if lab.op == "item" and c.op == "item" and lab.a[0] is c.a[0]: return lab.a[1] != c.a[1]
    if lab.op == "sub" and len(lab.a) > 1 and isinstance(lab.a[1], T): return lab.a[1] is c
    if lab.op == "call" and callee_name(lab) == "get" and call_args(lab): return call_args(lab)[0] is c
    if lab.op == "val" and len(lab.a) > 1: return lab.a[1] is c
    return None

def conjuncts(conds):
    out = {}
    def go(t, v):
        if t.op == "not": go(t.a[0], not v)
        elif t.op == "and" and v:
            for s in t.a: go(s, True)
        elif t.op == "or" and not v:
            for s in t.a: go(s, False)
        else: out[t] = v
    for c in conds:
        if isinstance(c, T): go(c, True)
    return out

# ------------------------------------------------------------------ routes
ALLOWED = {"structural_sos_2vars", "structural_sos_3vars", "structural_sos_4vars", "sos_struct_nvars_quartic_symmetric", "sos_struct_quadratic", "structural_sos_constrained", "_replace_nonnegative_symbols"}
RAWROUTES = {"sos_struct_linear", "sos_struct_common", "_structural_sos_3vars_cyclic", "_structural_sos_3vars_acyclic", "_structural_sos_4vars_symmetric", "_structural_sos_4vars_cyclic", "as_expr", "_structural_sos_4vars_partial_symmetric"}
def check_routes(ctx):
    f = find(ctx, "route", B + "structsos._structural_sos")
    if f is not None:
        for x in runf(ctx, "route", f) or []:
            if x.kind != "return" or x.val is NONE: continue
            v = x.st.expand(x.val)
            ch = chain(v)
            base = ch[-1]
            nm = callee_name(base) if base.op == "call" else None
            if nm == "as_expr" or (base.op == "call" and base.a[0].op == "attr" and base.a[0].a[1] == "as_expr"): nm = "as_expr"
            if any(c.op == "call" and callee_name(c) == "as_expr" for c in ch): nm = "as_expr"
            if nm in ALLOWED: _ok(ctx, "route", x.loc, f.qual, "result of the guarded route %s" % nm)
            elif nm == KERN or (v.op == "call" and any(s.op == "call" and callee_name(s) == KERN for s in subterms(v))): judge_guard(ctx, f, x)
            elif nm in RAWROUTES or base.op == "p" or v.op == "bin": ctx.bad("route", x.loc, f.qual, "the result of %s is handed out although its signs were never checked" % (nm or str(v)[:60]), "route", path_of(x))
            else: ctx.unres("route", "%s returns %s" % (x.loc, str(v)[:100]))
            if nm in ("_replace_nonnegative_symbols", "as_expr") or any(k.op == "attr" and k.a[1] == "is_monomial" and w is True for k, w in x.facts.items()):
                lc = lambda t: t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "LC"
                if nm in ("_replace_nonnegative_symbols", "as_expr"):
                    s = signs(x.facts, lc)
                    # the kernel rejects negative constants as well: only the raw form depends on this test
                    if -1 in s and nm == "as_expr": ctx.bad("shortcut", x.loc, f.qual, "a monomial with a negative coefficient is handed out", "shortcut", path_of(x))
                    else: _ok(ctx, "shortcut", x.loc, f.qual, "monomials are rewritten, with a nonnegative coefficient")
    # the constrained routes
    m = ctx.prog.modules.get(B + "constrained.solver")
    if m is not None and "_SOLVERS" in m.assigns:
        for e in m.assigns["_SOLVERS"]:
            for el in getattr(e, "elts", []):
                r = ctx.prog.resolve_expr(el, m)
                q = getattr(r, "qual", None)
                if q in GUARDED: _ok(ctx, "route", "%s:%d" % (m.path, el.lineno), m.name, "constrained solver %s is guarded" % q)
                elif isinstance(r, Func):
                    ex = runf(ctx, "route", r)
                    for x in ex or []:
                        if x.kind == "return" and x.val is not NONE: judge_guard(ctx, r, x)
    f = find(ctx, "route", B + "structsos.StructuralSOS")
    if f is not None:
        for x in runf(ctx, "route", f) or []:
            if x.kind != "return" or x.val is NONE: continue
            v = x.st.expand(x.val)
            if v.op != "call" or callee_name(v) != "SolutionStructural": ctx.unres("route", "%s returns %s" % (x.loc, str(v)[:80])); continue
            s = call_kw(v, "solution", 1)
            nn = any(k.op == "isnone" and k.a[0] is s and w is False for k, w in x.facts.items())
            ctx.decide(nn, "route", x.loc, f.qual, "a certificate is made only of a found solution" if nn else "a certificate is made although no solution was found", "none", str(s)[:100], path_of(x))

# ------------------------------------------------------------------ bivariate
def check_bivariate(ctx):
    q = B + "pivoting.bivariate."
    f = find(ctx, "bivariate", q + "structural_sos_2vars")
    if f is not None: factor_loop(ctx, f)
    f = find(ctx, "halfplane", q + "_sos_struct_bivariate_linear_ineq")
    if f is not None: halfplane(ctx, f)

def factor_loop(ctx, f):
    base = {}
    def on_loop(func, node, it, el, start, results):
        if func is not f or not any(s.op == "call" and callee_name(s) in ("factor_list", "sqf_list") for s in subterms(it)): return
        fac = lambda t: t.op == "item" and t.a[1] == 0 and t.a[0] is el
        mul = lambda t: t.op == "item" and t.a[1] == 1 and t.a[0] is el
        for kind, st, val, nd in results:
            if kind not in ("continue", "fall"): continue
            new = [e for e in st.events[len(start.events):]] if hasattr(st, "events") else []
            facts = st.facts
            # what was appended in this round
            app = None
            for nm, t in st.env.items():
                o = start.env.get(nm)
                if o is t or not isinstance(t, T): continue
                a, b = st.expand(t), start.expand(o) if isinstance(o, T) else None
                if a.op == "list" and b is not None and b.op == "list" and len(a.a) > len(b.a): app = a.a[-1]
            sols = appended(start, st)
            if sols: app = sols[-1]
            flipped = None
            for nm, t in st.env.items():
                o = start.env.get(nm)
                same = lambda u: u is o or (u.op == "phi" and u.a[1] == nm)
                if isinstance(t, T) and isinstance(o, T) and t.op == "neg" and same(t.a[0]): flipped = nm
                elif isinstance(t, T) and isinstance(o, T) and t.op == "bin" and t.a[0] == "Mult" and any(same(u) for u in t.a[1:]) and any(num(u) == -1 for u in t.a[1:]): flipped = nm
            loc = "%s:%d" % (f.module.path, node.lineno)
            if app is None: dropped(ctx, "bivariate", f, loc, facts); continue
            judge_factor(ctx, f, loc, app, fac, mul, facts, flipped)
    ex = runf(ctx, "bivariate", f, on_loop=on_loop)
    for x in ex or []:
        if x.kind != "return" or x.val is NONE: continue
        v = x.st.expand(x.val)
        ms = split_mul(v)
        sgn = [m for m in ms if not (m.op == "star" or (m.op == "call" and callee_name(m) in ("Mul", "prod")))]
        if len(sgn) != 1: ctx.unres("bivariate", "%s returns %s" % (x.loc, str(v)[:120])); continue
        s = sgn[0]
        if -1 not in signs(x.facts, lambda t: t is s): _ok(ctx, "bivariate", x.loc, f.qual, "the accumulated sign was tested nonnegative")
        elif any(k.op in ("lt", "eq") for k in x.facts): ctx.bad("bivariate", x.loc, f.qual, "a product of proven factors is returned with a sign that was not tested nonnegative", "sign", path_of(x))
        else: ctx.bad("bivariate", x.loc, f.qual, "a product of proven factors is returned without testing its sign", "sign", path_of(x))

def appended(start, st):
    """what was appended to local lists between two states"""
    out = []
    for nm, t in st.env.items():
        if not isinstance(t, T): continue
        o = start.env.get(nm)
        if not isinstance(o, T): continue
        a, b = st.expand(t), start.expand(o)
        if a is b: continue
        if a.op in ("list", "set") and b.op == a.op: out += [y for y in a.a[len(b.a):]]
        elif a.op in ("ext", "mut") : out += [y for y in a.a[1:] if isinstance(y, T)]
    return out

def dropped(ctx, rid, f, loc, facts):
    """an iteration that adds nothing although a proof was not found leaves a factor out"""
    if any(k.op == "isnone" and w is True and k.a[0].op == "call" for k, w in facts.items()): ctx.bad(rid, loc, f.qual, "a factor whose proof was not found is left out of the product", "dropped", [str(k)[:120] for k in facts])
    else: ctx.unres(rid, "%s: nothing appended" % loc)

def judge_factor(ctx, f, loc, app, fac, mul, facts, flipped):
    if app.op == "each": app = app.a[1]
    b, e = None, None
    if app.op == "bin" and app.a[0] == "Pow": b, e = app.a[1], app.a[2]
    elif app.op == "call" and callee_name(app) == "Pow" and len(app.a[1]) > 1: b, e = app.a[1][0], app.a[1][1]
    else: b, e = app, T("c", 1)
    if b.op == "call" and b.a[0].op == "attr" and b.a[0].a[1] == "as_expr": b = b.a[0].a[0]
    if fac(b):
        p = parity(e, facts)
        ctx.decide(p == 0, "bivariate", loc, f.qual, "a factor is taken unproven only with an even multiplicity" if p == 0 else "a factor is taken unproven although its multiplicity is not even", "even", str(app)[:120], [str(k)[:120] for k in facts])
        if flipped: ctx.bad("bivariate", loc, f.qual, "the sign is flipped for a factor that enters as it is", "flip", [])
        return
    if b.op == "call" and callee_name(b):
        a = call_kw(b, "poly", 0)
        neg = a is not None and a.op == "neg" and fac(a.a[0])
        pos = a is not None and fac(a)
        if not (neg or pos): ctx.unres("bivariate", "%s: %s" % (loc, str(b)[:100])); return
        nn = any(k.op == "isnone" and k.a[0] is b and w is False for k, w in facts.items())
        ctx.decide(nn, "bivariate", loc, f.qual, "the factor proof exists" if nn else "a factor is used without a proof", "proof", str(b)[:120], [str(k)[:120] for k in facts])
        p = parity(e, facts)
        if p == 0: return
        odd = mul(e) or p == 1
        if not odd: ctx.unres("bivariate", "%s: exponent %s" % (loc, str(e)[:60])); return
        ctx.decide(bool(flipped) == neg, "bivariate", loc, f.qual, "the sign is flipped exactly when the opposite factor was proven" if bool(flipped) == neg else
            ("the opposite of a factor is proven but the sign is not flipped" if neg else "the sign is flipped although the factor itself was proven"), "flip", str(b)[:120], [])
        return
    ctx.unres("bivariate", "%s: factor %s" % (loc, str(app)[:100]))

def halfplane(ctx, f):
    """the constraints used match the parity of the degree"""
    lab = {}
    def on_loop(func, node, it, el, start, results):
        pass
    ex = runf(ctx, "halfplane", f, inline=lambda g: is_new(g), max_states=6000, want=lambda t: t.op == "call" and callee_name(t) == "add")
    if ex is None: return
    # constraints enter with their own label
    for e in events(ex, lambda e: e.kind == "call" and e.term.op == "call" and callee_name(e.term) == "add" and len(call_args(e.term)) >= 2 and e.term.a[0].op in ("attr", "fn", "g")):
        t = e.term
        args = list(t.a[1]) + [v for _, v in t.a[2]]
        args = [e.st.expand(a) for a in args if not (a.op == "new" or a.op == "obj")]
        nv = next((a for a in args if a.op == "tuple"), None)
        if nv is None: continue
        lb = args[-1]
        srcs = {s.a[0].a[0] for a in nv.a if isinstance(a, T) for s in subterms(a) if s.op == "call" and s.a[0].op == "attr" and s.a[0].a[1] == "coeff_monomial"}
        if len(srcs) != 1: ctx.unres("halfplane", "%s: normal %s" % (e.loc, str(nv)[:100])); continue
        c = srcs.pop()
        mon = [cval_t(call_args(a)[0]) if a.op == "call" and callee_name(a) == "coeff_monomial" else None for a in nv.a]
        if None not in mon: ctx.decide(mon == [(1, 0), (0, 1)], "halfplane", e.loc, f.qual, "the normal of the half-plane is the coefficients of the constraint" if mon == [(1, 0), (0, 1)] else "the normal of the half-plane is %s of the constraint" % (mon,), "normal", str(mon), [])
        okk = label_of(lb, c)
        if okk is None: ctx.unres("halfplane", "%s: label %s" % (e.loc, str(lb)[:80]))
        else: ctx.decide(okk, "halfplane", e.loc, f.qual, "a half-plane carries the label of its own constraint" if okk else "a half-plane carries the label of another constraint", "label", str(lb)[:80], [])
        lin = any(k.op == "attr" and k.a[1] == "is_linear" and k.a[0] is c and w is True for k, w in e.facts.items()) or \
            any(k.op == "eq" and w is True and any(num(k.a[i]) == 1 and k.a[1 - i].op == "call" and callee_name(k.a[1 - i]) in ("total_degree", "homogeneous_order", "degree") for i in (0, 1)) for k, w in e.facts.items())
        src = iter_src(c)
        if src is not None and "eq_constraints" in str(src) and "ineq" not in str(src): ctx.bad("halfplane", e.loc, f.qual, "an equality constraint is used as an inequality", "source", [str(src)])
        weakp = lambda k: k.op == "attr" and k.a[0] is c and k.a[1] in ("is_homogeneous", "is_monomial", "is_univariate", "is_irreducible", "is_sqf", "is_primitive", "is_monic", "is_zero")
        if not lin and any(any(s is c for s in subterms(k)) and not weakp(k) for k in e.facts): ctx.unres("halfplane", "%s: linearity tested otherwise %s" % (e.loc, [str(k)[:100] for k in e.facts if any(s is c for s in subterms(k)) and not weakp(k)]))
        else: ctx.decide(lin, "halfplane", e.loc, f.qual, "only linear constraints are read as half-planes" if lin else "a nonlinear constraint is read as a half-plane", "linear", str(c)[:80], [str(k)[:100] for k in e.facts])
    # the interval handed to the univariate prover and the labels in the result
    for x in ex:
        if x.kind != "return" or x.val is NONE: continue
        v = x.val
        facts = x.facts
        n = count_of(facts)
        if n is None: ctx.unres("halfplane", "%s: number of constraints unknown" % x.loc); continue
        pr = [s for s in subterms(v) if s.op == "call" and callee_name(s) == "prove_univariate_interval"]
        for p in pr[:1]:
            iv = call_kw(p, "interval", 1)
            lo = bound_val(iv, 0); hi = bound_val(iv, 1)
            want = ("-oo", "oo") if n < 2 else ("0", "oo")
            if lo is None or hi is None: ctx.unres("halfplane", "%s: interval %s" % (x.loc, iv))
            else:
                good = hi == "oo" and (lo == "-oo" or (lo == "0" and n == 2))
                ctx.decide(good, "halfplane", x.loc, f.qual, "with %d constraints the polynomial is proven on (%s, %s)" % (n, lo, hi), "interval", "", path_of(x))
            nn = any(k.op == "isnone" and k.a[0] is p and w is False for k, w in facts.items())
            ctx.decide(nn, "halfplane", x.loc, f.qual, "the univariate proof exists" if nn else "the univariate proof is used without being found", "proof", "", path_of(x))
        d = degree_parity(facts)
        if n == 0:
            if d is None: ctx.bad("halfplane", x.loc, f.qual, "without constraints a form is proven without testing that its degree is even", "parity", path_of(x)); continue
            ctx.decide(d == 0, "halfplane", x.loc, f.qual, "without constraints only forms of even degree are proven" if d == 0 else "without constraints a form of odd degree is presented as proven", "parity", "", path_of(x))
            continue
        terms = summands(v)
        labs = [labels_in(t) for t in terms]
        for t, l in zip(terms, labs):
            raw = [y for y in split_mul(t) if any(s.op == "item" and s.a[1] == 0 and "as_bounds" in str(s) for s in subterms(y)) and not any(s.op == "call" and cname(s) in ("_hom_sos", "prove_univariate_interval") for s in subterms(y))]
            if l is None and raw: ctx.bad("halfplane", x.loc, f.qual, "a term is multiplied by the bare linear form of a constraint instead of its label", "raw", [str(raw[0])[:200]])
        if any(l is None for l in labs): ctx.unres("halfplane", "%s: terms %s" % (x.loc, str(v)[:150])); continue
        degs = [homdeg(t) for t in terms]
        if d is None:
            if any(k.op == "eq" and w is True and any(num(k.a[i]) == 0 for i in (0, 1)) for k, w in facts.items()): continue
            ctx.unres("halfplane", "%s: degree parity unknown" % x.loc); continue
        for t, l, g in zip(terms, labs, degs):
            good = sum(l.values()) % 2 == d
            ctx.decide(good, "halfplane", x.loc, f.qual, "a term of a form of %s degree has %d constraint factor(s)" % ("odd" if d else "even", sum(l.values())), "labels", str(t)[:100], path_of(x))
            if g is not None:
                # number of label factors + degree of the square part = degree of the form
                ctx.decide(g == -sum(abs(y) for y in l.values()) if all(y > 0 for y in l.values()) else True, "halfplane", x.loc, f.qual, "the square part has the remaining degree d%+d" % g, "degree", str(t)[:100], path_of(x))
        if n == 1:
            pass

def iter_src(c):
    while c.op in ("item", "sub"): c = c.a[0]
    return c.a[0] if c.op == "bv" else None

def cval_t(t):
    if t.op == "c": return cval(t)
    if t.op == "tuple": return tuple(cval_t(x) for x in t.a)
    return None

def bound_val(iv, i):
    if iv is None or iv.op not in ("tuple", "list") or len(iv.a) != 2: return None
    t = iv.a[i]
    s = str(t)
    if t.op == "neg" and "oo" in str(t.a[0]) or s.endswith("NegativeInfinity"): return "-oo"
    if t is NONE: return "-oo" if i == 0 else "oo"
    v = num(t)
    if v == float("inf"): return "oo"
    if v is not None: return "0" if v == 0 else str(v)
    if s.endswith("oo'") or s.endswith("oo") or s.endswith("Infinity"): return "oo"
    return None

def count_of(facts):
    """number of half-planes known from len(bounds) == k facts"""
    for k, w in facts.items():
        if k.op == "eq" and w is True:
            for i in (0, 1):
                if is_int(k.a[i]) and k.a[1 - i].op == "call" and callee(k.a[1 - i]) == "builtins.len" and "as_bounds" in str(k.a[1 - i]): return cval(k.a[i])
        if k.op == "call" and callee_name(k) == "as_bounds" and w is False: return 0
    return None

def degree_parity(facts):
    for k, w in facts.items():
        for s in (k.a if k.op == "eq" else (k,)):
            y = mod2(s) if isinstance(s, T) else None
            if y is not None and callee_name(y) in ("homogeneous_order", "total_degree", "degree"): return parity(y, facts)
    return None

def summands(t):
    if t.op == "bin" and t.a[0] == "Add": return summands(t.a[1]) + summands(t.a[2])
    if t.op == "call" and callee_name(t) in ("Add",) and t.a[1] and not any(x.op == "star" for x in t.a[1]): return [y for x in t.a[1] for y in summands(x)]
    return [t]

def labels_in(t):
    """label factors of a product and their exponents; None if not a product of labels and the square part"""
    out = {}
    sq = 0
    def go(x, k):
        nonlocal sq
        if x.op == "bin" and x.a[0] == "Mult": return go(x.a[1], k) and go(x.a[2], k)
        if x.op == "bin" and x.a[0] == "Div": return go(x.a[1], k) and go(x.a[2], -k)
        if x.op == "call" and callee_name(x) == "Mul": return all(go(y, k) for y in x.a[1])
        if x.op == "bin" and x.a[0] == "Pow" and is_int(x.a[2]): return go(x.a[1], k * cval(x.a[2]))
        if x.op == "call" and cname(x) in ("_hom_sos",): sq += 1; return k == 1
        if x.op == "item" and x.a[1] == 1 and "as_bounds" in str(x): out[x] = out.get(x, 0) + k; return True
        return False
    return out if go(t, 1) and sq == 1 else None

def homdeg(t):
    """degree argument of the square part relative to the form: 0, -1, -2 or None"""
    for s in subterms(t):
        if s.op == "call" and cname(s) == "_hom_sos":
            d = call_kw(s, "d", 2)
            if d is None: return None
            if d.op == "bin" and d.a[0] == "Sub" and is_int(d.a[2]): return -cval(d.a[2])
            if d.op == "call": return 0
    return None

# ------------------------------------------------------------------ weights
def squares(t, weight, free):
    """sum/product of weights and even powers.  weight(t): known nonnegative; free(t): known to have any sign.  True/False/None"""
    v = num(t)
    if v is not None: return v >= 0
    if weight(t): return True
    if t.op == "each": return squares(t.a[1], weight, free)
    if t.op == "bin":
        if t.a[0] in ("Add", "Mult", "Div"):
            r = [squares(t.a[1], weight, free), squares(t.a[2], weight, free)]
            return False if False in r else None if None in r else True
        if t.a[0] == "Pow":
            p = parity(t.a[2], {})
            if p == 0: return True
            r = squares(t.a[1], weight, free)
            if r is True: return True
            return False if p == 1 and (r is False or free(t.a[1])) else None
        if t.a[0] == "Sub": return False if squares(t.a[2], weight, free) is True else None
    if t.op == "neg": return False if squares(t.a[0], weight, free) is True else None
    if t.op == "call":
        n = callee_name(t)
        if n in ("sum", "Add", "Mul", "prod", "SymmetricSum", "CyclicSum", "CyclicProduct", "SymmetricProduct"):
            if n in ("SymmetricSum", "CyclicSum", "CyclicProduct", "SymmetricProduct"):
                a = [call_kw(t, "expr", 0)]
            else:
                a = []
                for y in t.a[1]:
                    if y.op in ("comp",): a.append(y.a[1])
                    elif y.op in ("list", "tuple", "star"):
                        el = elems(y)
                        if el is None: return None
                        a += [e for e, it, cs in el]
                    else: a.append(y)
            if any(y is None for y in a): return None
            r = [squares(y, weight, free) for y in a]
            return False if False in r else None if None in r else True
        if t.a[0].op == "attr" and t.a[0].a[1] in ("together", "expand", "simplify", "factor", "as_expr", "doit") : 
            r = squares(t.a[0].a[0], weight, free)
            if r is not None: return r
    if free(t): return False
    return None

def is_cong(t): return t.op == "call" and callee_name(t) in ("congruence", "_congruence")
def from_cong(i):
    return lambda t: any(s.op == "item" and s.a[1] == i and is_cong(s.a[0]) for s in subterms(t))

def check_weights(ctx):
    # congruence-based forms
    for q in (B + "sparse.sos_struct_quadratic", B + "nvars._sos_struct_nvars_quartic_symmetric_sdp.<locals>._get_solution"):
        f = ctx.prog.funcs.get(q)
        if f is None: ctx.unres("weights", "%s not found" % q); continue
        for x in runf(ctx, "weights", f, max_states=4000) or []:
            if x.kind != "return" or x.val is NONE: continue
            v = x.st.expand(x.val)
            if v is NONE: continue
            cs = [s for s in subterms(v) if is_cong(s)]
            alt = [s for s in subterms(v) if s.op == "call" and any(w in (callee_name(s) or "").lower() for w in ("ldl", "eigen", "cholesky", "diagonalize", "lu"))]
            if not cs and alt: ctx.bad("weights", x.loc, f.qual, "the weights come from %s, which does not refuse indefinite matrices" % callee_name(alt[0]), "alt", path_of(x)); continue
            if not cs: ctx.unres("weights", "%s: no decomposition in %s" % (x.loc, str(v)[:80])); continue
            nn = any(k.op == "isnone" and is_cong(k.a[0]) and w is False for k, w in x.facts.items())
            ctx.decide(nn, "weights", x.loc, f.qual, "used only when the matrix is positive semidefinite" if nn else "a decomposition is used that may not exist", "psd", "", path_of(x))
            w_ = from_cong(1); u_ = from_cong(0)
            r = squares(v, lambda t: t.op in ("sub", "item", "bv") and w_(t) and not u_(t), lambda t: (u_(t) and not w_(t)) or "gens" in str(t)[-200:] and t.op in ("bin",))
            if r is None: ctx.unres("weights", "%s: %s" % (x.loc, str(v)[:150]))
            else: ctx.decide(r, "weights", x.loc, f.qual, "weights of the decomposition times even powers of its rows" if r else "a row of the decomposition enters with an odd power or a negative factor", "even", str(v)[:150], path_of(x))
    f = find(ctx, "weights", B + "pivoting.univariate._raw_to_expr")
    if f is not None:
        for x in runf(ctx, "weights", f) or []:
            if x.kind != "return": continue
            v = x.st.expand(x.val)
            pol = lambda t: any(s.op == "item" and s.a[1] == 2 and s.a[0].op == "bv" for s in subterms(t))
            wt = lambda t: t.op in ("item", "sub", "bv") and any(s.op == "item" and s.a[1] in (0, 1) and s.a[0].op == "bv" for s in [t] + list(subterms(t))) and not pol(t)
            r = squares(v, wt, lambda t: pol(t))
            if r is None: ctx.unres("weights", "%s: %s" % (x.loc, str(v)[:150]))
            else: ctx.decide(r, "weights", x.loc, f.qual, "the polynomials of a raw proof enter squared" if r else "a polynomial of a raw proof enters with an odd power", "raw", str(v)[:150], [])
    # the square part of a bivariate proof
    q = B + "pivoting.bivariate._sos_struct_bivariate_linear_ineq.<locals>._hom_sos.<locals>.map_poly"
    f = ctx.prog.funcs.get(q)
    if f is not None:
        for x in runf(ctx, "weights", f) or []:
            if x.kind != "return": continue
            v = x.st.expand(x.val)
            r = squares(v, lambda t: False, lambda t: t.op in ("call", "unbound") )
            if r is None: ctx.unres("weights", "%s: %s" % (x.loc, str(v)[:150]))
            else: ctx.decide(r, "weights", x.loc, f.qual, "homogenised squares stay even powers" if r else "a homogenised square gets an odd power", "hom", str(v)[:150], [])

# ------------------------------------------------------------------ univariate
def triples(t):
    """(multiplier, coeffs, polys) of a raw proof term"""
    el = elems(t)
    if el is None: return None
    out = []
    for e, it, cs in el:
        if e.op == "tuple" and len(e.a) == 3: out.append((e.a[0], e.a[1], e.a[2]))
        elif e.op == "bin" and e.a[0] == "Add" and e.a[1].op == "tuple" and len(e.a[1].a) == 1: out.append((e.a[1].a[0], e.a[2], None))
        else: return None
    return out

def check_univariate(ctx):
    q = B + "pivoting.univariate."
    f = find(ctx, "weights", q + "_prove_univariate_simple")
    if f is not None:
        for x in runf(ctx, "weights", f, merge=False) or []:
            if x.kind != "return" or x.val is NONE: continue
            v = x.st.expand(x.val)
            ts = triples(v)
            if ts is None: ctx.unres("weights", "%s: %s" % (x.loc, str(v)[:100])); continue
            for mult, co, po in ts:
                cs = elems(co)
                if cs is None: ctx.unres("weights", "%s: %s" % (x.loc, str(co)[:100])); continue
                for c, it, _ in cs: coefficient(ctx, f, x, c)
    f = find(ctx, "weights", q + "_prove_univariate_irreducible")
    if f is not None:
        for x in runf(ctx, "weights", f, max_states=4000) or []:
            if x.kind != "return" or x.val is NONE: continue
            v = x.st.expand(x.val)
            cs = {s for s in subterms(v) if is_cong(s)}
            tops = [s for s in cs if not any(o is not s and any(y is s for y in subterms(o)) for o in cs)]
            for c in tops:
                good = any(nonneg_items(k, c, w) for k, w in x.facts.items()) or psd_fact(x, c)
                weak = any(any(s is c for s in subterms(k)) and k.op == "call" and callee_name(k) not in ("all", "any") for k in x.facts)
                if weak and not good: ctx.unres("weights", "%s: diagonal tested otherwise" % x.loc); continue
                ctx.decide(good, "weights", x.loc, f.qual, "every weight of the decomposition was tested nonnegative" if good else "a decomposition is used whose weights were not tested nonnegative", "diag", str(c)[:100], path_of(x))
            if not cs and v.op in ("list",):
                s = signs(x.facts, lambda t: t.op == "bv" and "all_coeffs" in str(t))
                if -1 in s and "all_coeffs" not in str(v): 
                    if any(k.op == "call" and callee_name(k) in ("all", "any") and "all_coeffs" in str(k) for k in x.facts):
                        good = any(nonneg_list(k, w) for k, w in x.facts.items())
                        ctx.decide(good, "weights", x.loc, f.qual, "coefficients are used as weights after testing all of them nonnegative", "coeffs", "", path_of(x))
                    else: ctx.bad("weights", x.loc, f.qual, "coefficients are used as weights without testing them nonnegative", "coeffs", path_of(x))
                else: _ok(ctx, "weights", x.loc, f.qual, "coefficients are used as weights after testing all of them nonnegative")
    f = find(ctx, "weights", q + "prove_univariate")
    if f is not None: factors_univariate(ctx, f)
    f = find(ctx, "weights", q + "prove_univariate_interval")
    if f is not None: whole_line(ctx, f)

def coefficient(ctx, f, x, c):
    facts = x.facts
    n = num(c)
    if n is not None:
        ctx.decide(n >= 0, "weights", x.loc, f.qual, "weight %s" % n, "weight", str(c), path_of(x)); return
    fam = lambda t: t is c or (c.op == "item" and t.op == "bv" and t.a[0] is c.a[0])
    if -1 not in signs(facts, fam): _ok(ctx, "weights", x.loc, f.qual, "weight %s was tested nonnegative" % str(c)[:60]); return
    if c.op == "bin":       # c - b^2/(4a) with b^2 - 4ac < 0 and a > 0
        at = {s for s in subterms(c) if s.op == "item" and s.a[0].op == "call"}
        rel = [k for k, w in facts.items() if k.op == "lt" and len(at & set(subterms(k))) == len(at)]
        if rel and disc_ok(c, facts, rel): _ok(ctx, "weights", x.loc, f.qual, "weight %s is positive by the tested discriminant" % str(c)[:60])
        elif rel: ctx.bad("weights", x.loc, f.qual, "weight %s does not follow from the tested discriminant" % str(c)[:60], "weight", path_of(x))
        else: ctx.bad("weights", x.loc, f.qual, "weight %s is used without a sign test" % str(c)[:60], "weight", path_of(x))
        return
    if c.op in ("item", "call", "sub"): ctx.bad("weights", x.loc, f.qual, "weight %s is used without being tested nonnegative" % str(c)[:80], "weight", path_of(x)); return
    ctx.unres("weights", "%s: weight %s" % (x.loc, str(c)[:100]))

def disc_ok(c, facts, rel):
    """the sign of c follows from the discriminant fact: compare as rational functions with sympy-free polynomial arithmetic"""
    from fractions import Fraction
    import random
    at = sorted({s for s in subterms(c) if s.op == "item" and s.a[0].op == "call"}, key=str)
    def val(t, env):
        if t in env: return env[t]
        v = num(t)
        if v is not None: return Fraction(v)
        if t.op == "neg": return -val(t.a[0], env)
        if t.op == "bin":
            a, b = val(t.a[1], env), val(t.a[2], env)
            return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Div": lambda: a / b, "Pow": lambda: a ** int(b)}[t.a[0]]()
        raise KeyError
    r = random.Random(5)
    seen = 0
    for _ in range(3000):
        env = {a: Fraction(r.randint(-6, 6), r.choice((1, 1, 2, 3))) for a in at}
        try:
            if any((val(k.a[0], env) < val(k.a[1], env)) != w for k, w in facts.items() if k.op == "lt" and all(s in env or s.op != "item" for s in subterms(k)) and evaluable(k, env, val)): continue
            seen += 1
            if val(c, env) < 0: return False
        except (KeyError, ZeroDivisionError): continue
    return seen > 20

def evaluable(k, env, val):
    try: val(k.a[0], env); val(k.a[1], env); return True
    except (KeyError, ZeroDivisionError): return False

def nonneg_list(k, w=True):
    q = forall(k, w)
    if q is None or q[3]: return False
    return -1 not in signs({q[1]: q[2]}, lambda t: t.op == "bv")

def nonneg_items(k, c, w=True):
    return nonneg_list(k, w) and any(s.op == "item" and s.a[1] == 1 and s.a[0] is c for s in subterms(k))

def psd_fact(x, c):
    for k, w in x.facts.items():
        for t in subterms(k):
            if t.op == "bv" and any(s.op == "item" and s.a[1] == 1 and s.a[0] is c for s in subterms(t)):
                if -1 not in signs(x.facts, lambda u: u is t): return True
    return False

def factors_univariate(ctx, f):
    seen = []
    def on_loop(func, node, it, el, start, results):
        if func is not f or not any(s.op == "call" and callee_name(s) in ("factor_list", "sqf_list") for s in subterms(it)): return
        mul = lambda t: t.op == "item" and t.a[1] == 1 and t.a[0] is el
        for kind, st, val, nd in results:
            if kind in ("return", "raise"): continue
            loc = "%s:%d" % (f.module.path, node.lineno)
            app = appended(start, st)
            seen.append(app)
            m = next((s for k in st.facts for s in subterms(k) if mul(s)), None)
            p = parity(m, st.facts) if m is not None else None
            has = any(a.op == "call" and "irreducible" in (callee_name(a) or "") for a in app) 
            if not app: dropped(ctx, "weights", f, loc, st.facts); continue
            if p == 0: _ok(ctx, "weights", loc, f.qual, "an even multiplicity needs no proof"); continue
            prov = [a for a in app if a.op == "call" and callee_name(a) in ("_prove_univariate_irreducible", "_prove_univariate_simple") or (a.op == "call" and called(a) in ctx.prog.funcs and is_new(ctx.prog.funcs[called(a)]))]
            ctx.decide(bool(prov), "weights", loc, f.qual, "a factor of odd multiplicity is proven" if prov else "a factor of %s multiplicity enters as a square without a proof" % ("odd" if p == 1 else "untested"), "odd", str(app)[:100], [str(k)[:100] for k in st.facts])
            for a in prov:
                nn = any(k.op == "isnone" and k.a[0] is a and w is False for k, w in st.facts.items())
                ctx.decide(nn, "weights", loc, f.qual, "the proof of the factor exists" if nn else "a factor is used without its proof being found", "found", "", [str(k)[:100] for k in st.facts])
    ex = runf(ctx, "weights", f, on_loop=on_loop, inline=lambda g: is_new(g), max_states=4000)
    if not seen: ctx.unres("weights", "no factor loop in prove_univariate")
    for x in ex or []:
        if x.kind != "return" or x.val is NONE: continue
        s = signs(x.facts, lambda t: t.op == "item" and t.a[1] == 0 and t.a[0].op == "call" and callee_name(t.a[0]) in ("factor_list", "sqf_list"))
        ctx.decide(-1 not in s, "weights", x.loc, f.qual, "the leading constant was tested nonnegative" if -1 not in s else "a negative leading constant is used as a weight", "lead", "", path_of(x))

def whole_line(ctx, f):
    """over the whole line a proof with a multiplier other than 1 is rejected"""
    hit = []
    def on_loop(func, node, it, el, start, results):
        if func is not f: return
        if not any(s.op == "call" and callee_name(s) == "prove_univariate" for s in subterms(it)): return
        for kind, st, val, nd in results:
            if kind == "return" and val is NONE: hit.append((node, st, el))
    ex = runf(ctx, "weights", f, on_loop=on_loop, max_states=6000, inline=lambda g: is_new(g))
    if ex is None: return
    loc = "%s:%d" % (f.module.path, f.node.lineno)
    good = False
    for node, st, el in hit:
        new = {k: v for k, v in st.facts.items() if any(s is el for s in subterms(k))}
        m = any(k.op == "eq" and v is False and any(s.op == "item" and s.a[1] == 0 and s.a[0] is el for s in subterms(k)) for k, v in new.items())
        if m: good = True
    if hit: ctx.decide(good, "weights", loc, f.qual, "over the whole line a proof that needs a nonnegative variable is rejected", "line", "", [])
    else:
        anyf = any("prove_univariate" in str(k) and ("comp" in str(k) or "any" in str(k)[:5]) for x in ex for k in x.facts)
        if anyf: ctx.unres("weights", "%s: whole-line rejection not understood" % loc)
        else: ctx.bad("weights", loc, f.qual, "over the whole line a proof that needs a nonnegative variable is not rejected", "line", [])

# ------------------------------------------------------------------ symmetric method
def check_positive(ctx):
    f = find(ctx, "positive", "triples.core.symsos.symsos._nonnegative_vars")
    if f is not None:
        def judge(loc, val, cf, path):
            mono = any(k.op == "attr" and k.a[1] == "is_monomial" and w is True for k, w in cf.items())
            lin = any(k.op == "attr" and k.a[1] == "is_linear" and w is True for k, w in cf.items()) or any(k.op == "eq" and w is True and any(num(k.a[i]) == 1 and callee_name(k.a[1 - i]) in ("total_degree", "degree") for i in (0, 1)) for k, w in cf.items())
            pos = -1 not in signs(cf, lambda t: t.op == "call" and callee_name(t) in ("LC", "EC"))
            unk = [k for k in cf if k.op == "call" and callee_name(k) not in ("LC", "EC", "total_degree")]
            for cond, what, key in ((mono and lin, "a constraint that is a single variable", "variable"), (pos, "a constraint with a nonnegative coefficient", "coefficient")):
                if not cond and unk: ctx.unres("positive", "%s: tested by %s" % (loc, [str(u)[:60] for u in unk])); continue
                ctx.decide(cond, "positive", loc, f.qual, ("a variable counts as nonnegative only by " if cond else "a variable counts as nonnegative without testing for ") + what, key, "", path)
        seen = []
        def on_loop(func, node, it, el, start, results):
            for kind, st, val, nd in results:
                if kind not in ("fall", "continue"): continue
                app = appended(start, st)
                if app: seen.append(1); judge("%s:%d" % (func.module.path, node.lineno), app[-1], st.facts, [str(k)[:120] for k in st.facts])
        for x in runf(ctx, "positive", f, on_loop=on_loop, merge=False) or []:
            if x.kind != "return" or x.val is NONE or seen: continue
            v = x.st.expand(x.val)
            if v.op == "call" and callee_name(v) in ("set", "frozenset", "list", "tuple") and call_args(v): v = call_args(v)[0]
            el = [(v.a[1], v.a[2], v.a[3])] if v.op == "comp" else elems(v)
            if el is None: ctx.unres("positive", "%s: %s" % (x.loc, str(v)[:100])); continue
            for e, it, cs in el: judge(x.loc, e, conjuncts(cs), [str(z)[:120] for z in cs])
    f = find(ctx, "positive", "triples.core.symsos.symsos.SymmetricSOS")
    if f is None: return
    ex = runf(ctx, "positive", f, max_states=6000, want=lambda t: t.op == "call" and callee_name(t) in ("sym_transform", "sym_representation_inv"))
    for e in events(ex or [], lambda e: e.kind == "call" and e.term.op == "call" and callee_name(e.term) in ("sym_transform", "sym_representation_inv")):
        m = call_kw(e.term, "method", 4 if callee_name(e.term) == "sym_transform" else 3)
        m = e.st.expand(m) if m is not None else None
        src = None
        if m is not None and m.op == "bv": src = e.st.expand(m.a[0])
        vals = [m] if m is not None and m.op == "c" else [x for x, it, cs in (elems(src) or [])] if src is not None else []
        if not any(x.op == "c" and cval(x) == "positive" for x in vals): continue
        good = False
        weak = False
        for k, w in e.facts.items():
            q = forall(k, w, e.st.expand)
            ks = str(e.st.expand(k))
            if "_nonnegative_vars" not in ks: continue
            if q is not None:
                it, p, truth, cond = q
                if it.op == "attr" and it.a[1] == "gens" and not cond and p.op == "in" and truth and "_nonnegative_vars" in str(p): good = True
                elif "gens" in ks: weak = True
            elif k.op == "call" and callee_name(k) in ("issuperset", "issubset") and w is True: good = True
            elif "gens" in ks and not (k.op == "call" and callee_name(k) == "any" and w is True): weak = True
        if not good and weak: ctx.unres("positive", "%s: tested otherwise" % e.loc); continue
        ctx.decide(good, "positive", e.loc, f.qual, "the positive method runs only when every variable is constrained nonnegative" if good else "the positive method is tried although not every variable is constrained nonnegative", "positive", str(m)[:60], path_of(e))

def check_pivot(ctx):
    f = find(ctx, "pivot", "triples.core.symsos.basic.prove_by_pivoting")
    if f is None: return
    seen = []
    def on_loop(func, node, it, el, start, results):
        if func is not f and not is_new(func): return
        if not any(s.op == "call" and callee_name(s) == "terms" for s in subterms(it)): return
        for kind, st, val, nd in results:
            if kind in ("return", "raise", "break"): continue
            seen.append(1)
            loc = "%s:%d" % (func.module.path, node.lineno)
            app = appended(start, st)
            if not app: ctx.bad("pivot", loc, f.qual, "a coefficient is skipped: the sum no longer covers the polynomial", "skip", [str(k)[:100] for k in st.facts]); continue
            a = app[-1]
            ms = split_mul(a)
            sol = [m for m in ms if m.op == "call" and callee_name(m) in ("prove_by_pivoting",)]
            if not sol: ctx.unres("pivot", "%s: %s" % (loc, str(a)[:100])); continue
            nn = any(k.op == "isnone" and sol[0] in (k.a[0], st.expand(k.a[0])) and w is False for k, w in st.facts.items())
            ctx.decide(nn, "pivot", loc, f.qual, "the coefficient proof exists" if nn else "a coefficient is used without its proof", "proof", "", [str(k)[:100] for k in st.facts])
            ev = False; gr = False; weak = []
            for k, w in st.facts.items():
                if k.op == "call" and callee_name(k) == "all" and w is True and "monoms" in str(st.expand(k)):
                    g = st.expand(call_args(k)[0])
                    p = g.a[1] if g.op == "comp" else g.a[0].a[1] if g.op == "list" and len(g.a) == 1 and g.a[0].op == "each" else None
                    if p is not None and parity_fact(p) == 0: ev = True
                    else: weak.append(k)
                if k.op == "in" and w is True and "nonnegative_symbols" in str(k.a[1]): gr = True
                if k.op == "item" and k.a[1] == 1 and w is True and "priority" not in str(k): 
                    if in_tuple(st, k): gr = True
                    else: weak.append(k)
            if not (ev or gr):
                fk = [k for k, w in st.facts.items() if w is True and ("nonneg" in str(k) or "monoms" in str(k))]
                if fk and not any(k.op in ("in", "call") for k in fk): ctx.unres("pivot", "%s: %s" % (loc, [str(k)[:80] for k in fk])); continue
            ctx.decide(ev or gr, "pivot", loc, f.qual, "the power is of a constrained variable or even" if (ev or gr) else "a power is used that is neither even nor of a constrained variable", "power", str(a)[:100], [str(k)[:140] for k in st.facts])
    ex = runf(ctx, "pivot", f, on_loop=on_loop, max_states=6000, merge=False, want=lambda t: t.op == "call" and callee_name(t) == "structural_sos_2vars")
    if not seen: ctx.unres("pivot", "no loop over the coefficients")
    for e in events(ex or [], lambda e: e.kind == "call" and e.term.op == "call" and callee_name(e.term) == "structural_sos_2vars"):
        d = call_kw(e.term, "ineq_constraints", 1)
        d = e.st.expand(d) if d is not None else None
        if d is None or d.op != "dict": ctx.unres("pivot", "%s: constraints %s" % (e.loc, str(d)[:80])); continue
        for c in d.a:
            if not isinstance(c, T): continue
            kv, conds = (c.a[1], c.a[2:]) if c.op == "each" else (c, ())
            if kv.op != "kv": continue
            cf = conjuncts(conds)
            cf.update({k: w for k, w in e.facts.items()})
            g = kv.a[1]
            gr = any(k.op == "in" and w is True and k.a[0] is g and "nonneg" in str(k.a[1]) for k, w in cf.items())
            if not gr and any(any(s is g for s in subterms(k)) and k.op not in ("isnone",) for k in conjuncts(conds)): ctx.unres("pivot", "%s: tested by %s" % (e.loc, [str(k)[:60] for k in conds])); continue
            ctx.decide(gr, "pivot", e.loc, f.qual, "a variable is handed on as nonnegative only if it was given as nonnegative" if gr else "a variable is handed on as nonnegative without being given as nonnegative", "handed", str(g)[:80], [str(k)[:120] for k in conds])
    for x in ex or []:
        if x.kind != "return" or x.val is NONE: continue
        v = x.st.expand(x.val)
        if v.op == "call" and callee_name(v) in ("coeff_monomial", "LC", "eval", "nth"):
            s = signs(x.facts, lambda t: t is x.val)
            ctx.decide(-1 not in s, "pivot", x.loc, f.qual, "a constant is returned only if it was tested nonnegative" if -1 not in s else "a constant is returned without testing its sign", "constant", str(v)[:80], path_of(x))

def parity_fact(p):
    if p.op == "not": 
        y = mod2(p.a[0])
        if y is not None: return 0
        r = parity_fact(p.a[0]); return None if r is None else 1 - r
    if p.op == "eq":
        for i in (0, 1):
            if mod2(p.a[i]) is not None and is_int(p.a[1 - i]): return cval(p.a[1 - i])
    return 1 if mod2(p) is not None else None

def in_tuple(st, k):
    """the flag of a priority tuple is 'gen in nonnegative_symbols'"""
    s = str(st.expand(k.a[0]))
    return " in(" in s or "in(each" in s or "nonnegative_symbols" in s
