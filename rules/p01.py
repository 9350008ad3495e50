"""P01 - numerical answers are never presented as exact proofs."""
import ast
from sa.util import *
from sa.sign import signs

TECHNIQUE = "path-sensitive provenance dataflow from the exact verification to the constructed certificate and to its display"
EXPLANATION = ("On every path of the linear correction that claims exactness, an exact (tolerance-free) comparison of (terms matrix) * (coefficients) with the target must "
  "have succeeded for the very coefficients and terms that are returned, and the coefficients must have been tested nonnegative. The linear method hands a certificate "
  "out only if that flag is set or numerical answers were allowed, and passes the flag on. The semidefinite certificate is exact only if every entry of every decomposition "
  "and of every equality multiplier was tested rational. The mark is stored, derived and displayed unchanged. Numerical vectors are accepted only under allow_numer. "
  "Not covered: that the rows of the terms matrix are the coefficients of the displayed terms (closed-form algebra).")

SOL = "triples.utils.expression.solution."
LIN = "triples.core.linsos."
SDPSOL = "triples.core.sdpsos.solution."
APPROX = {"allclose", "isclose", "array_equal_tol", "almosteq", "round", "n", "evalf", "N", "around", "limit_denominator", "nsimplify", "rationalize", "rationalize_array", "astype", "float64", "float", "is_close"}
CONV = {"Matrix", "list", "tuple", "array", "ImmutableMatrix", "MutableDenseMatrix", "sympify", "S"}

def run(ctx):
    ctx.rule("verified", "exactness is claimed only after an exact comparison of the returned coefficients and terms")
    ctx.rule("nonneg", "exactness is claimed only for coefficients that were tested nonnegative")
    ctx.rule("compare", "the comparison of the linear system is exact")
    ctx.rule("gate", "a linear certificate is handed out only if verified or numerical answers were allowed")
    ctx.rule("mark", "the exactness mark passed to a certificate is the outcome of the verification of its own data")
    ctx.rule("rational", "every part of a semidefinite certificate is tested rational before it is marked exact")
    ctx.rule("keep", "the mark is stored and derived unchanged")
    ctx.rule("noround", "the data of a certificate is not approximated where the certificate is verified, built or copied")
    ctx.rule("display", "an equality sign is displayed only for certificates marked exact")
    ctx.rule("optin", "numerical vectors are accepted only if numerical answers were allowed")
    ctx.rule("default", "numerical answers are off by default")
    for fn in (check_correction, check_compare, check_gate, check_from_basis, check_sdp, check_keep, check_marks, check_noround, check_display, check_optin, check_defaults): ctx.section(fn, ctx)

def conv(t):
    while True:
        if t.op == "call" and callee_name(t) in CONV and len(call_args(t)) == 1: t = call_args(t)[0]
        elif t.op == "attr" and t.a[1] == "T": t = t.a[0]
        elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("copy", "reshape", "as_mutable", "to_Matrix", "convert_to", "transpose", "as_immutable"): t = t.a[0].a[0]
        elif t.op == "call" and callee_name(t) in ("from_Matrix",) and t.a[1]: t = t.a[1][0]
        else: return t

def leaves(t, d=0):
    """what a matrix was built from"""
    t = conv(t)
    if d > 12: return {t}
    if t.op == "call":
        nm = callee_name(t)
        if nm in ("_filter_zero_y",): return {t}
        out = set()
        if t.a[0].op == "attr": out |= leaves(t.a[0].a[0], d + 1)
        for x in call_args(t): out |= leaves(x, d + 1)
        return out
    if t.op in ("list", "tuple", "bin", "star", "neg", "ext", "mut"):
        out = set()
        for x in t.a:
            if isinstance(x, T): out |= leaves(x, d + 1)
        return out
    if t.op == "each": return leaves(t.a[0], d + 1)
    if t.op == "comp": return leaves(t.a[2], d + 1)
    if t.op == "prod": return leaves(t.a[0], d + 1)
    return {t}

def product_of(t):
    """(A, x) of a matrix-vector product"""
    t = conv(t)
    if t.op == "bin" and t.a[0] in ("Mult", "MatMult"): return t.a[1], t.a[2]
    if t.op == "call" and callee_name(t) in ("matmul", "dot", "multiply", "__mul__"):
        a = call_args(t)
        if t.a[0].op == "attr" and len(a) == 1: return t.a[0].a[0], a[0]
        if len(a) == 2: return a[0], a[1]
    return None

def equations(facts):
    """established exact comparisons (A, x, b, fact) and approximate ones"""
    ex, ap = [], []
    for k, v in facts.items():
        if k.op == "eq" and v is True and len(k.a) == 2:
            hit = False
            for i in (0, 1):
                p = product_of(k.a[i])
                if p: ex.append((p[0], p[1], k.a[1 - i], k)); hit = True
            if not hit:
                for i in (0, 1):
                    s = k.a[i]
                    if s.op == "bin" and s.a[0] == "Sub":
                        for u, w in ((s.a[1], s.a[2]), (s.a[2], s.a[1])):
                            p = product_of(u)
                            if p: ex.append((p[0], p[1], w, k))
        elif k.op == "call" and v is True:
            nm = callee_name(k) or ""
            if nm in APPROX or "close" in nm: ap.append(k)
            elif nm == "_is_Ax_equal_to_b" and len(call_args(k)) == 3:
                a = {n: x for n, x in k.a[2]}
                pa = list(k.a[1])
                A = a.get("A", pa[0] if pa else None); x = a.get("x", pa[1] if len(pa) > 1 else None); b = a.get("b", pa[2] if len(pa) > 2 else None)
                if None not in (A, x, b): ex.append((A, x, b, k))
            elif nm in ("equals", "__eq__") and k.a[0].op == "attr" and len(call_args(k)) == 1:
                for u, w in ((k.a[0].a[0], call_args(k)[0]), (call_args(k)[0], k.a[0].a[0])):
                    p = product_of(u)
                    if p: ex.append((p[0], p[1], w, k))
        elif k.op == "attr" and v is True and k.a[1] in ("is_zero_matrix", "is_zero"):
            s = conv(k.a[0])
            if s.op == "bin" and s.a[0] == "Sub":
                for u, w in ((s.a[1], s.a[2]), (s.a[2], s.a[1])):
                    p = product_of(u)
                    if p: ex.append((p[0], p[1], w, k))
        elif k.op == "lt" and (any(s.op == "call" and callee_name(s) in ("norm", "abs", "max", "fabs", "Abs") for s in subterms(k))): ap.append(k)
    return ex, ap

def inexact_in(t):
    return any(s.op == "call" and (callee_name(s) in ("allclose", "isclose", "round", "evalf", "n", "N", "float", "around", "astype", "float64", "lambdify")) for s in subterms(t))

def nonneg_fact(facts, y):
    """the entries of y were tested to be >= 0"""
    for k, v in facts.items():
        if k.op == "call" and callee_name(k) in ("all", "any") and call_args(k):
            a = call_args(k)[0]
            if a.op != "comp" or a.a[3]: continue
            if (callee_name(k) == "all") != bool(v): continue
            if conv(a.a[2]) is not y: continue
            s = signs({a.a[1]: bool(v)} if a.a[1].op != "not" else {a.a[1].a[0]: not v}, lambda t: t.op == "bv")
            if -1 not in s: return True
    for k, v in facts.items():
        for t in subterms(k):
            if t.op == "bv" and conv(t.a[0]) is y:
                if -1 not in signs(facts, lambda u: u is t): return True
    for k, v in facts.items():      # min(y) >= 0
        for t in subterms(k):
            if t.op == "call" and callee_name(t) == "min" and call_args(t) and conv(call_args(t)[0]) is y:
                if -1 not in signs(facts, lambda u: u is t): return True
    return False

def weak_nonneg(facts, y):
    """a test on the entries exists but it is not a nonnegativity test (e.g. with a tolerance)"""
    for k, v in facts.items():
        for t in subterms(k):
            if t.op == "bv" and conv(t.a[0]) is y: return True
    return False

def origin_y(y):
    """filtering out zeros keeps signs: the argument of the filter"""
    out = [y]
    for _ in range(6):
        t = conv(out[-1])
        if t.op == "item" and t.a[0].op == "call" and callee_name(t.a[0]) == "_filter_zero_y":
            a = call_kw(t.a[0], "y", 0)
            if a is None: break
            out.append(conv(a))
        else: break
    return [conv(t) for t in out]

def check_correction(ctx):
    f = find(ctx, "verified", LIN + "correction.linear_correction")
    if f is None: return
    ex = runf(ctx, "verified", f, merge=False, max_states=3000)
    n = 0
    for x in ex or []:
        if x.kind != "return": continue
        v = x.st.expand(x.val)
        if v.op != "tuple" or len(v.a) != 3: ctx.unres("verified", "return form %s" % v); continue
        y, b, e = v.a
        facts = dict(x.facts)
        if e is FALSE: ctx.ok("verified", x.loc, "claims nothing"); continue
        if e.op == "c" and not e.a[1]: continue
        if e.op != "c":
            if e in facts and facts[e] is False: continue
            facts[e] = True
            if e.op == "and":
                for z in e.a: facts[z] = True
        n += 1
        eqs, ap = equations(facts)
        yc = conv(y)
        good = [q for q in eqs if conv(q[1]) is yc and b in leaves(q[0])]
        okb = any(conv(q[1]) is yc for q in eqs)
        if not eqs:
            ctx.bad("verified", x.loc, f.qual, "exactness is claimed %s" % ("after an approximate comparison only" if ap else "without comparing the terms with the polynomial"), "none", path_of(x)); continue
        if any(inexact_in(t) for q in good for t in (q[0], q[2])) or any(x2.op == "call" and callee_name(x2) in APPROX for q in good for x2 in (q[2],)):
            ctx.bad("verified", x.loc, f.qual, "the comparison is made between rounded values", "rounded", path_of(x)); continue
        if not good:
            if any(s.op in ("phi", "merge", "dirty") for s in subterms(y)) or any(s.op in ("phi", "merge", "dirty") for s in subterms(b)): ctx.unres("verified", "returned data not resolved"); continue
            ctx.bad("verified", x.loc, f.qual, "the %s returned as exact are not the ones that were compared" % ("terms" if okb else "coefficients"), "other", path_of(x)); continue
        # the target of the comparison
        ctx.ok("verified", x.loc, f.qual)
        ys = origin_y(y)
        if any(nonneg_fact(facts, z) for z in ys): ctx.ok("nonneg", x.loc, f.qual)
        elif any(s.op in ("phi", "merge") for s in subterms(y)): ctx.unres("nonneg", "coefficients not resolved")
        else: ctx.bad("nonneg", x.loc, f.qual, "exactness is claimed although a coefficient may be negative", "sign", path_of(x))
    if ex is not None and not n: ctx.unres("verified", "no path claims exactness")

def check_compare(ctx):
    f = find(ctx, "compare", LIN + "correction._is_Ax_equal_to_b")
    if f is None: return
    P = [T("p", a) for a in f.args[:3]]
    ex = runf(ctx, "compare", f, merge=False)
    for x in ex or []:
        if x.kind != "return": continue
        v = x.st.expand(x.val)
        while v.op == "call" and callee_name(v) == "bool" and len(v.a[1]) == 1: v = v.a[1][0]
        if v is FALSE: ctx.ok("compare", x.loc, "refuses"); continue
        if v is TRUE: eqs, ap = equations(x.facts)
        else: eqs, ap = equations({v: True})
        bad = None
        if not eqs:
            if ap or v is TRUE or v.op in ("lt", "not") or (v.op == "eq" and inexact_in(v)): bad = "the system counts as solved %s" % ("after an approximate comparison" if ap or v.op == "lt" else "without an exact comparison")
            else: ctx.unres("compare", "result %s" % v); continue
        else:
            ok = False
            for A, y, b, k in eqs:
                if inexact_in(k): bad = "the comparison is made between rounded values"; continue
                la, ly, lb = [{s for s in subterms(t) if s in P} for t in (A, y, b)]
                if P[0] in la and P[1] in ly and P[2] in lb: ok = True
            if not ok and bad is None: bad = "the comparison leaves out part of the system"
            if ok: bad = None
        ctx.decide(bad is None, "compare", x.loc, f.qual, bad or "", "compare", f.qual, path_of(x))

def check_gate(ctx):
    f = find(ctx, "gate", LIN + "linsos._LinearSOS")
    if f is None: return
    an = T("p", "allow_numer")
    w = lambda t: t.op == "call" and callee_name(t) in ("_from_y_basis", "SolutionLinear")
    ex = runf(ctx, "gate", f, want=w, max_states=4000)
    ex0 = runf(ctx, "gate", f, want=w, max_states=4000, bind={"allow_numer": C(0)})    # the caller did not opt in
    if ex is None or ex0 is None: return
    for e in events(ex0, lambda e: e.kind == "call"):
        flags = [k for k, v in e.facts.items() if v is True and k.op == "item" and k.a[1] == 2 and k.a[0].op == "call" and callee_name(k.a[0]) == "linear_correction"]
        known = any(s.op == "call" and callee_name(s) == "linear_correction" for s in subterms(e.term))
        if flags: ctx.ok("gate", e.loc, "verified")
        elif not known: ctx.unres("gate", "origin of the data not found")
        elif any(k.op in ("phi", "merge") for k in e.facts): ctx.unres("gate", "merged condition")
        else: ctx.bad("gate", e.loc, f.qual, "a linear certificate is handed out although it was not verified and numerical answers were not allowed", "gate", path_of(e))
    for e in events(ex, lambda e: e.kind == "call"):
        t = e.term
        ise = call_kw(t, "is_equal"); y = call_kw(t, "y")
        src = None
        if ise is not None and ise.op == "item" and ise.a[0].op == "call" and callee_name(ise.a[0]) == "linear_correction": src = ise.a[0]
        if src is None:
            ys = {s for z in (y, call_kw(t, "basis")) if z is not None for s in subterms(z) if s.op == "item" and s.a[0].op == "call" and callee_name(s.a[0]) == "linear_correction"}
            if len({s.a[0] for s in ys}) == 1:
                c = list(ys)[0].a[0]
                flag = T("item", c, 2)
                known = [v for k, v in e.facts.items() if k is flag]
                if ise is None or ise is TRUE:
                    ctx.decide(known == [True], "mark", e.loc, f.qual, "a certificate is marked exact without its verification", "mark", f.qual, path_of(e))
                elif ise is FALSE: ctx.ok("mark", e.loc, "marked inexact")
                elif ise.op == "not": ctx.bad("mark", e.loc, f.qual, "the exactness mark is the opposite of the verification's outcome", "mark", path_of(e))
                else: ctx.unres("mark", "is_equal=%s" % ise)
                continue
            ctx.unres("mark", "is_equal=%s" % ise); continue
        yi = conv(y) if y is not None else None
        b = call_kw(t, "basis")
        ok = yi is not None and yi.op == "item" and yi.a == (src, 0)
        okb = b is not None and T("item", src, 1) in subterms(b)
        if not ok and yi is not None and yi.op in ("phi", "merge"): ctx.unres("mark", "y=%s" % yi)
        else: ctx.decide(ok and okb, "mark", e.loc, f.qual, "the %s handed out are not the verified ones" % ("terms" if ok else "coefficients"), "data", f.qual, path_of(e))
    # the constructor result is what is returned: any other certificate returned?
    for x in ex:
        if x.kind != "return" or x.val is NONE: continue
        ctx.count("returns")

def check_from_basis(ctx):
    """the mark reaches the constructor"""
    for f in ctx.prog.funcs.values():
        if f.name != "_from_y_basis" or f.cls is None: continue
        p = T("p", "is_equal")
        ex = runf(ctx, "mark", f, want=lambda t: t.op == "call" and any(k == "is_equal" for k, _ in t.a[2]))
        n = 0
        for x in ex or []:
            if x.kind != "return": continue
            v = x.st.expand(x.val)
            mk = {w for s in subterms(v) | subterms(x.val) if s.op in ("call", "new") for k, w in (s.a[2] if s.op == "call" else ()) if k == "is_equal"}
            mk |= {call_kw(e.term, "is_equal") for e in x.events if e.kind == "call"}
            n += 1
            if not mk:
                if any(s.op == "call" and (callee_name(s) or "").startswith("Solution") for s in subterms(v)): ctx.bad("mark", x.loc, f.qual, "the exactness mark is not passed to the certificate", "frombasis", path_of(x))
                else: ctx.unres("mark", "%s returns %s" % (f.qual, v))
            else: ctx.decide(all(m is p for m in mk), "mark", x.loc, f.qual, "the certificate is built with another exactness mark than the verified one", "frombasis", f.qual)
            sol = {w for s in subterms(v) | subterms(x.val) if s.op == "call" for k, w in s.a[2] if k == "is_equal" for k2, w2 in [(k, w)]}
        d = f.node.args
        names = [a.arg for a in d.args]; defs = dict(zip(names[len(names) - len(d.defaults):], d.defaults))
        ctx.count("default_mark", 1 if "is_equal" in defs else 0)

# ------------------------------------------------------------------ semidefinite certificates
def tested(facts, data):
    """which of the containers had all entries tested to be rational (facts of an 'exact' outcome)"""
    out = set()
    for k, v in facts.items():
        for t in subterms(k):
            if t.op == "call" and callee_name(t) == "isinstance" and len(call_args(t)) == 2: pass
    return out

RAT_CLASSES = {"Rational", "Integer", "int", "Fraction"}
def is_rat_test(k, v, elt):
    """fact k = v implies elt is an exact rational: True / False (weaker test) / None"""
    if k.op == "not": return is_rat_test(k.a[0], not v, elt)
    if k.op == "call" and callee_name(k) == "isinstance" and call_args(k)[0] is elt:
        c = call_args(k)[1]
        cs = list(c.a) if c.op == "tuple" else [c]
        names = {(z.a[0] if z.op == "g" else str(z)).split(".")[-1] for z in cs}
        if v: return names <= RAT_CLASSES
        return False
    if k.op == "attr" and k.a[0] is elt and k.a[1] in ("is_Rational", "is_rational", "is_Integer"): return bool(v) and k.a[1] != "is_rational"
    if elt in subterms(k): return False
    return None

def literals(facts):
    """facts and what they imply about single entries"""
    out, st, seen = [], list(facts.items()), set()
    while st:
        k, v = st.pop()
        if (k, v) in seen: continue
        seen.add((k, v)); out.append((k, v))
        if k.op == "not": st.append((k.a[0], not v))
        elif k.op == "and" and v or k.op == "or" and not v: st += [(z, v) for z in k.a]
        elif k.op == "call" and callee_name(k) == "bool" and len(k.a[1]) == 1: st.append((k.a[1][0], v))
        elif k.op == "call" and callee_name(k) in ("any", "all") and call_args(k):
            a = call_args(k)[0]
            if a.op == "comp": body, conds = a.a[1], a.a[3]
            elif a.op in ("list", "tuple") and len(a.a) == 1 and a.a[0].op == "each": body, conds = a.a[0].a[1], a.a[0].a[2:]
            else: continue
            if (callee_name(k) == "all") == bool(v) and not conds: st.append((body, v))
    return out

def entry_tests(facts):
    """{container term: True if each entry is rational under the facts, False if only weakly tested}"""
    out = {}
    for k, v in literals(facts):
        if k.op in ("and", "or"): continue
        if k.op == "call" and callee_name(k) in ("any", "all"): continue
        for s in subterms(k):
            if s.op == "bv":
                r = is_rat_test(k, v, s)
                if r is not None: out[s.a[0]] = out.get(s.a[0], False) or r
    return out

def root_item(c, root):
    """('key'/0/1/...) describing which part of the root container c iterates"""
    idx = []
    t = c
    while True:
        if t is root: return tuple(reversed(idx))
        if t.op == "item": idx.append(t.a[1]); t = t.a[0]
        elif t.op == "sub":
            if t.a[1].op == "c":
                if not (t.a[0].op in ("bv", "item", "sub")): return None      # one entry of the container only
                idx.append(cval(t.a[1]))
            elif t.a[1].op in ("slice", "call") and "slice" in str(t.a[1])[:12] and not all(z is NONE for z in t.a[1].a if isinstance(z, T)): return None
            t = t.a[0]
        elif t.op == "bv": t = t.a[0]
        elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("values", "items", "flat", "ravel", "flatten", "tolist", "copy"): t = t.a[0].a[0]
        elif t.op == "call" and callee_name(t) in CONV | {"flatten", "chain", "from_iterable", "iter", "enumerate"} and len(call_args(t)) == 1: t = call_args(t)[0]
        elif t.op == "prod": t = t.a[-1]
        else: return None

def parts_tested(facts, root):
    good, weak = set(), set()
    for c, ok in entry_tests(facts).items():
        r = root_item(c, root)
        if r is None: continue
        (good if ok else weak).add(r)
    return good, weak

def check_sdp(ctx):
    f = find(ctx, "rational", SDPSOL + "SolutionSDP.from_decompositions")
    if f is None: return
    dec, eqv = T("p", "decompositions"), T("p", "eqvec")
    # predicates over the two containers: judged separately, "exact" side
    preds = {}
    def called(k): return ctx.prog.funcs.get((callee(k) if k.a[0].op != "fn" else k.a[0].a[0]) or "")
    def judge_pred(g):
        """(params -> parts tested on the False side) of a predicate"""
        if g in preds: return preds[g]
        preds[g] = None
        loops = []
        ex = runf(ctx, "rational", g, merge=False, on_loop=lambda fn, nd, it, el, s, res: loops.append((fn, it, el, res)), inline=inliner(extra=lambda h: h.module is g.module))
        if ex is None: return None
        out = {}
        for val in (False, True):
            sets = None
            for x in ex:
                if x.kind != "return": continue
                fw = facts_when(ctx.prog, x, val)
                if fw is None: continue
                cur = {}
                for p in g.all_params:
                    pt = T("p", p)
                    good, weak = parts_tested(fw, pt)
                    for k, v in literals(fw):
                        h = called(k) if k.op == "call" and (k.a[0].op == "fn" or callee(k)) else None
                        jh = judge_pred(h) if h is not None and h is not g else None
                        if not jh or not jh.get(bool(v)): continue
                        am = {h.args[i]: a for i, a in enumerate(k.a[1]) if i < len(h.args)}
                        am.update(dict(k.a[2]))
                        for q, a in am.items():
                            rr = root_item(a, pt)
                            if rr is None or q not in jh[bool(v)]: continue
                            good |= {rr + r for r in jh[bool(v)][q][0]}; weak |= {rr + r for r in jh[bool(v)][q][1]}
                    # facts of loops that ran to their end
                    for fn, it, el, res in loops:
                        if pt not in subterms(it): continue
                        gs = None
                        for r in res:
                            if r[0] not in ("fall", "continue"): continue
                            g2, w2 = parts_tested(r[1].facts, pt)
                            weak |= w2
                            gs = g2 if gs is None else gs & g2
                        if gs: good |= gs
                    cur[p] = (good, weak)
                sets = cur if sets is None else {p: (sets[p][0] & cur[p][0], sets[p][1] | cur[p][1]) for p in cur}
            out[val] = sets
        preds[g] = out
        return out
    ex = runf(ctx, "rational", f, merge=False, want=lambda t: t.op == "call" and any(k == "is_equal" for k, _ in t.a[2]), inline=lambda g: is_new(g) and not returns_bool(g))
    seen = 0
    for x in ex or []:
        if x.kind != "return": continue
        calls = [s for s in subterms(x.val) | subterms(x.st.expand(x.val)) if s.op == "call" and (callee_name(s) or "").startswith("Solution") and (callee_name(s) or "")[8:9].isupper()]
        calls += [e.term for e in x.events if e.kind == "call"]
        mk = [call_kw(s, "is_equal", 4) for s in calls]
        if not mk: ctx.unres("rational", "certificate construction not found"); continue
        for m in mk[:1]:
            seen += 1
            if m is None:
                ctx.bad("rational", x.loc, f.qual, "the semidefinite certificate is built without an exactness mark", "sdpmark", path_of(x)); continue
            if m is FALSE: ctx.ok("rational", x.loc, "marked inexact"); continue
            if m.op == "not" and m.a[0] in x.facts and x.facts[m.a[0]] is True or m in x.facts and x.facts[m] is False: continue
            facts = dict(x.facts)
            if m is not TRUE:
                st = [(m, True)]
                while st:
                    k, v = st.pop()
                    facts[k] = v
                    if k.op == "not": st.append((k.a[0], not v))
                    elif k.op == "and" and v or k.op == "or" and not v: st += [(z, v) for z in k.a]
                    elif k.op == "call" and callee_name(k) == "bool" and len(k.a[1]) == 1: st.append((k.a[1][0], v))
            good, weak, opaque = set(), set(), False
            for root, tag in ((dec, "d"), (eqv, "e")):
                g, w = parts_tested(facts, root)
                good |= {(tag,) + r for r in g}; weak |= {(tag,) + r for r in w}
            for k, v in literals(facts):
                if k.op != "call" or v is None: continue
                h = called(k)
                if h is None:
                    if k.op == "call" and callee_name(k) not in ("any", "all", "isinstance", "len", "bool") and (dec in subterms(k) or eqv in subterms(k)): opaque = True
                    continue
                jp = judge_pred(h)
                if jp is None or jp.get(bool(v)) is None: opaque = True; continue
                names = h.args
                amap = {}
                for i, a in enumerate(k.a[1]):
                    if i < len(names): amap[names[i]] = a
                for n, a in k.a[2]: amap[n] = a
                for p, a in amap.items():
                    if p not in jp[bool(v)]: continue
                    g, w = jp[bool(v)][p]
                    for root, tag in ((dec, "d"), (eqv, "e")):
                        rr = root_item(a, root)
                        if rr is None: continue
                        good |= {(tag,) + rr + r for r in g}; weak |= {(tag,) + rr + r for r in w}
            norm = lambda s: {(r[0],) + tuple(z for z in r[1:] if z in (0, 1)) for r in s}
            good, weak = norm(good), norm(weak)
            need = {("d", 0): "the vectors of a decomposition", ("d", 1): "the weights of a decomposition", ("e",): "the multipliers of the equality constraints"}
            whole = ("d",) in good
            for r, what in need.items():
                ok = r in good or (r[0] == "d" and (whole or ("d", 1) + r[1:] in good)) or any(q[0] == "e" and r == ("e",) for q in good)
                if ok: ctx.ok("rational", x.loc, what)
                elif opaque and r not in weak: ctx.unres("rational", "test of %s not recognised" % what)
                else: ctx.bad("rational", x.loc, f.qual, "a semidefinite certificate is marked exact although %s were not tested to be rational" % what, "sdp:" + what, path_of(x))
    if ex is not None and not seen: ctx.unres("rational", "no certificate construction in %s" % f.qual)

def returns_bool(g):
    rs = [n for n in walk_own(g.node) if isinstance(n, ast.Return)]
    return bool(rs) and all(isinstance(r.value, ast.Constant) and isinstance(r.value.value, bool) or isinstance(r.value, (ast.Compare, ast.BoolOp)) or
        (isinstance(r.value, ast.UnaryOp) and isinstance(r.value.op, ast.Not)) or (isinstance(r.value, ast.Call) and isinstance(r.value.func, ast.Name) and r.value.func.id in ("any", "all", "bool")) for r in rs)

# ------------------------------------------------------------------ the mark itself
def solution_classes(ctx):
    base = ctx.prog.classes.get(SOL + "Solution")
    return base, [c for c in ctx.prog.classes.values() if base is not None and base in ctx.prog.mro(c)]

def check_keep(ctx):
    prog = ctx.prog
    base, cs = solution_classes(ctx)
    if base is None: ctx.unres("keep", "Solution not found"); return
    for c in cs:
        f = c.methods.get("__init__") if hasattr(c, "methods") else None
        if f is None: f = prog.funcs.get(c.qual + ".__init__")
        if f is not None and "is_equal" in f.all_params:
            s = T("p", f.args[0]); p = T("p", "is_equal")
            ex = runf(ctx, "keep", f, merge=False, want_store=lambda t, v: t.op == "attr" and t.a[1] == "_is_equal")
            for x in ex or []:
                if x.kind != "return": continue
                st = [e for e in x.events if e.kind == "store" and e.term.op == "attr" and e.term.a[0] is s and e.term.a[1] == "_is_equal"]
                if not st: continue
                v = st[-1].val
                ok = v is p or v in (NONE, FALSE)
                if not ok and v is TRUE: ok = any(k is p and w is True for k, w in x.facts.items())
                if not ok and v.op in ("phi",): ctx.unres("keep", "%s = %s" % (f.qual, v)); continue
                ctx.decide(ok, "keep", st[-1].loc, f.qual, "the exactness mark stored is not the one given (%s)" % v, c.qual + ":init", f.qual, path_of(x))
        f = prog.funcs.get(c.qual + ".is_equal")
        if f is not None:
            s = T("p", f.args[0]); me = T("attr", s, "_is_equal")
            ex = runf(ctx, "keep", f, merge=False)
            given = runf(ctx, "keep", f, merge=False, facts={T("isnone", me): False})
            for x in ex or []:
                if x.kind != "return": continue
                v = x.st.expand(x.val)
                if v is me or v in (NONE, FALSE): ctx.ok("keep", x.loc, f.qual); continue
                if v is TRUE:
                    if any(k is me and w is True for k, w in x.facts.items()): ctx.ok("keep", x.loc, f.qual)
                    elif any(w is True and (k.op == "attr" and k.a[1] == "is_zero" or k.op == "eq") for k, w in x.facts.items()): ctx.ok("keep", x.loc, f.qual)
                    elif c.name == "SolutionSymmetric": ctx.ok("keep", x.loc, "symmetric certificates are exact by construction (P03)")
                    else: ctx.bad("keep", x.loc, f.qual, "%s calls every certificate exact" % f.qual, c.qual + ":prop", path_of(x))
                    continue
                nul = [True] if all(z.st.expand(z.val) is me for z in given or [] if z.kind == "return") and given else []
                if v.op == "attr" and v.a[1] == "is_zero": ctx.decide(True in nul, "keep", x.loc, f.qual, "a given mark is overruled by a later test", c.qual + ":prop", f.qual, path_of(x))
                elif v.op in ("or", "not") or (v.op == "phi"): 
                    if me in subterms(v) and v.op == "not": ctx.bad("keep", x.loc, f.qual, "the mark reported is not the one stored", c.qual + ":prop", path_of(x))
                    else: ctx.unres("keep", "%s = %s" % (f.qual, v))
                elif any(q.op == "call" and (callee_name(q) or "") in ("isnone",) for q in subterms(v)) : ctx.unres("keep", "%s = %s" % (f.qual, v))
                elif v.op == "isnone" or (v.op == "call" and callee_name(v) in APPROX): ctx.bad("keep", x.loc, f.qual, "the mark reported is not the one stored", c.qual + ":prop", path_of(x))
                else: ctx.unres("keep", "%s = %s" % (f.qual, v))
    # copies keep the mark: constructors of certificates from another certificate
    for f in prog.funcs.values():
        if f.cls is None or f.cls not in cs or f.parent is not None: continue
        for n in calls_in(f):
            r = resolve_call(prog, f, n)
            if not isinstance(r, Cls) or r not in cs: continue
            if not f.args or f.args[0] != "self": continue
            kw = {k.arg: k.value for k in n.keywords}
            if "problem" not in kw and not n.args: continue
            v = kw.get("is_equal") or (n.args[4] if len(n.args) > 4 else None)
            loc = "%s:%d" % (f.module.rel, n.lineno)
            if v is None:
                if any(k.arg is None for k in n.keywords): ctx.unres("keep", "%s: **kwargs" % f.qual)
                else: ctx.ok("keep", loc, "mark recomputed by the new certificate")
            elif isinstance(v, ast.Constant): ctx.decide(v.value in (None, False), "keep", loc, f.qual, "a copy of a certificate is marked exact whatever the original was", f.qual + ":copy", f.qual)
            elif isinstance(v, ast.Attribute) and v.attr in ("is_equal", "_is_equal"): ctx.ok("keep", loc, f.qual)
            elif f.name == "from_decompositions": pass
            else: ctx.unres("keep", "%s copies mark from %s" % (f.qual, ast.dump(v)[:60]))
    # nobody else writes the mark
    for f in prog.funcs.values():
        if f.parent is not None: continue
        for n in walk_own(f.node):
            ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
            for t in ts:
                if isinstance(t, ast.Attribute) and t.attr == "_is_equal":
                    loc = "%s:%d" % (f.module.rel, n.lineno)
                    v = getattr(n, "value", None)
                    if isinstance(v, ast.Constant) and v.value is True and f.name not in ("__init__",):
                        x = runf(ctx, "keep", f, merge=False, want_store=lambda a, b: a.op == "attr" and a.a[1] == "_is_equal")
                        ok = bool(x) and all(any(w is True and k.op in ("attr", "eq", "call") for k, w in e.facts.items()) for e in events(x, lambda e: e.kind == "store" and e.val is TRUE))
                        ctx.decide(ok, "keep", loc, f.qual, "a certificate is marked exact unconditionally", f.qual + ":set", f.qual)
                    else: ctx.ok("keep", loc, f.qual)

def check_marks(ctx):
    """no certificate is marked exact by a constant outside the constructors, unless a test on the way established it"""
    prog = ctx.prog
    base, cs = solution_classes(ctx)
    for f in prog.funcs.values():
        if not f.module.name.startswith("triples"): continue
        for n in walk_own(f.node):
            if isinstance(n, ast.Assign) and f.parent is not None:
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and t.attr == "_is_equal":
                        v = n.value
                        ctx.decide(not (isinstance(v, ast.Constant) and v.value is True), "keep", "%s:%d" % (f.module.rel, n.lineno), f.qual, "a certificate is marked exact unconditionally", f.qual + ":set", f.qual)
            if not isinstance(n, ast.Call): continue
            for k in n.keywords:
                if k.arg != "is_equal" or not (isinstance(k.value, ast.Constant) and k.value.value is True): continue
                loc = "%s:%d" % (f.module.rel, n.lineno)
                copy = f.cls is not None and f.cls in cs and f.args[:1] == ["self"]
                if copy: ctx.bad("keep", loc, f.qual, "a copy of a certificate is marked exact whatever the original was", f.qual + ":copy")
                else: ctx.ok("keep", loc, "a literal mark in %s (its exactness is the matter of P02/P03)" % f.qual)

ROUND = {"nsimplify", "evalf", "limit_denominator", "as_array_np", "allclose", "isclose", "rationalize", "rationalize_array", "around", "float64", "N", "round", "n"}
def check_noround(ctx):
    """an approximation of verified data (or of the data to be verified, after the candidate was chosen) cannot be seen by the mark"""
    prog = ctx.prog
    mods = {LIN + "correction": ROUND - {"rationalize", "rationalize_array"}, LIN + "solution": ROUND, SDPSOL[:-1]: ROUND, SOL[:-1]: ROUND}
    roots = [(f, mods[f.module.name]) for f in prog.funcs.values() if f.module.name in mods]
    g = prog.funcs.get("triples.core.sdpsos.sdpsos.SOSProblem.as_solution")
    if g is None: ctx.unres("noround", "SOSProblem.as_solution not found")
    else: roots.append((g, ROUND))
    for f, names in roots:
        if f.name.startswith(("str_", "to_string", "_repr", "__str", "__repr", "_str", "print")) or f.module.name == SOL[:-1] and f.cls is None: continue
        hit = None
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and n.attr in names and isinstance(n.ctx, ast.Load):
                if n.attr in ("n", "N", "round") and not any(isinstance(c, ast.Call) and c.func is n for c in ast.walk(f.node)): continue
                hit = n, n.attr
            elif isinstance(n, ast.Constant) and isinstance(n.value, float) and 0 < abs(n.value) < 1e-2 and not any(n is d for h in ast.walk(f.node) if isinstance(h, ast.arguments) for d in h.defaults + h.kw_defaults): hit = n, "a tolerance (%s)" % n.value
            elif isinstance(n, ast.Name) and n.id in names - {"n"} and isinstance(n.ctx, ast.Load) and n.id not in f.all_params: hit = n, n.id
        if hit is None: ctx.ok("noround", f.loc, f.qual); continue
        ctx.bad("noround", "%s:%d" % (f.module.rel, hit[0].lineno), f.qual, "%s: the data of a certificate is approximated by %s" % (f.qual, hit[1]), f.qual + ":" + hit[1])

def check_display(ctx):
    """'=' appears between the two sides only for exact certificates"""
    prog = ctx.prog
    base, cs = solution_classes(ctx)
    if base is None: return
    seen = 0
    for c in cs:
        for f in [g for g in prog.funcs.values() if g.cls is c and g.parent is None]:
            for n in ast.walk(f.node):
                if isinstance(n, ast.IfExp):
                    a, b = n.body, n.orelse
                    if not (isinstance(a, ast.Constant) and isinstance(b, ast.Constant) and isinstance(a.value, str) and isinstance(b.value, str)): continue
                    vals = (a.value.strip(), b.value.strip())
                    if not any(v in ("≈", "\\approx") for v in vals) and vals.count("=") == 0: continue
                    seen += 1
                    t, neg = n.test, False
                    while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not): t = t.operand; neg = not neg
                    loc = "%s:%d" % (f.module.rel, n.lineno)
                    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant):
                        if isinstance(t.ops[0], (ast.Is, ast.Eq)) and t.comparators[0].value is True: t = t.left
                        elif isinstance(t.ops[0], (ast.IsNot, ast.NotEq)) and t.comparators[0].value is False: ctx.bad("display", loc, f.qual, "an unverified certificate is displayed as an equality", f.qual); continue
                        elif isinstance(t.ops[0], (ast.Is, ast.Eq)) and t.comparators[0].value is False: t = t.left; neg = not neg
                    onmark = isinstance(t, ast.Attribute) and t.attr in ("is_equal", "_is_equal") or (isinstance(t, ast.Name))
                    exact_val = vals[1] if neg else vals[0]; other = vals[0] if neg else vals[1]
                    if not onmark:
                        if other == "=" or "=" not in (exact_val, other): ctx.unres("display", "%s test %s" % (f.qual, ast.dump(t)[:60]))
                        else: ctx.unres("display", "%s test %s" % (f.qual, ast.dump(t)[:60]))
                        continue
                    ctx.decide(other != "=", "display", loc, f.qual, "a certificate that is not exact is displayed with '='", f.qual, f.qual)
            # the sign is really used: a literal '=' concatenated / formatted instead
        for nm in ("str_latex", "str_txt", "str_formatted", "to_string", "_repr_latex_"):
            f = prog.funcs.get("%s.%s" % (c.qual, nm))
            if f is None: continue
            reads = any(isinstance(n, ast.Attribute) and n.attr in ("is_equal", "_is_equal") for n in ast.walk(f.node))
            loc = f.loc
            if reads: ctx.ok("display", loc, f.qual); continue
            # through a helper or a super call
            helpers = [resolve_call(prog, f, n) for n in calls_in(f)]
            via = any(isinstance(h, Func) and any(isinstance(n, ast.Attribute) and n.attr in ("is_equal", "_is_equal") for n in ast.walk(h.node)) for h in helpers)
            if not via:
                for n in ast.walk(f.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self":
                        h = prog.lookup_method(c, n.attr)
                        if h is not None and h is not f and any(isinstance(m, ast.Attribute) and m.attr in ("is_equal", "_is_equal") for m in ast.walk(h.node)): via = True
            lit = any(isinstance(n, ast.Constant) and isinstance(n.value, str) and ("=" == n.value.strip() or "%s = %s" in n.value or " = " in n.value or "%s=%s" in n.value) for n in ast.walk(f.node))
            raw = nm == "_repr_latex_" and any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "_repr_latex_" for n in ast.walk(f.node))
            if via: ctx.ok("display", loc, f.qual)
            elif raw: ctx.bad("display", loc, f.qual, "the certificate is displayed as an equation whatever the exactness mark says", f.qual + ":eq")
            elif lit: ctx.bad("display", loc, f.qual, "%s writes '=' whatever the exactness mark says" % f.qual, f.qual + ":lit")
            else: ctx.unres("display", "%s does not look at the mark" % f.qual)
        f = prog.funcs.get("%s.to_string" % c.qual)
        if f is not None and f.args:
            me = T("p", f.args[0])
            ex = runf(ctx, "display", f, merge=False, inline=is_new)
            for x in ex or []:
                if x.kind != "return" or x.val.op != "fstr": continue
                if not any(y.op == "c" and isinstance(cval(y), str) and cval(y).strip() == "=" for y in x.val.a if isinstance(y, T)): continue
                ok = any(w is True and k in (T("attr", me, "is_equal"), T("attr", me, "_is_equal")) for k, w in x.facts.items())
                ctx.decide(ok, "display", x.loc, f.qual, "an equality sign is written for an exact certificate" if ok else "a certificate that is not exact is displayed with '='", "to_string", "", path_of(x))
        f = prog.funcs.get("%s.is_equal" % c.qual)
        if f is not None and f.args: check_computed(ctx, f)

def check_computed(ctx, f):
    """a mark that was not given is computed by comparing both sides of the certificate exactly"""
    me = T("p", f.args[0])
    ex = runf(ctx, "keep", f, merge=False, inline=is_new, want_store=lambda t, v: t is T("attr", me, "_is_equal"))
    for e in events(ex, lambda e: e.kind == "store"):
        v = e.st.expand(e.val)
        if v in (NONE, FALSE) or v is TRUE: continue
        if v.op == "or" or any(z.op == "lt" or z.op == "call" and callee_name(z) in APPROX for z in subterms(v)): ctx.bad("keep", e.loc, f.qual, "a certificate is marked exact after an approximate comparison", f.qual + ":tol", [str(v)[:200]]); continue
        zero = [s.a[0] for s in subterms(v) if s.op == "attr" and s.a[1] == "is_zero"] + [q for s in subterms(v) if s.op == "eq" for q in s.a if any(z.op == "c" and cval(z) == 0 for z in s.a) and not q.op == "c"]
        pr = T("attr", me, "problem")
        sides = {"prob": pr, "mult": T("attr", me, "multiplier"), "num": T("attr", me, "numerator"), "sol": T("attr", me, "solution")}
        have = {k for k, t in sides.items() if any(s is t for s in subterms(v))} | ({"mult", "num"} if any(s.op == "call" and callee_name(s) == "as_fraction" for s in subterms(v)) else set())
        if v.op == "not" or v.op == "isnone" or (not zero and not any(s.op in ("eq", "call") for s in subterms(v))): ctx.bad("keep", e.loc, f.qual, "a certificate is marked exact without comparing both sides", f.qual + ":computed", [str(v)[:200]]); continue
        if "prob" not in have or not have & {"num", "sol"}: ctx.bad("keep", e.loc, f.qual, "a certificate is marked exact without comparing the problem with the expression", f.qual + ":computed", [str(v)[:200]]); continue
        if "num" in have and "mult" not in have: ctx.bad("keep", e.loc, f.qual, "the problem is compared with the numerator alone, without its multiplier", f.qual + ":mult", [str(v)[:200]]); continue
        ctx.ok("keep", e.loc, "both sides are compared")

def check_optin(ctx):
    f = find(ctx, "optin", "triples.sdp.abstract.SDPProblemBase._solve_from_multiple_configs")
    if f is None: return
    an = T("p", "allow_numer")
    nested = {g.name for g in ctx.prog.funcs.values() if g.parent is f}
    def want(t):
        return t.op == "call" and (callee_name(t) in ("register_y", "rationalize") or callee_name(t) in nested)
    ex = runf(ctx, "optin", f, merge=False, max_states=6000, want=want)
    for e in events(ex or [], lambda e: e.kind == "call"):
        t = e.term; nm = callee_name(t)
        sg = signs(e.facts, lambda z: z is an)
        for k, v in e.facts.items():
            if k is an and v is True: sg &= {1}
        if nm == "register_y":
            ctx.decide(sg == {1}, "optin", e.loc, f.qual, "a numerical vector is registered although numerical answers were not allowed", "register", f.qual, path_of(e))
        elif nm == "rationalize":
            rs = call_kw(t, "rationalizers")
            ident = rs is not None and "IdentityRationalizer" in str(e.st.expand(rs))
            if ident: ctx.decide(sg == {1}, "optin", e.loc, f.qual, "an unrationalised vector is accepted although numerical answers were not allowed", "identity", f.qual, path_of(e))
            else: ctx.ok("optin", e.loc, "rationalisation")

def check_defaults(ctx):
    for f in ctx.prog.funcs.values():
        if "allow_numer" not in f.all_params or "<lambda>" in f.qual: continue
        a = f.node.args
        pos = a.posonlyargs + a.args
        d = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
        d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        v = d.get("allow_numer")
        if v is None: continue
        ok = isinstance(v, ast.Constant) and not v.value
        if not isinstance(v, ast.Constant): ctx.unres("default", f.qual); continue
        ctx.decide(ok, "default", f.loc, f.qual, "numerical answers are allowed by default", f.qual + ":default", f.qual)
    # literals passed down
    for f in ctx.prog.funcs.values():
        if f.module.name.startswith("triples") is False: continue
        for n in calls_in(f):
            for k in n.keywords:
                if k.arg == "allow_numer" and isinstance(k.value, ast.Constant):
                    ctx.decide(not k.value.value, "default", "%s:%d" % (f.module.rel, n.lineno), f.qual, "a caller inside the library allows numerical answers on its own", f.qual + ":literal", f.qual)
