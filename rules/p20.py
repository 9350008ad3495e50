"""P20: transforming a certificate yields a new one and keeps its facts in step."""
import ast
from sa.load import Func, Cls, Ext
from sa.terms import T, C, NONE, TRUE, FALSE, subterms, callee_name, call_args, call_kw, cval
from sa.util import *

TECHNIQUE = "path-sensitive ownership dataflow over the certificate classes (which object a write reaches: the original or a copy), and algebraic value-numbering of what is written and returned"
EXPLANATION = ("Every method of every certificate class is interpreted along all paths. A write to a field, or a modifying call on a table of constraints, must reach a copy made in that call, "
  "never the original (memoised exactness and an explicitly requested in-place change excepted), and the copy must take over all fields. A rewriting method must return the object it wrote to, "
  "and the expression it stores must be made from the expression of the original. Dehomogenising replaces the same symbol by 1 in the problem and in the expression, and drops the symbol from a symmetric sum only "
  "under the fact that the group fixes it. The numerator and the multiplier are evaluated as monomials over 'content' and 'primitive part' and their quotient must be the expression. "
  "A certificate built from another one takes over its exactness mark. Not covered: what SymPy's substitution and simplification functions compute; substitution acts on the expression only, as documented.")

S = "triples.utils.expression.solution."
MEMO = {"_is_equal", "_start_time", "_end_time"}
FIELDS = ("problem", "solution", "ineq_constraints", "eq_constraints")
MUT = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add", "discard", "__setitem__", "__delitem__", "setattr", "delattr"}
REWRITERS = ("xreplace", "signsimp", "doit", "collect", "rewrite_symmetry", "dehomogenize")

def cname(t): return callee_name(t) if t.op == "call" else None

def run(ctx):
    ctx.rule("original", "no method writes to the certificate it was called on")
    ctx.rule("copy", "a copy is a new object with all the fields of the original")
    ctx.rule("result", "a rewriting method returns the copy it wrote to, with an expression made from the original's")
    ctx.rule("dehom", "dehomogenising sets the same symbol to 1 in the problem and in the expression")
    ctx.rule("fraction", "numerator divided by multiplier is the expression; an equation multiplies both sides alike")
    ctx.rule("mark", "the exactness mark of the result is not stronger than that of the original")
    base = ctx.prog.classes.get(S + "Solution")
    if base is None: ctx.unres("original", "class Solution not found"); return
    cs = [c for c in ctx.prog.classes.values() if base in ctx.prog.mro(c)]
    for c in cs:
        for f in [g for g in ctx.prog.funcs.values() if g.cls is c and g.parent is None]:
            if f.name in ("__init__", "__new__") or any("classmethod" in ast.dump(d) or "staticmethod" in ast.dump(d) for d in f.decorators) or not f.args: continue
            ctx.section(check_method, ctx, c, f)
    for fn in (check_copy, check_dehom, check_deflate, check_fraction, check_eq, check_simple): ctx.section(fn, ctx)

def is_copy(t, me):
    """a fresh object standing for the same certificate"""
    if t.op != "call": return False
    n = cname(t)
    f = t.a[0]
    if n == "copy" and f.op == "attr" and f.a[0] is me and not t.a[1]: return True
    if n in ("copy", "deepcopy", "replace") and len(t.a[1]) >= 1 and t.a[1][0] is me: return True
    if n == "__new__": return True
    return False

def root(t):
    while t.op in ("attr", "sub", "item"): t = t.a[0]
    return t

def inplace_asked(facts): return any(k.op == "p" and w is True and "inplace" in k.a[0] for k, w in facts.items())

def check_method(ctx, c, f):
    me = T("p", f.args[0])
    ex = runf(ctx, "original", f, merge=False, inline=is_new, want=lambda t: t.op == "call", want_store=lambda t, v: t.op in ("attr", "sub"))
    if ex is None: return
    memo = any("property" in ast.dump(d) for d in f.decorators)
    for x in ex:
        if x.kind != "return": continue
        mine = []
        for e in x.events:
            if e.kind == "store":
                t = e.term
                r = root(t)
                if r is me:
                    if f.name == "is_equal" and t is T("attr", me, "_is_equal") and e.val is TRUE:
                        seen = any((s.op == "attr" and s.a[0] is me and s.a[1] in ("problem", "solution", "numerator", "multiplier", "as_eq", "as_fraction", "as_expr")) or s.op in ("phi",) for k in e.facts for s in subterms(x.st.expand(k)) if not (k.op == "isnone"))
                        ctx.decide(seen, "mark", e.loc, f.qual, "the mark is set after a comparison" if seen else "the certificate is marked exact without comparing it with the problem", f.name + ":const", "", path_of(x))
                        continue
                    # depth: self.attr = ... / self.attr[...] = ...
                    a = t
                    while a.op != "attr" or a.a[0] is not me:
                        a = a.a[0]
                    if t.op == "attr" and a is t and (t.a[1] in MEMO and f.name in ("is_equal",) or t.a[1].startswith("_") and t.a[1] not in ("_is_equal",)): ctx.ok("original", e.loc, "memo %s" % t.a[1]); continue
                    if t.op == "attr" and t.a[1] == "_is_equal" and e.val is not TRUE and (f.name == "is_equal" or e.val is t or any(k.op == "isnone" and k.a[0] is t and w is True for k, w in e.facts.items())): ctx.ok("original", e.loc, "memo"); continue
                    ok = inplace_asked(e.facts)
                    ctx.decide(ok, "original", e.loc, f.qual, "in-place change on request" if ok else "%s of the original certificate is overwritten" % a.a[1], "%s:%s" % (f.name, a.a[1]), "", path_of(x))
                elif t.op == "sub" and table_of(x.st.expand(t.a[0]), me):
                    k = table_of(x.st.expand(t.a[0]), me)
                    ok = inplace_asked(e.facts)
                    ctx.decide(ok, "original", e.loc, f.qual, "in-place change on request" if ok else "an entry of %s of the original certificate is overwritten" % k, "%s:%s" % (f.name, k), "", path_of(x))
                elif is_copy(r, me) and t.op == "attr":
                    mine.append((t.a[1], e, r)); ctx.ok("original", e.loc, "writes %s of the copy" % t.a[1])
                elif is_copy(r, me):
                    # an item of a table shared with the original
                    shared = not any(v is not None for v in [next((e2 for e2 in x.events if e2.kind == "store" and e2 is not e and e2.term is t.a[0]), None)])
                    if shared and attr_of(t, r) in FIELDS: ctx.bad("original", e.loc, f.qual, "an entry of %s, which the copy shares with the original, is overwritten" % attr_of(t, r), "%s:shared" % f.name, path_of(x))
            elif e.kind == "call":
                t = e.term
                n = cname(t)
                if n in ("setattr", "delattr") and t.a[1] and root(t.a[1][0]) is me:
                    if inplace_asked(e.facts): continue
                    ctx.bad("original", e.loc, f.qual, "a field of the original certificate is overwritten", "%s:setattr" % f.name, path_of(x))
                elif t.a[0].op == "attr" and t.a[0].a[0] is me and any(k == "inplace" and v is TRUE for k, v in t.a[2]):
                    ctx.decide(inplace_asked(e.facts), "original", e.loc, f.qual, "the original certificate is changed in place", "%s:inplace" % f.name, "", path_of(x))
                elif n in MUT and t.a[0].op == "attr":
                    b = t.a[0].a[0]
                    r = root(b)
                    if b.op == "attr" and (b.a[0] is me or is_copy(b.a[0], me)) and b.a[1] in FIELDS:
                        ok = inplace_asked(e.facts)
                        ctx.decide(ok, "original", e.loc, f.qual, "in place" if ok else "%s of the original certificate is modified" % b.a[1], "%s:%s" % (f.name, b.a[1]), "", path_of(x))
                    elif b.op == "attr" and b.a[0] is me and b.a[1] == "__dict__": ctx.bad("original", e.loc, f.qual, "the fields of the original certificate are modified", "%s:dict" % f.name, path_of(x))
        # result
        if f.name in REWRITERS:
            v = x.val
            if v is me:
                wrote = bool(mine)
                none = any((k.op == "isnone" and w is True and k.a[0].op == "p") or (k.op == "in" and w is False) for k, w in x.facts.items())
                if wrote: ctx.bad("result", x.loc, f.qual, "the rewritten copy is not returned", f.name, path_of(x))
                elif none: ctx.ok("result", x.loc, "nothing to rewrite")
                else: ctx.unres("result", "%s: returns the certificate itself" % x.loc)
                continue
            if not is_copy(v, me):
                ctx.unres("result", "%s: returns %s" % (x.loc, str(v)[:80])); continue
            st = [e for a, e, r in mine if a == "solution" and r is v]
            if not st: ctx.bad("result", x.loc, f.qual, "the copy is returned without the rewritten expression", f.name + ":missing", path_of(x)); continue
            src = T("attr", me, "solution"), T("attr", v, "solution")
            val = x.st.expand(st[-1].val)
            ok = any(s in src for s in subterms(val))
            ctx.decide(ok, "result", st[-1].loc, f.qual, "the new expression is made from the old one" if ok else "the new expression is not made from the expression of the certificate", f.name + ":from", "", [str(val)[:200]])
            if ok and st[-1].val in src: ctx.bad("result", st[-1].loc, f.qual, "the expression is not rewritten", f.name + ":same", [])
            if ok and f.name in ("xreplace", "doit", "collect"):
                for s in subterms(val):
                    if cname(s) == f.name and s.a[0].op == "attr" and s.a[0].a[0] in src:
                        fwd = any(y.op == "star" for y in s.a[1]) or any(y.op == "p" for y in s.a[1])
                        if not fwd and any(a_ in ("args",) for a_ in f.all_params): ctx.bad("result", st[-1].loc, f.qual, "the arguments are not handed to %s" % f.name, f.name + ":args", [str(val)[:200]])
            for a, e, r in mine:
                if a in ("_is_equal",):
                    v2 = e.val
                    ok = v2 is FALSE or v2 is NONE or v2 in (T("attr", me, "_is_equal"), T("attr", v, "_is_equal"), T("attr", me, "is_equal"))
                    if v2 is TRUE: ctx.bad("mark", e.loc, f.qual, "the rewritten certificate is marked exact whatever the original was", f.name, path_of(x))
                    elif ok: ctx.ok("mark", e.loc, "mark kept")
                    elif stronger(v2, me, v) or unrelated(x.st.expand(v2), me, v): ctx.bad("mark", e.loc, f.qual, "the rewritten certificate is marked exact on more than the mark of the original", f.name, [str(v2)[:150]])
                    else: ctx.unres("mark", "%s: %s" % (e.loc, str(v2)[:80]))
                if a in FIELDS and a != "solution" and f.name != "dehomogenize":
                    if e.val not in (T("attr", me, a), T("attr", v, a)):
                        if f.name in ("signsimp", "doit", "collect", "rewrite_symmetry") and a == "problem" and any(s in (T("attr", me, a), T("attr", v, a)) for s in subterms(x.st.expand(e.val))): ctx.ok("result", e.loc, "problem rewritten along")
                        elif f.name == "xreplace": ctx.unres("result", "%s: %s" % (e.loc, a))
                        else: ctx.unres("result", "%s: %s = %s" % (e.loc, a, str(e.val)[:60]))

def unrelated(t, *objs):
    """a mark that is computed neither from the original mark nor from a comparison with the problem"""
    return not any((s.op == "attr" and s.a[0] in objs and s.a[1] in ("_is_equal", "is_equal", "problem")) or s.op == "p" and "equal" in s.a[0] or s.op == "call" and s.a[0].op == "attr" and s.a[0].a[0] in objs and s not in objs for s in subterms(t))

def stronger(t, *objs):
    """a disjunction of the original mark with something else"""
    marks = [T("attr", o, k) for o in objs for k in ("_is_equal", "is_equal")]
    parts = []
    def flat(y):
        if y.op == "or" or (y.op == "bool" and y.a[0] == "Or"):
            for z in (y.a if y.op == "or" else y.a[1:]):
                for q in (z if isinstance(z, tuple) else (z,)): flat(q)
        else: parts.append(y)
    flat(t)
    return len(parts) > 1 and any(q in marks for q in parts) and any(q not in marks and q not in (FALSE, NONE) for q in parts)

def table_of(t, me):
    """the table of the certificate a container term is one of, when it is reached through a display of tables"""
    def own(y): return y.op == "attr" and (y.a[0] is me or is_copy(y.a[0], me)) and y.a[1] in ("ineq_constraints", "eq_constraints")
    if t.op == "bv" and isinstance(t.a[0], T) and t.a[0].op in ("tuple", "list"):
        for y in t.a[0].a:
            if isinstance(y, T) and own(y): return y.a[1]
    return None

def attr_of(t, r):
    while t.op in ("attr", "sub", "item"):
        if t.op == "attr" and t.a[0] is r: return t.a[1]
        t = t.a[0]
    return None

def check_copy(ctx):
    f = find(ctx, "copy", S + "Solution.copy")
    if f is None: return
    me = T("p", f.args[0])
    ex = runf(ctx, "copy", f, merge=False, inline=is_new, want=lambda t: t.op == "call", want_store=lambda t, v: True)
    for x in ex or []:
        if x.kind != "return": continue
        v = x.val
        if v is me: ctx.bad("copy", x.loc, f.qual, "the original itself is returned", "self", path_of(x)); continue
        n = cname(v) if v.op == "call" else None
        if n in ("copy", "deepcopy") and v.a[1] and v.a[1][0] is me: ctx.ok("copy", x.loc, "copied by the standard library"); continue
        own = T("attr", me, "__dict__")
        cls = {T("attr", me, "__class__")} | {s for s in subterms(v) if cname(s) == "type" and s.a[1] and s.a[1][0] is me}
        if n == "__new__":
            upd = [e for e in x.events if e.kind == "call" and cname(e.term) == "update" and e.term.a[0].op == "attr" and e.term.a[0].a[0] is T("attr", v, "__dict__")]
            sto = [e for e in x.events if e.kind == "store" and e.term is T("attr", v, "__dict__")]
            ups = [s for e in upd for y in call_args(e.term) for s in subterms(x.st.expand(y))] + [s for e in sto for s in subterms(x.st.expand(e.val))]
            alias = [e for e in sto if e.val is own]
            if alias: ctx.bad("copy", x.loc, f.qual, "the copy shares its fields with the original", "alias", path_of(x)); continue
            vs = any(cname(s) == "vars" and s.a[1][0] is me for s in ups)
            loops = any(e.kind == "call" and cname(e.term) == "setattr" for e in x.events)
            # a selection of the fields
            cut = None
            for e in upd:
                for y in e.term.a[1]:
                    if y.op in ("comp", "dictcomp") and any(isinstance(q, tuple) and q and any(s is own or cname(s) == "vars" for s in subterms(y)) for q in (y.a[3],)): cut = y.a[3]
            if cut:
                ctx.bad("copy", x.loc, f.qual, "only a part of the fields is copied", "part", [str(k)[:100] for k in cut if isinstance(k, T)]); continue
            if own in ups or vs: ctx.ok("copy", x.loc, "all fields are copied")
            elif loops or any(isinstance(n, ast.Name) and n.id == "setattr" for n in ast.walk(f.node)) or any(e.kind == "store" for e in x.events): ctx.unres("copy", "%s: field by field" % x.loc)
            else: ctx.bad("copy", x.loc, f.qual, "the fields are not copied", "fields", path_of(x))
            ok = any(s in cls for s in subterms(v))
            ctx.decide(ok, "copy", x.loc, f.qual, "same class" if ok else "the copy is not of the class of the original", "class", "", [str(v)[:100]])
        elif v.op == "call":
            have = {k for k in FIELDS if any(s is T("attr", me, k) for y in call_args(v) + [z for _, z in v.a[2]] for s in subterms(x.st.expand(y)))}
            mk = any(s.op == "attr" and s.a[0] is me and s.a[1] in ("_is_equal", "is_equal") for y in call_args(v) + [z for _, z in v.a[2]] for s in subterms(y)) or any(e.kind == "store" and e.term is T("attr", v, "_is_equal") for e in x.events)
            d = any(e.kind == "call" and cname(e.term) == "update" and own in call_args(e.term) for e in x.events)
            if d: ctx.ok("copy", x.loc, "all fields are copied")
            elif n in ("Solution", "SolutionSimple") or v.a[0] in cls: ctx.decide(len(have) == 4 and mk, "copy", x.loc, f.qual, "all fields are handed on" if len(have) == 4 and mk else "the copy loses %s" % ", ".join([k for k in FIELDS if k not in have] + ([] if mk else ["the exactness mark"])), "fields", "", [str(v)[:200]])
            else: ctx.unres("copy", "%s: %s" % (x.loc, str(v)[:80]))
        else: ctx.unres("copy", "%s: %s" % (x.loc, str(v)[:80]))

def substitution(t):
    """[(symbol, value)] of subs(x, v) / subs({x: v}) / xreplace({x: v}) / eval(x, v), with the object it acts on"""
    n = cname(t)
    if n not in ("subs", "xreplace", "eval", "replace") or t.a[0].op != "attr": return None
    a = t.a[1]
    if n in ("subs", "eval", "replace") and len(a) == 2: return t.a[0].a[0], [(a[0], a[1])]
    if len(a) == 1:
        d = a[0]
        if d.op == "dict": return t.a[0].a[0], [tuple(p.a) if isinstance(p, T) else tuple(p) for p in d.a]
        if d.op in ("list", "tuple") and all(isinstance(p, T) and p.op == "tuple" and len(p.a) == 2 for p in d.a): return t.a[0].a[0], [tuple(p.a) for p in d.a]
    return t.a[0].a[0], None

def check_dehom(ctx):
    f = find(ctx, "dehom", S + "SolutionSimple.dehomogenize")
    if f is None: return
    me = T("p", f.args[0]); h = T("p", f.args[1])
    ex = runf(ctx, "dehom", f, merge=False, inline=lambda g: is_new(g) or g.parent is f and not g.name.startswith("_deflat"), want=lambda t: t.op == "call", want_store=lambda t, v: t.op == "attr")
    for x in ex or []:
        if x.kind != "return": continue
        no = any(k.op == "isnone" and k.a[0] is h and w is True for k, w in x.facts.items())
        if no:
            ctx.decide(not any(e.kind == "store" for e in x.events), "dehom", x.loc, f.qual, "nothing to do without a homogenising symbol", "none", "", path_of(x)); continue
        if x.val is me:
            # nothing to remove: the symbol must be absent from the problem as well
            about = {s.a[1] for k, w in x.facts.items() for s in subterms(k) if s.op == "attr" and s.a[0] is me}
            if "solution" in about and "problem" not in about and not any(s.op == "p" and s not in (me, h) or s.op == "call" and cname(s) is None for k in x.facts for s in subterms(k)):
                ctx.bad("dehom", x.loc, f.qual, "the homogenising symbol is left in the problem when only the expression is free of it", "early", path_of(x))
            else: ctx.unres("dehom", "%s: nothing done" % x.loc)
            continue
        for fld in ("problem", "solution"):
            st = [e for e in x.events if e.kind == "store" and e.term is T("attr", x.val, fld)]
            if not st: ctx.bad("dehom", x.loc, f.qual, "the homogenising symbol is not removed from the %s" % fld, fld, path_of(x)); continue
            val = x.st.expand(st[-1].val)
            src = (T("attr", x.val, fld), T("attr", me, fld))
            subs = [substitution(s) for s in subterms(val) if substitution(s) is not None]
            subs = [p for o, ps in subs if ps for p in ps if p[0] is h]
            fsrc = any(s in src for s in subterms(val))
            if not fsrc: ctx.bad("dehom", st[-1].loc, f.qual, "the %s is not made from the %s of the certificate" % (fld, fld), fld + ":from", [str(val)[:150]]); continue
            ones = [p for p in subs if (p[1].op == "c" and cval(p[1]) == 1) or str(p[1]) in ("One", "S.One")]
            if ones and len(ones) == len(subs): ctx.ok("dehom", st[-1].loc, "%s: homogenising symbol set to 1" % fld)
            elif subs: ctx.bad("dehom", st[-1].loc, f.qual, "the homogenising symbol is set to something else than 1 in the %s" % fld, fld + ":one", [str(p) for p in subs])
            elif any(s is h for s in subterms(val)): ctx.unres("dehom", "%s: %s" % (st[-1].loc, str(val)[:100]))
            else: ctx.bad("dehom", st[-1].loc, f.qual, "the homogenising symbol is not removed from the %s" % fld, fld, [str(val)[:150]])

def check_deflate(ctx):
    """a symmetric sum loses a symbol only if the group fixes it"""
    par = ctx.prog.funcs.get(S + "SolutionSimple.dehomogenize")
    if par is None: return
    for f in ctx.prog.funcs.values():
        if f.module is not par.module or isinstance(f.node, ast.Lambda): continue
        if not (f.parent is par or is_new(f)): continue
        if len(f.args) < 1: continue
        ex = runf(ctx, "dehom", f, merge=False, inline=is_new)
        for x in ex or []:
            if x.kind != "return" or x.val.op != "call" or not len(call_args(x.val)) == 3: continue
            v = x.val
            pos = list(v.a[1]) if len(v.a[1]) == 3 else [dict(v.a[2])["expr"]] + list(v.a[1]) if len(v.a[1]) == 2 and "expr" in dict(v.a[2]) else call_args(v)
            b, sy, gr = (x.st.expand(y) for y in pos)
            if not (v.a[0].op == "attr" and v.a[0].a[1] in ("func", "__class__")) and cname(v) not in ("CyclicSum", "CyclicProduct"): continue
            if sy.op != "sub" or sy.a[1].op != "slice": ctx.unres("dehom", "%s: %s" % (x.loc, str(sy)[:80])); continue
            lo, hi = sy.a[1].a[0], sy.a[1].a[1]
            if (lo.op == "c" and isinstance(cval(lo), int) and cval(lo) > 0) and any(k.op == "eq" and w is True and any(s.op == "sub" and s.a[0] is sy.a[0] and s.a[1].op != "slice" and not (s.a[1].op == "c" and cval(s.a[1]) == 0) for s in k.a) for k, w in x.facts.items()):
                ctx.bad("dehom", x.loc, f.qual, "the sum loses another symbol than the tested one", "deflate-sym", path_of(x)); continue
            if not (lo is NONE or (lo.op == "c" and cval(lo) == 0)): ctx.unres("dehom", "%s: %s" % (x.loc, str(sy)[:80])); continue
            kind = v.a[0]
            if not (kind.op == "attr" and kind.a[1] in ("func", "__class__")):
                own_type = any(cname(s) in ("isinstance", "issubclass", "type") and cname(v) in str(k) for k in x.facts for s in subterms(k))
                if own_type: ctx.unres("dehom", "%s: class by test" % x.loc)
                else: ctx.bad("dehom", x.loc, f.qual, "a symmetric sum or product is rebuilt as a %s whatever it was" % cname(v), "deflate-class", path_of(x))
            for s in subterms(gr):
                it = s.a[2] if s.op == "comp" else s.a[0] if s.op == "each" else None
                if isinstance(it, T) and it.op == "sub" and it.a[1].op == "slice" and it.a[0].op == "attr" and it.a[0].a[1] in ("args", "generators"):
                    ctx.bad("dehom", x.loc, f.qual, "only some generators of the group are taken over", "deflate-gens", [str(it)[:120]])
            fixed = moved = False
            for k, w in x.facts.items():
                if w is True and k.op == "eq" and any(y.op == "c" and cval(y) == 1 for y in k.a):
                    for y in k.a:
                        for s in subterms(y):
                            if cname(s) == "orbit" and call_args(s) and call_args(s)[0] is hi: fixed = True
                            elif cname(s) == "orbit": moved = True
                if (k.op == "call" or k.op == "eq") and any(cname(s) in ("stabilizer", "forall", "all") for s in subterms(k)): moved = None
            is_h = any(k.op == "eq" and w is True and any(s.op == "sub" and s.a[0] is sy.a[0] and (s.a[1] is hi or (s.a[1].op == "c" and cval(s.a[1]) == -1)) for s in k.a) for k, w in x.facts.items())
            if moved is None: ctx.unres("dehom", "%s: invariance test" % x.loc); continue
            ctx.decide(fixed, "dehom", x.loc, f.qual, "the dropped symbol is fixed by the group" if fixed else "a symbol is dropped from a symmetric sum without testing that the group fixes it", "deflate", "", path_of(x))
            ctx.decide(is_h, "dehom", x.loc, f.qual, "the dropped symbol is the homogenising one" if is_h else "a symbol is dropped from a symmetric sum without testing that it is the homogenising one", "deflate-sym", "", path_of(x))

# ---------------------------------------------------------------- values of numerator / multiplier
class Unknown(Exception): pass
class Lost(Exception): pass

def monom(t, st, env):
    """{atom: exponent} with a sign; sums are atoms unless they distribute a factor over the arguments of an atom"""
    def mul(a, b, e=1):
        r = dict(a[1])
        for k, v in b[1].items():
            r[k] = r.get(k, 0) + e * v
            if r[k] == 0: del r[k]
        return (a[0] * b[0], r)
    one = (1, {})
    if t.op == "c":
        v = cval(t)
        if v == 1: return one
        if v == -1: return (-1, {})
        raise Unknown(str(t)[:60])
    if t.op == "g":
        n = t.a[0].split(".")[-1] if t.a[0] else ""
        if n == "One": return one
        if n == "NegativeOne": return (-1, {})
    if t.op == "attr" and t.a[1] == "One": return one
    if t.op == "neg":
        s, m = monom(t.a[0], st, env); return (-s, m)
    if t.op == "bin" and t.a[0] in ("Mult", "Div"):
        return mul(monom(t.a[1], st, env), monom(t.a[2], st, env), 1 if t.a[0] == "Mult" else -1)
    if t.op == "bin" and t.a[0] == "Pow" and t.a[2].op == "c" and cval(t.a[2]) in (-1, 1): return mul(one, monom(t.a[1], st, env), cval(t.a[2]))
    if t.op == "call":
        n = cname(t)
        if n in ("together", "cancel", "expand", "factor", "sympify", "doit", "as_expr") :
            o = t.a[0].a[0] if t.a[0].op == "attr" and not t.a[1] else (t.a[1][0] if t.a[1] else None)
            if o is not None: return monom(o, st, env)
        if n == "Mul":
            r = one
            for y in t.a[1]:
                if y.op == "star": raise Unknown("star")
                r = mul(r, monom(y, st, env))
            return r
        if n == "Add" and len(t.a[1]) == 1 and t.a[1][0].op == "star":
            s = t.a[1][0].a[0]
            # Add(*[c * arg for arg in m.args]) = c * m
            el = it = None
            if s.op == "comp" and s.a[3] == () : el, it = s.a[1], s.a[2]
            elif s.op == "list" and len(s.a) == 1 and isinstance(s.a[0], T) and s.a[0].op == "each" : it, el = s.a[0].a[0], s.a[0].a[1]
            fl = None
            if s.op == "comp" and s.a[3] != (): fl, src = s.a[3], s.a[2]
            elif s.op == "list" and len(s.a) == 1 and isinstance(s.a[0], T) and s.a[0].op == "each" and len(s.a[0].a) > 2: fl, src = s.a[0].a[2:], s.a[0].a[0]
            if fl is not None:
                zero = any("zero" in str(y) or y.op == "c" and cval(y) == 0 for k in fl if isinstance(k, T) for y in subterms(k))
                if not zero and src.op == "attr" and src.a[1] == "args": raise Lost("the terms of a sum are filtered: %s" % ", ".join(str(k)[:80] for k in fl))
            if el is None or fl: raise Unknown(str(s)[:80])
            m = it.a[0] if it.op == "attr" and it.a[1] == "args" else None
            if m is None: raise Unknown(str(it)[:80])
            bv = [q for q in subterms(el) if q.op == "bv" and q.a[0] is it]
            if len(bv) != 1: raise Unknown(str(el)[:80])
            s1, e1 = monom(el, st, env)
            k = ("atom", bv[0])
            if e1.get(k) != 1: raise Unknown("not linear in the argument")
            e1 = {a: b for a, b in e1.items() if a != k}
            return mul((s1, e1), monom(m, st, env))
        if n == "as_content_primitive": pass
    if t.op == "item" and t.a[0].op == "call":
        c = t.a[0]; n = cname(c)
        if n in ("as_content_primitive", "as_coeff_Mul", "primitive") and c.a[0].op == "attr":
            if t.a[1] == 0: return (1, {("content", c): 1})
            if t.a[1] == 1: return mul(monom(c.a[0].a[0], st, env), (1, {("content", c): 1}), -1)
        if n == "fraction" and len(c.a[1]) == 1:
            den = (1, {("den", c): 1})
            if t.a[1] == 1: return den
            if t.a[1] == 0: return mul(monom(c.a[1][0], st, env), den)
        if n == "as_numer_denom" and c.a[0].op == "attr":
            den = (1, {("den", c): 1})
            if t.a[1] == 1: return den
            if t.a[1] == 0: return mul(monom(c.a[0].a[0], st, env), den)
    if t.op == "sub" and t.a[1].op == "c" and isinstance(cval(t.a[1]), int): return monom(T("item", t.a[0], cval(t.a[1])), st, env) if t.a[0].op == "call" else (1, {("atom", t): 1})
    if t.op in ("p", "attr", "bv", "item"): return (1, {("atom", t): 1})
    raise Unknown(str(t)[:80])

def check_fraction(ctx):
    f = find(ctx, "fraction", S + "SolutionSimple.as_fraction")
    if f is None: return
    me = T("p", f.args[0])
    sol = T("attr", me, "solution")
    ex = runf(ctx, "fraction", f, merge=False, inline=is_new, want_store=lambda t, v: t is sol)
    for x in ex or []:
        if x.kind != "return": continue
        v = x.val
        if v.op != "tuple" or len(v.a) != 2: ctx.unres("fraction", "%s: %s" % (x.loc, str(v)[:80])); continue
        try:
            n, d = (monom(x.st.expand(y), x.st, None) for y in v.a)
        except Lost as e:
            ctx.bad("fraction", x.loc, f.qual, str(e)[:200], "lost", path_of(x)); continue
        except Unknown as e:
            ctx.unres("fraction", "%s: %s" % (x.loc, e)); continue
        q = dict(n[1])
        for k, w in d[1].items():
            q[k] = q.get(k, 0) - w
            if not q[k]: del q[k]
        ok = (n[0] * d[0], q) == (1, {("atom", sol): 1})
        ctx.decide(ok, "fraction", x.loc, f.qual, "numerator / multiplier is the expression" if ok else "numerator divided by multiplier is not the expression", "value", "", ["%s%s" % ("-" if n[0] * d[0] < 0 else "", ", ".join("%s^%s" % (str(k[1])[:70], w) for k, w in q.items()))])
        for e in x.events:
            try: s = monom(x.st.expand(e.val), x.st, None)
            except Lost as u: ctx.bad("fraction", e.loc, f.qual, str(u)[:200], "lost", path_of(x)); continue
            except Unknown as u: ctx.unres("fraction", "%s: %s" % (e.loc, u)); continue
            ok = s == (1, {("atom", sol): 1})
            ctx.decide(ok, "fraction", e.loc, f.qual, "the in-place change keeps the value" if ok else "the in-place change alters the value of the expression", "inplace", "", [str(e.val)[:150]])

def check_eq(ctx):
    f = find(ctx, "fraction", S + "SolutionSimple.as_eq")
    if f is None: return
    me = T("p", f.args[0])
    sol, prob = T("attr", me, "solution"), T("attr", me, "problem")
    ex = runf(ctx, "fraction", f, merge=False, inline=is_new)
    for x in ex or []:
        if x.kind != "return": continue
        v = x.val
        if cname(v) not in ("Equality", "Eq") or len(call_args(v)) < 2: ctx.unres("fraction", "%s: %s" % (x.loc, str(v)[:80])); continue
        def val(y):
            r = {}
            s = 1
            y = x.st.expand(y)
            # as_fraction() items
            def rec(t, e):
                nonlocal s
                if t.op == "bin" and t.a[0] in ("Mult", "Div"): rec(t.a[1], e); rec(t.a[2], e if t.a[0] == "Mult" else -e); return
                if t.op == "neg": s = -s; rec(t.a[0], e); return
                if t.op == "item" and cname(t.a[0]) == "as_fraction":
                    if t.a[1] == 0: add("sol", e); add("den", e)
                    else: add("den", e)
                    return
                if t is sol or (cname(t) in ("together", "as_expr", "cancel") and t.a[0].op == "attr" and t.a[0].a[0] is sol): add("sol", e); return
                if t is prob or (cname(t) == "as_expr" and t.a[0].op == "attr" and t.a[0].a[0] is prob) or t.op == "p": add("prob", e); return
                if t.op == "call" and cname(t) == "Mul":
                    for z in t.a[1]: rec(z, e)
                    return
                raise Unknown(str(t)[:80])
            def add(k, e):
                r[k] = r.get(k, 0) + e
                if not r[k]: del r[k]
            rec(y, 1)
            return s, r
        try: l, r = val(call_args(v)[0]), val(call_args(v)[1])
        except Unknown as u: ctx.unres("fraction", "%s: %s" % (x.loc, u)); continue
        l[1]["prob"] = l[1].get("prob", 0) - 1; r[1]["sol"] = r[1].get("sol", 0) - 1
        clean = lambda p: (p[0], {k: w for k, w in p[1].items() if w})
        ok = clean(l) == clean(r)
        if not ok:  # the sides may be swapped
            l[1]["prob"] += 1; l[1]["sol"] = l[1].get("sol", 0) - 1; r[1]["sol"] += 1; r[1]["prob"] = r[1].get("prob", 0) - 1
            ok = clean(l) == clean(r)
        ctx.decide(ok, "fraction", x.loc, f.qual, "both sides are multiplied alike" if ok else "the two sides of the equation are multiplied by different factors", "eq", "", [str(v)[:200]])

def check_simple(ctx):
    base = ctx.prog.classes.get(S + "Solution")
    cs = {c.name for c in ctx.prog.classes.values() if base in ctx.prog.mro(c)}
    for c in [c for c in ctx.prog.classes.values() if base in ctx.prog.mro(c)]:
        for f in [g for g in ctx.prog.funcs.values() if g.cls is c and g.parent is None and g.args]:
            if f.name == "copy" or any("classmethod" in ast.dump(d) or "staticmethod" in ast.dump(d) for d in f.decorators): continue
            if not any(isinstance(n, ast.Call) and (getattr(n.func, "id", None) in cs or getattr(n.func, "attr", None) in cs) for n in ast.walk(f.node)): continue
            me = T("p", f.args[0])
            ex = runf(ctx, "mark", f, merge=False, inline=is_new)
            for x in ex or []:
                if x.kind != "return" or x.val.op != "call" or cname(x.val) not in cs: continue
                v = x.val
                for i, k in enumerate(("problem", "solution", "ineq_constraints", "eq_constraints")):
                    y = call_kw(v, k, i)
                    if y is None: ctx.bad("mark", x.loc, f.qual, "the new certificate loses the %s of the original" % k, "%s:%s" % (f.name, k), [str(v)[:200]]); continue
                    y = x.st.expand(y)
                    other = [s for s in subterms(y) if s.op == "attr" and s.a[0] is me and s.a[1] in FIELDS]
                    if any(s.a[1] == k for s in other): ctx.ok("mark", x.loc, "%s taken over" % k)
                    elif other: ctx.bad("mark", x.loc, f.qual, "the %s of the new certificate is the %s of the original" % (k, other[0].a[1]), "%s:%s" % (f.name, k), [str(v)[:200]])
                    else: ctx.unres("mark", "%s: %s" % (x.loc, str(y)[:80]))
                m = call_kw(v, "is_equal", 4)
                if m is TRUE: ctx.bad("mark", x.loc, f.qual, "the new certificate is marked exact whatever the original was", f.name, [str(v)[:200]])
                elif m is None: ctx.ok("mark", x.loc, "the mark is recomputed")
                elif m.op == "attr" and m.a[0] is me and m.a[1] in ("is_equal", "_is_equal"): ctx.ok("mark", x.loc, "the mark is taken over")
                else: ctx.unres("mark", "%s: %s" % (x.loc, str(m)[:80]))
