"""P19: helper symbols never collide with the caller's symbols."""
import ast
from sa.load import walk_own
from sa.terms import T, C, NONE, TRUE, FALSE, subterms, callee_name, call_args, call_kw, cval
from sa.util import *
from sa.effects import MUTATORS
from rules.p04 import wrappers, closure_flags, entries, base_of

TECHNIQUE = "taint-style dataflow on symbol names: each auxiliary symbol or placeholder function is traced from where it is made (constant name, unique object, chosen name and the names it avoids) to where it joins an expression of the caller"
EXPLANATION = ("For every call that chooses a fresh name, the set of expressions it has to avoid is computed as a term; it must contain the variables of the problem and the labels of every constraint table the function reads labels from. "
  "A placeholder function used to mark or replace parts of a certificate must have such a name, the same one in marking, replacing and testing; the numbered placeholders of inequalities and equations have different prefixes and a counter that "
  "advances with every constraint. A symbol used to homogenise, or added to the variables of the caller's polynomial, must not have a constant name, and symbols that are unique objects (Dummy) stay so. "
  "The generated parameters of a semidefinite problem start above all those already in its matrices. The canonical letters of the structural solvers are renamed before labels are inserted. "
  "Not covered: letters used inside a closed computation whose result has no free symbol.")

UN = "uniquely_named_symbol"
def cname(t): return callee_name(t) if t.op == "call" else None

def const_text(t):
    """a text that does not depend on the caller"""
    if t.op == "c": return True
    if t.op == "fstr": return all(const_text(x) or (x.op == "call" and cname(x) in ("chr", "len", "nvars")) or not holds_symbols(x) for x in t.a if isinstance(x, T))
    if t.op == "bin": return all(const_text(x) or not holds_symbols(x) for x in t.a[1:])
    return False

def holds_symbols(t): return any(s.op == "attr" and s.a[1] in ("name", "gens", "gen", "free_symbols") for s in subterms(t))

def fixed_symbol(t):
    """a symbol (or one of several) with a name that does not depend on the caller"""
    while t.op in ("item", "sub"): t = t.a[0]
    return t.op == "call" and cname(t) in ("Symbol", "symbols", "var") and bool(t.a[1]) and const_text(t.a[1][0]) and not any(k == "cls" for k, v in t.a[2])

def unique_symbol(t):
    while t.op in ("item", "sub"): t = t.a[0]
    return t.op == "call" and cname(t) == "Dummy"

def calls_named(f, *names):
    return [n for n in ast.walk(f.node) if isinstance(n, ast.Call) and getattr(n.func, "attr", getattr(n.func, "id", None)) in names]

def run(ctx):
    ctx.rule("names", "a chosen name avoids the variables of the problem and the labels that join the expression")
    ctx.rule("marker", "placeholder functions have a chosen name, and the same one everywhere")
    ctx.rule("numbered", "numbered placeholders are all different")
    ctx.rule("fresh", "symbols joining the caller's variables are unique objects or have chosen names")
    ctx.rule("params", "generated parameters of a semidefinite problem differ from those in its matrices")
    ctx.rule("order", "canonical letters are renamed, all at once, before labels are inserted")
    for fn in (check_names, check_marker, check_numbered, check_fresh, check_params, check_order): ctx.section(fn, ctx)

# ------------------------------------------------------------------ chosen names
OPAQUE = ("phi", "unknown", "unbound", "new", "mut", "store_into")

def label_tables(f):
    """parameters whose entries are read as (constraint, label) pairs"""
    out = []
    ps = set(f.args)
    for n in ast.walk(f.node):
        it = tgt = None
        if isinstance(n, (ast.For, ast.comprehension)): it, tgt = n.iter, n.target
        if it is None or not (isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) and it.func.attr == "items" and isinstance(it.func.value, ast.Name)): continue
        p = it.func.value.id
        if p in ps and "constr" in p and p not in out: out.append(p)
    return out

def visible(a):
    """subterms of a that can contribute symbols; the keys of a table contribute no labels"""
    seen = set()
    def walk(t):
        if t in seen: return
        if t.op == "bv" and isinstance(t.a[0], T) and (t.a[0].op in ("p", "dict") or cname(t.a[0]) in ("dict", "keys")): return
        if cname(t) in ("keys", "isinstance", "len", "bool"): return
        if cname(t) == "get" and t.a[0].op == "attr" or t.op == "sub":
            k = t.a[1][0] if t.op == "call" and t.a[1] else t.a[1] if t.op == "sub" else None
            if isinstance(k, T) and not any(y.op == "bv" and y.a and isinstance(y.a[0], T) and (y.a[0].op in ("p", "dict") or cname(y.a[0]) in ("dict", "keys", "items")) for y in subterms(k)) and k.op != "c": return
        if t.op in ("each", "comp") and filtered(t): return
        seen.add(t)
        if t.op in ("each", "comp"):
            src = t.a[0] if t.op == "each" else t.a[2]
            for y in flat_terms(t.a):
                if y is not src: walk(y)
            return
        for y in flat_terms(t.a): walk(y)
    walk(a)
    return seen

def filtered(t):
    """a comprehension that leaves some entries out"""
    cs = list(t.a[2:]) if t.op == "each" else list(t.a[3]) if len(t.a) > 3 and isinstance(t.a[3], tuple) else []
    for c in cs:
        if not isinstance(c, T): continue
        if c.op == "not" and (c.a[0].op in ("isnone",) or cname(c.a[0]) in ("isinstance", "hasattr")): continue
        if cname(c) in ("isinstance", "hasattr") or c.op == "attr" and c.a[1] == "free_symbols" or c.op == "bv": continue
        if any(isinstance(y, T) and (y.op == "attr" and y.a[1] == "free_symbols") for y in subterms(c)): continue
        return True
    return False

def covers_labels(t, p, st):
    """t contains the labels of table p"""
    for s in visible(t):
        if s.op == "bv" and cname(s.a[0]) == "values" and table_root(st, s.a[0].a[0].a[0]) == p: return True
        if cname(s) == "values" and s.a[0].op == "attr" and table_root(st, s.a[0].a[0]) == p: return True
        if s.op == "item" and s.a[1] == 1 and s.a[0].op == "bv" and cname(s.a[0].a[0]) == "items" and table_root(st, s.a[0].a[0].a[0].a[0]) == p: return True
        if s.op == "sub" and isinstance(s.a[0], T) and table_root(st, s.a[0]) == p: return True
    return False

def table_root(st, t, d=0):
    """the parameter a table was made from, layer by layer"""
    t = st.expand(t)
    if t.op == "p": return t.a[0]
    if d > 8: return None
    en = entries(t)
    if en is not None: return table_root(st, base_of(en[0]), d + 1)
    if t.op == "dict":
        for a in t.a:
            if isinstance(a, T) and a.op in ("each", "star", "dstar", "unpack"):
                r = table_root(st, base_of(a.a[0]), d + 1)
                if r: return r
        return None
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "copy": return table_root(st, t.a[0].a[0], d + 1)
    if t.op == "call" and cname(t) in ("dict", "list", "tuple") and len(t.a[1]) == 1: return table_root(st, base_of(t.a[1][0]), d + 1)
    return None

def check_names(ctx):
    done = 0
    wr = wrappers(ctx, "sanitize_input")
    wq = {w.qual for w in wr}
    for f in wr:
        u = lambda n: T("unbound", n)
        facts = {u(n): False for n in closure_flags(f)}; facts[u("homogenize")] = True
        facts.update({T("call", T("g", "builtins.isinstance"), (T("p", n), T("g", "builtins.dict")), ()): True for n in f.args[1:3]})
        ex = runf(ctx, "names", f, max_states=12000, inline=is_new, facts=facts, want=lambda t: cname(t) == UN or cname(t) == "homogenize")
        done += judge_names(ctx, f, ex, f.args[1:3])
    for f in list(ctx.prog.funcs.values()):
        if isinstance(f.node, ast.Lambda) or f.qual in wq or any(w.qual.startswith(f.qual + ".<locals>") for w in wr): continue
        if not any(n for n in walk_own(f.node) if isinstance(n, ast.Call) and getattr(n.func, "attr", getattr(n.func, "id", None)) == UN): continue
        if is_new(f) and not any("constr" in a or a == "poly" for a in f.args): continue
        ex = runf(ctx, "names", f, inline=is_new, want=lambda t: cname(t) == UN)
        done += judge_names(ctx, f, ex, label_tables(f) if calls_named(f, "Function", EXTRACT) else [])
    if not done: ctx.unres("names", "no name is chosen anywhere")

def whole(a):
    """subterms that contribute all they hold (not the operand of a slice)"""
    seen, st = set(), [a]
    while st:
        t = st.pop()
        if t in seen: continue
        seen.add(t)
        if t.op == "slice" or t.op == "sub" and isinstance(t.a[1], T) and t.a[1].op in ("slice", "sliceobj"): continue
        if t.op == "attr" and t.a[1] in ("free_symbols", "gens"): continue
        if t.op in ("each", "comp"):
            src = t.a[0] if t.op == "each" else t.a[2]
            st.extend(y for y in flat_terms(t.a) if y is not src); continue
        st.extend(flat_terms(t.a))
    return seen

def judge_names(ctx, f, ex, tables):
    seen = set()
    ctx_wr = {w.qual for w in wrappers(ctx, "sanitize_input")}
    for x in ex or []:
        for e in x.events:
            if e.kind != "call" or cname(e.term) != UN: continue
            t = x.st.expand(e.term, 14)
            if (t, e.loc) in seen: continue
            seen.add((t, e.loc))
            a = call_kw(t, "exprs", 1)
            if a is None: ctx.bad("names", e.loc, f.qual, "the name is chosen without looking at any expression", "none", [str(t)[:200]]); continue
            subs = subterms(a)
            prob = any((s.op == "attr" and s.a[1] in ("gens", "free_symbols")) or (s.op == "p" and (s.a[0] in ("gens", "symbols", "poly") or s.a[0].startswith("symb"))) for s in subs)
            vis = visible(a)
            dark = any(s.op in OPAQUE for s in vis) or mutated(f, e)
            # gens of the problem itself, not just of a label
            loose = loose_labels(f, e)
            owns = [s for s in whole(a) if (s.op == "attr" and s.a[1] in ("gens", "free_symbols") and not from_label(s.a[0], tables) and s.a[0] not in loose) or (s.op == "p" and s.a[0] in ("gens", "symbols", "poly"))]
            own = bool(owns)
            parts = {s for s in subs if s.op == "item" and s.a[0].op == "attr" and s.a[0].a[1] == "gens"}
            if parts and all(s.op == "attr" and s.a[1] == "gens" and any(q.a[0] is s for q in parts) for s in owns):
                held = {v for v in (e.st.expand(w) for w in e.st.env.values()) if v.op == "item" and any(v.a[0] is q.a[0] for q in parts)}
                if held - parts: own = False
            if own and f.qual in ctx_wr and any(cname(s.a[0]) == "Poly" for s in owns) and all(s.op == "attr" and s.a[1] == "free_symbols" and (cname(s.a[0]) == "Poly" or s.a[0].op in ("sub", "bv", "item")) for s in owns): own = False
            if prob and own: ctx.ok("names", e.loc, "avoids the variables of the problem")
            elif dark: ctx.unres("names", "%s: %s" % (e.loc, str(a)[:80]))
            else: ctx.bad("names", e.loc, f.qual, "the chosen name does not avoid the variables of the problem", "vars", [str(t)[:200]])
            for p in tables:
                ok = covers_labels(a, p, x.st)
                if ok: ctx.ok("names", e.loc, "avoids the labels of %s" % p)
                elif any(y.op in ("each", "comp") and filtered(y) and cname(y.a[0] if y.op == "each" else y.a[2]) in ("values", "items") and table_root(x.st, (y.a[0] if y.op == "each" else y.a[2]).a[0].a[0]) == p for y in subs):
                    ctx.bad("names", e.loc, f.qual, "the chosen name avoids the symbols of only some labels of %s" % p, "some:%s" % p, [str(t)[:200]])
                elif dark or T("p", p) in vis: ctx.unres("names", "%s: %s in %s" % (e.loc, p, str(a)[:80]))
                else: ctx.bad("names", e.loc, f.qual, "the chosen name does not avoid the symbols of the labels of %s" % p, "labels:%s" % p, [str(t)[:200]])
            # labels read without a table (bounds of a half plane)
            for lab in loose:
                ok = any(lab in subterms(s) for s in subs if s.op == "attr" and s.a[1] == "free_symbols") or lab in subs and any(lab is s for s in elems_of(a))
                if ok: ctx.ok("names", e.loc, "avoids the symbols of %s" % str(lab)[:40])
                elif dark: ctx.unres("names", "%s: %s" % (e.loc, str(a)[:80]))
                else: ctx.bad("names", e.loc, f.qual, "the chosen name does not avoid the symbols of the label %s" % str(lab)[:60], "labels", [str(t)[:200]])
    return len(seen)

def from_label(t, tables):
    """t is a label (value of a constraint table)"""
    return any(cname(s) == "values" for s in subterms(t))

def only_keys(a, p):
    """the table is used for its constraints only"""
    return T("p", p) not in visible(a)

def flat_terms(a):
    for y in a:
        if isinstance(y, T): yield y
        elif isinstance(y, tuple): yield from flat_terms(y)

def elems_of(a):
    if a.op in ("list", "tuple", "set"): return [y.a[0] if y.op == "star" else y for y in a.a if isinstance(y, T)]
    if a.op == "bin": return [y for b in a.a if isinstance(b, T) for y in elems_of(b)]
    if cname(a) in ("list", "tuple", "set", "Tuple"): return [y for b in a.a[1] for y in [b] + elems_of(b)]
    return []

def mutated(f, e):
    """the list of expressions is changed between its creation and its use"""
    names = set()
    for m in ast.walk(f.node):
        if isinstance(m, ast.Call) and getattr(m.func, "attr", getattr(m.func, "id", None)) == UN:
            names |= {y.id for a in m.args[1:] + [k.value for k in m.keywords] for y in ast.walk(a) if isinstance(y, ast.Name)}
    return any(isinstance(m, ast.Call) and isinstance(m.func, ast.Attribute) and m.func.attr in MUTATORS and isinstance(m.func.value, ast.Name) and m.func.value.id in names for m in ast.walk(f.node)) or \
        any(isinstance(m, ast.AugAssign) and isinstance(m.target, ast.Name) and m.target.id in names for m in ast.walk(f.node))

def loose_labels(f, e):
    """labels (second parts of bounds) held in variables at this point"""
    out = []
    for v in e.st.env.values():
        v = e.st.expand(v)
        if v.op in ("item", "sub") and v.a[0].op in ("item", "sub") and cname(v.a[0].a[0]) == "as_bounds":
            i = v.a[1] if v.op == "item" else (cval(v.a[1]) if v.a[1].op == "c" else None)
            if i == 1: out.append(v)
    return out

# ------------------------------------------------------------------ markers
EXTRACT = "_extract_nonnegative_exprs"

def check_marker(ctx):
    n = 0
    for f in list(ctx.prog.funcs.values()):
        if isinstance(f.node, ast.Lambda) or not f.module.rel.startswith("triples/core"): continue
        if f.name == EXTRACT: continue
        if not any(isinstance(m, ast.Call) and getattr(m.func, "attr", getattr(m.func, "id", None)) == EXTRACT for m in walk_own(f.node)): continue
        if is_new(f): continue
        ex = runf(ctx, "marker", f, merge=True, inline=is_new, want=lambda t: cname(t) in (EXTRACT, "xreplace", "has", "subs"))
        seen = set()
        for x in ex or []:
            names, evs = set(), []
            for e in x.events:
                t = x.st.expand(e.term)
                if cname(t) == EXTRACT:
                    nm = call_kw(t, "func_name", 1)
                    if nm is None:
                        if (t, e.loc) not in seen: ctx.bad("marker", e.loc, f.qual, "the parts assumed nonnegative are marked with a function of a constant name", "name", [str(t)[:200]])
                        seen.add((t, e.loc)); continue
                    names.add(nm)
                    first = call_kw(t, "expr", 0)
                    if first is not None and cname(nm) == UN and nm.a[1] and nm.a[1][0].op == "c" and any(cname(s) == "Function" and s.a[1] and s.a[1][0] is nm for s in subterms(first)) and (t, "same") not in seen:
                        seen.add((t, "same")); ctx.bad("marker", e.loc, f.qual, "the parts assumed nonnegative are marked with the function that already stands for something else in the expression", "same", [str(t)[:200]])
                    if (t, e.loc) in seen: continue
                    seen.add((t, e.loc)); n += 1
                    judge_name(ctx, f, e, nm, "the parts assumed nonnegative are marked with a function")
            if not names: continue
            for e in x.events:
                t = x.st.expand(e.term)
                for s in subterms(t):
                    if cname(s) == "Function" and s.a[1] and (s, e.loc) not in seen:
                        seen.add((s, e.loc)); judge_name(ctx, f, e, s.a[1][0], "certificates contain a function")
                # has() / replacement must use the name given to the marking call
                if cname(t) == "has" and len(t.a[1]) == 1:
                    g = t.a[1][0]
                    if g.op == "g" and str(g.a[0]).split(".")[-1] in ("Function", "AppliedUndef", "UndefinedFunction") and (t, e.loc) not in seen:
                        seen.add((t, e.loc)); ctx.bad("marker", e.loc, f.qual, "left-over marks are looked for as any function: a label that is a function is taken for one", "anyfunc", [str(t)[:200]]); continue
                    if cname(g) == "Function" and (t, e.loc) not in seen:
                        seen.add((t, e.loc))
                        nm = g.a[1][0]
                        ok = nm in names or any(nm in call_args(s) or any(nm in subterms(y) for y in call_args(s)) for s in subterms(t) if cname(s) == EXTRACT) or any(cname(y) == "Function" for y in ())
                        oth = {y for s in x.events for y in subterms(x.st.expand(s.term)) if cname(y) == "Function"}
                        if ok or g in oth: ctx.ok("marker", e.loc, "tested with the marking function")
                        else: ctx.unres("marker", "%s: %s" % (e.loc, str(g)[:80]))
        fns = [m for m in calls_named(f, "Function")]
    # two names chosen in one function differ in their stem or avoid each other
    for f in list(ctx.prog.funcs.values()):
        if isinstance(f.node, ast.Lambda) or not f.module.rel.startswith("triples/core"): continue
        cs = [m for m in walk_own(f.node) if isinstance(m, ast.Call) and getattr(m.func, "attr", getattr(m.func, "id", None)) == UN]
        stems = [m.args[0].value for m in cs if m.args and isinstance(m.args[0], ast.Constant)]
        args = [ast.dump(m.args[1]) if len(m.args) > 1 else "" for m in cs]
        if len(stems) >= 2 and f.name == "constrained_acute" or len(stems) >= 2 and any(isinstance(m, ast.Call) and getattr(m.func, "attr", None) == EXTRACT for m in walk_own(f.node)):
            dup = [s for s in stems if stems.count(s) > 1]
            same = dup and len({a for s, a in zip(stems, args) if s in dup}) == 1
            if same: ctx.bad("marker", "%s:%d" % (f.module.rel, cs[0].lineno), f.qual, "two placeholder functions of one certificate get the same name %r" % dup[0], "same", [])
            elif not dup: ctx.ok("marker", f.loc, "the two placeholder functions have different stems")
    if not n: ctx.unres("marker", "no marking call found")

def part_of_name(t):
    """an element or a slice of the text of a chosen name (not an element of a collection of names)"""
    if t.op not in ("sub", "slice", "item") or not isinstance(t.a[0], T): return False
    b = t.a[0]
    while b.op == "attr" and b.a[1] == "name" or cname(b) == "str" and b.a[1]: b = b.a[0] if b.op == "attr" else b.a[1][0]
    return cname(b) == UN or part_of_name(b)

def judge_name(ctx, f, e, nm, what):
    if part_of_name(nm): ctx.bad("marker", e.loc, f.qual, "%s whose name is only a part of the chosen one" % what, "part", [str(nm)[:200]])
    elif any(cname(s) == UN for s in subterms(nm)): ctx.ok("marker", e.loc, "the name is chosen")
    elif nm.op == "c": ctx.bad("marker", e.loc, f.qual, "%s of the constant name %r, which a label may contain" % (what, cval(nm)), "name", [])
    elif nm.op == "p" or nm.op == "g" : ctx.unres("marker", "%s: name %s" % (e.loc, nm))
    else: ctx.unres("marker", "%s: name %s" % (e.loc, str(nm)[:80]))

# ------------------------------------------------------------------ numbered placeholders
def check_numbered(ctx):
    f = find(ctx, "numbered", "triples.core.shared._get_constraints_wrapper")
    if f is None: return
    inner = [g for g in ctx.prog.funcs.values() if g.parent is f]
    maker = [g for g in inner + [f] if any(isinstance(m, ast.Call) and getattr(m.func, "attr", getattr(m.func, "id", None)) == "Function" for m in walk_own(g.node))]
    if len(maker) != 1: ctx.unres("numbered", "%d functions make placeholders" % len(maker)); return
    g = maker[0]
    fn = [m for m in walk_own(g.node) if isinstance(m, ast.Call) and getattr(m.func, "attr", getattr(m.func, "id", None)) == "Function"]
    if len(fn) != 1 or not fn[0].args: ctx.unres("numbered", "%d placeholder expressions" % len(fn)); return
    name = fn[0].args[0]
    loc = "%s:%d" % (g.module.rel, fn[0].lineno)
    loc0 = locals_of(g)
    vs = {m.id for m in ast.walk(name) if isinstance(m, ast.Name)}
    # one level of indirection: the name is put together in a variable
    for v in list(vs):
        ds = [m for m in walk_own(g.node) if isinstance(m, ast.Assign) and len(m.targets) == 1 and isinstance(m.targets[0], ast.Name) and m.targets[0].id == v]
        if len(ds) == 1 and v not in g.args: vs |= {m.id for m in ast.walk(ds[0].value) if isinstance(m, ast.Name)}
    pre = [v for v in vs if v in g.args]
    # counter: a local that changes, or an index
    loop_of = parents(g)
    cnt = []
    for v in vs - set(g.args):
        for m in walk_own(g.node):
            if isinstance(m, ast.AugAssign) and isinstance(m.target, ast.Name) and m.target.id == v: cnt.append((v, "aug", m))
            elif isinstance(m, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v for t in m.targets) and any(isinstance(y, ast.Name) and y.id == v for y in ast.walk(m.value)): cnt.append((v, "aug", m))
            elif isinstance(m, (ast.For, ast.comprehension)) and isinstance(m.iter, ast.Call) and getattr(m.iter.func, "id", None) == "enumerate" and isinstance(m.target, ast.Tuple) and isinstance(m.target.elts[0], ast.Name) and m.target.elts[0].id == v: cnt.append((v, "enum", m))
            elif isinstance(m, ast.Assign) and isinstance(m.value, ast.Call) and getattr(m.value.func, "id", None) in ("next", "len") and any(isinstance(t, ast.Name) and t.id == v for t in m.targets): cnt.append((v, "next", m))
    isnum = any(isinstance(m, ast.Call) and getattr(m.func, "id", None) == "next" or isinstance(m, ast.Call) and getattr(m.func, "id", None) == "len" and grows(g, m) for m in ast.walk(name))
    for m in ast.walk(name):
        if isinstance(m, ast.BinOp) and isinstance(m.op, (ast.Mod, ast.FloorDiv, ast.BitAnd, ast.RShift)) and not isinstance(m.left, (ast.Constant, ast.JoinedStr)) and any(isinstance(y, ast.Name) and y.id in {c[0] for c in cnt} for y in ast.walk(m.left)):
            ctx.bad("numbered", loc, g.qual, "the number of a placeholder is cut down (%s): two constraints get the same name" % ast.unparse(m), "cut", [ast.unparse(fn[0])])
    if not cnt and not isnum:
        fixed = [v for v in vs - set(g.args) if (lambda ds: len(ds) == 1 and isinstance(ds[0], ast.Constant))([m.value for m in walk_own(g.node) if isinstance(m, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v for t in m.targets)]) and not any(isinstance(m, (ast.For, ast.comprehension)) and v in {y.id for y in ast.walk(m.target) if isinstance(y, ast.Name)} for m in ast.walk(g.node))]
        if not (vs - set(fixed)) - set(pre) - {"str", "repr", "sp"}: vs = set(pre)
        if not vs - set(pre) - {"str", "repr", "sp"}: ctx.bad("numbered", loc, g.qual, "placeholders of different constraints are not numbered: they get the same name", "counter", [ast.unparse(fn[0])])
        elif unchanging(g, name, fn[0], loop_of): ctx.bad("numbered", loc, g.qual, "placeholders are told apart by a property of the constraint (%s), which two constraints can share" % ast.unparse(name), "counter", [ast.unparse(fn[0])])
        else: ctx.unres("numbered", "%s: no counter in %s" % (loc, ast.unparse(name)))
    for v in pre:
        for m in walk_own(g.node):
            if isinstance(m, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v for t in m.targets) and isinstance(m.value, ast.Constant):
                ctx.bad("numbered", loc, g.qual, "the prefix is overwritten with %r: inequalities and equations get the same names" % m.value.value, "prefix", [ast.unparse(m)])
    for v, k, m in cnt:
        if k != "aug": ctx.ok("numbered", loc, "numbered by %s" % v); continue
        # the counter must advance in each turn of the loop over the constraints in which a placeholder is made
        la = [p for p in anc(loop_of, m) if isinstance(p, (ast.For, ast.While))]
        lf = [p for p in anc(loop_of, fn[0]) if isinstance(p, (ast.For, ast.While))]
        common = [p for p in la if p in lf]
        if not common: ctx.bad("numbered", loc, g.qual, "the counter %s does not advance in the loop over the constraints" % v, "counter", [ast.unparse(m)])
        elif any(isinstance(p, ast.If) for p in anc(loop_of, m) if p in walk_list(common[0])): ctx.unres("numbered", "%s: the counter advances conditionally" % loc)
        else: ctx.ok("numbered", loc, "%s advances with every constraint" % v)
        init = [q for q in walk_own(g.node) if isinstance(q, ast.Assign) and any(isinstance(t, ast.Name) and t.id == v for t in q.targets) and q is not m]
        for q in init:
            if any(p in common for p in anc(loop_of, q)): ctx.bad("numbered", loc, g.qual, "the counter %s is reset for every constraint" % v, "reset", [ast.unparse(q)])
    # prefixes
    if g is f or not pre: return
    cs = [m for m in walk_own(f.node) if isinstance(m, ast.Call) and isinstance(m.func, ast.Name) and m.func.id == g.name]
    pos = {v: (g.args.index(v)) for v in pre}
    vals = []
    d = {a.arg: dv for a, dv in zip(reversed(g.node.args.args), reversed(g.node.args.defaults))}
    for c in cs:
        for v in pre:
            e = next((k.value for k in c.keywords if k.arg == v), c.args[pos[v]] if len(c.args) > pos[v] else d.get(v))
            vals.append(e.value if isinstance(e, ast.Constant) else None)
    if len(cs) < 2 or None in vals: ctx.unres("numbered", "%s: prefixes %s" % (loc, vals)); return
    ok = len(set(vals)) == len(vals) and not any(x != y and y.startswith(x) and y[len(x):].isdigit() for x in vals for y in vals)
    ctx.decide(ok, "numbered", loc, f.qual, "prefixes %s" % ", ".join(map(repr, vals)) if ok else "placeholders of inequalities and equations share the prefix %r: two of them get the same name" % vals[0], "prefix", "", [])

def grows(g, m):
    """len of a table that gets an entry with every placeholder"""
    a = m.args[0] if m.args else None
    if not isinstance(a, ast.Name): return False
    return any(isinstance(q, ast.Assign) and any(isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == a.id for t in q.targets) or isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and q.func.attr in ("append", "add", "update") and isinstance(q.func.value, ast.Name) and q.func.value.id == a.id for q in walk_own(g.node))

def unchanging(g, name, call, par):
    """the number is a degree, a length or a number of terms of the constraint at hand"""
    for m in ast.walk(name):
        if isinstance(m, ast.Call) and getattr(m.func, "attr", getattr(m.func, "id", None)) in ("total_degree", "degree", "len", "length"):
            if getattr(m.func, "id", None) == "len" and grows(g, m): return False
            return True
    return False

def locals_of(g): return {m.id for m in ast.walk(g.node) if isinstance(m, ast.Name) and isinstance(m.ctx, ast.Store)}
def anc(par, n):
    out = []
    n = par.get(n)
    while n is not None: out.append(n); n = par.get(n)
    return out
def walk_list(n): return set(ast.walk(n))

# ------------------------------------------------------------------ fresh symbols
NEWPOLY = ("Poly", "as_poly", "from_dict", "new", "reorder")

def check_fresh(ctx):
    want = ("Symbol", "symbols", "Dummy", "var", "homogenize")
    n = 0
    for f in list(ctx.prog.funcs.values()):
        if isinstance(f.node, ast.Lambda) or not f.module.rel.startswith(("triples/core", "triples/utils", "triples/sdp")): continue
        cs = [m for m in walk_own(f.node) if isinstance(m, ast.Call) and getattr(m.func, "attr", getattr(m.func, "id", None)) in want]
        if not cs: continue
        if f.qual.startswith("triples.core.shared.sanitize_input"): continue
        gens = any(isinstance(m, ast.Attribute) and m.attr in ("gens", "gen", "free_symbols") for m in walk_own(f.node)) or any(a in ("gens", "symbols") for a in f.args)
        made = any(getattr(m.func, "attr", getattr(m.func, "id", None)) in ("Symbol", "symbols", "var") for m in cs)
        poly = any(isinstance(m, ast.Call) and getattr(m.func, "attr", getattr(m.func, "id", None)) in NEWPOLY for m in walk_own(f.node))
        if not (calls_named(f, "homogenize") or gens and made and poly): continue
        ex = runf(ctx, "fresh", f, inline=is_new, want=lambda t: cname(t) in NEWPOLY + ("homogenize",))
        seen = set()
        for x in ex or []:
            for e in x.events:
                if e.kind != "call": continue
                t = x.st.expand(e.term)
                if (t, e.loc) in seen: continue
                seen.add((t, e.loc))
                n += judge_fresh(ctx, f, x, e, t)
    for f in wrappers(ctx, "sanitize_input"):
        u = lambda n: T("unbound", n)
        facts = {u(n): False for n in closure_flags(f)}; facts[u("homogenize")] = True
        facts.update({T("call", T("g", "builtins.isinstance"), (T("p", n), T("g", "builtins.dict")), ()): True for n in f.args[1:3]})
        ex = runf(ctx, "fresh", f, max_states=12000, inline=is_new, facts=facts, want=lambda t: cname(t) == "homogenize")
        for x in ex or []:
            for e in x.events:
                t = x.st.expand(e.term)
                if e.kind == "call": judge_fresh(ctx, f, x, e, t)
    check_dummies(ctx)

def judge_fresh(ctx, f, x, e, t):
    nm = cname(t)
    if nm == "homogenize" and t.a[0].op == "attr" and len(t.a[1]) == 1:
        s = t.a[1][0]
        if fixed_symbol(s): ctx.bad("fresh", e.loc, f.qual, "a polynomial is homogenised with a symbol of a constant name, which the caller may use", "hom", [str(t)[:200]]); return 1
        if unique_symbol(s) or any(cname(y) == UN for y in subterms(s)): ctx.ok("fresh", e.loc, "homogenised with a unique symbol"); return 1
        if derived_name(s) is True:
            one = any(k.op == "eq" and w is True and any(is_num(y, 1) for y in k.a) and any(s2.op == "attr" and s2.a[1] == "gens" or cname(s2) in ("len", "nvars") for s2 in subterms(k)) for k, w in x.facts.items()) or any(k.op == "eq" and w is True for k, w in e.facts.items() if any(is_num(y, 1) for y in k.a))
            if one: ctx.ok("fresh", e.loc, "the name differs from the only variable")
            else: ctx.unres("fresh", "%s: name derived from a variable" % e.loc)
            return 1
        if derived_name(s) is False: ctx.bad("fresh", e.loc, f.qual, "a polynomial is homogenised with the symbol it already contains", "hom", [str(t)[:200]]); return 1
        return 0
    # generator lists mixing the caller's variables and fixed symbols
    if nm in NEWPOLY:
        args = list(t.a[1])[(1 if nm in ("Poly", "from_dict", "new") else 0):]
        flat = []
        for a in args:
            flat += a.a if a.op in ("tuple", "list") else [a]
            if a.op == "bin": flat += [y for b in a.a[1:] if isinstance(b, T) for y in (b.a if b.op in ("tuple", "list") else [b])]
        fix = [y for y in flat if isinstance(y, T) and fixed_symbol(y)]
        gen = [y for y in flat if isinstance(y, T) and any(z.op == "attr" and z.a[1] in ("gens", "free_symbols") or (z.op == "p" and z.a[0] in ("gens", "symbols")) for z in subterms(y)) and not fixed_symbol(y)]
        if fix and gen:
            ctx.bad("fresh", e.loc, f.qual, "a symbol of a constant name is added to the variables of the caller's polynomial", "gens", [str(t)[:200]]); return 1
    return 0

def is_num(t, v): return t.op == "c" and not isinstance(cval(t), bool) and cval(t) == v

def derived_name(s):
    """True: the name is made from a variable's name and differs from it; False: equals it"""
    if s.op == "call" and cname(s) == "Symbol" and s.a[1]:
        a = s.a[1][0]
        if a.op == "attr" and a.a[1] == "name": return False
        if holds_symbols(a): return True
    return None

# functions whose helper symbols are unique objects; each joins an expression over the caller's (or another stage's) symbols
UNIQUE = {"triples.core.structsos.pivoting.bivariate._sos_struct_bivariate_linear_ineq": "the variable of the substituted polynomial", "triples.core.symsos.symsos.SymmetricSOS": "the new variables of the symmetric transformation", "triples.core.symsos.basic.SymmetricTransform.transform": "the elementary symmetric polynomials",
  "triples.core.symsos.symmetric._symmetric_real_4vars": "the shifted elementary symmetric polynomials", "triples.core.structsos.nvars._sos_struct_nvars_quartic_symmetric_sdp": "the unknowns of the small semidefinite problem",
  "triples.utils.roots.findroot.kkt": "the multipliers of the optimality system"}

def check_dummies(ctx):
    for q, what in UNIQUE.items():
        f = find(ctx, "fresh", q)
        if f is None: continue
        fix = []
        for m in walk_own(f.node):
            if isinstance(m, ast.Call):
                k = getattr(m.func, "attr", getattr(m.func, "id", None))
                if k in ("Symbol", "symbols", "var") and m.args:
                    if kw_cls(m) == "Dummy": continue
                    fix.append(m)
        for m in walk_own(f.node):
            if isinstance(m, ast.BinOp) and isinstance(m.op, ast.Mult):
                for l in (m.left, m.right):
                    if isinstance(l, (ast.List, ast.Tuple)) and any(isinstance(y, ast.Call) and getattr(y.func, "attr", getattr(y.func, "id", None)) == "Dummy" for y in l.elts):
                        ctx.bad("fresh", "%s:%d" % (f.module.rel, m.lineno), q, "%s are one and the same object" % what, "repeat", [ast.unparse(m)])
        if q.endswith(".kkt"):
            for x in runf(ctx, "fresh", f, inline=is_new) or []:
                if x.kind != "return": continue
                v = x.st.expand(x.val)
                sets = [w for w in (v.a[1].a if v.op == "tuple" and len(v.a) == 2 and v.a[1].op == "tuple" else ())]
                for i in range(1, min(3, len(sets))):
                    for j in range(1, min(3, len(sets))):
                        if i != j and (sets[i] is sets[j] or any(y.op in ("slice", "sub") and isinstance(y.a[0], T) and y.a[0] is sets[j] for y in subterms(sets[i]))):
                            ctx.bad("fresh", x.loc, q, "the multipliers of the equations are those of the inequalities", "shared", [str(sets[i])[:160]])
        dm = [m for m in walk_own(f.node) if isinstance(m, ast.Call) and (getattr(m.func, "attr", getattr(m.func, "id", None)) in ("Dummy", UN) or kw_cls(m) == "Dummy")]
        
        for m in fix:
            c = m.args[0]
            if isinstance(c, (ast.Constant, ast.JoinedStr, ast.BinOp)):
                ctx.bad("fresh", "%s:%d" % (f.module.rel, m.lineno), q, "%s have constant names (%s), which the caller's symbols may have" % (what, ast.unparse(m)[:50]), "dummy", [])
            else: ctx.unres("fresh", "%s: %s" % (f.loc, ast.unparse(m)[:60]))
        if dm: ctx.ok("fresh", f.loc, "%s are unique objects" % what)
        elif not fix: ctx.unres("fresh", "%s: no helper symbols made" % f.loc)

def kw_cls(m):
    for k in m.keywords:
        if k.arg == "cls": return getattr(k.value, "attr", getattr(k.value, "id", None))
    return None

# ------------------------------------------------------------------ parameters of semidefinite problems
def check_params(ctx):
    f = find(ctx, "params", "triples.sdp.dual._get_unique_symbols")
    if f is None: return
    ex = runf(ctx, "params", f, inline=is_new)
    tab = T("p", f.args[0])
    pend, other = [], False
    for x in ex or []:
        if x.kind != "return": continue
        v = x.st.expand(x.val)
        if any(cname(s) in ("Dummy", "numbered_symbols") for s in subterms(v)):
            ctx.ok("params", x.loc, "unique objects"); continue
        # start of the numbering
        rng = [s for s in subterms(v) if cname(s) == "range"]
        mx = [s for s in subterms(v) if cname(s) == "max"]
        if not rng: ctx.unres("params", "%s: %s" % (x.loc, str(v)[:100])); continue
        for r in rng:
            a = r.a[1]
            if len(a) == 1 and not any(s.op == "bin" and s.a[0] == "Add" and any(y in s.a for y in mx) for s in subterms(v)):
                offs = [s for s in subterms(v) if s.op == "bin" and any(isinstance(y, T) and y.op == "bv" and r in y.a for y in s.a)]
                if not mx and not offs: pend.append((x.loc, 0, v))
                else: other = True; ctx.unres("params", "%s: %s" % (x.loc, str(v)[:100]))
                continue
            st = a[0] if len(a) >= 2 else None
            if st is None: ctx.ok("params", x.loc, "numbered above the used ones"); continue
            m = [s for s in subterms(st) if cname(s) == "max"]
            if not m:
                if any(cname(s) == "len" for s in subterms(st)): ctx.bad("params", x.loc, f.qual, "the new parameters are numbered from the number of the used ones, not above the largest", "start", [str(v)[:200]])
                elif st.op == "c": pend.append((x.loc, cval(st), v))
                else: other = True; ctx.unres("params", "%s: %s" % (x.loc, str(st)[:100]))
                continue
            other = True
            off = offset(st, m)
            if off is not None and not any(s.op == "bin" and s.a[0] == "Add" and any(isinstance(y, T) and cname(y) == "int" for y in s.a) for y2 in m for s in subterms(y2)):
                ctx.decide(off >= 1, "params", x.loc, f.qual, "the first new parameter is one already used", "above", "numbered above the largest one used", [str(v)[:200]]); continue
            above = st.op == "bin" and st.a[0] == "Add" and any(y.op == "c" and isinstance(cval(y), int) and cval(y) >= 1 for y in st.a[1:]) or (st in m and any(s.op == "bin" and s.a[0] == "Add" and any(isinstance(y, T) and cname(y) == "int" for y in s.a) for s in subterms(st)))
            if st in m and not above: ctx.bad("params", x.loc, f.qual, "the first new parameter is the largest one already used", "above", [str(v)[:200]])
            elif above: ctx.ok("params", x.loc, "numbered above the largest one used")
            else: ctx.unres("params", "%s: %s" % (x.loc, str(st)[:100]))
        # the names are recognised by the prefix the new symbols get
        pre = {left(s.a[1][0]) for s in subterms(v) if cname(s) == "Symbol" and s.a[1] and s.a[1][0].op == "bin"} - {None}
        cut = {y.a[1][0] for s in subterms(v) if s.op == "slice" for y in subterms(s) if cname(y) == "len" and y.a[1]}
        st_ = {s.a[1][0] for s in subterms(v) if cname(s) == "startswith" and s.a[1]}
        if len(pre) == 1 and cut and st_:
            ok = cut == pre and st_ == pre
            ctx.decide(ok, "params", x.loc, f.qual, "used names are read with the prefix of the new ones" if ok else "the names in the matrices are read with another prefix than the new names get: the used ones are not recognised", "prefix", "", [str(pre), str(cut), str(st_)])
        suf = {right(s.a[1][0]) for s in subterms(v) if cname(s) == "Symbol" and s.a[1] and s.a[1][0].op == "bin"} - {None}
        if len(suf) == 1 and isinstance(list(suf)[0], str) and list(suf)[0]:
            k = len(list(suf)[0])
            for s in subterms(v):
                if s.op in ("sub", "slice") and cut and any(cname(y) == "len" for y in subterms(s.a[1] if isinstance(s.a[1], T) else s)):
                    sl = s.a[1] if s.op == "sub" else s
                    hi = slice_hi(s)
                    if hi == "none": ctx.bad("params", x.loc, f.qual, "the number of a used name is read together with the suffix: the used ones are not recognised", "suffix", [str(s)[:160]])
        for s in subterms(v):
            if s.op == "in" and isinstance(s.a[1], T) and s.a[1].op == "c" and isinstance(cval(s.a[1]), str) and s.a[0].op == "bv" and not any(y.op in ("p", "slice") and y is s.a[0].a[0] for y in subterms(s.a[0])) and one_char(s, v) is False:
                ctx.bad("params", x.loc, f.qual, "only names with a single digit are recognised as used", "digits", [str(s)[:160]])
    for loc, n0, v in pend:
        if other: ctx.ok("params", loc, "nothing is used")
        else: ctx.bad("params", loc, f.qual, "the new parameters are numbered from %s whatever the matrices already contain" % n0, "start", [str(v)[:200]])
    check_infer(ctx)
    # both parts of each entry are searched
    seen = set()
    for m in ast.walk(f.node):
        if isinstance(m, (ast.For, ast.comprehension)) and any(isinstance(y, ast.Name) and y.id == f.args[0] for y in ast.walk(m.iter)):
            t = m.target
            names = [y.id for y in ast.walk(t) if isinstance(y, ast.Name)]
            body = f.node
            used = {y.value.id for y in ast.walk(body) if isinstance(y, ast.Attribute) and y.attr == "free_symbols" and isinstance(y.value, ast.Name)}
            if isinstance(t, ast.Tuple) and len(names) >= 2:
                parts = names[-2:]
                miss = [p for p in parts if p not in used]
                if not miss: ctx.ok("params", f.loc, "both matrices of each entry are searched")
                elif any(isinstance(y, (ast.For, ast.comprehension)) and any(isinstance(z, ast.Name) and z.id in parts for z in ast.walk(y.iter)) and not any(isinstance(z, ast.Attribute) and z.attr == "free_symbols" for z in ast.walk(y.iter)) for y in ast.walk(body)): ctx.unres("params", "%s: search of the entries" % f.loc)
                elif used & set(parts) or not used: ctx.bad("params", f.loc, f.qual, "the parameters occurring in %s are not avoided" % " and ".join("the offsets" if p == parts[0] else "the spaces" for p in miss), "parts", [])
                else: ctx.unres("params", "%s: search of the entries" % f.loc)
            else: ctx.unres("params", "%s: search of the entries" % f.loc)

def offset(t, m):
    """max(..) + constant"""
    if t in m: return 0
    if t.op == "bin" and t.a[0] in ("Add", "Sub"):
        a, b = t.a[1], t.a[2]
        if b.op == "c" and isinstance(cval(b), int): o = offset(a, m); return None if o is None else o + (cval(b) if t.a[0] == "Add" else -cval(b))
        if a.op == "c" and isinstance(cval(a), int) and t.a[0] == "Add": o = offset(b, m); return None if o is None else o + cval(a)
    return None

def right(t):
    if t.op == "bin" and t.a[0] == "Add" and t.a[2].op == "c" and cname(t.a[2]) != "str": return cval(t.a[2])
    return None

def slice_hi(s):
    t = s.a[1] if s.op == "sub" else s
    if t.op == "slice":
        hi = t.a[2] if s is t and len(t.a) > 2 else t.a[1] if len(t.a) > 1 else None
        if hi is None or hi is NONE: return "none"
        return hi
    return None

def one_char(s, v):
    """the value tested is one character (an element of a string)"""
    b = s.a[0].a[0] if s.a[0].a and isinstance(s.a[0].a[0], T) else None
    if b is None: return None
    if b.op == "bv" or b.op in ("slice", "sub") : return True
    if cname(b) in ("set", "list", "sorted", "tuple", "frozenset") or b.op in ("set", "list", "comp"): return False
    return None

def check_infer(ctx):
    """where no parameters are given, the generated ones come from the search of the whole table"""
    f = ctx.prog.funcs.get("triples.sdp.dual._infer_free_symbols")
    if f is None or len(f.args) < 2: return ctx.unres("params", "_infer_free_symbols not found")
    tab, given = T("p", f.args[0]), T("p", f.args[1])
    for x in runf(ctx, "params", f, inline=is_new) or []:
        if x.kind != "return": continue
        v = x.st.expand(x.val)
        if any(s is given for s in subterms(v)) or v.op in ("list", "tuple") and not v.a: continue
        src = [s for s in subterms(v) if cname(s) == "_get_unique_symbols"]
        if src:
            a = call_kw(src[0], "_x0_and_space", 0) or (src[0].a[1][0] if src[0].a[1] else None)
            if a is not None and a.op == "dict" and not a.a or a is not None and a.op == "c": ctx.bad("params", x.loc, f.qual, "the generated parameters are chosen without looking at the matrices", "blind", [str(v)[:200]])
            elif a is not None: ctx.ok("params", x.loc, "chosen from the whole table")
        elif any(cname(s) in ("Dummy", "numbered_symbols") for s in subterms(v)): ctx.ok("params", x.loc, "unique objects")
        elif any(cname(s) in ("Symbol", "symbols") for s in subterms(v)) and not any(s.op == "attr" and s.a[1] == "free_symbols" for s in subterms(v)):
            ctx.bad("params", x.loc, f.qual, "the generated parameters are chosen without looking at the matrices", "blind", [str(v)[:200]])
        else: ctx.unres("params", "%s: %s" % (x.loc, str(v)[:100]))

def left(t):
    """prefix of prefix + str(number) + suffix"""
    if t.op == "bin" and t.a[0] == "Add":
        if cname(t.a[2]) == "str": return t.a[1]
        return left(t.a[1])
    return None

# ------------------------------------------------------------------ renaming of the canonical letters
def check_order(ctx):
    for f in list(ctx.prog.funcs.values()):
        if isinstance(f.node, ast.Lambda) or not f.module.rel.startswith("triples/core/structsos"): continue
        if not any(isinstance(m, ast.Call) and getattr(m.func, "attr", getattr(m.func, "id", None)) == EXTRACT for m in walk_own(f.node)) or is_new(f): continue
        tabs = label_tables(f)
        if not tabs: continue
        ex = runf(ctx, "order", f, inline=is_new, want=lambda t: cname(t) in ("xreplace", "subs", "replace"))
        seen = set()
        for x in ex or []:
            for e in x.events:
                t = x.st.expand(e.term)
                if e.kind != "call" or (t, e.loc) in seen: continue
                seen.add((t, e.loc))
                arg = [x.st.expand(a) for a in call_args(t)]
                ren = any(is_zip_rename(s) for a in arg for s in subterms(a))
                if not ren: continue
                z = next(s for a in arg for s in subterms(a) if is_zip_rename(s))
                if cname(z.a[1][1]) in ("sorted", "set", "reversed", "frozenset"):
                    ctx.bad("order", e.loc, f.qual, "the letters are renamed to the variables in another order", "perm", [str(t)[:200]]); continue
                if any(a.op == "dict" and len(a.a) == 1 and any(y.op == "bv" and y.a and y.a[0] is z for y in subterms(a)) and not any(y.op in ("each", "comp") and z in y.a for y in subterms(a)) for a in arg):
                    ctx.bad("order", e.loc, f.qual, "the letters are renamed one after another: a variable called like a later letter is renamed again", "single", [str(t)[:200]]); continue
                if cname(t) == "subs" and not any(k == "simultaneous" and v is TRUE for k, v in t.a[2]):
                    ctx.bad("order", e.loc, f.qual, "the letters are renamed one after another: a variable called like a later letter is renamed again", "subs", [str(t)[:200]]); continue
                recv = t.a[0].a[0]
                ins = [s for s in subterms(recv) if cname(s) in ("xreplace", "subs") and s is not t and any(y.op == "p" and y.a[0] in tabs for z in call_args(s) for y in subterms(x.st.expand(z)))]
                if ins: ctx.bad("order", e.loc, f.qual, "the letters are renamed after the labels were inserted, which renames letters inside the labels", "late", [str(t)[:200]])
                else: ctx.ok("order", e.loc, "letters are renamed before labels are inserted")
        # every answer went through the renaming, unless the variables are the letters
        if f.qual in LETTERS:
            for x in ex or []:
                if x.kind != "return" or x.val is NONE: continue
                v = x.st.expand(x.val, 14)
                if any(is_zip_rename(s) for s in subterms(v)): ctx.ok("order", x.loc, "renamed"); continue
                if any(s.op in OPAQUE for s in subterms(v)): ctx.unres("order", "%s: %s" % (x.loc, str(v)[:80])); continue
                same = any(k.op == "eq" and w is True and any(fixed_symbol(y) for y in k.a) and any(y.op == "attr" and y.a[1] == "gens" for y in k.a) for k, w in x.facts.items())
                ctx.decide(same, "order", x.loc, f.qual, "an answer in the letters of the solver is returned although the variables need not be these letters in this order", "norename", "the variables are the letters", [str(k)[:80] + ("" if w else " is false") for k, w in x.facts.items() if any(fixed_symbol(y) for y in subterms(k))])
    check_restore(ctx)

LETTERS = ("triples.core.structsos.ternary.solver.structural_sos_3vars", "triples.core.structsos.quarternary.solver.structural_sos_4vars", "triples.core.structsos.constrained.acute.constrained_acute")

def check_restore(ctx):
    """renaming variables to variables, elsewhere: all at once"""
    for f in list(ctx.prog.funcs.values()):
        if isinstance(f.node, ast.Lambda) or not f.module.rel.startswith(("triples/core", "triples/utils")): continue
        for c in calls_named(f, "subs"):
            if not isinstance(c.func, ast.Attribute) or len(c.args) != 1: continue
            z = c.args[0]
            if isinstance(z, ast.Call) and getattr(z.func, "id", "") in ("list", "dict", "tuple") and len(z.args) == 1: z = z.args[0]
            if not (isinstance(z, ast.Call) and getattr(z.func, "id", "") == "zip" and len(z.args) == 2): continue
            if any(k.arg == "simultaneous" and getattr(k.value, "value", None) is True for k in c.keywords): continue
            if all(symbol_list(f, a) for a in z.args):
                ctx.bad("order", "%s:%d" % (f.module.rel, c.lineno), f.qual, "variables are replaced by variables one after another: one called like a later variable is replaced again", "seq", [ast.unparse(c)])
    for f in wrappers(ctx, "sanitize_input"):
        u = lambda n: T("unbound", n)
        facts = {u(n): False for n in closure_flags(f)}; facts[u("homogenize")] = True; facts[u("wrap_constraints")] = True
        facts.update({T("call", T("g", "builtins.isinstance"), (T("p", n), T("g", "builtins.dict")), ()): True for n in f.args[1:3]})
        seen = set()
        for x in runf(ctx, "order", f, max_states=12000, inline=is_new, facts=facts, want=lambda t: cname(t) in ("xreplace", "subs", "dehomogenize")) or []:
            for e in x.events:
                if e.kind != "call": continue
                t = x.st.expand(e.term)
                if cname(t) not in ("xreplace", "subs") or (t, e.loc) in seen: continue
                seen.add((t, e.loc))
                if not any(cname(y) == "_get_constraints_wrapper" for a in call_args(t) for y in subterms(x.st.expand(a))): continue
                recv = list(subterms(t.a[0].a[0]))
                if any(cname(y) in ("xreplace", "subs") and any(cname(z) == "_get_constraints_wrapper" for a in call_args(y) for z in subterms(a)) for y in recv):
                    ctx.bad("order", e.loc, f.qual, "the placeholders are replaced one table after the other: a label that looks like a placeholder is replaced again", "twice", [str(t)[-200:]])
                elif any(cname(y) == "dehomogenize" for y in recv):
                    ctx.bad("order", e.loc, f.qual, "the placeholders are replaced after the homogenising symbol was set to 1: those that contain it are not recognised", "dehom", [str(t)[-200:]])
                else: ctx.ok("order", e.loc, "all placeholders are replaced at once, before dehomogenising")
    f = ctx.prog.funcs.get("triples.core.structsos.sparse._get_defaulted_gens")
    if f is None: return ctx.unres("order", "_get_defaulted_gens not found")
    for x in runf(ctx, "order", f, inline=is_new) or []:
        if x.kind != "return": continue
        v = x.st.expand(x.val)
        isp = [w for k, w in x.facts.items() if cname(k) == "isinstance"]
        if any(s.op == "attr" and s.a[1] == "gens" for s in subterms(v)): ctx.ok("order", x.loc, "a polynomial keeps its variables")
        elif fixed_symbol(v): ctx.decide(bool(isp), "order", x.loc, f.qual, "the variables of a polynomial are taken to be a, b, c, ... whatever they are", "defgens", "letters stand for a table of coefficients only", [str(v)[:120]])

SYMLIST = ("symbols", "_symbols", "gens", "perm_gens", "s", "new_symbols", "original_symbols")

def symbol_list(f, e):
    n = getattr(e, "attr", getattr(e, "id", None))
    return n in SYMLIST

def is_zip_rename(s):
    return cname(s) == "zip" and len(s.a[1]) == 2 and fixed_symbol(s.a[1][0]) and any(y.op == "attr" and y.a[1] == "gens" for y in subterms(s.a[1][1]))
