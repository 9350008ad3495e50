"""P13 - untrusted text is never evaluated as code."""
import ast
from math import comb
from sa.util import *
from sa.load import Ext

TECHNIQUE = "path-sensitive taint analysis of evaluating parsers (source to sink, guards as branch facts) plus evaluation of the tokeniser's branch conditions over all letter pairs"
EXPLANATION = ("Every call of an evaluating parser (sympify, S, parse_expr, eval, exec, template and shell evaluation, ...) in the web front ends and in the text pipeline is reached along "
  "all paths with the value it evaluates: it must be the output of the last step of the text pipeline, a constant, or a value shown not to be text. Every entry of client text into the "
  "pipeline must be dominated by the character restriction for that very text. The step that separates letters is checked for every pair of letters and every branch, "
  "and the pipeline must be applied in the order lower-case, LaTeX removal, expansion, separation. Solving is dominated by the degree check and by the check that the "
  "problem is a polynomial. Not covered: the safety of sympy's own parser on separated letters, resource use of accepted input.")

TP = "triples.utils.text_process"
FRONT = ("web_main", "gradio_app", "triples.gui.sos_manager")
EVAL = {"sympify", "S", "parse_expr", "eval", "exec", "compile", "parse_latex", "render_template_string", "system", "popen", "run", "Popen", "check_output", "loads", "__import__", "import_module", "sympify_old", "_sympify", "nsimplify", "N"}
SOFT = {"Poly", "expand", "factor", "simplify", "cancel", "together", "Add", "Mul", "Pow", "fraction", "poly", "Rational", "diff", "lambdify", "Tuple", "Matrix", "FiniteSet", "Eq"}
ENTRY = {"preprocess_text", "pl", "degree_of_zero"}
COMPLETE = "_preprocess_text_completion"

def run(ctx):
    ctx.rule("sink", "an evaluating parser receives only separated text, constants or values that are not text")
    ctx.rule("restrict", "client text enters the text pipeline only after the character restriction")
    ctx.rule("names", "names of generators sent by a client are single lower-case letters before they are inserted into text")
    ctx.rule("order", "the text pipeline lower-cases, removes LaTeX, expands and separates, in this order, before it evaluates")
    ctx.rule("separate", "no two letters remain adjacent in separated text, except in the preserved function names")
    ctx.rule("limit", "the degree limits are applied before solving")
    ctx.rule("switch", "the restriction is switched on and never switched off")
    ctx.section(check_front, ctx)
    ctx.section(check_pipeline, ctx)
    ctx.section(check_separation, ctx)
    ctx.section(check_limits, ctx)
    ctx.section(check_switch, ctx)
    ctx.section(check_perm, ctx)
    ctx.section(check_strings, ctx)

# ---------------------------------------------------------------- which callables evaluate
def sink_kind(prog, t):
    """'hard' / 'soft' / 'entry' / None for a call term"""
    if t.op != "call": return None
    q = callee(t)
    if not q: return None
    n = q.split(".")[-1]
    if q.startswith("."):
        return "hard" if n in ("render_template_string", "parse_expr", "popen", "Popen", "check_output", "import_module") else None
    if n in ENTRY and (q.startswith("triples.") or q in prog.funcs): return "entry"
    root = q.split(".")[0]
    if root == "builtins": return "hard" if n in ("eval", "exec", "compile", "__import__") else None
    if root == "sympy": return "hard" if n in EVAL else "soft" if n in SOFT else None
    if root in ("os", "subprocess", "pickle", "importlib", "flask", "yaml", "marshal", "shelve"):
        return "hard" if n in EVAL else None
    return None

def text_free(t, facts, d=0):
    """the value is known not to be raw text"""
    if t.op == "c": return True
    for k, v in facts.items():
        if k.op == "call" and callee(k) == "builtins.isinstance" and len(k.a[1]) == 2 and k.a[1][0] is t:
            ks = {str(z.a[0]).split(".")[-1] for z in subterms(k.a[1][1]) if z.op == "g"}
            if v is True and ks and not ks & {"str", "object", "bytes", "Sequence", "Iterable", "Hashable", "list", "tuple", "dict"}: return True
            if v is False and "str" in ks: return True
    if t.op in ("bin", "neg", "lt", "eq", "in", "not", "and", "or", "isnone"):
        return all(text_free(x, facts, d + 1) for x in t.a if isinstance(x, T)) if t.op == "bin" else True
    if t.op == "call":
        n = callee_name(t)
        if n in ENTRY: return True
        if n in ("int", "float", "len", "ord", "abs", "Symbol", "Dummy", "symbols", "Integer", "Float", "bool", "range", "Poly", "fraction", "cancel", "sympify", "S", "as_expr", "deg", "total_degree", "degree", "literal_eval"): return True
    return False

INTERNAL = {"poly", "degree", "triangle", "grid", "gens", "perm", "rootsinfo"}
def raw_text(t):
    """a value taken directly from the request or from a text parameter"""
    t = peel(t)
    if t.op == "p": return t.a[0] in ("txt", "text", "input_text", "dehomogenize", "tangents", "tg", "expr")
    if t.op == "sub" and t.a[1].op == "c": return root_req(t.a[0]) and (t.a[1].a[1] not in INTERNAL or wire(t.a[0]))
    if t.op == "call" and callee_name(t) == "get" and t.a[0].op == "attr" and t.a[1] and t.a[1][0].op == "c": return root_req(t.a[0].a[0]) and (t.a[1][0].a[1] not in INTERNAL or wire(t.a[0].a[0]))
    if t.op == "call" and callee_name(t) in ("replace", "strip", "lower", "split", "join", "format", "str", "upper"): 
        return any(raw_text(x) for x in ([t.a[0].a[0]] if t.a[0].op == "attr" else []) + list(t.a[1]))
    if t.op == "bv": return raw_text(t.a[0])
    if t.op == "item": return raw_text(t.a[0])
    if t.op == "bin": return any(raw_text(x) for x in t.a[1:])
    return False

def wire(t):
    """the mapping is the request as it was received"""
    while t.op in ("sub", "attr", "item"): t = t.a[0]
    return t.op == "call" and callee_name(t) in ("get_json", "get_data") or t.op == "g" and str(t.a[0]).endswith(".request")

def peel(t):
    while t.op == "star": t = t.a[0]
    return t

def root_req(t):
    while t.op in ("sub", "attr", "item"): t = t.a[0]
    if t.op == "call" and callee_name(t) == "get" and t.a[0].op == "attr": return root_req(t.a[0].a[0])
    return (t.op == "call" and callee_name(t) in ("get_json", "get_data")) or (t.op == "p" and t.a[0] in ("kwargs", "req", "request", "data")) or (t.op == "g" and str(t.a[0]).endswith(".request"))

# ---------------------------------------------------------------- guards
def guard(t, facts):
    """True: the text passed the character restriction (or it is switched off); False: it did not; None: not understood"""
    odd = False
    for k, v in facts.items():
        if k.op == "attr" and k.a[1] == "CONFIG_RESTRICT_INPUT_CHARS" and v is False: return True
        if k.op == "call" and callee(k) in ("builtins.all", "builtins.any") and len(k.a[1]) == 1:
            c = k.a[1][0]
            if c.op == "comp" and unwrap(c.a[2]) is t and not c.a[3]:
                lim = ascii_limit(c.a[1], callee(k) == "builtins.all")
                if lim is None: odd = odd or any(x.op == "bv" for x in subterms(c.a[1])) and not any(x.op == "call" and callee(x) == "builtins.ord" for x in subterms(c.a[1]))
                elif v is (callee(k) == "builtins.all") and lim <= 128: return True
        if k.op == "call" and callee_name(k) == "isascii" and k.a[0].op == "attr" and k.a[0].a[0] is t and v is True: return True
        if k.op == "call" and any(a is t for a in call_args(k)) and callee(k) not in ("builtins.isinstance", "builtins.len", "builtins.all", "builtins.any", "builtins.hasattr"):
            odd = True
    return None if odd else False

BAD_NAMES = ("A", "\uff41", "\u03b1", ".", "+", "_", "1", '"', "#", "(", "ab", "__")
def names_restricted(ctx, f, e, txt):
    """names of the generators are inserted into the text by the cyclic expansion: they must be single lower-case letters"""
    g = call_kw(e.term, "gens", 1)
    if g is None or g.op in ("c", "g"): ctx.ok("names", e.loc, "default generators"); return
    g = unwrap(g, ("tuple", "list"))
    if g.op == "sub" and g.a[1] is C("gens"): ctx.ok("names", e.loc, "generators of an accepted problem"); return
    if g.op not in ("p", "call", "comp", "tuple", "attr"): ctx.unres("names", "%s: generators %s" % (e.loc, str(g)[:80])); return
    ks = [(k, w) for k, w in e.facts.items() if g in subterms(k) and not (k.op == "call" and callee_name(k) in ("all", "any"))]
    un = False; left = []
    for nm in BAD_NAMES:
        excl = False
        for k, w in ks:
            v = name_val(k, g, nm)
            if v is None: un = True
            elif bool(v) != bool(w): excl = True
        if not excl: left.append(nm)
    odd = un or any(g in subterms(k) for k in e.facts if k.op == "call" and callee_name(k) not in ("len", "isinstance", "all", "any") and name_val(k, g, "a") is None)
    if left and (odd or any(g in subterms(k) and k.op == "call" for k in e.facts) and not ks): ctx.unres("names", "%s: condition on the generators" % e.loc)
    else: ctx.decide(not left, "names", e.loc, f.qual, "generators named %s are inserted into text that is evaluated" % ", ".join(ascii(x) for x in left[:4]), f.name + ":names", "single lower-case letters", path_of(e))

def name_val(t, g, nm):
    """value of a condition when an element of g is named nm"""
    def go(x):
        if x.op == "c": return cval(x)
        if x.op == "attr" and x.a[1] == "name" and x.a[0].op == "bv" and x.a[0].a[0] is g: return nm
        if x.op == "call" and callee_name(x) == "str" and len(x.a[1]) == 1 and x.a[1][0].op == "bv" and x.a[1][0].a[0] is g: return nm
        if x.op == "g" and str(x.a[0]).split(".")[-1] in ("ascii_lowercase",): return "abcdefghijklmnopqrstuvwxyz"
        if x.op == "call":
            n = callee_name(x)
            if n in ("len", "ord") and len(x.a[1]) == 1:
                v = go(x.a[1][0])
                return None if not isinstance(v, str) or n == "ord" and len(v) != 1 else (len if n == "len" else ord)(v)
            if x.a[0].op == "attr" and not x.a[1] and n in ("isalpha", "islower", "isascii", "isupper", "isdigit", "isalnum", "isidentifier"):
                v = go(x.a[0].a[0]); return getattr(v, n)() if isinstance(v, str) else None
            return None
        if x.op in ("not",):
            v = go(x.a[0]); return None if v is None else not v
        if x.op in ("and", "or"):
            vs = [go(a) for a in x.a]
            if x.op == "and": return False if any(v is not None and not v for v in vs) else None if None in vs else True
            return True if any(vs) else None if None in vs else False
        if x.op in ("eq", "lt", "le", "in"):
            a, b = go(x.a[0]), go(x.a[1])
            if x.op == "in" and x.a[1].op in ("tuple", "list", "set"): b = [go(z) for z in x.a[1].a]
            if a is None or b is None: return None
            try: return a == b if x.op == "eq" else a < b if x.op == "lt" else a <= b if x.op == "le" else a in b
            except TypeError: return None
        return None
    return go(t)

def ascii_limit(c, pos):
    """ord(x) < N / ord(x) >= N conditions: N"""
    if c.op == "not": return ascii_limit(c.a[0], not pos)
    if c.op in ("lt", "le") and pos:
        a, b = c.a
        if is_ord(a) and b.op == "c": return cval(b) + (1 if c.op == "le" else 0)
    if c.op in ("lt", "le") and not pos:
        a, b = c.a
        if is_ord(b) and a.op == "c": return cval(a) + (1 if c.op == "lt" else 0)
        if is_ord(a) and b.op == "c": return None
    return None

def is_ord(t): return t.op == "call" and callee(t) == "builtins.ord"

# ---------------------------------------------------------------- front ends
def is_route(f):
    for d in getattr(f.node, "decorator_list", []):
        s = ast.unparse(d)
        if ".route(" in s or ".on(" in s or ".event" in s or ".post(" in s or ".get(" in s: return True
    return False

def sinks_in(prog, f):
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call):
            r = prog.resolve_expr(n.func, f.module, f)
            q = getattr(r, "qual", None)
            nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", "")
            if nm in EVAL or nm in SOFT or nm in ENTRY or (q or "").split(".")[-1] in ENTRY: yield n
            elif q and isinstance(r, Func) and is_new(r): yield n

def check_front(ctx):
    prog = ctx.prog
    n = 0
    for q, f in sorted(prog.funcs.items()):
        if not any(q == m or q.startswith(m + ".") for m in FRONT) or "<lambda>" in q or f.parent is not None: continue
        if is_new(f) and not is_route(f) and called(prog, f): continue
        if not any(True for _ in sinks_in(prog, f)): continue
        n += 1
        on = {T("attr", b, "CONFIG_RESTRICT_INPUT_CHARS"): True for b in (T("p", "cls"), T("p", "self"), T("g", "triples.gui.sos_manager.SOS_Manager"))}
        ex = runf(ctx, "sink", f, facts=on, max_states=6000, inline=inliner(), want=lambda t: sink_kind(prog, t) is not None or (t.op == "call" and t.a[0].op == "ite"))
        if ex is None: continue
        for e in events(ex, lambda e: e.kind == "call"):
            kd = sink_kind(prog, e.term)
            if kd is None: continue
            fs = e.facts
            nm = callee_name(e.term)
            if kd == "entry":
                t = call_kw(e.term, "poly", 0)
                if t is None or t.op == "c": continue
                names_restricted(ctx, f, e, t)
                g = guard(t, fs)
                if g is None: ctx.unres("restrict", "%s in %s" % (t, f.qual))
                else: ctx.decide(g, "restrict", e.loc, f.qual, "%s is parsed without the character restriction" % t, "%s:%s" % (f.name, nm), what=nm, path=path_of(e))
                continue
            for a in (call_args(e.term)[:1] if kd == "hard" else call_args(e.term)[:1]):
                a = peel(a)
                if kd == "soft":
                    if raw_text(a) and not text_free(a, fs): ctx.bad("sink", e.loc, f.qual, "%s evaluates %s" % (nm, a), "%s:%s" % (f.name, nm), path_of(e))
                    else: ctx.ok("sink", e.loc, nm)
                    continue
                if text_free(a, fs): ctx.ok("sink", e.loc, "%s(%s)" % (nm, a))
                elif raw_text(a): ctx.bad("sink", e.loc, f.qual, "%s evaluates %s" % (nm, a), "%s:%s" % (f.name, nm), path_of(e))
                elif nm in ("eval", "exec", "system", "popen", "render_template_string"): ctx.bad("sink", e.loc, f.qual, "%s evaluates %s" % (nm, a), "%s:%s" % (f.name, nm), path_of(e))
                else: ctx.unres("sink", "%s(%s) in %s" % (nm, a, f.qual))
    ctx.count("front_end_functions", n)
    # evaluation of program text anywhere else
    for q, f in sorted(prog.funcs.items()):
        if "<lambda>" in q: continue
        for c in calls_in(f):
            if isinstance(c.func, ast.Name) and c.func.id in ("eval", "exec"):
                r = prog.resolve_expr(c.func, f.module, f)
                if r is not None and isinstance(r, (Func, Cls)): continue
                a = c.args[0] if c.args else None
                if isinstance(a, ast.Constant): continue
                ctx.bad("sink", "%s:%d" % (f.module.rel, c.lineno), f.qual, "program text is executed: %s" % ast.unparse(c)[:80], "exec:%s" % f.qual)
        ctx.count("functions_scanned")

def called(prog, f):
    for g in prog.funcs.values():
        if g is f: continue
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call):
                nm = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", None)
                if nm == f.name: return True
    return False

# ---------------------------------------------------------------- the pipeline
def check_pipeline(ctx):
    for nm in ("preprocess_text", "degree_of_zero"):
        f = find(ctx, "order", TP + "." + nm)
        if f is None: continue
        par = T("p", f.args[0])
        ex = runf(ctx, "order", f, merge=True, want=lambda t: t.op == "call" and (callee_name(t) in (COMPLETE,) or sink_kind(ctx.prog, t) == "hard"))
        for x in ex or []:
            done = None
            for e in x.events:
                if callee_name(e.term) == COMPLETE: done = e.term; continue
                a = call_args(e.term)[0] if call_args(e.term) else None
                if a is None or a.op == "c": continue
                v = e.st.expand(a)
                chain(ctx, f, e, v, par, done)
        if f is not None and nm == "preprocess_text":
            for x in ex or []:
                if x.kind == "return" and x.st.facts.get(T("eq", C("text"), T("p", "return_type"))) is True:
                    chain(ctx, f, x, x.val, par, None)

def chain(ctx, f, e, v, par, done):
    loc = e.loc
    orig = v
    # value-preserving string steps after separation
    while v.op == "call" and v.a[0].op == "attr" and callee_name(v) in ("replace", "strip"):
        if callee_name(v) == "replace":
            a = v.a[1]
            if len(a) < 2 or a[0].op != "c" or a[1].op != "c" or str(a[1].a[1]) == "" or any(c.isalpha() for c in str(a[1].a[1])): break
        v = v.a[0].a[0]
    if v.op == "phi" or any(u.op == "phi" for u in subterms(v)):
        ctx.decide(done is not None, "order", loc, f.qual, "text is evaluated that was never separated", f.name + ":phi", what="after separation")
        if done is not None: v = done
        else: return
    if not (v.op == "call" and callee_name(v) == COMPLETE):
        if par in subterms(v):
            ctx.bad("order", loc, f.qual, "the evaluated text %s is not the output of the separation step" % orig, f.name + ":last", path_of(e))
        else: ctx.unres("order", "evaluates %s" % orig)
        return
    inner = call_kw(v, "poly", 0)
    names = [callee_name(u) for u in subterms(inner) if u.op == "call"]
    ok = True
    if not ("lower" in names or "casefold" in names): ok = ctx.decide(False, "order", loc, f.qual, "capital letters reach the evaluating parser", f.name + ":lower", path=path_of(e))
    if "_preprocess_text_delatex" not in names: 
        ctx.unres("order", "LaTeX is not removed before separation")
    if ok: ctx.ok("order", loc, f.name)

# ---------------------------------------------------------------- separation of letters
def check_separation(ctx):
    f = find(ctx, "separate", TP + "." + COMPLETE)
    if f is None: return
    done = []
    def ow(func, node, g, results):
        if func is not f and not is_new(func): return
        done.append(1)
        one_step(ctx, f, node, g, results)
    ex = runf(ctx, "separate", f, merge=False, max_states=6000, on_while=ow, inline=inliner(extra=lambda g: g.qual.startswith(f.qual)))
    if not done: ctx.unres("separate", "no loop over the text")

def offset(t, base):
    """t = base + const -> const"""
    if t is base: return 0
    if t.op == "bin" and t.a[0] == "Add":
        for a, b in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            if b.op == "c" and isinstance(cval(b), int):
                r = offset(a, base)
                if r is not None: return r + cval(b)
    if t.op == "bin" and t.a[0] == "Sub" and t.a[2].op == "c":
        r = offset(t.a[1], base)
        if r is not None: return r - cval(t.a[2])
    return None

LETTERS = "abcdefghijklmnopqrstuvwxyz"
def one_step(ctx, f, node, g, results):
    # the text and the position: the sub-terms text[pos], text[pos+1] used in the conditions
    P = I = None
    for r in results:
        for k in r[1].facts:
            for u in subterms(k):
                if u.op == "sub" and u.a[0].op == "phi" and u.a[1].op == "phi": P, I = u.a[0], u.a[1]
    if P is None: ctx.unres("separate", "loop not recognised"); return
    pn = [n for n, v in g.env.items() if v is P]; ino = [n for n, v in g.env.items() if v is I]
    if not pn or not ino: ctx.unres("separate", "loop variables not recognised"); return
    loc = "%s:%d" % (f.module.rel, node.lineno)
    left, total = set(), 0
    # the loop starts at the first character and does not stop before the last pair
    if I.a[2].op == "c" and isinstance(cval(I.a[2]), int): ctx.decide(cval(I.a[2]) == 0, "separate", loc, f.qual, "the first %s characters are not separated" % cval(I.a[2]), "start", what="starts at 0")
    else: ctx.unres("separate", "start of the loop: %s" % I.a[2])
    common = None
    for r in results:
        ks = {(k, v) for k, v in r[1].facts.items() if I in subterms(k) and not any(u.op == "sub" for u in subterms(k))}
        common = ks if common is None else common & ks
    for k, v in sorted(common or (), key=str):
        for L in (2, 3, 5000, 10 ** 6):
            for i in (0, L - 2):
                w = size_val(k, P, I, i, L)
                if w is not None and bool(w) != bool(v): ctx.bad("separate", loc, f.qual, "the separation stops at position %d of %d" % (i, L), "stop"); break
            else: continue
            break
        else: ctx.ok("separate", loc, "the loop reaches the last pair")
    for kind, st, val, n in results:
        if kind not in ("fall", "continue"): 
            if kind == "break" and st.env.get(pn[0]) is P: ctx.unres("separate", "loop is left early")
            continue
        p, i = st.env.get(pn[0]), st.env.get(ino[0])
        adv = offset(i, I) if i is not None else None
        if p is None or adv is None: ctx.unres("separate", "step %s, %s" % (p, i)); continue
        changed = p is not P
        match = None
        for k, v in st.facts.items():
            if k.op == "eq" and v is True:
                for a, b in ((k.a[0], k.a[1]), (k.a[1], k.a[0])):
                    if a.op == "c" and isinstance(cval(a), str) and len(cval(a)) > 1 and b.op == "sub" and b.a[0] is P: match = cval(a)
            if k.op == "call" and callee_name(k) == "startswith" and v is True and k.a[1] and k.a[1][0].op == "c": match = cval(k.a[1][0])
        if match is not None:
            ctx.decide(adv <= len(match), "separate", loc, f.qual, "letters after %r are skipped without being separated" % match, "skip:" + match); continue
        if changed:
            s = [u for u in subterms(p) if u.op == "c" and isinstance(cval(u), str)]
            ctx.decide(adv <= 2, "separate", loc, f.qual, "letters are skipped after a separation", "advance")
            if not any(cval(u) in ("*", "^", "**", " * ") for u in s): ctx.unres("separate", "inserts %s" % [cval(u) for u in s])
            continue
        sci = any(C("e") in subterms(k) for k in st.facts)
        if adv != 1: ctx.bad("separate", loc, f.qual, "%d characters are skipped at once" % adv, "advance"); continue
        for a in LETTERS:
            for b in LETTERS:
                if "e" in (a, b) and sci: continue        # scientific notation keeps 'e'
                total += 1
                if all(val_of(k, P, I, a, b) in (None, v) for k, v in st.facts.items()): left.add(a + b)
    ctx.count("letter_pairs_checked", total)
    ctx.decide(not left, "separate", loc, f.qual, "adjacent letters stay together: %s" % ", ".join(sorted(left)[:6]), "pairs", what="%d pair conditions" % total)

def size_val(t, P, I, i, L):
    """value of a condition on the position i in a text of length L"""
    def go(x):
        if x is I: return i
        if x.op == "c": return cval(x)
        if x.op == "call":
            n = callee_name(x); a = call_args(x)
            if n == "len" and len(a) == 1 and a[0] is P: return L
            if n in ("min", "max", "abs", "int") and a and not x.a[2]:
                vs = [go(z) for z in a]
                return None if None in vs else {"min": min, "max": max, "abs": abs, "int": int}[n](*vs)
            return None
        if x.op == "not":
            u = go(x.a[0]); return None if u is None else not u
        if x.op == "bin" or x.op in ("lt", "le", "eq"):
            a, b = (go(z) for z in (x.a[1:] if x.op == "bin" else x.a))
            if a is None or b is None: return None
            try: return {"lt": lambda: a < b, "le": lambda: a <= b, "eq": lambda: a == b}[x.op]() if x.op != "bin" else {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "FloorDiv": lambda: a // b, "Mod": lambda: a % b}[x.a[0]]()
            except (KeyError, TypeError, ZeroDivisionError): return None
        return None
    return go(t)

def val_of(t, P, I, a, b):
    """value of a condition when the two current characters are a, b; None if it depends on something else"""
    def go(x):
        if x.op == "c": return cval(x)
        if x.op == "sub" and x.a[0] is P:
            o = offset(x.a[1], I)
            return a if o == 0 else b if o == 1 else None
        if x.op == "call":
            n = callee_name(x)
            if n == "ord" and len(x.a[1]) == 1:
                v = go(x.a[1][0]); return ord(v) if isinstance(v, str) and len(v) == 1 else None
            if x.a[0].op == "attr" and not x.a[1] and n in ("isalpha", "islower", "isdigit", "isdecimal", "isupper", "isspace", "isalnum", "isnumeric"):
                v = go(x.a[0].a[0]); return getattr(v, n)() if isinstance(v, str) else None
            return None
        if x.op == "eq":
            u, w = go(x.a[0]), go(x.a[1]); return None if u is None or w is None else u == w
        if x.op == "lt":
            u, w = go(x.a[0]), go(x.a[1])
            try: return None if u is None or w is None else u < w
            except TypeError: return None
        if x.op == "in":
            u = go(x.a[0]); w = go(x.a[1])
            if w is None and x.a[1].op in ("tuple", "list", "set"): w = [go(z) for z in x.a[1].a]
            try: return None if u is None or w is None else u in w
            except TypeError: return None
        if x.op == "not":
            u = go(x.a[0]); return None if u is None else not u
        return None
    r = go(t)
    return r if isinstance(r, bool) else None

# ---------------------------------------------------------------- limits
def check_limits(ctx):
    f = find(ctx, "limit", "triples.gui.sos_manager.SOS_Manager.sum_of_squares")
    if f is not None:
        ex = runf(ctx, "limit", f, merge=False, want=lambda t: t.op == "call" and callee(t) == "triples.core.sum_of_squares.sum_of_squares")
        pp = T("p", "poly")
        for e in events(ex or [], lambda e: e.kind == "call"):
            mo = call_kw(e.term, "method_order")
            chk = mo is not None and any(u.op == "call" and callee_name(u) in ("CONFIG_METHOD_CHECK", "_default_polynomial_check") for u in subterms(mo))
            ctx.decide(chk, "limit", e.loc, f.qual, "the problem is solved with methods that the degree limits did not look at", "check", path=path_of(e))
            if chk:
                u = [u for u in subterms(mo) if u.op == "call" and callee_name(u) in ("CONFIG_METHOD_CHECK", "_default_polynomial_check")][0]
                a = call_args(u); po = call_kw(e.term, "poly", 0)
                ctx.decide(any(x is po for x in a), "limit", e.loc, f.qual, "the degree limits look at another polynomial than the one solved", "poly")
            isp = any(k.op == "call" and callee(k) == "builtins.isinstance" and k.a[1][0] is pp and v is True for k, v in e.facts.items())
            ctx.decide(isp, "sink", e.loc, f.qual, "a problem that is not a polynomial (raw text) reaches the solvers", "isinstance", path=path_of(e))
        if ex is not None and not events(ex, lambda e: e.kind == "call"): ctx.unres("limit", "no solving call in %s" % f.qual)
    # the front ends solve only through the manager
    for q, g in sorted(ctx.prog.funcs.items()):
        if not any(q.startswith(m + ".") for m in FRONT[:2]): continue
        for c in calls_in(g):
            r = resolve_call(ctx.prog, g, c)
            if isinstance(r, Func) and r.qual == "triples.core.sum_of_squares.sum_of_squares":
                ctx.bad("limit", "%s:%d" % (g.module.rel, c.lineno), g.qual, "a front end solves without the degree limits", "direct:" + g.name)
            elif isinstance(c.func, ast.Attribute) and c.func.attr == "sum_of_squares": ctx.ok("limit", "%s:%d" % (g.module.rel, c.lineno), g.qual)
    d = method_check(ctx)
    if d is None: return
    limit_table(ctx, d)
    ex = runf(ctx, "limit", d, merge=False)
    for x in ex or []:
        if x.kind != "return": continue
        over = [k for k in x.facts if k.op in ("lt", "le") and any(u.op == "call" and callee_name(u) in ("total_degree", "deg", "degree") for u in subterms(k))]
        if not over: ctx.unres("limit", "returns %s without a degree condition" % x.val); continue
        k = over[0]
        hi = (x.facts[k] is True) == any(u.op == "call" and callee_name(u) in ("total_degree", "deg", "degree") for u in subterms(k.a[1]))
        v = x.st.expand(x.val)
        if hi:
            s = {cval(u) for u in subterms(v) if u.op == "c" and isinstance(cval(u), str)}
            dropped = v.op == "comp" and v.a[3] or v.op in ("list", "tuple")
            if v.op == "p": ctx.bad("limit", x.loc, d.qual, "a problem above the degree limit is solved with every method", "over", path_of(x))
            elif v.op == "comp" or (v.op == "list" and len(v.a) == 1 and isinstance(v.a[0], T) and v.a[0].op == "each"):
                for m in ("LinearSOS", "SDPSOS"): ctx.decide(m in s, "limit", x.loc, d.qual, "a problem above the degree limit is still given to %s" % m, "over:" + m)
            else: ctx.unres("limit", "returns %s" % v)
        else: ctx.ok("limit", x.loc, "within the limit")

def method_check(ctx):
    """the function that the manager applies to the methods of a problem"""
    cls = ctx.prog.classes.get("triples.gui.sos_manager.SOS_Manager")
    d = None
    for mn, m in sorted(ctx.prog.modules.items()):
        for n in ast.walk(m.tree):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []):
                own = cls is not None and n in cls.node.body and isinstance(t, ast.Name) and t.id == "CONFIG_METHOD_CHECK"
                if not own and not (isinstance(t, ast.Attribute) and t.attr == "CONFIG_METHOD_CHECK"): continue
                v = n.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "staticmethod" and v.args: v = v.args[0]
                r = ctx.prog.resolve_expr(v, m) if not isinstance(v, ast.Lambda) else None
                loc = "%s:%d" % (m.rel, n.lineno)
                if isinstance(r, Func): d = r if own or d is None else d; ctx.ok("limit", loc, r.qual) if own else other_check(ctx, loc, mn, r)
                elif isinstance(v, ast.Lambda):
                    ps = [a.arg for a in v.args.args]
                    ctx.decide(not (isinstance(v.body, ast.Name) and v.body.id in ps), "limit", loc, mn, "the degree limits are replaced by a function that changes nothing", "method-check:" + mn)
                else: ctx.unres("limit", "%s: the method check is %s" % (loc, ast.unparse(v)[:60]))
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 and isinstance(n.args[1], ast.Constant) and n.args[1].value == "CONFIG_METHOD_CHECK":
                ctx.bad("limit", "%s:%d" % (m.rel, n.lineno), mn, "the degree limits are replaced at run time", "method-check:" + mn)
    return d if d is not None else find(ctx, "limit", "triples.gui.sos_manager._default_polynomial_check")

def other_check(ctx, loc, mn, r):
    ctx.bad("limit", loc, mn, "the degree limits are replaced at run time", "method-check:" + mn) if any(mn == x or mn.startswith(x + ".") for x in FRONT) else ctx.unres("limit", "%s: method check replaced by %s" % (loc, r.qual))

def limit_table(ctx, d):
    """the condition of the degree limit, evaluated for every degree, number of generators and homogeneity"""
    ex = runf(ctx, "limit", d, merge=False)
    if ex is None: return
    poly = d.args[0]; res = {}
    def go(x, env):
        if x.op == "c": return cval(x)
        if x.op == "attr" and x.a[0].op == "p" and x.a[0].a[0] == poly: return env.get(x.a[1])
        if x.op in ("list", "tuple"):
            vs = [go(z, env) for z in x.a if isinstance(z, T)]; return vs if None not in vs else None
        if x.op == "sub":
            v, i = go(x.a[0], env), go(x.a[1], env)
            try: return v[i] if v is not None and i is not None else None
            except (IndexError, TypeError): return None
        if x.op == "ite":
            v = go(x.a[0], env); return None if v is None else go(x.a[1 if v else 2], env)
        if x.op == "call":
            n = callee_name(x); a = call_args(x)
            if n in ("total_degree", "deg", "homogeneous_order") and (x.a[0].op == "attr" or a and a[0].op == "p"): return env["degree"]
            if n in ("len", "int", "bool", "min", "max", "abs") and a and not x.a[2]:
                if n == "len" and a[0].op == "attr" and a[0].a[1] in ("gens", "free_symbols"): return env["ngens"]
                vs = [go(z, env) for z in a]
                if None in vs: return None
                try: return {"len": len, "int": int, "bool": bool, "min": min, "max": max, "abs": abs}[n](*vs)
                except TypeError: return None
            return None
        if x.op == "not":
            v = go(x.a[0], env); return None if v is None else not v
        if x.op == "neg":
            v = go(x.a[0], env); return None if v is None else -v
        if x.op in ("lt", "le", "eq", "in", "bin"):
            a, b = (go(z, env) for z in (x.a[1:] if x.op == "bin" else x.a))
            if a is None or b is None: return None
            try:
                if x.op == "bin": return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "FloorDiv": lambda: a // b, "Mod": lambda: a % b}[x.a[0]]()
                return {"lt": lambda: a < b, "le": lambda: a <= b, "eq": lambda: a == b, "in": lambda: a in b}[x.op]()
            except (KeyError, TypeError, ZeroDivisionError): return None
        return None
    loc = "%s:%d" % (d.module.rel, d.node.lineno)
    # the degree is the total degree
    for x in ex:
        for k in x.facts:
            kk = x.st.expand(k)
            if kk.op in ("lt", "le") and any(u.op == "call" and callee_name(u) in ("degree_list", "degree") for u in subterms(kk)) and not any(u.op == "call" and callee_name(u) in ("total_degree", "deg", "sum") for u in subterms(kk)):
                ctx.bad("limit", loc, d.qual, "the limit is compared with the degree in one variable", "table:degree")
    for hom in (True, False):
        for ng in range(1, 14):
            lim = None; known = True
            for dg in range(1, 140):
                env = {"is_homogeneous": hom, "ngens": ng, "degree": dg}
                got = set()
                for x in ex:
                    if x.kind != "return": continue
                    vs = [(go(x.st.expand(k), env), v) for k, v in x.facts.items()]
                    if any(w is not None and bool(w) != bool(v) for w, v in vs): continue
                    if not any(w is not None for w, v in vs): got.add(None); continue
                    ev = x.st.expand(x.val)
                    got.add(ev.op == "p")
                if got == {True}: lim = dg
                elif got and None not in got and True not in got: break
                elif got and None not in got: pass       # both: another condition decides
                else: known = False; break
            if not known: ctx.unres("limit", "degree condition not evaluated for %d generators" % ng); return
            res[hom, ng] = lim or 0
    ctx.count("degree_limits_evaluated", len(res))
    loc = "%s:%d" % (d.module.rel, d.node.lineno)
    for (hom, ng), l in sorted(res.items()):
        w = "%d generators%s" % (ng, "" if hom else ", not homogeneous")
        size = comb(l // 2 + ng - (1 if hom else 0), l // 2)
        if l <= 40 and size > 130: ctx.bad("limit", loc, d.qual, "problems of degree %d in %s (%d monomials of half the degree) are solved with every method" % (l, w, size), "table:size")
        elif l > 40: ctx.bad("limit", loc, d.qual, "problems of degree %s in %s are solved with every method" % ("any" if l > 130 else l, w), "table:max:%s" % ng); continue
        if ng > 1 and l > res[hom, ng - 1]: ctx.bad("limit", loc, d.qual, "the degree limit grows with the number of variables (%s: %d)" % (w, l), "table:mono")
        elif not hom and l > res[True, ng]: ctx.bad("limit", loc, d.qual, "the degree limit of problems that are not homogeneous is higher (%s: %d)" % (w, l), "table:hom")
        else: ctx.ok("limit", loc, "%s: degree %d" % (w, l))

def check_switch(ctx):
    for name, want in (("CONFIG_RESTRICT_INPUT_CHARS", True),):
        cls = ctx.prog.classes.get("triples.gui.sos_manager.SOS_Manager")
        if cls is None: ctx.unres("switch", "SOS_Manager not found"); return
        for n in ast.walk(cls.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                ctx.decide(isinstance(n.value, ast.Constant) and n.value.value is True, "switch", "%s:%d" % (cls.module.rel, n.lineno), cls.qual, "the character restriction is switched off", "default")
        for mn, m in ctx.prog.modules.items():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.Assign, ast.AugAssign)):
                    for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                        if isinstance(t, ast.Attribute) and t.attr == name and not (isinstance(n.value, ast.Constant) and n.value.value is True):
                            ctx.bad("switch", "%s:%d" % (m.rel, n.lineno), mn, "the character restriction is switched off at run time", "store:" + mn)
    # the flag may not be consulted in a way that inverts it: guard() decides per call

def check_perm(ctx):
    f = find(ctx, "sink", "triples.gui.sos_manager.SOS_Manager._parse_perm_group")
    if f is None: return
    for c in calls_in(f):
        nm = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", None)
        if nm in ("eval", "exec", "sympify", "parse_expr", "S"): ctx.bad("sink", "%s:%d" % (f.module.rel, c.lineno), f.qual, "client text is evaluated by %s" % nm, "perm:" + nm)
        elif nm == "literal_eval": ctx.ok("sink", "%s:%d" % (f.module.rel, c.lineno), "literal_eval")

def check_strings(ctx):
    """functions of the package that accept text besides polynomials: the text goes through the pipeline before it is evaluated"""
    prog = ctx.prog
    for q, f in sorted(prog.funcs.items()):
        if not q.startswith("triples.") or "<lambda>" in q or f.parent is not None or any(q.startswith(m + ".") for m in FRONT): continue
        test = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "isinstance" and len(n.args) == 2 and "str" in ast.unparse(n.args[1]) for n in ast.walk(f.node))
        if not test or not any(True for _ in sinks_in(prog, f)): continue
        ctx.count("functions_accepting_text")
        ex = runf(ctx, "sink", f, merge=False, max_states=3000, want=lambda t: sink_kind(prog, t) in ("hard", "soft", "entry"))
        for e in events(ex or [], lambda e: e.kind == "call"):
            kd = sink_kind(prog, e.term)
            if kd == "entry": ctx.ok("sink", e.loc, "text pipeline"); continue
            for a in call_args(e.term)[:1]:
                a = peel(a)
                if a.op == "c" or kd == "soft" and a.op != "p" and not is_text(a, e.facts): continue
                if is_text(a, e.facts): ctx.bad("sink", e.loc, f.qual, "%s evaluates the text %s" % (callee_name(e.term), a), "text:%s:%s" % (f.name, callee_name(e.term)), path_of(e))
                else: ctx.ok("sink", e.loc, "%s: not text" % callee_name(e.term))

def is_text(t, facts, d=0):
    if d > 4: return False
    for k, v in facts.items():
        if v is True and k.op == "call" and callee(k) == "builtins.isinstance" and len(k.a[1]) == 2 and k.a[1][0] is t:
            ks = {str(z.a[0]).split(".")[-1] for z in subterms(k.a[1][1]) if z.op == "g"}
            if ks == {"str"}: return True
    if t.op == "call" and t.a[0].op == "attr" and callee_name(t) in ("strip", "replace", "lower", "lstrip", "rstrip", "format"): return is_text(t.a[0].a[0], facts, d + 1)
    if t.op == "sub" and t.a[1].op in ("slice", "c", "item"): return is_text(t.a[0], facts, d + 1)
    if t.op == "bin" and t.a[0] in ("Add", "Mod"): return any(is_text(x, facts, d + 1) for x in t.a[1:])
    return False
