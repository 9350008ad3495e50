"""P14 - each web request is answered exactly once, and only to its sender."""
import ast
from sa.util import *

TECHNIQUE = "path- and exception-sensitive event counting over the web handlers, provenance of message addressees"
EXPLANATION = ("The request handlers of the socket server are interpreted along all paths, with an exception possible after every statement that can raise: the solving "
  "task emits exactly one final answer on every path, the root-finding task hands a solving request to it exactly once whatever root finding does, and the entry "
  "point starts exactly one task per accepted request. Every emit names an addressee, and the addressee is the session id of the same request. An answer claims "
  "success only with the solution of this request at hand. Not covered: delivery by the socket library, malformed requests, process crashes.")

ROOT = "web_main"
SAFE = {"emit", "get", "items", "keys", "values", "append", "RootsInfo", "split", "len", "all", "any", "ord", "isinstance", "list", "tuple", "dict", "set", "str",
        "print", "bool", "int", "pop", "update", "setdefault", "sum_of_squares", "start_background_task", "enumerate", "zip", "strip", "startswith", "jsonify", "is_set", "hasattr", "getattr"}

def run(ctx):
    ctx.rule("answer", "every path of the solving task sends its final answer exactly once")
    ctx.rule("handover", "a request to solve reaches the solving task exactly once, whatever root finding does")
    ctx.rule("roots", "a request for roots is answered exactly once")
    ctx.rule("start", "an accepted request starts exactly one task, a rejected one none, and both are answered")
    ctx.rule("addressee", "a message is addressed to the session of the request it answers")
    ctx.rule("truth", "success is claimed only with the solution of this request")
    web = [m for n, m in ctx.prog.modules.items() if n == ROOT or (n.split(".")[-1] == ROOT)]
    if not web: ctx.unres("answer", "module web_main not found"); return
    ctx.section(check_answer, ctx)
    ctx.section(check_findroot, ctx)
    ctx.section(check_start, ctx)
    ctx.section(check_addressees, ctx, web[0])

_props = {}
def properties(prog):
    if prog not in _props:
        s = set()
        for f in prog.funcs.values():
            if f.cls is not None and any((isinstance(d, ast.Name) and d.id in ("property", "cached_property")) or (isinstance(d, ast.Attribute) and d.attr in ("cached_property",)) for d in getattr(f.node, "decorator_list", [])):
                s.add(f.name)
        _props[prog] = s
    return _props[prog]

def raising_parts(n):
    if isinstance(n, (ast.If, ast.While, ast.Assert)): return [n.test]
    if isinstance(n, (ast.For, ast.AsyncFor)): return [n.iter]
    if isinstance(n, (ast.Assign, ast.Return, ast.Expr, ast.AugAssign, ast.AnnAssign)): return [n.value] if n.value is not None else []
    if isinstance(n, ast.With): return [i.context_expr for i in n.items]
    return [n]

def safe(prog, n, d=0):
    """the statement only uses operations that do not fail on a well-formed request"""
    if isinstance(n, (ast.Raise, ast.Assert)): return False
    for p in raising_parts(n):
        for x in ast.walk(p):
            if isinstance(x, ast.Call):
                nm = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", None)
                if nm == "sum_of_squares" and not isinstance(x.func, ast.Name): return False
                if nm in SAFE: continue
                g = prog.funcs.get(ROOT + "." + str(nm)) if isinstance(x.func, ast.Name) else None
                if g is None or not is_new(g) or d > 3: return False
                if not all(safe(prog, b, d + 1) for b in ast.walk(g.node) if isinstance(b, ast.stmt) and b is not g.node): return False
            elif isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and x.attr in properties(prog): return False
            elif isinstance(x, ast.BinOp) and not isinstance(x.op, (ast.Add, ast.Mult, ast.Mod)): return False
    return True

def fin(e): return e.kind == "call" and callee_name(e.term) == "emit" and any(a.op == "c" and a.a[1] == "sos" for a in e.term.a[1])

def final_fn(ctx):
    return find(ctx, "answer", ROOT + ".sum_of_squares")

def inl(f): return is_new(f) or f.parent is not None

def check_answer(ctx):
    f = final_fn(ctx)
    if f is None: return
    ex = runf(ctx, "answer", f, merge=False, implicit=True, max_states=8000, inline=inl,
              want=lambda t: t.op == "call" and (callee_name(t) == "emit" or callee(t) == f.qual))
    if ex is None: return
    seen = set()
    for x in ex:
        n = sum(1 for e in x.events if fin(e) or (e.kind == "call" and callee(e.term) == f.qual))
        k = (x.kind, id(x.node), n)
        if x.kind == "raise" and n == 0:
            if safe(ctx.prog, x.node): ctx.ok("answer", x.loc, "only infallible operations")
            else: ctx.bad("answer", x.loc, f.qual, "an exception here leaves the request without an answer", "unanswered:" + src(x.node), path_of(x))
        elif x.kind == "return" and n == 0:
            ctx.bad("answer", x.loc, f.qual, "the request is not answered on this path", "noanswer", path_of(x))
        elif n > 1: ctx.bad("answer", x.loc, f.qual, "the request is answered %d times on this path" % n, "twice", path_of(x))
        else: ctx.ok("answer", x.loc, f.qual)
    for e in events(ex, fin):
        d = [x.st.expand(e.term.a[1][1]) for x in [e]] if len(e.term.a[1]) > 1 else [e.st.expand(v) for k, v in e.term.a[2] if k in ("data", "args")]
        if not d or d[0].op != "dict":
            r = d[0] if d else None
            while r is not None and (r.op in ("sub", "attr", "item") or r.op == "call" and r.a[0].op == "attr" and callee_name(r) in ("get", "pop", "copy", "setdefault")): r = r.a[0] if r.op != "call" else r.a[0].a[0]
            if r is not None and shared(r): ctx.bad("truth", e.loc, f.qual, "the answer is taken from %s, which is shared by all requests" % r, "shared")
            else: ctx.unres("truth", "payload %s" % (d[:1]))
            continue
        kv = {}
        for z in d[0].a:
            if isinstance(z, T) and z.op == "kv" and z.a[0].op == "c": kv[z.a[0].a[1]] = z.a[1]
        sols = [k for k in e.facts if k.op == "isnone" and k.a[0].op == "call" and callee_name(k.a[0]) == "sum_of_squares"]
        suc = kv.get("success")
        if suc is None: ctx.unres("truth", "payload without success")
        elif suc is TRUE or suc.op != "c":
            none = [k for k in sols if e.facts[k] is True]
            have = [k for k in sols if e.facts[k] is False] or [t for v in kv.values() for t in subterms(v) if t.op == "call" and callee_name(t) == "sum_of_squares"]
            if suc is TRUE: ctx.decide(not none and bool(have), "truth", e.loc, f.qual, "success is claimed without a solution of this request", "success", path=path_of(e))
            elif suc.op == "call" and callee_name(suc) == "sum_of_squares": ctx.bad("answer", e.loc, f.qual, "the answer carries the solution object, which cannot be sent", "object")
            else: ctx.unres("truth", "success = %s" % suc)
        elif suc is FALSE:
            txt = [kv.get(n) for n in ("latex", "txt", "formatted")]
            full = any(v is not None and v.op != "c" and any(callee_name(t) == "sum_of_squares" for t in subterms(v) if t.op == "call") for v in txt)
            ctx.decide(not full, "truth", e.loc, f.qual, "a solution is sent as a failure", "failure")
        for nm in ("latex", "txt", "formatted"):
            v = kv.get(nm)
            if v is not None and undefined(ctx, v): ctx.bad("answer", e.loc, f.qual, "field %s reads %s, which is never assigned: the request is not answered" % (nm, v), "unbound:" + nm); continue
            if v is None: ctx.bad("answer", e.loc, f.qual, "the answer lacks its field %s" % nm, "field:" + nm)
            elif suc is TRUE and v.op == "c": ctx.bad("truth", e.loc, f.qual, "a successful answer carries a constant %s" % nm, "const:" + nm)
            elif suc is TRUE and v.op == "attr" and v.a[1] != "str_" + nm and v.a[1].startswith("str_"): ctx.bad("truth", e.loc, f.qual, "field %s carries %s" % (nm, v.a[1]), "swap:" + nm)
        check_stamp(ctx, e, kv, f)

def check_stamp(ctx, e, kv, f):
    ts = kv.get("timestamp")
    kw = T("p", f.kwarg) if getattr(f, "kwarg", None) else T("p", "kwargs")
    if ts is None: ctx.bad("addressee", e.loc, f.qual, "the answer does not say which request it answers (no timestamp)", f.qual + ":stamp")
    elif any(shared(t) for t in subterms(ts)) and not any(t.op == "p" for t in subterms(ts)): ctx.bad("addressee", e.loc, f.qual, "the timestamp of the answer is %s, which does not belong to this request" % ts, f.qual + ":stamp")
    elif any(t is C("timestamp") for t in subterms(ts)): ctx.ok("addressee", e.loc, "timestamp")
    elif ts.op == "c": ctx.bad("addressee", e.loc, f.qual, "the answer carries a constant timestamp", f.qual + ":stamp")
    else: ctx.unres("addressee", "timestamp %s" % ts)

def shared(t):
    """a variable of the server module (not a function of it)"""
    return t.op == "g" and str(t.a[0]).startswith(ROOT + ".")

def undefined(ctx, t):
    """a name that no assignment, import or builtin provides on this path"""
    return t.op == "g" and str(t.a[0]).startswith("?.")

def src(n):
    try: return ast.unparse(n).split("\n")[0][:60]
    except Exception: return "?"

def action_fact(facts, name):
    for k, v in facts.items():
        if k.op == "in" and k.a[0] is C(name): return v
    return None

def check_findroot(ctx):
    f = find(ctx, "handover", ROOT + ".findroot")
    if f is None: return
    fs = final_fn(ctx)
    ex = runf(ctx, "handover", f, merge=False, implicit=True, max_states=8000, inline=inl,
              want=lambda t: t.op == "call" and callee_name(t) in ("emit", "sum_of_squares"))
    if ex is None: return
    def is_final(e): return e.kind == "call" and (fin(e) or (callee(e.term) == fs.qual if fs is not None else False))
    def is_roots(e): return e.kind == "call" and callee_name(e.term) == "emit" and any(a is C("rootangents") for a in e.term.a[1])
    for x in ex:
        n = sum(1 for e in x.events if is_final(e)); m = sum(1 for e in x.events if is_roots(e))
        sos, fr = action_fact(x.facts, "sos"), action_fact(x.facts, "findroot")
        if n > 1: ctx.bad("handover", x.loc, f.qual, "the request is solved and answered %d times" % n, "twice", path_of(x)); continue
        if m > 1: ctx.bad("roots", x.loc, f.qual, "the roots are sent %d times" % m, "roots-twice", path_of(x)); continue
        if x.kind == "raise":
            if n == 0 and sos is not False and not safe(ctx.prog, x.node):
                ctx.bad("handover", x.loc, f.qual, "an exception here leaves a request to solve unanswered", "raise:" + src(x.node), path_of(x))
            elif m == 0 and fr is True and sos is False and not safe(ctx.prog, x.node): ctx.bad("roots", x.loc, f.qual, "an exception here leaves a request for roots unanswered", "roots-raise:" + src(x.node), path_of(x))
            else: ctx.ok("handover", x.loc, "exception")
            continue
        if sos is True: ctx.decide(n == 1, "handover", x.loc, f.qual, "a request to solve is dropped", "drop", path=path_of(x))
        elif sos is False: ctx.decide(n == 0, "handover", x.loc, f.qual, "an answer is sent to a request that did not ask to solve", "uncalled", path=path_of(x))
        elif n == 0: ctx.bad("handover", x.loc, f.qual, "returns without having looked whether the request asks to solve", "unasked", path_of(x))
        else: ctx.unres("handover", "solved without looking at the actions")
        if fr is True and m == 0:
            tg = [k for k, b in x.facts.items() if k.op == "isnone" and not b and any(t is C("tangents") for t in subterms(k))] + [k for k, b in x.facts.items() if b and k.op != "isnone" and any(t is C("tangents") for t in subterms(k))]
            ctx.decide(bool(tg), "roots", x.loc, f.qual, "a request for roots is not answered", "noroots", path=path_of(x))
        elif fr is True: ctx.ok("roots", x.loc, f.qual)
    for e in events(ex, is_final):
        if callee_name(e.term) != "emit": addressee(ctx, f, e, call_kw(e.term, "sid", 0), "handover to the solving task")
    for e in events(ex, is_roots):
        d = e.st.expand(e.term.a[1][1]) if len(e.term.a[1]) > 1 else None
        if d is not None and d.op == "dict":
            kv = {z.a[0].a[1]: z.a[1] for z in d.a if isinstance(z, T) and z.op == "kv" and z.a[0].op == "c"}
            check_stamp(ctx, e, kv, f)

def check_start(ctx):
    f = find(ctx, "start", ROOT + ".preprocess")
    if f is None: return
    ex = runf(ctx, "start", f, merge=False, max_states=8000, inline=inl, want=lambda t: t.op == "call" and callee_name(t) in ("start_background_task", "findroot", "sum_of_squares", "emit", "Thread"))
    if ex is None: return
    start = lambda e: e.kind == "call" and callee_name(e.term) in ("start_background_task", "findroot")
    for x in ex:
        if x.kind != "return": continue
        n = sum(1 for e in x.events if start(e))
        none = [v for k, v in x.facts.items() if k.op == "isnone" and k.a[0].op == "call" and callee_name(k.a[0]) == "set_poly"]
        if not none:
            none = [not v for k, v in x.facts.items() if k.op == "call" and callee_name(k) == "set_poly"]
        if x.val is NONE: ctx.bad("start", x.loc, f.qual, "the request gets no response", "noresponse", path_of(x)); continue
        if not none: ctx.unres("start", "whether the polynomial was accepted is not looked at"); continue
        if none[0]: ctx.decide(n == 0, "start", x.loc, f.qual, "a rejected polynomial is processed", "rejected", path=path_of(x))
        else: ctx.decide(n == 1, "start", x.loc, f.qual, "an accepted request starts %d tasks" % n, "tasks", path=path_of(x))
    for e in events(ex, start):
        a = e.term.a[1]
        i = 1 if callee_name(e.term) == "start_background_task" else 0
        if i == 1 and (not a or not (a[0].op == "fn" or a[0].op == "g")): ctx.unres("start", "task %s" % (a[:1],)); continue
        if i == 1:
            nm = a[0].a[0].split(".")[-1]
            if nm not in ("findroot", "sum_of_squares") and nm in {g.split(".")[-1] for g in known_functions()}: ctx.bad("start", e.loc, f.qual, "starts %s" % nm, "task:" + nm)
        addressee(ctx, f, e, a[i] if len(a) > i else call_kw(e.term, "sid"), "start of the task")

def addressee(ctx, f, e, t, what):
    if t is None: ctx.bad("addressee", e.loc, f.qual, "%s without a session" % what, f.qual + ":none"); return
    if t.op == "p" and t.a[0] in f.all_params[:1]: ctx.ok("addressee", e.loc, f.qual); return
    req = any((s.op == "call" and callee_name(s) in ("get_json",)) or (s.op == "g" and s.a[0].split(".")[-1] == "request") or (s.op == "g" and ".request." in s.a[0]) for s in subterms(t))
    sid = any(s is C("sid") for s in subterms(t)) or any((s.op == "attr" and s.a[1] == "sid") or (s.op == "g" and s.a[0].endswith("request.sid")) for s in subterms(t))
    if t.op == "p" and t.a[0] == "sid": ctx.ok("addressee", e.loc, f.qual); return
    if (req or T("p", "kwargs") in subterms(t)) and sid and not any(s.op == "p" and s.a[0] == "sid" for s in subterms(t)): ctx.ok("addressee", e.loc, f.qual); return
    keys = [k.a[1] for s in subterms(t) for k in ([s.a[1]] if s.op == "sub" else list(s.a[1][:1]) if s.op == "call" and callee_name(s) in ("get", "pop") else []) if k.op == "c" and isinstance(k.a[1], str)]
    if (req or T("p", "kwargs") in subterms(t)) and keys and "sid" not in keys: ctx.bad("addressee", e.loc, f.qual, "%s is addressed to the field %r that the client chooses" % (what, keys[0]), f.qual + ":field"); return
    if t.op == "c": ctx.bad("addressee", e.loc, f.qual, "%s is addressed to the constant %s" % (what, t), f.qual + ":const"); return
    roots = [s for s in subterms(t) if s.op in ("p", "g", "phi", "fn")]
    if any(s.op == "g" for s in roots) and not req: ctx.bad("addressee", e.loc, f.qual, "%s is addressed to %s, which is not the session of this request" % (what, t), f.qual + ":global"); return
    ctx.unres("addressee", "%s addressed to %s" % (what, t))

def check_addressees(ctx, m):
    for f in ctx.prog.funcs.values():
        if f.module is not m or f.parent is not None or is_new(f): continue
        names = {x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", "") for x in ast.walk(f.node) if isinstance(x, ast.Call)}
        new = any(isinstance(resolve_call(ctx.prog, f, c), Func) and is_new(resolve_call(ctx.prog, f, c)) for c in calls_in(f))
        if not (names & {"emit", "send", "join_room", "leave_room"}) and not new: continue
        ex = runf(ctx, "addressee", f, inline=inl, max_states=8000, want=lambda t: t.op == "call" and callee_name(t) in ("emit", "send", "join_room", "leave_room"))
        for e in events(ex or [], lambda e: e.kind == "call"):
            nm = callee_name(e.term)
            kw = dict(e.term.a[2])
            if nm in ("join_room", "leave_room"):
                a = call_args(e.term)
                t = a[0] if a else None
                ok = t is not None and (any(s.op == "attr" and s.a[1] == "sid" for s in subterms(t)) or any(s.op == "g" and s.a[0].endswith("request.sid") for s in subterms(t)))
                if ok: ctx.ok("addressee", e.loc, nm)
                elif t is not None and t.op in ("c", "g", "fstr"): ctx.bad("addressee", e.loc, f.qual, "a client joins the shared room %s" % t, f.qual + ":room")
                else: ctx.unres("addressee", "%s(%s)" % (nm, t))
                continue
            if kw.get("broadcast") is TRUE: ctx.bad("addressee", e.loc, f.qual, "a message is broadcast", f.qual + ":broadcast"); continue
            recv = e.term.a[0]
            t = kw.get("to", kw.get("room"))
            if t is None and len(e.term.a[1]) > 2: t = e.term.a[1][2]
            if t is None or t is NONE:
                if "**" in kw: ctx.unres("addressee", "emit with computed options"); continue
                if recv.op == "g" and recv.a[0].startswith("flask_socketio."): ctx.ok("addressee", e.loc, "context emit"); continue
                ctx.bad("addressee", e.loc, f.qual, "a message without an addressee goes to every client", f.qual + ":noaddr"); continue
            addressee(ctx, f, e, t, "a message")
