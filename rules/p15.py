"""P15 - batch runs account for every problem."""
import ast
from sa.util import *

TECHNIQUE = "path- and exception-sensitive analysis of one loop iteration (records appended, status facts), provenance of the iterated pairs"
EXPLANATION = ("One iteration of the batch loop is interpreted along all paths, with an exception possible after every statement: each path appends exactly one record, made in "
  "this iteration, whose status agrees with the branch facts (unreadable, no solution, inexact, exact, exception), and no path leaves the loop. The label and the problem "
  "of a record come from the same position of the reader, the reader advances by exactly one and drops only blank entries, and the table returned holds all records in "
  "order. Not covered: KeyboardInterrupt and other exits that are not Exceptions, failures of pandas or of the file system.")

MOD = "triples.core.sum_of_squares"
STATUS = ("success", "inaccurate", "fail", "error", "invalid")
QUITS = {"builtins.KeyboardInterrupt", "builtins.SystemExit", "builtins.GeneratorExit"}
DROP = {"sorted", "reversed", "set", "islice", "filter", "frozenset", "fromkeys", "unique", "sample", "choices"}

def run(ctx):
    ctx.rule("one", "every path through one iteration appends exactly one record and none leaves the loop")
    ctx.rule("status", "the status of a record agrees with what happened to its problem")
    ctx.rule("pair", "label and problem of a record come from the same position, and no position is dropped or reordered")
    ctx.rule("reader", "the reader yields every non-blank entry exactly once and reports an unreadable one as None")
    ctx.rule("table", "the table holds all records in order")
    ctx.section(check_batch, ctx)
    ctx.section(check_table, ctx)
    ctx.section(check_next, ctx)
    ctx.section(check_init, ctx)

def solves(t): return t.op == "call" and callee_name(t) == "sum_of_squares"

def in_quit_handler(ctx, func, node):
    for tr, part in enclosing_trys(func, node):
        if part == "handler":
            for h in tr.handlers:
                if any(x is node for x in ast.walk(h)):
                    ts = handler_types(ctx.prog, func, h)
                    if ts and set(ts) <= QUITS: return True
    return False

def parts_of(n):
    if isinstance(n, (ast.If, ast.While)): return [n.test]
    if isinstance(n, (ast.For, ast.AsyncFor)): return [n.iter]
    if isinstance(n, (ast.With, ast.AsyncWith)): return [i.context_expr for i in n.items]
    return [n]

def fragile(ctx, func, node, st):
    """the statement runs the solver or looks into its answer, or raises by itself"""
    if isinstance(node, (ast.Raise, ast.Assert)): return True
    for p in parts_of(node):
        for x in ast.walk(p):
            if isinstance(x, ast.Call):
                nm = x.func.attr if isinstance(x.func, ast.Attribute) else getattr(x.func, "id", None)
                if nm == "sum_of_squares": return True
            if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load) and isinstance(x.value, ast.Name):
                v = st.env.get(x.value.id)
                if v is not None and solves(v): return True
    return False

def check_batch(ctx):
    f = find(ctx, "one", MOD + ".sum_of_squares_multiple")
    if f is None: return
    loops = []
    def ol(func, node, it, el, s1, results):
        if any(solves(t) for r in results for k in list(r[1].facts) + list(r[1].env.values()) for t in subterms(k)): loops.append((func, node, it, el, s1, results))
    ex = runf(ctx, "one", f, implicit=True, merge=False, mark_exc=True, max_states=8000, on_loop=ol)
    if ex is None: return
    if not loops: ctx.unres("one", "no loop that solves problems"); return
    fin = None
    for x in ex:
        if x.kind == "return" and x.val is not NONE: fin = x
    for func, node, it, el, s1, results in loops:
        check_pairs(ctx, f, node, it, el)
        check_independent(ctx, f, node, s1, results)
        lists = set()
        for r in results:
            for k, v in r[1].heap.items():
                if k in s1.heap and s1.heap[k] != v and k.a[0] == "list" and v[:len(s1.heap[k])] == s1.heap[k]: lists.add(k)
        # the list of records: one that receives dictionaries with a status
        recs = [k for k in lists if any(status_of(r[1], i) is not None for r in results for i in r[1].heap.get(k, ())[len(s1.heap.get(k, ())):])]
        if len(recs) != 1: ctx.unres("one", "records are kept in %d lists" % len(recs)); continue
        R = recs[0]
        for kind, st, val, n in results:
            loc = "%s:%d" % (f.module.rel, getattr(n, "lineno", 0))
            pth = ["%s is %s" % (k, v) for k, v in list(st.facts.items())[-8:]]
            if kind == "raise":
                if fragile(ctx, func, n, st) and not in_quit_handler(ctx, func, n):
                    ctx.bad("one", loc, f.qual, "a failure here stops the whole batch", "stops:" + src(n), pth)
                else: ctx.ok("one", loc, "cannot fail")
                continue
            if kind in ("break", "return"):
                if in_quit_handler(ctx, func, n): ctx.ok("one", loc, "interrupted")
                else: ctx.bad("one", loc, f.qual, "the batch is left before its last problem", "leaves:" + kind, pth)
                continue
            new = st.heap.get(R, ())
            old = s1.heap.get(R, ())
            add = new[len(old):]
            if any(i[0] not in ("i",) for i in add): ctx.unres("one", "records changed by %s" % (add,)); continue
            if not ctx.decide(len(add) == 1, "one", loc, f.qual, "%s record%s for one problem" % ("no" if not add else str(len(add)), "" if len(add) < 2 else "s"), "count:%d" % len(add), path=pth): continue
            check_record(ctx, f, loc, st, s1, add[0][1], el, pth)

def check_independent(ctx, f, node, s1, results):
    """a problem is solved with the same methods, constraints and configurations wherever it stands in the batch"""
    lid = "%d:%d" % (node.lineno, node.col_offset)
    loc = "%s:%d" % (f.module.rel, node.lineno)
    seen = set()
    for r in results:
        for k in list(r[1].facts) + list(r[1].env.values()):
            for u in subterms(k):
                if not solves(u) or u in seen: continue
                seen.add(u)
                for a in list(call_args(u)[1:]) + [v for _, v in u.a[2]]:
                    if any(z.op == "phi" and z.a[0] == lid for z in subterms(a)): ctx.bad("status", loc, f.qual, "how a problem is solved depends on the problems before it (%s)" % a, "carried:%s" % a)
                    else: ctx.ok("status", loc, "independent of the other problems")
                    for z in subterms(a):
                        if z in r[1].heap and r[1].heap[z] != s1.heap.get(z) and z.op == "new" and z in s1.heap: ctx.bad("status", loc, f.qual, "the configuration of the following problems is changed by this one", "carried-heap")

def status_of(st, item):
    if item[0] != "i": return None
    d = record(st, item[1])
    return None if d is None else d.get("status")

def record(st, t):
    d = st.expand(t)
    if d.op != "dict": return None
    kv = {}
    for z in d.a:
        if isinstance(z, T) and z.op == "kv" and z.a[0].op == "c": kv[z.a[0].a[1]] = z.a[1]
        elif isinstance(z, T) and z.op == "merge": return None
    return kv

def check_record(ctx, f, loc, st, s1, t, el, pth):
    if t in s1.heap and t.op == "new":
        ctx.bad("one", loc, f.qual, "all problems share one record object", "shared"); return
    kv = record(st, t)
    if kv is None: ctx.unres("status", "record %s" % t); return
    poly = pos = None
    if el is not None and el.op == "tuple" and len(el.a) >= 2: poly, pos = st.expand(el.a[-1]), st.expand(el.a[-2])
    fs = {st.expand(k): v for k, v in st.facts.items()}
    sts = kv.get("status")
    exc = st.env.get("<exc>") is TRUE
    sol_none = sorted([k for k in fs if k.op == "isnone" and solves(k.a[0])], key=str)
    sols = {k.a[0] for k in sol_none} | {u for k in fs for u in subterms(k) if solves(u)}
    own = {u for u in sols if poly is None or any(a is poly for a in call_args(u))}
    def fact(t): return fs.get(t)
    unread = poly is not None and fs.get(T("isnone", poly)) is True
    isn = any(fs[k] is True for k in sol_none if k.a[0] in own)
    eqs = {fs[k] for k in fs if k.op == "attr" and k.a[1] == "is_equal" and k.a[0] in own}
    if sts is None: ctx.bad("status", loc, f.qual, "the record says nothing about the outcome", "none", pth); return
    if sts.op != "c": ctx.unres("status", "status %s" % sts); return
    v = cval(sts)
    want = "invalid" if unread else "error" if exc else "fail" if isn else "success" if True in eqs else "inaccurate" if False in eqs else None
    if want is None:
        ctx.bad("status", loc, f.qual, "status %r is recorded without looking at the outcome of this problem" % (v,), "blind:%s" % v, pth)
    else:
        ctx.decide(v == want, "status", loc, f.qual, "a problem with outcome %r is recorded as %r" % (want, v), "status:%s-%s" % (want, v), what=str(v), path=pth)
    s = kv.get("solution")
    if s is not None:
        if v in ("success", "inaccurate"):
            if s is NONE or (s.op not in ("call", "c") ): ctx.bad("status", loc, f.qual, "the solution of this problem is not recorded (%s)" % s, "solution:" + v, pth)
            elif solves(s): ctx.decide(s in own or not sols, "status", loc, f.qual, "the recorded solution belongs to another problem", "other:" + v)
        elif v in ("fail", "invalid", "error"): ctx.decide(s is NONE or isn, "status", loc, f.qual, "a problem without a solution records one (%s)" % s, "ghost:" + v, path=pth)
    else:
        ctx.bad("status", loc, f.qual, "the record lacks its solution field", "nosol:%s" % v, pth)
    p = kv.get("problem")
    if p is None: ctx.bad("pair", loc, f.qual, "the record does not say which problem it is about", "label")
    elif p.op == "c": ctx.bad("pair", loc, f.qual, "the record carries a constant label", "label")
    elif pos is not None: ctx.decide(p is pos or any(u is pos or u is poly for u in subterms(p)), "pair", loc, f.qual, "the label %s is not the problem of this record" % p, "label")

def check_pairs(ctx, f, node, it, el):
    loc = "%s:%d" % (f.module.rel, node.lineno)
    t = it
    while t.op == "call" and callee_name(t) in ("tqdm", "trange", "iter", "list", "tuple", "track"):
        if not call_args(t): break
        t = call_args(t)[0]
    for u in subterms(t):
        if u.op == "call" and callee_name(u) in DROP: ctx.bad("pair", loc, f.qual, "problems are dropped or reordered by %s" % callee_name(u), "drop:" + callee_name(u)); return
        if u.op == "sub" and u.a[1].op == "slice": ctx.bad("pair", loc, f.qual, "only a part of the problems is read", "slice"); return
    if t.op == "call" and callee_name(t) == "zip":
        a = list(t.a[1])
        rd = [x for x in a if x.op == "call" and callee_name(x) == "PolyReader"]
        if len(rd) != 1: ctx.unres("pair", "iterates %s" % t); return
        others = [x for x in a if x is not rd[0]]
        for o in others:
            if o.op == "attr" and o.a[0] is rd[0] and o.a[1] == "polys": ctx.ok("pair", loc, "reader and its own entries")
            elif o.op == "call" and callee_name(o) in ("range", "count"): ctx.ok("pair", loc, "positions")
            elif o.op in ("p", "call", "new") : ctx.bad("pair", loc, f.qual, "the labels are taken from %s, whose positions are not those of the reader" % o, "labels")
            else: ctx.unres("pair", "zip with %s" % o)
        src_ = call_kw(rd[0], "polys", 0)
        if src_ is not None and src_.op != "p": 
            u = unwrap(src_)
            if u.op != "p": ctx.unres("pair", "reader gets %s" % src_)
        ig = call_kw(rd[0], "ignore_errors")
        if ig is FALSE: ctx.bad("reader", loc, f.qual, "an unreadable problem stops the batch", "ignore")
        ex = runf(ctx, "reader", f, merge=False, max_states=8000, want=lambda t: t.op == "call" and callee_name(t) == "setdefault" and t.a[1] and t.a[1][0] is C("ignore_errors"),
                  want_store=lambda t, v: t.op == "sub" and t.a[1] is C("ignore_errors"))
        for e in events(ex or []):
            v = e.val if e.kind == "store" else e.term.a[1][1] if e.kind == "call" and callee_name(e.term) == "setdefault" and len(e.term.a[1]) > 1 else None
            if v is None: continue
            if v is TRUE: ctx.ok("reader", e.loc, "errors are ignored by default")
            elif v.op == "c" or any(u.op == "p" and u.a[0] != "poly_reader_configs" for u in subterms(v)): ctx.bad("reader", e.loc, f.qual, "an unreadable problem stops the batch when %s" % ("nothing is said about errors" if v.op == "c" else "%s is false" % v), "ignore-default")
    else: ctx.unres("pair", "iterates %s" % t)

def src(n):
    try: return ast.unparse(n).split("\n")[0][:60]
    except Exception: return "?"

FRAME_DROP = {"drop_duplicates", "dropna", "sort_values", "head", "tail", "query", "sample", "sort_index", "nlargest", "nsmallest", "groupby", "drop"}
def check_table(ctx):
    f = find(ctx, "table", MOD + ".sum_of_squares_multiple")
    g = find(ctx, "table", MOD + "._process_records")
    if f is not None:
        ex = runf(ctx, "table", f)
        for x in ex or []:
            if x.kind != "return" or x.val.op != "call": continue
            if callee_name(x.val) != "_process_records": ctx.unres("table", "returns %s" % x.val); continue
            r = call_kw(x.val, "records", 0)
            if r is None: continue
            if r.op == "new": ctx.ok("table", x.loc, "records")
            elif r.op in ("sub", "comp") or (r.op == "call" and callee_name(r) in DROP): ctx.bad("table", x.loc, f.qual, "only a part of the records is reported (%s)" % r, "part")
            else: ctx.unres("table", "records %s" % r)
            cond = [i for i in x.st.heap.get(r, ()) if i[0] == "mut"]
            if cond: ctx.bad("table", x.loc, f.qual, "records are changed by %s before they are reported" % cond[0][1], "mut:" + str(cond[0][1]))
    if g is None: return
    ex = runf(ctx, "table", g, want_store=lambda t, v: True, merge=False)
    rec = T("p", "records") if "records" in g.all_params else T("p", g.args[0])
    for x in ex or []:
        if x.kind != "return": continue
        v = x.val
        drops = [u for u in subterms(x.st.expand(v)) if u.op == "call" and callee_name(u) in FRAME_DROP]
        if drops: ctx.bad("table", x.loc, g.qual, "records are dropped or reordered by %s" % callee_name(drops[0]), "frame:" + callee_name(drops[0])); continue
        if not (v.op == "call" and callee_name(v) == "DataFrame"):
            if v is NONE: ctx.bad("table", x.loc, g.qual, "no table is returned", "none")
            else: ctx.unres("table", "returns %s" % v)
            continue
        a = call_kw(v, "data", 0)
        if a is rec: ctx.ok("table", x.loc, "all records")
        elif a is not None and (a.op == "comp" and a.a[3] or a.op == "sub" or (a.op == "call" and callee_name(a) in DROP)): ctx.bad("table", x.loc, g.qual, "the table is made of a part of the records (%s)" % a, "part")
        elif a is not None and not any(u is rec for u in subterms(a)): ctx.bad("table", x.loc, g.qual, "the table is not made of the records", "other")
        else: ctx.unres("table", "table of %s" % a)
        for e in x.events:
            if e.kind == "store" and e.term.op == "sub" and e.term.a[0] is v: ctx.bad("table", e.loc, g.qual, "the returned table is overwritten while it is being saved", "overwrite")
        for e in x.events:
            if e.kind == "store" and e.term.op == "sub" and any(u is rec for u in subterms(e.term.a[0])) and e.term.a[0] is not v and e.term.a[0].op in ("bv", "p"): ctx.bad("table", e.loc, g.qual, "records are changed while they are tabulated", "rewrite")

def check_next(ctx):
    f = find(ctx, "reader", "triples.utils.text_process.PolyReader.__next__")
    if f is None: return
    s = T("p", f.args[0])
    ex = runf(ctx, "reader", f, implicit=True, merge=False, mark_exc=True, want_store=lambda t, v: t.op == "attr")
    if ex is None: return
    i0, ps, ig = T("attr", s, "index"), T("attr", s, "polys"), T("attr", s, "ignore_errors")
    for n in ast.walk(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("pop", "remove", "clear", "insert", "sort", "reverse") and ast.unparse(n.func.value) == "%s.polys" % f.args[0]:
            ctx.bad("reader", "%s:%d" % (f.module.rel, n.lineno), f.qual, "the entries are shifted while they are read: %s" % src(n), "shift")
    for x in ex:
        fs = x.facts
        if x.kind == "raise":
            q = x.val.a[0] if x.val.op == "exc" else "?"
            if str(q).endswith("StopIteration"):
                end = [k for k in fs if k.op in ("lt", "eq", "le") and i0 in subterms(k)]
                stopped = any(k.op == "lt" and k.a[0] is i0 and fs[k] is False and k.a[1].op != "bin" for k in fs)
                wrong = any(k.op == "lt" and k.a[0] is i0 and fs[k] is True for k in fs)
                if wrong: ctx.bad("reader", x.loc, f.qual, "the reader stops before its last entry", "stop", path_of(x))
                elif stopped: ctx.ok("reader", x.loc, "stops after the last entry")
                elif any(any(u.op == "bin" for u in subterms(k)) for k in end): ctx.bad("reader", x.loc, f.qual, "the reader stops at %s" % end[0], "stop", path_of(x))
                else: ctx.unres("reader", "stops under %s" % end)
                continue
            if fs.get(ig) is True: 
                if isinstance(x.node, ast.Raise) or "preprocess" in src(x.node): ctx.bad("reader", x.loc, f.qual, "an unreadable entry raises although errors are to be ignored", "raises", path_of(x))
            elif fs.get(ig) is None and any(isinstance(n, ast.Call) and "preprocess" in src(n.func) for p in parts_of(x.node) for n in ast.walk(p)) and not isinstance(x.node, ast.Try):
                ctx.bad("reader", x.loc, f.qual, "an unreadable entry raises although errors are to be ignored", "raises", path_of(x))
            continue
        # value of the position at the end
        st = [e for e in x.events if e.kind == "store" and e.term is i0]
        n = net(st, i0)
        if n is None: ctx.unres("reader", "position %s" % [e.val for e in st])
        else: ctx.decide(n == 1, "reader", x.loc, f.qual, "the reader advances by %d entries" % n, "advance:%d" % n, path=path_of(x))
        v = x.st.expand(x.val)
        if v is NONE:
            ent = T("sub", ps, i0)
            if x.st.env.get("<exc>") is TRUE or fs.get(T("isnone", ent)) is True: ctx.ok("reader", x.loc, "unreadable")
            else: ctx.bad("reader", x.loc, f.qual, "a readable entry is reported as unreadable", "none", path_of(x))
            continue
        subs = [u for u in subterms(v) if u.op == "sub" and u.a[0] is ps]
        if subs:
            for u in subs:
                if u.a[1] is i0: ctx.ok("reader", x.loc, "entry at the position")
                elif i0 in subterms(u.a[1]) or u.a[1].op == "c": ctx.bad("reader", x.loc, f.qual, "the entry at %s is returned" % u.a[1], "entry", path_of(x))
                else: ctx.unres("reader", "entry %s" % u)
        else: ctx.unres("reader", "returns %s" % v)
        if x.st.env.get("<exc>") is TRUE and v is not NONE: ctx.bad("reader", x.loc, f.qual, "an unreadable entry is returned as %s" % v, "garbage", path_of(x))

def net(stores, i0):
    if not stores: return 0
    def val(t):
        if t is i0: return 0
        if t.op == "bin" and t.a[0] in ("Add", "Sub"):
            a, b = t.a[1], t.a[2]
            x = val(a)
            if x is not None and b.op == "c" and isinstance(cval(b), int): return x + (cval(b) if t.a[0] == "Add" else -cval(b))
            x = val(b)
            if t.a[0] == "Add" and x is not None and a.op == "c" and isinstance(cval(a), int): return x + cval(a)
        return None
    return val(stores[-1].val)

def check_init(ctx):
    f = find(ctx, "reader", "triples.utils.text_process.PolyReader.__init__")
    if f is None: return
    s = T("p", f.args[0])
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, (ast.DictComp, ast.SetComp)) and any(ast.unparse(t) in ("polys", "self.polys") for t in n.targets):
            ctx.bad("reader", "%s:%d" % (f.module.rel, n.lineno), f.qual, "equal entries are dropped: %s" % src(n), "dedupe")
    ex = runf(ctx, "reader", f, merge=False, want_store=lambda t, v: t.op == "attr")
    par = T("p", "polys")
    for x in ex or []:
        if x.kind != "return": continue
        fin = {e.term.a[1]: e for e in x.events if e.kind == "store" and e.term.op == "attr" and e.term.a[0] is s}
        if "index" in fin: ctx.decide(fin["index"].val is C(0), "reader", fin["index"].loc, f.qual, "the reader does not start at its first entry", "start")
        ie = fin.get("ignore_errors")
        if ie is not None and ie.val.op == "c": ctx.bad("reader", ie.loc, f.qual, "the choice to ignore errors is not kept", "ignore")
        e = fin.get("polys")
        if e is None: ctx.unres("reader", "entries not stored"); continue
        t = e.val if e.val.op != "new" else x.st.expand(e.val)
        walk(ctx, f, x, e, t)

def walk(ctx, f, x, e, t, d=0):
    """the chain from the stored entries back to the input drops only blank or foreign entries"""
    if d > 12: return
    if t.op == "p": ctx.ok("reader", e.loc, "all entries"); return
    if t.op == "list" and len(t.a) == 1 and isinstance(t.a[0], T) and t.a[0].op == "each":
        y = t.a[0]
        conds(ctx, f, x, e, y.a[0], y.a[1], y.a[2:]); return walk(ctx, f, x, e, y.a[0], d + 1)
    if t.op == "comp":
        conds(ctx, f, x, e, t.a[2], t.a[1], t.a[3]); return walk(ctx, f, x, e, t.a[2], d + 1)
    if t.op == "call":
        n = callee_name(t)
        if n in ("list", "tuple", "iter", "deepcopy", "copy") and call_args(t): return walk(ctx, f, x, e, call_args(t)[0], d + 1)
        a = [z for z in t.a[1]] if t.a[0].op == "attr" else []
        if n in ("readlines", "readline", "read") and a: ctx.bad("reader", e.loc, f.qual, "only a part of the file is read", "hint"); return
        if n == "split" and a and a[0].op == "c" and cval(a[0]) not in ("\n", None): ctx.bad("reader", e.loc, f.qual, "lines of the file are joined (split at %r)" % cval(a[0]), "split"); return
        if n in ("readlines", "splitlines", "open", "split", "read"): ctx.ok("reader", e.loc, "lines"); return
        if n in DROP: ctx.bad("reader", e.loc, f.qual, "entries are dropped or reordered by %s" % n, "drop:" + n); return
    if t.op == "sub" and t.a[1].op == "slice": ctx.bad("reader", e.loc, f.qual, "only a part of the entries is kept", "slice"); return
    if t.op in ("dict", "set"): ctx.bad("reader", e.loc, f.qual, "equal entries are dropped", "dedupe"); return
    ctx.unres("reader", "entries %s" % t)

def keeps(c, kind):
    """does the condition hold for a non-blank text / a polynomial: True, False, or the atom that decides"""
    if c.op == "c": return bool(cval(c))
    if c.op == "not":
        r = keeps(c.a[0], kind); return (not r) if isinstance(r, bool) else r
    if c.op in ("and", "or"):
        rs = [keeps(x, kind) for x in c.a]
        stop = c.op == "or"
        if any(r is stop for r in rs): return stop
        unk = [r for r in rs if not isinstance(r, bool)]
        return unk[0] if unk else not stop
    if c.op == "ite":
        t = keeps(c.a[0], kind)
        if t is True: return keeps(c.a[1], kind)
        if t is False: return keeps(c.a[2], kind)
        return t
    if c.op == "isnone": return False
    if c.op == "call":
        n = callee(c)
        if n == "builtins.isinstance" and len(c.a[1]) == 2:
            return kind in {str(z.a[0]).split(".")[-1] for z in subterms(c.a[1][1]) if z.op == "g"}
        if n == "builtins.bool" and len(c.a[1]) == 1: return keeps(c.a[1][0], kind)
        if n == "builtins.len" and kind == "str": return True
        if n in (".strip", ".rstrip", ".lstrip") and kind == "str" and not c.a[1]: return True
        if n == ".isspace" and kind == "str": return False
    if kind == "str":
        if c.op == "bv": return True
        if c.op == "eq" and C("") in c.a: return False
        ln = [x for x in c.a if isinstance(x, T) and x.op == "call" and callee(x) == "builtins.len"]
        if ln and c.op == "eq" and C(0) in c.a: return False
        if ln and c.op == "lt" and c.a[0] is C(0): return True
        if ln and c.op == "lt" and c.a[1] is C(1): return False
        if ln and c.op == "le" and c.a[0] is C(1): return True
    return c

def conds(ctx, f, x, e, it, v, cs):
    """a filter must keep every non-blank text and every polynomial; a mapping must keep the text"""
    for u in subterms(v):
        if u.op == "call" and u.a[0].op == "attr" and callee_name(u) in ("split", "partition", "rsplit", "replace", "rpartition", "lstrip", "rstrip", "strip", "removeprefix", "removesuffix") and any(z.op == "bv" for z in subterms(u.a[0].a[0])):
            if callee_name(u) in ("strip", "lstrip", "rstrip") and not u.a[1]: ctx.ok("reader", e.loc, "blanks removed")
            else: ctx.bad("reader", e.loc, f.qual, "the text of a problem is changed by %s before it is read" % u, "text:" + callee_name(u))
    for c in cs:
        for kind in ("str", "Poly"):
            r = keeps(c, kind)
            if r is True: ctx.ok("reader", e.loc, "filter keeps " + kind); continue
            if r is not False and not (r.op in ("in", "eq", "lt", "attr") or (r.op == "call" and r.a[0].op == "attr")): ctx.unres("reader", "filter %s" % r); continue
            ctx.bad("reader", e.loc, f.qual, "%s can be dropped silently by the filter %s" % ("a non-blank problem text" if kind == "str" else "a polynomial", c), "filter:" + kind)
