"""Process-wide settings are left as they were found."""
import ast
from sa.util import *

TECHNIQUE = "path-sensitive save/restore typestate over every function that can write process-wide state, with exceptional control flow"
EXPLANATION = ("Every function outside import time that can assign an attribute of a module, class or builtin, a global name, an item of an object owned by a "
  "third-party module, or that calls a known process-wide setter is interpreted along all paths, including an exception after any statement. At each exit "
  "each such location must hold the value it had on entry. Assumes the listed setters are the ones in use and that restoring code in a finally or "
  "handler block does not itself fail; in-repository caches that are filled once are exempt.")

# setter -> location it controls (getter names are recognised by the value flowing back)
SETTERS = {"sys.setrecursionlimit": "recursionlimit", "numpy.seterr": "numpy errors", "numpy.seterrcall": "numpy errcall",
  "numpy.set_printoptions": "numpy print options", "warnings.simplefilter": "warning filters", "warnings.filterwarnings": "warning filters",
  "warnings.resetwarnings": "warning filters", "random.seed": "random", "numpy.random.seed": "numpy random", "numpy.random.set_state": "numpy random",
  "random.setstate": "random", "os.chdir": "cwd", "os.putenv": "environment", "os.umask": "umask", "locale.setlocale": "locale",
  "signal.signal": "signal", "signal.alarm": "alarm", "logging.disable": "logging", "logging.basicConfig": "logging", "gc.disable": "gc", "gc.enable": "gc",
  "sympy.init_printing": "sympy printing", "sympy.printing.init_printing": "sympy printing", "sympy.interactive.init_printing": "sympy printing",
  "pandas.set_option": "pandas options", "matplotlib.use": "matplotlib", "sys.settrace": "trace", "sys.setswitchinterval": "switchinterval",
  "sympy.polys.polyconfig.setup": "poly config", "sympy.core.cache.clear_cache": None, "threading.setprofile": "profile",
  "socket.setdefaulttimeout": "timeout", "sys.set_int_max_str_digits": "int digits", "decimal.setcontext": "decimal", "faulthandler.enable": "fault"}
GETTERS = {"recursionlimit": ("getrecursionlimit",), "numpy errors": ("geterr", "seterr"), "numpy print options": ("get_printoptions",), "random": ("getstate",),
  "numpy random": ("get_state",), "cwd": ("getcwd",), "locale": ("getlocale", "setlocale"), "signal": ("getsignal", "signal"), "umask": ("umask",),
  "timeout": ("getdefaulttimeout",), "int digits": ("get_int_max_str_digits",), "switchinterval": ("getswitchinterval",), "decimal": ("getcontext",),
  "pandas options": ("get_option",), "alarm": ("alarm",), "trace": ("gettrace",), "poly config": ("query",)}
CM_SCOPE = {"warning filters": ("catch_warnings",), "numpy errors": ("errstate",), "numpy print options": ("printoptions",), "pandas options": ("option_context",)}
SETTER_METHODS = {"set_global_settings": "printer settings", "set_options": "options", "set_option": "options"}
LOGGER = {"setLevel", "addHandler", "removeHandler"}
INPLACE = {"append", "extend", "insert", "remove", "pop", "clear", "sort", "reverse", "update", "setdefault", "popitem", "add", "discard"}

def settings_tables(prog):
    """non-empty literal tables at module or class level: (qualified names, class attribute names never set on instances)"""
    if hasattr(prog, "_p09_tables"): return prog._p09_tables
    quals, names = set(), set()
    for m in prog.modules.values():
        for st in m.tree.body:
            for s, pre in [(st, m.name)] if not isinstance(st, ast.ClassDef) else [(x, m.name + "." + st.name) for x in st.body]:
                if isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(s.value, (ast.Dict, ast.List, ast.Set)) and (getattr(s.value, "elts", None) or getattr(s.value, "keys", None)):
                    for t in (s.targets if isinstance(s, ast.Assign) else [s.target]):
                        if isinstance(t, ast.Name) and not (t.id.startswith("__")):
                            quals.add(pre + "." + t.id)
                            if pre != m.name: names.add(t.id)
    for f in prog.funcs.values():
        for n in walk_own(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr in names and isinstance(n.value, ast.Name): names.discard(n.attr)
    prog._p09_tables = (quals, names)
    return prog._p09_tables

def local_import(func, name):
    g = func
    while g is not None:
        for n in walk_own(g.node):
            if isinstance(n, (ast.Import, ast.ImportFrom)) and any((a.asname or a.name.split(".")[0]) == name for a in n.names): return True
        g = g.parent
    return False

def candidates(ctx):
    """functions that syntactically write something rooted outside their own locals"""
    prog = ctx.prog
    out = {}
    shared = settings_tables(prog)[1]
    for q, f in prog.funcs.items():
        if isinstance(f.node, ast.Lambda): continue
        loc = f.locals_()
        alias = set(); chg = True
        def outer(e):
            """does the chain start at something global (module, class, global name, class of an object)?"""
            while True:
                if isinstance(e, (ast.Attribute, ast.Subscript)):
                    if isinstance(e, ast.Attribute) and (e.attr == "__class__" or e.attr in shared): return True
                    e = e.value
                elif isinstance(e, ast.Call):
                    if isinstance(e.func, ast.Name) and e.func.id in ("type", "globals", "vars", "import_module", "__import__"): return True
                    if isinstance(e.func, ast.Attribute) and e.func.attr in ("import_module",): return True
                    return False
                elif isinstance(e, ast.Name):
                    if e.id in alias: return True
                    if f.is_classmethod and f.args and e.id == f.args[0]: return True
                    if local_import(f, e.id): return True
                    if e.id in loc: return False
                    g = f.parent
                    while g is not None:
                        if e.id in g.locals_() and not local_import(g, e.id): return False
                        g = g.parent
                    return True
                else: return False
        while chg:
            chg = False
            for n in walk_own(f.node):
                if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id not in alias:
                    if isinstance(n.value, (ast.Name, ast.Attribute, ast.Subscript, ast.Call)) and outer(n.value):
                        alias.add(n.targets[0].id); chg = True
        glob = {x for n in walk_own(f.node) if isinstance(n, ast.Global) for x in n.names}
        why = []
        for n in walk_own(f.node):
            tg = []
            if isinstance(n, ast.Assign): tg = n.targets
            elif isinstance(n, (ast.AugAssign, ast.AnnAssign)): tg = [n.target]
            elif isinstance(n, ast.Delete): tg = n.targets
            for t in tg:
                for x in (t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]):
                    if isinstance(x, (ast.Attribute, ast.Subscript)) and outer(x.value): why.append(n)
                    if isinstance(x, ast.Name) and x.id in glob: why.append(n)
            if isinstance(n, ast.Call):
                r = prog.resolve_expr(n.func, f.module, f)
                nm = r.qual if isinstance(r, (Ext, Cls, Func)) else ""
                nm = getattr(r, "name", nm) if isinstance(r, Ext) else nm
                if nm in SETTERS: why.append(n)
                elif nm in ("builtins.setattr", "builtins.delattr") and n.args and outer(n.args[0]): why.append(n)
                elif isinstance(n.func, ast.Attribute) and n.func.attr in INPLACE and outer(n.func.value): why.append(n)
                elif isinstance(n.func, ast.Attribute) and n.func.attr in LOGGER: why.append(n)
                elif isinstance(n.func, ast.Attribute) and n.func.attr in SETTER_METHODS and outer(n.func.value): why.append(n)
        if why: out[f] = why
    return out

def root(t):
    while t.op in ("attr", "sub", "item") or (t.op == "call" and t.a[0].op == "attr" and callee_name(t) in ("copy",)): t = t.a[0]
    return t

def owner(prog, t):
    """'ext' / 'repo' / None: whose process-wide object this base is"""
    r = root(t)
    while r.op == "call" and callee_name(r) in ("get", "setdefault") and r.a[0].op == "attr": r = root(r.a[0].a[0])
    if r in prog._p09_cls: return "repo"
    if r.op == "g":
        q = r.a[0]
        if q.startswith("?."): return None
        if q.split(".")[0] in prog.top_packages(): return "repo"
        return "ext"
    if r.op == "call" and callee(r) in ("builtins.type", "builtins.globals", "importlib.import_module", "builtins.__import__", "sympy.external.import_module"): return "ext" if callee(r) not in ("builtins.globals", "builtins.type") else "repo"
    x = t
    while x.op in ("attr", "sub", "item"):
        if x.op == "attr" and (x.a[1] == "__class__" or x.a[1] in settings_tables(prog)[1]): return "repo"
        x = x.a[0]
    return None

def method_of(t):
    f = t.a[0]
    if f.op == "attr": return f.a[0], f.a[1]
    if f.op == "g" and "." in f.a[0]:
        b, _, m = f.a[0].rpartition(".")
        if "." in b and b.rpartition(".")[2].islower(): return T("g", b), m   # an object, not a module or a class
    return f, None

def in_table(prog, t):
    """does the location lie inside a settings table of the repository"""
    quals, names = settings_tables(prog)
    while True:
        if t.op == "g": return t.a[0] in quals
        if t.op == "attr" and (t.a[1] in names or (t.a[0].op == "g" and t.a[0].a[0] + "." + str(t.a[1]) in quals)): return True
        if t.op in ("attr", "sub", "item"): t = t.a[0]; continue
        if t.op == "call" and callee_name(t) in ("get", "setdefault") and t.a[0].op == "attr": t = t.a[0].a[0]; continue
        return False

def canon(t):
    """name of a location term"""
    if t.op == "g": return t.a[0]
    if t.op == "attr": return canon(t.a[0]) + "." + str(t.a[1])
    if t.op == "sub": return canon(t.a[0]) + "[%s]" % (t.a[1],)
    if t.op == "item": return canon(t.a[0]) + "[%s]" % (t.a[1],)
    return repr(t)

def is_initial(v, locname):
    """v is (a copy of) the value location held before"""
    while True:
        if v.op in ("g", "attr", "sub", "item") and canon(v) == locname: return True
        if v.op == "call" and callee(v) in ("builtins.dict", "builtins.list", "copy.copy", "copy.deepcopy", "builtins.set") and len(v.a[1]) == 1 and not v.a[2]: v = v.a[1][0]; continue
        if v.op == "call" and callee_name(v) == "copy" and v.a[0].op == "attr" and not v.a[1]: v = v.a[0].a[0]; continue
        if v.op == "call" and callee(v) == "builtins.getattr" and len(v.a[1]) >= 2 and v.a[1][1].op == "c":
            return canon(T("attr", v.a[1][0], cval(v.a[1][1]))) == locname
        if v.op == "call" and callee_name(v) == "get" and v.a[0].op == "attr" and v.a[1]:
            return canon(T("sub", v.a[0].a[0], v.a[1][0])) == locname
        if v.op == "dict" and v.a and v.a[0].op == "merge" and len(v.a) == 1: v = v.a[0].a[0]; continue
        return False

def deleting(prog, f):
    return [n for n in walk_own(f.node) if isinstance(n, ast.Delete)]

def run(ctx):
    prog = ctx.prog
    if not hasattr(prog, "top_packages"):
        tops = {m.split(".")[0] for m in prog.modules}
        prog.top_packages = lambda: tops
    prog._p09_cls = set()
    R = ctx.rule("restore", "process-wide location written => holds its entry value at every exit, exceptional exits included")
    S = ctx.rule("scope", "a process-wide setter runs only inside its restoring context or is undone on every exit")
    W = ctx.rule("with", "a context manager that changes settings is entered by a with statement")
    ctx.rule("scan", "functions examined for writes to process-wide state")
    cands = candidates(ctx)
    for f in prog.funcs.values(): ctx.ok("scan", f.loc, f.qual) if f not in cands else None
    # functions that run at import time only
    callers = call_sites(prog)
    work = dict(cands)
    # unbalanced new helpers are judged in their callers
    done = set(); queue = list(work)
    judged = set()
    while queue:
        f = queue.pop()
        if f in done: continue
        done.add(f)
        cs = callers.get(f, [])
        if cs and all(c is None for c, _ in cs): ctx.ok("scan", f.loc, f.qual + " runs at import time"); continue
        if is_new(f) and not f.is_generator and f.name not in ("__enter__", "__exit__", "__call__") and any(c is not None for c, _ in cs) and not balanced(ctx, f):
            for c, _ in cs:
                if c is not None and c not in done: queue.append(c)
            continue
        if f not in judged: judged.add(f); judge(ctx, f)
    ctx.count("functions_with_process_wide_writes", len(judged))
    entered_by_hand(ctx, W, judged)
    # contextmanagers used properly
    for f in judged:
        if not f.is_generator: continue
        for c, n in callers.get(f, []):
            if c is None: continue
            p = parents(c).get(n)
            ok = isinstance(p, ast.withitem) or (isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr == "enter_context")
            if not ok and isinstance(p, (ast.Assign, ast.IfExp, ast.Return)): ctx.unres(W, "%s passes the manager on" % c.qual); continue
            ctx.decide(ok, W, "%s:%d" % (c.module.rel, n.lineno), c.qual, "the settings changed by %s are not restored: it is not entered by 'with'" % f.name, "%s:%s" % (c.qual, f.name), c.qual)

def entered_by_hand(ctx, W, judged):
    """x.__enter__() without x.__exit__() in a finally block"""
    prog = ctx.prog
    names = {f.name for f in judged if f.is_generator} | {n for ns in CM_SCOPE.values() for n in ns}
    def manager(f, e, d=0):
        if isinstance(e, ast.Call):
            r = prog.resolve_expr(e.func, f.module, f)
            n = r.name.split(".")[-1] if isinstance(r, (Ext, Func)) else None
            return n if n in names else None
        if isinstance(e, ast.Name) and d < 3:
            for n in walk_own(f.node):
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                    r = manager(f, n.value, d + 1)
                    if r: return r
        return None
    for f in prog.funcs.values():
        for n in walk_own(f.node):
            if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "__enter__"): continue
            m = manager(f, n.func.value)
            if not m or f.name == "__enter__": continue
            back = any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == "__exit__" and any(part == "final" for _, part in enclosing_trys(f, x)) for x in walk_own(f.node))
            ctx.decide(back, W, "%s:%d" % (f.module.rel, n.lineno), f.qual, "the settings changed by %s are not restored: it is entered by hand and not left in a finally block" % m, "%s:%s:hand" % (f.qual, m), f.qual)

def call_sites(prog):
    out = {}
    for g in prog.funcs.values():
        for n in calls_in(g):
            r = prog.resolve_expr(n.func, g.module, g)
            if isinstance(r, Func): out.setdefault(r, []).append((g, n))
            elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id in ("self", "cls") and g.cls is not None:
                for k in prog.mro(g.cls):
                    if n.func.attr in k.methods:
                        m = k.methods[n.func.attr]
                        if isinstance(m, Func): out.setdefault(m, []).append((g, n))
                        break
    for m in prog.modules.values():
        for st in m.tree.body:
            if isinstance(st, (ast.FunctionDef, ast.ClassDef)): continue
            later = {y for x in ast.walk(st) if isinstance(x, ast.Lambda) for y in ast.walk(x)}
            for n in ast.walk(st):
                if isinstance(n, ast.Call) and n not in later:
                    r = prog.resolve_expr(n.func, m)
                    if isinstance(r, Func): out.setdefault(r, []).append((None, n))
    return out

_bal = {}
def balanced(ctx, f):
    if f not in _bal:
        n = len(ctx.viol)
        saved = {k: dict(v) for k, v in ctx.rules.items()}
        judge(ctx, f)
        _bal[f] = len(ctx.viol) == n
        if not _bal[f]:
            del ctx.viol[n:]
            for k in saved: ctx.rules[k] = saved[k]
    return _bal[f]

def in_cleanup(f, node):
    return any(part in ("final", "handler") for _, part in enclosing_trys(f, node))

def judge(ctx, f):
    prog = ctx.prog
    prog._p09_cls = {T("p", f.args[0])} if f.is_classmethod and f.args else set()
    def want(t):
        if t.op != "call": return False
        q = callee(t)
        if q in SETTERS or q in ("builtins.setattr", "builtins.delattr"): return True
        if callee_name(t) in SETTER_METHODS and owner(prog, method_of(t)[0]) == "ext": return True
        if t.a[0].op == "attr" and t.a[0].a[1] in LOGGER: return any(callee(s) == "logging.getLogger" or (s.op == "g" and s.a[0].startswith("logging")) for s in subterms(t.a[0]) if s.op in ("call", "g"))
        b, m = method_of(t)
        return m in INPLACE and owner(prog, b) is not None
    def want_store(t, v): return owner(prog, t if t.op == "g" else t.a[0]) is not None
    ex = runf(ctx, "restore", f, implicit=True, want=want, want_store=want_store, max_states=600)
    if ex is None: return
    touched = {}
    for x in ex:
        state, locs = {}, {}
        for e in x.events:
            if e.kind == "store": upd(prog, state, locs, e.term, e.val, e)
            elif e.kind == "call":
                q = callee(e.term); a = call_args(e.term)
                if q == "builtins.setattr" and len(a) == 3:
                    if owner(prog, a[0]): upd(prog, state, locs, T("attr", a[0], cval(a[1]) if a[1].op == "c" else repr(a[1])), a[2], e)
                elif q == "builtins.delattr" and len(a) == 2:
                    if owner(prog, a[0]): upd(prog, state, locs, T("attr", a[0], cval(a[1]) if a[1].op == "c" else repr(a[1])), T("deleted"), e)
                elif q in SETTERS or callee_name(e.term) in LOGGER or callee_name(e.term) in SETTER_METHODS:
                    loc = SETTERS.get(q) if q in SETTERS else SETTER_METHODS.get(callee_name(e.term), "logging")
                    if loc is None: continue
                    locs.setdefault("set:" + loc, e)
                    vals = a + [w for _, w in e.term.a[2]]
                    back = any(s.op == "call" and callee_name(s) in GETTERS.get(loc, ()) for v in vals for s in subterms(v))
                    # q itself called again with a getter's (or its own earlier) result undoes it
                    state["set:" + loc] = "ok" if back else ("bad", q)
                else:
                    base, m = method_of(e.term)
                    upd_inplace(prog, state, locs, base, m, a, e)
        for loc, v in state.items():
            e = locs[loc]
            touched.setdefault(loc, e)
            if v == "ok": ok = True
            else: ok = False
            if loc.startswith("set:") and not ok:
                cms = CM_SCOPE.get(loc[4:], ())
                ok = in_scope(prog, e.func, e.node, cms)
            if not ok and x.kind == "raise" and x.node is not None and in_cleanup(x.func, x.node): continue
            if not ok and x.kind == "raise" and x.node is e.node: continue
            rid = "scope" if loc.startswith("set:") else "restore"
            if not ok and lazily_filled(prog, x, e, loc): ctx.unres(rid, "%s fills %s once" % (f.qual, loc)); continue
            if not ok and f.name == "__enter__" and exit_restores(ctx, f, loc): ok = True
            if not ok and f.name in ("__exit__", "__aexit__"): continue
            ctx.decide(ok, rid, e.loc, f.qual, "%s is changed and not restored when the function %s" % (loc.replace("set:", ""), "returns" if x.kind == "return" else "is left by an exception at line %s" % getattr(x.node, "lineno", "?")),
                       "%s:%s" % (f.qual, loc), "%s %s" % (f.qual, loc), path=path_of(x))

def lazily_filled(prog, x, e, loc):
    """an in-repository value that is filled in once, under a test that it was empty"""
    base = loc.split("[")[0]
    for k, b in e.facts.items():
        for s in subterms(k):
            if s.op in ("g", "attr") and canon(s) == base and k.op in ("isnone", "in", "not", "lt", "eq", "is") : return base.split(".")[0] in prog.top_packages()
            if s.op == "call" and callee(s) == "builtins.hasattr" and (len(call_args(s)) < 2 or call_args(s)[1].op != "c" or str(cval(call_args(s)[1])) in base.split(".")): return True
    if e.kind == "store" and e.val.op == "bin" and e.val.a[0] in ("Add", "Sub") and any(y.op in ("g", "attr") and canon(y) == loc for y in e.val.a[1:]) and any(y.op == "c" for y in e.val.a[1:]): return True
    return False

def upd(prog, state, locs, term, v, e):
    o = owner(prog, term if term.op == "g" else term.a[0])
    if o is None: return
    if term.op == "attr" and root(term).op == "p" and term.a[0] not in prog._p09_cls and not in_table(prog, term.a[0]) and not has_class(term): return
    if term.op in ("sub", "item") and o == "repo" and not in_table(prog, term.a[0]): return   # caches and registries: P08
    loc = canon(term)
    if is_initial(v, loc):
        if loc in state: state[loc] = "ok"
        # restoring the whole object restores its items
        for l in list(state):
            if l.startswith(loc + "["): state[l] = "ok"
        return
    st = state.get(loc)
    state[loc] = ("bad", "assigned"); locs.setdefault(loc, e)

def has_class(t):
    while t.op in ("attr", "sub", "item"):
        if t.op == "attr" and t.a[1] == "__class__": return True
        t = t.a[0]
    return t.op == "call" and callee(t) == "builtins.type"

def upd_inplace(prog, state, locs, base, m, a, e):
    o = owner(prog, base)
    if o is None: return
    loc = canon(base)
    if o == "repo" and not in_table(prog, base): return
    if m == "update" and len(a) == 1 and is_initial(e.st.expand(a[0]), loc) and (a[0].op == "new" or not any(b is a[0] for b, _ in e.st.attrs)):
        for l in list(state):
            if l == loc or l.startswith(loc + "["): state[l] = "ok"
        return
    if m in ("clear",) and loc in state: return
    if m == "pop" and a:
        l = canon(T("sub", base, a[0]))
        if l in state: state[l] = "ok"; return
    state[loc] = ("bad", m); locs.setdefault(loc, e)

def in_scope(prog, f, node, cms):
    if not cms: return False
    m = parents(f); x = node
    while x in m:
        p = m[x]
        if isinstance(p, (ast.With, ast.AsyncWith)):
            for it in p.items:
                c = it.context_expr
                if isinstance(c, ast.Call):
                    n = c.func.attr if isinstance(c.func, ast.Attribute) else getattr(c.func, "id", "")
                    r = prog.resolve_expr(c.func, f.module, f)
                    nm = r.name.split(".")[-1] if isinstance(r, Ext) else n
                    if nm in cms or n in cms: return True
        x = p
    for d in f.decorators:
        c = d.func if isinstance(d, ast.Call) else d
        n = c.attr if isinstance(c, ast.Attribute) else getattr(c, "id", "")
        if n in cms: return True
    return False

def exit_restores(ctx, f, loc):
    prog = ctx.prog
    k = f.cls
    g = k.methods.get("__exit__") if k is not None else None
    if not isinstance(g, Func): return False
    ex = runf(ctx, "restore", g, want_store=lambda t, v: owner(prog, t if t.op == "g" else t.a[0]) is not None, want=lambda t: t.op == "call" and callee(t) in set(SETTERS) | {"builtins.setattr"})
    if not ex: return False
    for x in ex:
        hit = False
        for e in x.events:
            if e.kind == "store" and canon(e.term) == loc: hit = True
            if e.kind == "call" and loc.startswith("set:") and SETTERS.get(callee(e.term)) == loc[4:]: hit = True
            if e.kind == "call" and callee(e.term) == "builtins.setattr": hit = True
        if not hit: return False
    return True
