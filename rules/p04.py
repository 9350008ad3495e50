"""P04 - problem preparation and restoration preserve the caller's problem."""
import ast
from fractions import Fraction
from sa.util import *
from sa.sign import signs, num

TECHNIQUE = "sign-and-exponent abstract evaluation of the normalisation, and path-sensitive provenance of everything handed to and returned from a wrapped method"
EXPLANATION = ("For every path of the constraint normalisation the constraint and its label are evaluated in the domain (sign, power of the content, power of a generic factor): they must stay equal, and the factor taken out of an inequality must be positive. "
  "For every path of the input wrapper the origin of the three arguments handed to the method is traced layer by layer (same label with same constraint, one homogenising variable for all parts), and the returned certificate must have been passed through every inverse substitution and then been dehomogenised. "
  "Not covered: what SymPy's square-free factorisation, homogenize and xreplace compute.")
S = "triples.core.shared."

def run(ctx):
    ctx.rule("normalise", "a normalised constraint and its label stay equal and an inequality is only divided by positive factors")
    ctx.rule("label", "a constraint keeps its own label through every step of the preparation")
    ctx.rule("homogenise", "the homogenising variable enters the problem and all constraints together, with its own sign constraint only")
    ctx.rule("restore", "every placeholder, and then the homogenising variable, is removed from a returned certificate")
    ctx.rule("placeholder", "each constraint gets its own placeholder and the inverse table maps it back to that constraint's label")
    ctx.rule("report", "a certificate reports the problem and constraints of the caller")
    ctx.rule("wiring", "the wrappers are applied in the right order and with compatible switches")
    for fn in (check_normal, check_wrapper, check_placeholders, check_output, check_wiring): ctx.section(fn, ctx)

# ------------------------------------------------------------------ normalisation
class Unk(Exception): pass

def lists(t): return t.op == "call" and cname(t) in ("_sqf_list", "sqf_list", "factor_list")
def cname(t):
    if t.op != "call": return None
    n = callee_name(t)
    if n is None and t.a[0].op in ("fn", "g"): n = t.a[0].a[0].split(".")[-1]
    return n

class Ev:
    """value of a term for p = c * q**d with one generic factor q: (sign, power of |c|, power of q)"""
    def __init__(self, sc, d, M, st): self.sc, self.d, self.M, self.st = sc, d, M, st
    def n(self, t, depth=0):
        """number"""
        if depth > 25: raise Unk
        v = num(t)
        if v is not None: return Fraction(v)
        if t.op == "item" and t.a[1] == 1 and t.a[0].op in ("bv", "each"): return Fraction(self.d)
        if t.op == "call" and cname(t) == "max": return Fraction(self.M)
        if t.op == "call" and cname(t) in ("Integer", "int", "S", "sympify", "Rational", "Fraction") and len(t.a[1]) == 1: return self.n(t.a[1][0], depth + 1)
        if t.op == "neg": return -self.n(t.a[0], depth + 1)
        if t.op == "bin":
            a, b = self.n(t.a[1], depth + 1), self.n(t.a[2], depth + 1)
            o = t.a[0]
            if o == "Add": return a + b
            if o == "Sub": return a - b
            if o == "Mult": return a * b
            if o == "Div": return a / b
            if o == "Mod": return a % b
            if o == "FloorDiv": return Fraction(a // b)
            if o == "BitAnd" and a.denominator == 1: return Fraction(int(a) & int(b))
        raise Unk
    def b(self, t):
        """truth"""
        if t.op == "eq": return self.n(t.a[0]) == self.n(t.a[1])
        if t.op == "lt": return self.n(t.a[0]) < self.n(t.a[1])
        if t.op == "not": return not self.b(t.a[0])
        return self.n(t) != 0
    def v(self, t, depth=0):
        if depth > 40: raise Unk
        v = num(t)
        if v is not None:
            if v in (1, -1): return (int(v), Fraction(0), Fraction(0))
            raise Unk
        if t.op == "p": return (self.sc, Fraction(1), Fraction(self.d))
        if t.op == "phi": return self.v(t.a[2] if len(t.a) > 2 else t.a[-1], depth + 1)
        if t.op == "item" and lists(t.a[0]) and t.a[1] == 0: return (self.sc, Fraction(1), Fraction(0))
        if t.op == "item" and t.a[1] == 0 and t.a[0].op in ("bv", "each"): return (1, Fraction(0), Fraction(1))
        if t.op == "neg": return self.mul((-1, Fraction(0), Fraction(0)), self.v(t.a[0], depth + 1))
        if t.op == "bin":
            o = t.a[0]
            if o == "Pow": return self.pw(self.v(t.a[1], depth + 1), self.n(t.a[2]))
            a, b = self.v(t.a[1], depth + 1), self.v(t.a[2], depth + 1)
            if o == "Mult": return self.mul(a, b)
            if o == "Div": return self.mul(a, self.pw(b, Fraction(-1)))
            raise Unk
        if t.op == "call":
            n = cname(t)
            if n in ("Pow", "pow") and len(t.a[1]) >= 2: return self.pw(self.v(t.a[1][0], depth + 1), self.n(t.a[1][1]))
            if n == "root" and len(t.a[1]) == 2: return self.pw(self.v(t.a[1][0], depth + 1), 1 / self.n(t.a[1][1]))
            if n in ("Mul", "prod"):
                r = (1, Fraction(0), Fraction(0))
                kw = dict(t.a[2])
                if set(kw) - {"start", "evaluate"}: raise Unk
                if "start" in kw: r = self.v(kw["start"], depth + 1)
                if n == "prod" and len(t.a[1]) == 2: r = self.v(t.a[1][1], depth + 1)
                its = star_elems([self.st.expand(x) for x in t.a[1]])
                if its is not None and n == "prod" and len(t.a[1]) <= 2 and its and its[0][1] is None: its = elems(self.st.expand(t.a[1][0]))
                if its is None: raise Unk
                for e, it, cs in its:
                    if all(self.b(c) for c in cs if isinstance(c, T)): r = self.mul(r, self.v(e, depth + 1))
                return r
            if t.a[0].op == "attr" and n in ("as_expr", "as_poly", "__pos__", "to_field", "to_ring"): return self.v(t.a[0].a[0], depth + 1)
            if t.a[0].op == "attr" and n == "__neg__": return self.mul((-1, Fraction(0), Fraction(0)), self.v(t.a[0].a[0], depth + 1))
            if t.a[0].op == "attr" and n in ("mul", "__mul__") and len(t.a[1]) == 1: return self.mul(self.v(t.a[0].a[0], depth + 1), self.v(t.a[1][0], depth + 1))
            if n in ("S", "sympify", "Integer", "Poly") and t.a[1]: return self.v(t.a[1][0], depth + 1)
            if n in ("abs", "Abs") and len(t.a[1]) == 1:
                a = self.v(t.a[1][0], depth + 1)
                if a[2] == 0: return (1, a[1], a[2])
            if n == "sign" and len(t.a[1]) == 1:
                a = self.v(t.a[1][0], depth + 1)
                if a[2] == 0: return (a[0], Fraction(0), Fraction(0))
        raise Unk
    def mul(self, a, b): return (a[0] * b[0], a[1] + b[1], a[2] + b[2])
    def pw(self, a, k):
        if k.denominator != 1:
            if a[0] < 0: raise Unk
            return (1, a[1] * k, a[2] * k)
        return (a[0] ** abs(int(k)) if k else 1, a[1] * k, a[2] * k)

def about_factor(k):
    return any(s.op in ("bv", "each") for s in subterms(k))

def consistent(ev, facts):
    """the facts can hold for this d and M"""
    for k, w in facts.items():
        try:
            if not any((s.op == "item" and s.a[1] == 1 and s.a[0].op in ("bv", "each")) or (s.op == "call" and cname(s) == "max") for s in subterms(k)): continue
            if ev.b(k) != bool(w): return False
        except Unk: pass
        except Exception: pass
    return True

def check_normal(ctx):
    for name, ineq in (("_std_ineq_constraints", True), ("_std_eq_constraints", False)):
        f = find(ctx, "normalise", S + name)
        if f is None: continue
        bodies = []
        def on_loop(func, node, it, el, start, results):
            bodies.append((node, [r for r in results if r[0] in ("fall", "continue", "break")]))
        ex = runf(ctx, "normalise", f, merge=False, on_loop=on_loop)
        if len(f.args) < 2: ctx.unres("normalise", "%s has other parameters" % f.qual); continue
        for x in ex or []:
            if x.kind != "return": continue
            v = x.st.expand(x.val)
            if v.op != "tuple" or len(v.a) != 2: ctx.unres("normalise", "%s returns %s" % (x.loc, str(v)[:80])); continue
            sg = signs(x.facts, lambda t: t.op == "item" and t.a[1] == 0 and lists(t.a[0]))
            if any(k.op == "attr" and k.a[1] == "is_zero" and w is True for k, w in x.facts.items()): sg = (1, -1)
            sg = [s for s in sg if s != 0]
            bad = unk = None
            n = 0
            subs = set(subterms(v))
            loop = iterates(v)
            groups = {}     # a loop is entered once for every path leading to it
            for nd, rs in bodies:
                g = groups.setdefault(id(nd), [False, []])
                rs = [r for r in rs if all(x.facts.get(k, w) == w for k, w in r[1].facts.items() if not about_factor(k))]
                g[0] = g[0] or bool(rs); g[1] += matching(rs, subs)
            if loop and any(rs and not c for rs, c in groups.values()): continue   # one loop over the factors ran and another did not
            cand = [c for rs, c in groups.values()]
            for sc in sg:
                for d in (range(1, 7) if loop else (0,)):
                    for M in (sorted({max(d, 1), d + 1, d + 2, d + 3}) if loop else (1,)):
                        ev = Ev(sc, d, M, x.st)
                        if not consistent(ev, x.facts): continue
                        if any(c and not any(consistent(ev, r[1].facts) for r in c) for c in cand): continue
                        try: r, e = ev.v(v.a[0]), ev.v(v.a[1])
                        except Unk: unk = "%s: value %s" % (x.loc, str(v)[:160]); continue
                        except (ZeroDivisionError, OverflowError): continue
                        n += 1
                        if r != e: bad = "for a factor of multiplicity %d and a %s content the constraint becomes %s but its label %s" % (d, "positive" if sc > 0 else "negative", show(r), show(e))
                        elif ineq:
                            k = (sc * r[0], Fraction(1) - r[1], Fraction(d) - r[2])
                            if k[0] < 0 or k[2] % 2 != 0: bad = "for a factor of multiplicity %d and a %s content the inequality is divided by %s, which need not be positive" % (d, "positive" if sc > 0 else "negative", show(k))
                        if not ineq and d > 0 and r[2] <= 0: bad = "a factor of an equality is lost"
            if bad: ctx.bad("normalise", x.loc, f.qual, bad, name + ("" if ineq else "-eq"), path_of(x))
            elif unk: ctx.unres("normalise", unk)
            elif n: ctx.ok("normalise", x.loc, "%s: label and constraint stay equal for %d sign/multiplicity cases" % (name, n))

def iterates(t):
    """the value depends on a factor outside the maximal multiplicity"""
    if t.op == "phi" or (t.op == "item" and t.a[0].op in ("bv", "each")): return True
    if t.op == "call" and cname(t) == "max": return False
    def kids(xs):
        for y in xs:
            if isinstance(y, T): yield y
            elif isinstance(y, tuple): yield from kids(y)
    return any(iterates(y) for y in kids(t.a))

def matching(results, subs):
    """passes through a loop body whose values reach an exit"""
    names = {n for r in results for n, t in r[1].env.items() if isinstance(t, T) and t.op == "phi"} | {n for r in results for n, t in r[1].env.items() if isinstance(t, T) and any(s.op == "phi" for s in subterms(t))}
    new = lambda r, n: isinstance(r[1].env.get(n), T) and r[1].env[n].op != "phi"
    out = []
    for r in results:
        ok = True
        for n in names:
            if new(r, n): ok = ok and r[1].env[n] in subs
            elif any(new(q, n) and q[1].env[n] in subs for q in results): ok = False
        if ok: out.append(r)
    return out

def show(v):
    return "%s|c|^%s q^%s" % ("-" if v[0] < 0 else "", v[1], v[2])

# ------------------------------------------------------------------ input wrapper
def wrappers(ctx, dec):
    """the innermost functions of a decorator factory"""
    fs = [f for f in ctx.prog.funcs.values() if f.qual.startswith(S + dec + ".") and "<lambda>" not in f.qual]
    return [f for f in fs if not any(g.parent is f and "<lambda>" not in g.qual for g in fs) and "func" in str(ast.dump(f.node)) and calls_func(f)]

def calls_func(f):
    """calls the decorated function"""
    up = f.parent
    names = set()
    while up is not None:
        names |= set(up.args); up = up.parent
    return any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in names and len(n.args) + len(n.keywords) >= 3 for n in ast.walk(f.node))

def inner_call(t):
    """call of the decorated function: an unbound (closure) name applied to at least three arguments"""
    return t.op == "call" and t.a[0].op == "unbound" and len(t.a[1]) + len(t.a[2]) >= 3

def entries(t, depth=0):
    """layers of a dictionary value: (source dict term, key term, value term, element, conds) or None"""
    if t.op == "call" and callee(t) == "builtins.dict" and len(t.a[1]) == 1 and not t.a[2]: t = t.a[1][0]
    if t.op == "call" and callee_name(t) in ("list", "tuple", "iter") and len(t.a[1]) == 1: t = t.a[1][0]
    if t.op == "comp":
        e, src, conds = t.a[1], t.a[2], t.a[3]
    elif t.op in ("list", "dict", "tuple") and len(t.a) == 1 and isinstance(t.a[0], T) and t.a[0].op == "each":
        e, src, conds = t.a[0].a[1], t.a[0].a[0], t.a[0].a[2:]
    else: return None
    return src, e, conds

def base_of(src):
    """dict a '.items()' (or plain dict) iteration runs over"""
    if src.op == "call" and src.a[0].op == "attr" and src.a[0].a[1] in ("items", "keys", "copy"): return src.a[0].a[0]
    return src

IDENT = {"sympify", "S", "as_expr", "doit", "Poly", "as_poly", "homogenize", "expand", "to_field"}

def strip(t):
    """conversions that keep the meaning of a constraint or label; returns (core, homogenisers)"""
    hs = []
    while t.op == "call":
        if t.a[0].op == "attr" and t.a[0].a[1] in IDENT:
            if t.a[0].a[1] == "homogenize": hs += [a for a in call_args(t)[:1]] or [None]
            t = t.a[0].a[0]
        elif callee_name(t) in ("sympify", "S", "Poly") and t.a[1]: t = t.a[1][0]
        else: break
    return t, hs

class Trace:
    def __init__(self): self.stds, self.homs, self.steps, self.extra, self.problem, self.root, self.empty = [], [], 0, [], None, None, False

def trace(st, t, tr, depth=0):
    """follow a constraint dictionary back to the parameter"""
    if depth > 12: tr.problem = ("unk", "too many layers"); return
    t = st.expand(t)
    if t.op == "p": tr.root = t; return
    if t.op == "dict":
        # literal / store-extended dictionaries
        rest = []
        for a in t.a:
            if not isinstance(a, T): continue
            if a.op == "kv": tr.extra.append((a.a[0], a.a[1]))
            else: rest.append(a)
        if len(rest) == 1 and rest[0].op == "each" and rest[0].a[1].op in ("kv", "tuple"):
            return layer(st, rest[0].a[0], rest[0].a[1], rest[0].a[2:], tr, depth)
        if len(rest) == 1 and rest[0].op in ("star", "unpack", "mergedict", "dstar"): return trace(st, rest[0].a[0], tr, depth + 1)
        if not rest: tr.empty = True; return
        tr.problem = ("unk", "dictionary %s" % str(t)[:120]); return
    if t.op in ("store_into", "setitem", "mut"):
        tr.problem = ("unk", "dictionary %s" % str(t)[:120]); return
    en = entries(t)
    if en is not None:
        return layer(st, en[0], en[1], en[2], tr, depth)
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "copy": return trace(st, t.a[0].a[0], tr, depth + 1)
    if t.op == "call" and callee(t) == "builtins.dict" and len(t.a[1]) == 1: return trace(st, t.a[1][0], tr, depth + 1)
    tr.problem = ("unk", "dictionary %s" % str(t)[:160])

def layer(st, src, e, conds, tr, depth):
    tr.steps += 1
    base = base_of(src)
    bv = None
    for s in subterms(e):
        if s.op == "bv": bv = s
    if bv is None: tr.problem = ("unk", "layer %s" % str(e)[:120]); return
    isk = lambda t: (t.op == "item" and t.a[1] == 0 and t.a[0].op == "bv") or t.op == "bv"
    def isv(t): return (t.op == "item" and t.a[1] == 1 and t.a[0].op == "bv") or (t.op == "sub" and len(t.a) > 1 and isinstance(t.a[1], T) and t.a[1].op == "bv")
    if e.op == "call" and cname(e) in ("_std_ineq_constraints", "_std_eq_constraints"):
        tr.stds.append(cname(e))
        # arguments must be key, label of the same entry
        a = list(e.a[1]) or [call_kw(e, n, i) for i, n in enumerate(("p", "e"))]
        if None in a: tr.problem = ("unk", "normalisation of %s" % str(e)[:100]); return
        if len(a) >= 2 and isk(a[1]) and isv(a[0]): tr.problem = ("bad", "constraint and label are exchanged"); return
        if not (len(a) == 1 and a[0].op == "star") and not (len(a) >= 2 and isk(a[0]) and isv(a[1])):
            tr.problem = ("unk", "normalisation of %s" % str(e)[:100]); return
        return trace(st, base, tr, depth + 1)
    if e.op in ("tuple", "kv") and len(e.a) == 2:
        k, v = e.a
        if k.op == "item" and v.op == "item" and k.a[0] is v.a[0] and k.a[0].op == "call" and cname(k.a[0]) in ("_std_ineq_constraints", "_std_eq_constraints"):
            if (k.a[1], v.a[1]) != (0, 1): tr.problem = ("bad", "constraint and label are exchanged"); return
            tr.stds.append(cname(k.a[0])); return trace(st, base, tr, depth + 1)
        kc, hs = strip(k)
        vc, hv = strip(v)
        tr.homs.append(hs)
        listroot = src.op == "p" or (not (src.op == "call" and src.a[0].op == "attr" and src.a[0].a[1] == "items") and kc.op == "bv" and vc.op == "bv")
        if listroot and kc is vc: tr.root = src if src.op == "p" else None; return
        if listroot and kc.op == "bv" and changes(vc, lambda q: q is kc): tr.problem = ("bad", "the label of a constraint given without label is not the constraint"); return
        if isv(vc) and changes(kc, isk): tr.problem = ("bad", "a constraint is changed (%s) and its label is not" % str(kc)[:60]); return
        if isk(kc) and changes(vc, isv) and not hs and not any(q.op == "call" and cname(q) == "uniquely_named_symbol" for q in subterms(vc)): tr.problem = ("bad", "the label of a constraint is changed (%s) and the constraint is not" % str(vc)[:60]); return
        if isk(kc) and isv(vc): return trace(st, base, tr, depth + 1)
        if isk(kc) and isk(vc): tr.problem = ("bad", "the label of a constraint is replaced by the constraint itself"); return
        if vc.op == "c": tr.problem = ("bad", "the label of a constraint is replaced by a constant"); return
        if isv(kc): tr.problem = ("bad", "constraint and label are exchanged"); return
        tr.problem = ("unk", "entry %s" % str(e)[:140]); return
    if e.op == "bv": return trace(st, base, tr, depth + 1)
    tr.problem = ("unk", "layer %s" % str(e)[:140])

VALUES = {"abs", "Abs", "primitive", "monic", "numer", "nsimplify", "clear_denoms", "diff", "fraction", "as_numer_denom", "sqf_part", "quo_ground", "LC", "LM", "sqrt", "sign", "round", "evalf", "truncate", "limit_denominator"}
def changes(t, base):
    """the value of base(..) has gone through an operation that does not keep it"""
    for _ in range(12):
        if base(t): return False
        if t.op in ("neg", "bin"): return any(base(s) for s in subterms(t))
        if t.op in ("item", "sub") and isinstance(t.a[0], T): t = t.a[0]; continue
        if t.op == "call":
            if callee_name(t) in VALUES: return any(base(s) for s in subterms(t))
            if t.a[0].op == "attr": t = t.a[0].a[0]; continue
            if t.a[1]: t = t.a[1][0]; continue
        return False
    return False

def check_wrapper(ctx):
    ws = wrappers(ctx, "sanitize_input")
    if not ws: ctx.unres("restore", "input wrapper not found"); return
    for f in ws:
        roles = wrapper_roles(ctx)
        flags = closure_flags(f)
        u = lambda n: T("unbound", n)
        isd = lambda n: T("call", T("g", "builtins.isinstance"), (T("p", n), T("g", "builtins.dict")), ())
        dicts = {isd(a): True for a in f.args[1:3]}
        for hom in (True, False):
            for wrap in (True, False):
                facts = {u(n): True for n in flags if "sqf" in n}
                facts.update({u(n): hom for n in flags if n == "homogenize"})
                facts.update({u(n): wrap for n in flags if n.startswith("wrap")})
                facts.update({u(n): wrap for n in flags if n.startswith("infer")})
                facts.update(dicts)
                judge_wrapper(ctx, f, facts, hom, wrap, roles)
        # constraints given as lists
        facts = {u(n): False for n in flags}; facts.update({isd(a): False for a in f.args[1:3]})
        judge_wrapper(ctx, f, facts, False, False, roles)

def closure_flags(f):
    up, names = f.parent, []
    while up is not None:
        names += [a for a in up.all_params if isinstance(a, str)] if isinstance(up.all_params, (list, tuple, set)) else list(up.args)
        up = up.parent
    return [n for n in names if n != "func"]

def wrapper_roles(ctx):
    """meaning of the parts _get_constraints_wrapper returns: {index: (kind, table number)}"""
    f = find(ctx, "restore", S + "_get_constraints_wrapper", quiet=True)
    if f is None: return None
    ex = runf(ctx, "restore", f, inline=lambda g: False)
    out = None
    for x in ex or []:
        if x.kind != "return": continue
        v = x.st.expand(x.val)
        if v.op != "tuple": return None
        r = {}
        for i, t in enumerate(v.a):
            if not (t.op == "item" and t.a[0].op == "call"): return None
            a = t.a[0].a[1]
            who = next((y.a[0] for y in list(a) + [z for _, z in t.a[0].a[2]] if y.op == "p" and "constraints" in y.a[0]), None)
            r[i] = (who, t.a[1])
        out = r
    return out

MADE = ("_get_constraints_wrapper", "uniquely_named_symbol")
def infeasible(x):
    """a value that is never None is taken to be None"""
    return any(k.op == "isnone" and w is True and k.a[0].op == "call" and cname(k.a[0]) in MADE for k, w in x.facts.items())

WATCH = {"update", "identify_symmetry_from_lists", "Permutation"}

def content(t):
    """subterms that are part of the value rather than its variables"""
    yield t
    if t.op == "call" and callee_name(t) == "Poly" and t.a[1]: yield from content(t.a[1][0]); return
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("homogenize", "as_poly"): yield from content(t.a[0].a[0]); return
    def kids(xs):
        for y in xs:
            if isinstance(y, T): yield y
            elif isinstance(y, tuple): yield from kids(y)
    for y in kids(t.a): yield from content(y)

def judge_symmetry(ctx, f, ex, A):
    """the symmetry used for a problem is a symmetry of all its parts, and fixes the homogenising variable"""
    seen = set()
    for e in events(ex, lambda e: e.kind == "call" and cname(e.term) in WATCH):
        t = call_args(e.term)[:1] or [v for k, v in e.term.a[2] if k == "lst_of_lsts"]
        if e.term in seen or not t: continue
        seen.add(e.term)
        t = e.st.expand(t[0])
        if cname(e.term) == "identify_symmetry_from_lists":
            inside = set(content(t))
            if t.op not in ("list", "tuple") or any(y.op in ("star", "phi", "each", "store_into", "mut") for y in t.a): ctx.unres("restore", "%s: symmetry of %s" % (e.loc, str(t)[:80])); continue
            for a, kd in zip(A, ("polynomial", "inequality constraints", "equality constraints")):
                ok = a in inside
                if not ok and len(t.a) >= 3: ctx.unres("restore", "%s: symmetry of %s" % (e.loc, str(t)[:80])); continue
                ctx.decide(ok, "restore", e.loc, f.qual, "the symmetry is inferred from the %s too" % kd if ok else "the inferred symmetry need not be a symmetry of the %s" % kd, "symmetry-" + kd, "", path_of(e))
        elif cname(e.term) == "Permutation" and t.op == "bin" and t.a[0] == "Add":
            form = lambda y: any(z.op == "attr" and z.a[1] in ("array_form", "_array_form") for z in subterms(y))
            if form(t.a[1]) == form(t.a[2]): continue
            ok = form(t.a[1])
            ctx.decide(ok, "homogenise", e.loc, f.qual, "a given symmetry is extended by the homogenising variable, the last one" if ok else "a given symmetry is extended at the front although the homogenising variable is the last one", "extend", str(t)[:80], path_of(e))

def judge_wrapper(ctx, f, facts, hom, wrap, roles):
    ex = runf(ctx, "restore", f, max_states=12000, want=lambda t: inner_call(t) or cname(t) in WATCH, want_store=lambda t, v: t.op == "sub", facts=facts)
    if ex is None: return
    A = [T("p", a) for a in f.args[:3]]
    ex = [x for x in ex if not infeasible(x)]
    judge_symmetry(ctx, f, ex, A)
    calls = events(ex, lambda e: e.kind == "call" and inner_call(e.term))
    if not calls: ctx.unres("restore", "%s: the method is not called" % f.qual)
    seen = set()
    for e in calls:
        sig = (e.term, e.loc, tuple(sorted((str(k), w) for k, w in e.facts.items() if k.op == "attr" or (k.op == "call" and callee_name(k) == "all"))))
        if sig in seen: continue
        seen.add(sig)
        judge_call(ctx, f, e, A, hom, roles)
    def looped(t): return any(y.op == "bv" and any(z.op == "call" and cname(z) == "_get_constraints_wrapper" for z in subterms(y)) for y in subterms(t))
    if any(looped(a) for x in ex if x.kind == "return" for y in subterms(x.val) if y.op == "call" and callee_name(y) in ("xreplace", "subs") for a in y.a[1]): roles = None
    seen = set()
    for x in ex:
        if x.kind != "return": continue
        key = (x.val, tuple(sorted((str(k), w) for k, w in x.facts.items() if k.op == "isnone")))
        if key in seen: continue
        seen.add(key)
        judge_return(ctx, f, x, roles, hom)

def args3(t):
    a = list(t.a[1])
    kw = dict(t.a[2])
    out = []
    for i, n in enumerate(("poly", "ineq_constraints", "eq_constraints")):
        if i < len(a) and a[i].op != "star": out.append(a[i])
        elif n in kw: out.append(kw[n])
        else: return None
    return out

def wrapped(t, roles):
    """(call of _get_constraints_wrapper, index) if t is one of its parts"""
    if t.op == "item" and t.a[0].op == "call" and cname(t.a[0]) == "_get_constraints_wrapper": return t.a[0], t.a[1]
    if t.op == "sub" and t.a[0].op == "call" and cname(t.a[0]) == "_get_constraints_wrapper" and num(t.a[1]) is not None: return t.a[0], int(num(t.a[1]))
    return None

def judge_call(ctx, f, e, A, hom, roles):
    a = args3(e.term)
    if a is None: ctx.unres("label", "%s: arguments %s" % (e.loc, str(e.term)[:100])); return
    P, I, E = a
    wi, we = wrapped(I, roles), wrapped(E, roles)
    if wi or we:
        if not (wi and we) or wi[0] is not we[0]: ctx.unres("restore", "%s: constraints partly wrapped" % e.loc); return
        W = wi[0]
        if roles:
            pi, pe = roles.get(wi[1]), roles.get(we[1])
            ok = pi is not None and pe is not None and pi[0] and pe[0] and pi[0].startswith("ineq") and pe[0].startswith("eq") and pi[1] == 0 and pe[1] == 0
            ctx.decide(ok, "restore", e.loc, f.qual, "the wrapped constraints reach the method in their own places" if ok else "the wrapped constraints handed to the method are %s and %s" % (pi, pe), "parts", str((wi[1], we[1])), path_of(e))
        wa = [call_kw(W, n, i) for i, n in enumerate(("symbols", "ineq_constraints", "eq_constraints"))]
        if None in wa: ctx.unres("restore", "%s: %s" % (e.loc, str(W)[:100])); return
        good = wa[0].op == "attr" and wa[0].a[1] == "gens" and e.st.expand(wa[0].a[0]) is e.st.expand(P)
        if wa[0].op == "attr" and wa[0].a[1] == "gens": ctx.decide(good, "restore", e.loc, f.qual, "placeholders are built over the variables of the prepared problem" if good else "placeholders are built over the variables of another polynomial", "gens", str(wa[0])[:80], path_of(e))
        I, E = wa[1], wa[2]
    # the polynomial
    core, hs = strip(e.st.expand(P))
    hs = [h for h in hs if h is not None]
    if core is not A[0]:
        ctx.unres("label", "%s: polynomial %s" % (e.loc, str(P)[:100]))
    else: ctx.ok("label", e.loc, "the polynomial handed to the method is the caller's")
    trs = []
    for t, p, kind in ((I, A[1], "inequality"), (E, A[2], "equality")):
        tr = Trace(); trace(e.st, t, tr)
        inside = set(subterms(t))
        tr.extra += [(b.term.a[1], b.val) for b in e.st.events if b.kind == "store" and b.term.op == "sub" and b.term.a[0].op == "call" and b.term.a[0] in inside]
        trs.append((tr, kind))
        if tr.problem and tr.problem[0] == "bad": ctx.bad("label", e.loc, f.qual, "%s constraints: %s" % (kind, tr.problem[1]), kind, path_of(e)); continue
        if tr.problem: ctx.unres("label", "%s: %s constraints: %s" % (e.loc, kind, tr.problem[1])); continue
        if tr.root is not None: ctx.decide(tr.root is p, "label", e.loc, f.qual, "%s constraints come from the caller's %s constraints with their labels" % (kind, kind) if tr.root is p else "the %s constraints handed to the method are built from %s" % (kind, tr.root.a[0]), kind, "", path_of(e))
        for s in tr.stds:
            good = kind == "equality" or "ineq" in s
            ctx.decide(good, "normalise", e.loc, f.qual, "%s constraints are normalised by %s" % (kind, s), "which-" + kind, s, path_of(e))
    if any(tr.problem for tr, k in trs): return
    def X(t):
        for _ in range(4):
            u = e.st.expand(t)
            if u is t: break
            t = u
        return t
    hs = [X(h) for h in hs]
    for tr, k in trs:
        tr.homs = [[X(h) for h in l if h is not None] for l in tr.homs]
        tr.extra = [(X(k), X(v)) for k, v in tr.extra]
    allh = {h for tr, k in trs for l in tr.homs for h in l if h is not None} | set(hs)
    if len(allh) > 1: ctx.bad("homogenise", e.loc, f.qual, "parts of the problem are homogenised by different variables", "different", [str(h)[:80] for h in allh]); return
    if allh:
        h = allh.pop()
        for ok, what in ((bool(hs), "polynomial"),) + tuple((any(h in l for l in tr.homs), k + " constraints") for tr, k in trs if not tr.empty):
            ctx.decide(ok, "homogenise", e.loc, f.qual, "the %s %s homogenised" % (what, "is" if ok else "is not"), "part", what, path_of(e))
        ex = trs[0][0].extra
        for k, v in ex:
            kc, _ = strip(k)
            vc, _ = strip(v)
            same = lambda t: t is h or (t.op == "call" and cname(t) == "uniquely_named_symbol" and h.op == "call" and cname(h) == "uniquely_named_symbol" and t.a[1][0] is h.a[1][0])
            kc, vc = (h if same(y) else y for y in (kc, vc))
            good = kc is h and vc is h
            if kc is not h and kc.op not in ("p", "bv", "item", "neg", "sub"): ctx.unres("homogenise", "%s: extra constraint %s" % (e.loc, str(k)[:80])); continue
            ctx.decide(good, "homogenise", e.loc, f.qual, "the only added constraint is the sign of the homogenising variable" if good else "an inequality that the caller did not state is added", "extra", str(k)[:80], path_of(e))
        for k, v in trs[1][0].extra: ctx.bad("homogenise", e.loc, f.qual, "an equality that the caller did not state is added", "extra-eq", [str(k)[:100]])
    else:
        for tr, kd in trs:
            for k, v in tr.extra: ctx.bad("homogenise", e.loc, f.qual, "a constraint that the caller did not state is added", "extra", [str(k)[:100]])
        if hom:
            # not homogenised: everything must have been homogeneous
            tests = [k for k in e.facts if any(y.op == "attr" and y.a[1] == "is_homogeneous" for y in subterms(k))]
            if not tests: ctx.unres("homogenise", "%s: homogeneity tested otherwise" % e.loc); return
            hp, hd, odd = False, set(), False
            for k, w in e.facts.items():
                if k.op == "attr" and k.a[1] == "is_homogeneous":
                    if w is True:
                        c = strip(e.st.expand(k.a[0]))[0]
                        if c is A[0]: hp = True
                        hd |= {p for p in A[1:] if any(y is p for y in subterms(c)) and c.op != "p"} if c.op in ("bv", "item") else set()
                    continue
                q = forall(k, w, e.st.expand)
                if q is None:
                    if k in tests and not (k.op == "call" and callee_name(k) in ("any", "all")): odd = True
                    continue
                src, body, truth, conds = q
                if not (truth and body.op == "attr" and body.a[1] == "is_homogeneous" and not conds): odd = odd or k in tests; continue
                src = e.st.expand(src)
                for y in (src.a if src.op in ("list", "tuple") else (src,)):
                    if strip(y)[0] is A[0]: hp = True
                    else: hd |= {p for p in A[1:] if any(z is p for z in subterms(y))}
            ps = [(hp, "polynomial")] + [(p in hd, kd + " constraints") for p, (tr, kd) in zip(A[1:], trs) if not tr.empty]
            for got, kd in ps:
                if not got and odd: ctx.unres("homogenise", "%s: homogeneity of %s tested otherwise" % (e.loc, kd)); continue
                ctx.decide(got, "homogenise", e.loc, f.qual, "without homogenisation the %s must be homogeneous" % kd if got else "%s that need not be homogeneous is handed on although homogenisation was requested" % kd, "skip-" + kd, "", path_of(e))

def judge_return(ctx, f, x, roles, hom):
    v = x.st.expand(x.val)
    if v is NONE: return
    steps = []
    t = v
    while t.op == "call" and t.a[0].op == "attr" and not inner_call(t):
        steps.append((t.a[0].a[1], call_args(t), t)); t = t.a[0].a[0]
    steps.reverse()
    if not inner_call(t):
        ctx.unres("restore", "%s: returns %s" % (x.loc, str(v)[:100])); return
    if any(k.op == "isnone" and x.st.expand(k.a[0]) is t and w is True for k, w in x.facts.items()) : return
    a = args3(t)
    if a is None: return
    P, I, E = a
    W = wrapped(I, roles)
    applied = []
    for i, (n, ar, tt) in enumerate(steps):
        if n in ("xreplace", "subs", "replace") and ar:
            m = x.st.expand(ar[0])
            ms = [m] + [a for e in x.st.events if e.kind == "call" and e.term.a[0].op == "attr" and e.term.a[0].a[1] == "update" and (e.term.a[0].a[0] in (m, ar[0]) or x.st.expand(e.term.a[0].a[0]) is m) for a in e.term.a[1]]
            for s in [y for q in ms for y in subterms(x.st.expand(q))]:
                w = wrapped(s, roles)
                if w: applied.append((w[1], i))
    if W:
        if roles is None: ctx.unres("restore", "%s: roles of the tables unknown" % x.loc)
        else:
            inv = {i for i, (who, k) in roles.items() if k == 1}
            at = {}
            for j, i in applied: at.setdefault(j, set()).add(i)
            if all(j in at for j in inv) and len(inv) > 1:
                ok = bool(set.intersection(*(at[j] for j in inv)))
                ctx.decide(ok, "restore", x.loc, f.qual, "all placeholders are replaced at once" if ok else "placeholders are replaced one table after the other, so that a user's label that looks like a placeholder of the second table is rewritten", "sequential", "", path_of(x))
            # facts: on this path the wrapper may be known not to exist
            for i in sorted(inv):
                ok = any(j == i for j, _ in applied)
                ctx.decide(ok, "restore", x.loc, f.qual, "the placeholders of %s are replaced by the labels" % roles[i][0] if ok else "a certificate is returned that still contains the placeholders of %s" % roles[i][0], "table%d" % i, "", path_of(x))
            fwd = [j for j, _ in applied if j in roles and roles[j][1] == 0]
            if fwd: ctx.bad("restore", x.loc, f.qual, "the forward table is applied to the certificate", "forward", path_of(x))
    core, hs = strip(x.st.expand(P))
    hs = [h for h in hs if h is not None]
    deh = [(i, ar) for i, (n, ar, tt) in enumerate(steps) if n == "dehomogenize"]
    if hs:
        h = hs[0]
        ok = any(ar and ar[0] is h for i, ar in deh)
        other = [n for n, ar, tt in steps if n not in ("xreplace", "subs", "replace", "dehomogenize") or (n != "dehomogenize" and any(h in set(subterms(y)) and y.op != "item" for y in ar))]
        if not ok and other: ctx.unres("restore", "%s: steps %s" % (x.loc, [s[0] for s in steps])); return
        ctx.decide(ok, "restore", x.loc, f.qual, "the homogenising variable is removed" if ok else "a certificate is returned that still contains the homogenising variable", "dehomogenize", "", path_of(x))
        if ok and applied:
            i = min(i for i, ar in deh)
            good = all(j < i for _, j in applied)
            ctx.decide(good, "restore", x.loc, f.qual, "placeholders are replaced before the homogenising variable is removed" if good else "the homogenising variable is removed before the placeholders, whose arguments contain it, are replaced", "order", "", path_of(x))

# ------------------------------------------------------------------ placeholders
def check_placeholders(ctx):
    f = find(ctx, "placeholder", S + "_get_constraints_wrapper")
    if f is None: return
    subs = [g for g in ctx.prog.funcs.values() if g.parent is f and "<lambda>" not in g.qual]
    makers = [g for g in subs + [h for h in ctx.prog.funcs.values() if is_new(h) and h.module is f.module] if any(isinstance(n, ast.Call) and isinstance(n.func, ast.Call) and (getattr(n.func.func, "attr", None) == "Function" or getattr(n.func.func, "id", None) == "Function") for n in ast.walk(g.node))]
    if not makers: ctx.unres("placeholder", "no placeholder construction found"); return
    # names handed in by the two callers
    ex = runf(ctx, "placeholder", f, inline=lambda g: False, want=lambda t: t.op == "call" and cname(t) in {g.name for g in makers})
    names = {}
    for e in events(ex or [], lambda e: e.kind == "call" and cname(e.term) in {g.name for g in makers}):
        g = next(g for g in makers if g.name == cname(e.term))
        i = g.args.index("name") if "name" in g.args else None
        n = call_kw(e.term, "name", i)
        if n is None:
            d = default_of(g, "name")
            n = T("c", "str", d) if d is not None else None
        who = next((y.a[0] for y in list(e.term.a[1]) + [z for _, z in e.term.a[2]] if y.op == "p" and "constraints" in y.a[0]), None)
        if n is not None and who: names[who] = (cval(n) if n.op == "c" else str(n), e)
    if len(names) >= 2:
        vals = [v for v, e in names.values()]
        e = list(names.values())[0][1]
        digits = lambda v: str(v).rstrip("0123456789")
        ok = len({digits(v) for v in vals}) == len(vals)
        ctx.decide(ok, "placeholder", e.loc, f.qual, "inequalities and equalities get placeholders of different names (%s)" % ", ".join(map(str, vals)) if ok else "inequalities and equalities share placeholder names", "names", "", [])
    else: ctx.unres("placeholder", "placeholder names not understood")
    for g in makers: judge_maker(ctx, g)

def default_of(g, n):
    a = g.node.args
    pos = a.posonlyargs + a.args
    for p, d in zip(pos[len(pos) - len(a.defaults):], a.defaults):
        if p.arg == n and isinstance(d, ast.Constant): return d.value
    return None

def judge_maker(ctx, g):
    loops = []
    def on_loop(func, node, it, el, start, results):
        if func is g: loops.append((node, it, el, start, results))
    ex = runf(ctx, "placeholder", g, on_loop=on_loop, max_states=4000, merge=False, want_store=lambda t, v: True)
    if ex is None: return
    # stores into the two tables
    st = events(ex, lambda e: e.kind == "store" and e.term.op == "sub")
    inv = [e for e in st if is_ph(e.term.a[1])]
    fwd = [e for e in st if is_ph(e.val)]
    for e in inv:
        key, val = e.term.a[1], e.val
        # the label stored for the placeholder is looked up under the constraint the placeholder stands for
        peers = [q for q in fwd if q.val is key]
        look = None
        for s in [val]:
            if s.op == "call" and callee_name(s) == "get" and call_args(s): look = call_args(s)[0]
            elif s.op == "sub" and len(s.a) > 1 and isinstance(s.a[1], T): look = s.a[1]
        if look is None or not peers: ctx.unres("placeholder", "%s: table entry %s" % (e.loc, str(val)[:100])); continue
        ok = any(q.term.a[1] is look for q in peers)
        ctx.decide(ok, "placeholder", e.loc, g.qual, "the inverse table maps a placeholder to the label of the constraint it stands for" if ok else "the inverse table maps the placeholder of one constraint to the label of another", "pair", str(look)[:100], path_of(e))
    for q in st:
        if q.val.op == "call" and callee_name(q.val) in ("get", "setdefault") and len(q.val.a[1]) == 2 and is_ph(q.val.a[1][1]):
            same = q.val.a[1][0] is q.term.a[1]
            if same: ctx.unres("placeholder", "%s: placeholder reused" % q.loc)
            else: ctx.bad("placeholder", q.loc, g.qual, "a constraint gets the placeholder of another constraint", "reuse", [str(q.val)[:120]])
    for q in fwd:
        kp, vp = perms(q.st.expand(q.term.a[1])), perms(q.st.expand(q.val))
        if len(kp) == 1:
            (p, i), = kp
            if not vp: ctx.bad("placeholder", q.loc, g.qual, "the arguments of a placeholder are not permuted together with the constraint", "args", [str(q.val)[:120]])
            elif len(vp) == 1:
                (r, j), = vp
                if r is p: ctx.decide(i != j, "placeholder", q.loc, g.qual, "the arguments of a placeholder are permuted together with the constraint" if i != j else "the arguments of a placeholder are permuted in the opposite sense of the constraint", "args", str(q.val)[:80], path_of(q))
    for q in fwd:
        ok = any(e.term.a[1] is q.val for e in inv)
        if not inv: ctx.unres("placeholder", "%s: no inverse table" % q.loc); break
        ctx.decide(ok, "placeholder", q.loc, g.qual, "every placeholder has an inverse entry" if ok else "a placeholder is created without an inverse entry", "inverse", str(q.val)[:80], path_of(q))
    # a new constraint gets a new name
    for q in fwd[:1]:
        nm = q.val.a[0].a[1][0] if q.val.a[0].op == "call" and q.val.a[0].a[1] else None
        if nm is None: continue
        var = [s for s in subterms(nm) if s.op == "phi"]
        el = [s for s in subterms(nm) if s.op in ("bv",)]
        if el: ctx.ok("placeholder", q.loc, "the name of a placeholder depends on the constraint"); continue
        if not var:
            if any(s.op == "p" and s.a[0] != "name" for s in subterms(nm)) or any(s.op == "call" and callee_name(s) not in ("str", "format", "Function") for s in subterms(nm)): ctx.unres("placeholder", "%s: name %s" % (q.loc, str(nm)[:80]))
            else: ctx.bad("placeholder", q.loc, g.qual, "different constraints get placeholders of the same name", "counter", [str(nm)[:100]])
            continue
        cn = {s.a[1] for s in var}
        for node, it, e, start, res in loops:
            for kind, s, v, nd in res:
                if kind not in ("fall", "continue"): continue
                for n in cn:
                    t = s.env.get(n)
                    if t is None: continue
                    made = any(b.kind == "store" and b.term.op == "sub" and is_ph(b.val) for b in s.events) if hasattr(s, "events") else None
                    same = t.op == "phi" and t.a[1] == n
                    outer = any(isinstance(x, ast.AugAssign) or isinstance(x, ast.Assign) for x in ast.walk(node) if isinstance(x, (ast.AugAssign, ast.Assign)) and any(isinstance(y, ast.Name) and y.id == n and isinstance(y.ctx, ast.Store) for y in ast.walk(x)))
                    if not outer: continue
                    if kind == "fall": ctx.decide(not same, "placeholder", "%s:%d" % (g.module.path, node.lineno), g.qual, "the counter moves on after each constraint" if not same else "the counter does not move on after a constraint", "counter", "", [])
        if not any(isinstance(x, (ast.AugAssign, ast.Assign)) and any(isinstance(y, ast.Name) and y.id in cn and isinstance(y.ctx, ast.Store) for y in ast.walk(x)) for n in ast.walk(g.node) if isinstance(n, ast.For) for x in ast.walk(n)):
            ctx.bad("placeholder", q.loc, g.qual, "different constraints get placeholders of the same name", "counter", [str(nm)[:100]])

def perms(t):
    """(permutation, inverted) applied to something inside a term"""
    out = set()
    for s in subterms(t):
        if s.op != "call": continue
        p, inv = s.a[0], False
        for _ in range(4):
            if p.op == "call" and p.a[0].op == "attr" and p.a[0].a[1] in ("__invert__", "inverse"): p, inv = p.a[0].a[0], not inv
            elif p.op in ("invert", "un") and isinstance(p.a[-1], T): p, inv = p.a[-1], not inv
            elif p.op == "bin" and p.a[0] == "Pow" and num(p.a[2]) == -1: p, inv = p.a[1], not inv
            else: break
        if p.op == "bv" and "elements" in str(p): out.add((p, inv))
    return out

def is_ph(t):
    return isinstance(t, T) and t.op == "call" and t.a[0].op == "call" and callee_name(t.a[0]) == "Function"

# ------------------------------------------------------------------ output wrapper
WANT = (("problem", 0), ("ineq_constraints", 1), ("eq_constraints", 2))
def check_output(ctx):
    ws = wrappers(ctx, "sanitize_output")
    if not ws: ctx.unres("report", "output wrapper not found"); return
    for f in ws:
        ex = runf(ctx, "report", f, want_store=lambda t, v: t.op == "attr", merge=False)
        for x in ex or []:
            if x.kind != "return": continue
            v = x.val
            if v is NONE: continue
            if not inner_call(v): ctx.unres("report", "%s returns %s" % (x.loc, str(v)[:80])); continue
            none = any(k.op == "isnone" and k.a[0] is v and w is True for k, w in x.facts.items())
            notsol = False
            unk = False
            for k, w in x.facts.items():
                if k.op == "call" and callee(k) == "builtins.isinstance" and k.a[1][0] is v and w is False:
                    n = str(k.a[1][1])
                    if "Solution" in n and "Solution" == n.split(".")[-1].strip("')"): notsol = True
                    else: unk = True
                if k.op == "call" and callee(k) == "builtins.hasattr" and k.a[1][0] is v and w is False: notsol = True
                if k is v and w is False: notsol = True
            if none or notsol: ctx.ok("report", x.loc, "nothing to report"); continue
            for n, i in WANT:
                ev = [e for e in x.events if e.kind == "store" and e.term.op == "attr" and e.term.a[0] is v and e.term.a[1] == n]
                if not ev:
                    if unk: ctx.unres("report", "%s: condition of the bookkeeping" % x.loc)
                    else: ctx.bad("report", x.loc, f.qual, "a certificate is returned whose %s is not the caller's" % n, n, path_of(x))
                    continue
                val = ev[-1].val
                want = T("p", f.args[i])
                core, _ = strip(x.st.expand(val))
                if val is want or core is want: ctx.ok("report", x.loc, "%s is the caller's" % n)
                elif core.op == "attr" and core.a[0] is v: ctx.bad("report", x.loc, f.qual, "the %s of a certificate is kept from the prepared problem on a path instead of being the caller's" % n, n, path_of(x))
                elif core.op == "p" or core.op in ("c", "newdict", "dict", "newlist", "list") : ctx.bad("report", x.loc, f.qual, "the %s of a certificate is set to something else than the caller's" % n, n, [str(val)[:120]])
                else: ctx.unres("report", "%s: %s = %s" % (x.loc, n, str(val)[:80]))

# ------------------------------------------------------------------ wiring
def check_wiring(ctx):
    for f in ctx.prog.funcs.values():
        decs = []
        for d in f.node.decorator_list if hasattr(f.node, "decorator_list") else []:
            t = d.func if isinstance(d, ast.Call) else d
            r = ctx.prog.resolve_expr(t, f.module, f.parent)
            q = getattr(r, "qual", None)
            if q in (S + "sanitize_input", S + "sanitize_output"): decs.append((q.split(".")[-1], d))
        if not decs: continue
        loc = "%s:%d" % (f.module.path, f.node.lineno)
        ns = [n for n, d in decs]
        if "sanitize_output" in ns and "sanitize_input" in ns:
            ok = ns.index("sanitize_output") < ns.index("sanitize_input")
            ctx.decide(ok, "wiring", loc, f.qual, "the caller's problem is recorded outside the preparation" if ok else "the prepared problem instead of the caller's is recorded in the certificate", "order:" + f.name, "", ns)
        for n, d in decs:
            if n != "sanitize_input" or not isinstance(d, ast.Call): continue
            kw = {k.arg: k.value.value for k in d.keywords if k.arg and isinstance(k.value, ast.Constant)}
            unk = any(not isinstance(k.value, ast.Constant) for k in d.keywords) or d.args
            if unk: ctx.unres("wiring", "%s: switches of %s" % (loc, f.qual)); continue
            deff = ctx.prog.funcs.get(S + "sanitize_input")
            get = lambda k: kw.get(k, default_of(deff, k) if deff is not None else None)
            if get("infer_symmetry"):
                ok = bool(get("wrap_constraints"))
                ctx.decide(ok, "wiring", loc, f.qual, "labels that need not be symmetric are wrapped before symmetry is used" if ok else "symmetry is used although the labels of the constraints are not wrapped into symmetric placeholders", "wrap:" + f.name, "", [])
            if get("ineq_constraint_sqf") is False or get("eq_constraint_sqf") is False: ctx.unres("wiring", "%s: normalisation switched off for %s" % (loc, f.qual))
    m = ctx.prog.modules.get("triples.core.sum_of_squares")
    f = ctx.prog.funcs.get("triples.core.sum_of_squares.sum_of_squares")
    if f is not None and not any(isinstance(n, ast.Attribute) and n.attr == "problem" for n in ast.walk(f.node)):
        has = {getattr(ctx.prog.resolve_expr(d.func if isinstance(d, ast.Call) else d, f.module, f.parent), "qual", "") for d in f.node.decorator_list}
        ok = S + "sanitize_output" in has
        if ok or not has: ctx.decide(ok, "wiring", "%s:%d" % (f.module.path, f.node.lineno), f.qual, "the caller's problem is recorded in the certificate" if ok else "the certificate does not report the caller's problem", "entry", "", [])
    for e in (m.assigns.get("NAME_TO_METHOD", []) if m else []):
        for v in getattr(e, "values", []):
            r = ctx.prog.resolve_expr(v, m)
            if not isinstance(r, Func): continue
            has = {getattr(ctx.prog.resolve_expr(d.func if isinstance(d, ast.Call) else d, r.module, r.parent), "qual", "") for d in r.node.decorator_list}
            for q in ("sanitize_input", "sanitize_output"):
                ok = S + q in has
                if not ok and any(h and h not in (S + "sanitize_input", S + "sanitize_output") for h in has): ctx.unres("wiring", "%s decorated by %s" % (r.qual, sorted(has))); continue
                ctx.decide(ok, "wiring", "%s:%d" % (r.module.path, r.node.lineno), r.qual, "method is wrapped by %s" % q if ok else "method is not wrapped by %s" % q, q + ":" + r.name, "", [])
