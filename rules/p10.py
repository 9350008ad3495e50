"""P10: failed sub-steps are noticed before their result is used."""
import ast
from sa.load import Func, Cls, Ext, Var, Module, walk_own
from sa.callables import Callables
from sa.nullness import Optionals, Flow, catches, falls_off, is_none
from sa.util import *
from rules.p18 import atoms_in

TECHNIQUE = "flow-sensitive may-be-None dataflow over every function, with an interprocedural fixpoint for which functions can answer None and which parameters need a value; guard analysis of the numerical and parsing steps that fail by raising"
EXPLANATION = ("Which functions can answer None is computed as a fixpoint over their return statements. In every function each local variable that holds such a result is followed along the control flow (tests, flags, early exits, loops, handlers, one-line predicates); "
  "unpacking, indexing, calling, computing with, iterating over, collecting it, presenting it as a solution, or handing it to a function that does so, while it may still be None, is a violation, unless a handler around the use takes the resulting error. "
  "The sites of the analysed tree at which the answer None is excluded by mathematics rather than by a test are listed in the rule, per file and callee with their number; only uses beyond that number are reported. "
  "Steps that fail by raising (numerical solvers, linear programming, exact linear algebra, parsing) must lie in a handler that takes any ordinary error and leads on or to the documented failure answer.")

M = "the precondition tested before the call excludes the case (mathematical)"
K = "called with constants for which it answers"
X = "every input of the type is covered by a branch; the missing else is unreachable"
T = "triples/core/structsos/ternary/"
ASSUMED = {
    ("triples/core/symsos/basic.py", "prove_by_pivoting"): (1, "a generator that does not occur is dropped for good: the answer to the smaller problem is final"),
    ("web_main.py", "_parse_perm_group"): (1, "None means the default group to every receiver"),
    ("triples/core/linsos/tangents.py", "_tangent_t"): (2, K),
    ("triples/core/structsos/pivoting/univariate.py", "congruence"): (1, "the matrix is a nonnegative combination of p p^T"),
    (T + "cubic.py", "quadratic_weighting"): (3, M),
    (T + "cubic.py", "rationalize_func"): (2, M + "; the list is tested for None afterwards"),
    (T + "dense_symmetric.py", "_subtractor1"): (2, M),
    (T + "nonic.py", "_search_valid_weight"): (1, "the accepted z was validated by the same function"),
    (T + "octic_symmetric.py", "schur"): (1, K),
    (T + "quadratic.py", "solve_nonnegative"): (1, "entries are nonnegative parts"),
    (T + "quartic.py", "_sos_struct_quartic_core"): (1, M),
    (T + "quartic.py", "quadratic_weighting"): (1, M),
    (T + "quintic.py", "_solve_uvxy"): (1, "only reached when u, v are not supplied, which no caller does"),
    (T + "quintic.py", "quadratic_weighting"): (1, M),
    (T + "quintic.py", "sos_struct_cubic"): (1, M),
    (T + "quintic.py", "sos_struct_quartic"): (1, M),
    (T + "quintic_symmetric.py", "quadratic"): (3, M),
    (T + "quintic_symmetric.py", "sos_struct_quartic"): (1, M),
    (T + "septic.py", "_fast_solve_quartic"): (1, M),
    (T + "septic_symmetric.py", "_restructure_quartic_polynomial"): (2, "the arguments are sums of squares"),
    (T + "septic_symmetric.py", "_sos_struct_cubic_symmetric"): (1, M),
    (T + "septic_symmetric.py", "as_poly"): (2, X),
    (T + "septic_symmetric.py", "quadratic"): (1, M),
    (T + "septic_symmetric.py", "schur"): (2, K),
    (T + "sextic.py", "congruence"): (1, M),
    (T + "sextic.py", "quad_form_det"): (4, K),
    (T + "sextic.py", "quadratic_weighting"): (2, M),
    (T + "sextic.py", "rationalize_func"): (1, "tested through the variable that is set only when it is not None"),
    (T + "sextic.py", "schur"): (1, K),
    (T + "sextic_symmetric.py", "_get_solution"): (2, M),
    (T + "sextic_symmetric.py", "quadratic"): (10, M),
    (T + "sextic_symmetric.py", "schur"): (6, K),
    (T + "sparse.py", "local_ineq"): (1, M),
    (T + "sparse.py", "prove_univariate"): (1, "the answer of the univariate prover is final for the reduced polynomial"),
    ("triples/sdp/abstract.py", "align_iters"): (1, "asked to raise instead of answering None"),
    ("triples/sdp/arithmetic.py", "_find_reasonable_pivot_naive[1]"): (1, "the two parts of the answer are None together"),
    ("triples/sdp/arithmetic.py", "vec2mat"): (2, X),
    ("triples/sdp/primal.py", "vec2mat"): (1, X),
    ("triples/sdp/transform.py", "common_transform"): (3, "parent and child always share their transform"),
    ("triples/sdp/transform.py", "vec2mat"): (1, X),
    ("triples/sdp/utils.py", "length"): (1, X),
    ("triples/sdp/utils.py", "vec2mat"): (1, X),
    ("triples/utils/expression/coeff.py", "degree"): (1, "not called on the empty table"),
}

RULES = {
    "none-use": "a result that may be None is tested before it is used",
    "raising-step": "a step that fails by raising lies in a handler that takes every ordinary error and does not raise it on unasked",
    "finite": "a quotient that may be undefined is recognised as such before it is compared",
    "lp-status": "the linear program's success flag is tested before its solution is used",
}

def run(ctx):
    for r, t in RULES.items(): ctx.rule(r, t)
    C = ctx.__dict__.setdefault("_callables", None) or Callables(ctx.prog)
    O = Optionals(ctx.prog, C)
    ctx.count("optional_functions", len(O.opt))
    nullness(ctx, O)
    guards(ctx)
    lp_success(ctx)
    finite(ctx)

def nullness(ctx, O):
    per, tested, total = {}, 0, {}
    for q, f in ctx.prog.funcs.items():
        if isinstance(f.node, ast.Lambda): continue
        fl = Flow(O, f)
        ctx.count("functions_analysed")
        k = sum(1 for c in walk_own(f.node) if isinstance(c, ast.Call) and O.call(c, f))
        tested += k
        if k: ctx.ok("none-use", f.loc, "%s: %d calls with an optional result followed" % (f.qual, k))
        for node, org, how in fl.reports.values():
            per.setdefault((f.module.rel, org[0]), []).append((f, node, org, how))
            total[org[0]] = total.get(org[0], 0) + 1
    ctx.count("calls_with_optional_result", tested)
    allow = {}
    for (m, c), (n, why) in ASSUMED.items(): allow[c] = allow.get(c, 0) + n
    over = 0
    for (m, c), rs in sorted(per.items()):
        n, why = ASSUMED.get((m, c), (0, ""))
        # uses moved to another file still count as the assumed ones
        spare = max(0, allow.get(c, 0) - sum(min(len(per.get((mm, cc), [])), k) for (mm, cc), (k, _) in ASSUMED.items() if cc == c))
        if len(rs) <= n + spare:
            for f, node, org, how in rs: ctx.count("assumed_uses")
            continue
        known = {x for x in NAMES.get((m, c), ())}
        rs = sorted(rs, key=lambda r: (r[0].name in known, r[1].lineno))
        for f, node, org, how in rs[:len(rs) - n - spare] if not known else [r for r in rs if r[0].name not in known] or rs[:1]:
            over += 1
            ctx.bad("none-use", "%s:%d" % (f.module.rel, node.lineno), f.qual, "the result of %s, called at line %d, may be None (%s) and %s without a test" % (org[0], org[2], org[1], how), "%s:%s" % (f.qual, org[0]))
    if not tested: ctx.unres("none-use", "no function with an optional result was found")

# functions that hold the assumed uses (only used to point at the new one)
NAMES = {
    ('triples/core/linsos/tangents.py', '_tangent_t'): ('_tangents_nontrivial_1_border_2',),
    ('triples/core/structsos/pivoting/univariate.py', 'congruence'): ('_reduce_sos',),
    ('triples/core/structsos/ternary/cubic.py', 'quadratic_weighting'): ('_sos_struct_acyclic_cubic_hexagon', '_sos_struct_acyclic_cubic_symmetric'),
    ('triples/core/structsos/ternary/cubic.py', 'rationalize_func'): ('_sos_struct_acyclic_cubic_hexagon', '_sos_struct_cubic_nontrivial'),
    ('triples/core/structsos/ternary/dense_symmetric.py', '_subtractor1'): ('sos_struct_liftfree_for_six',),
    ('triples/core/structsos/ternary/nonic.py', '_search_valid_weight'): ('_sos_struct_nonic_gear',),
    ('triples/core/structsos/ternary/octic_symmetric.py', 'schur'): ('_sos_struct_octic_symmetric_hexagram',),
    ('triples/core/structsos/ternary/quadratic.py', 'solve_nonnegative'): ('sos_struct_acyclic_quadratic',),
    ('triples/core/structsos/ternary/quartic.py', '_sos_struct_quartic_core'): ('_sos_struct_quartic_uncentered',),
    ('triples/core/structsos/ternary/quartic.py', 'quadratic_weighting'): ('_sos_struct_quartic_degenerate',),
    ('triples/core/structsos/ternary/quintic.py', '_solve_uvxy'): ('_compute_ker',),
    ('triples/core/structsos/ternary/quintic.py', 'quadratic_weighting'): ('_sos_struct_quintic_windmill_trivial',),
    ('triples/core/structsos/ternary/quintic.py', 'sos_struct_cubic'): ('_solve_sa2minusab_mul_cubic',),
    ('triples/core/structsos/ternary/quintic.py', 'sos_struct_quartic'): ('_compute_ker',),
    ('triples/core/structsos/ternary/quintic_symmetric.py', 'quadratic'): ('sos_struct_quintic_symmetric',),
    ('triples/core/structsos/ternary/quintic_symmetric.py', 'sos_struct_quartic'): ('sos_struct_quintic_symmetric',),
    ('triples/core/structsos/ternary/septic.py', '_fast_solve_quartic'): ('_sos_struct_septic_star',),
    ('triples/core/structsos/ternary/septic_symmetric.py', '_restructure_quartic_polynomial'): ('_sos_struct_septic_symmetric_quadratic_form',),
    ('triples/core/structsos/ternary/septic_symmetric.py', '_sos_struct_cubic_symmetric'): ('_F_border',),
    ('triples/core/structsos/ternary/septic_symmetric.py', 'as_poly'): ('_sos_struct_septic_symmetric_quadratic_form',),
    ('triples/core/structsos/ternary/septic_symmetric.py', 'quadratic'): ('_F_border',),
    ('triples/core/structsos/ternary/septic_symmetric.py', 'schur'): ('_F_regular', '_sos_struct_septic_symmetric_quadratic_form'),
    ('triples/core/structsos/ternary/sextic.py', 'congruence'): ('_compute_quad_form_sol',),
    ('triples/core/structsos/ternary/sextic.py', 'quad_form_det'): ('_sos_struct_sextic_full_sdp',),
    ('triples/core/structsos/ternary/sextic.py', 'quadratic_weighting'): ('_sos_struct_sextic_hexagon_sdp', '_sos_struct_sextic_hexagon_to_hexagram'),
    ('triples/core/structsos/ternary/sextic.py', 'rationalize_func'): ('_sos_struct_sextic_hexagram',),
    ('triples/core/structsos/ternary/sextic.py', 'schur'): ('_sos_struct_sextic_hexagram',),
    ('triples/core/structsos/ternary/sextic_symmetric.py', '_get_solution'): ('_sos_struct_sextic_hexagon_symmetric',),
    ('triples/core/structsos/ternary/sextic_symmetric.py', 'quadratic'): ('_F_tighter_bound_border', '_merge_remainder_terms', '_rem_regular', '_solve_border', '_solve_degen', '_solve_point', '_sos_struct_sextic_symmetric_ultimate_1root', '_sos_struct_sextic_symmetric_ultimate_2roots'),
    ('triples/core/structsos/ternary/sextic_symmetric.py', 'schur'): ('_sos_struct_sextic_hexagram_symmetric', '_sos_struct_sextic_iran96', '_sos_struct_sextic_symmetric_ultimate_2roots'),
    ('triples/core/structsos/ternary/sparse.py', 'local_ineq'): ('_solve_spiral1',),
    ('triples/core/structsos/ternary/sparse.py', 'prove_univariate'): ('sos_struct_heuristic',),
    ('triples/sdp/abstract.py', 'align_iters'): ('solve',),
    ('triples/sdp/arithmetic.py', '_find_reasonable_pivot_naive[1]'): ('_row_reduce_dict',),
    ('triples/sdp/arithmetic.py', 'vec2mat'): ('default', 'symmetric_bilinear'),
    ('triples/sdp/primal.py', 'vec2mat'): ('S_from_y',),
    ('triples/sdp/transform.py', 'common_transform'): ('constrain_nullspace', 'print_graph'),
    ('triples/sdp/transform.py', 'vec2mat'): ('_init_child_node',),
    ('triples/sdp/utils.py', 'length'): ('split_vector',),
    ('triples/sdp/utils.py', 'vec2mat'): ('S_from_y',),
    ('triples/utils/expression/coeff.py', 'degree'): ('cancel_abc',),
    ('web_main.py', '_parse_perm_group'): ('preprocess',),
}

# ------------------------------------------------------------------ steps that fail by raising
# (function, callee name, what it is)
GUARDS = [
    ("triples.sdp.backend.caller.solve_numerical_dual_sdp", "solve", "numerical SDP solver"),
    ("triples.sdp.backend.caller.solve_numerical_primal_sdp", "solve", "numerical SDP solver"),
    ("triples.core.linsos.linsos._LinearSOS", "linprog", "linear programming solver"),
    ("triples.core.linsos.correction.linear_correction", "LUsolve", "exact linear solve"),
    ("triples.core.sdpsos.sdpsos._SDPSOS", "construct", "construction of the SDP"),
    ("triples.core.sdpsos.sdpsos._SDPSOS", "solve", "SDP solve"),
    ("triples.core.sdpsos.sdpsos._SDPSOS", "as_solution", "conversion of the SDP result"),
    ("triples.core.sum_of_squares.sum_of_squares_multiple", "sum_of_squares", "one problem of a batch"),
    ("triples.gui.sos_manager.SOS_Manager.set_poly", "preprocess_text", "parse of the typed text"),
    ("triples.gui.sos_manager.SOS_Manager.latex_coeffs", "preprocess_text", "parse of the typed text"),
    ("triples.utils.roots.findroot._findroot_helper._findroot_nsolve", "nsolve", "numerical root search"),
    ("triples.utils.roots.findroot._findroot_helper._findroot_scipy", "minimize", "numerical minimisation"),
    ("triples.utils.roots.findroot._findroot_helper._findroot_border", "nroots", "numerical roots"),
    ("triples.utils.roots.findroot._findroot_helper._findroot_symmetric", "nroots", "numerical roots"),
    ("web_main.sum_of_squares", "sum_of_squares", "solve request of a client"),
    ("web_main.sum_of_squares", "str_latex", "conversion of the result for the client"),
    ("gradio_app.GradioInterface.solve", "sum_of_squares", "solve request of a user"),
]

def uses(f, name):
    for n in walk_own(f.node):
        if isinstance(n, ast.Call):
            fn = n.func
            if (fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, "id", None)) == name: yield n
        elif isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.ctx, ast.Load) and name.startswith("str_"): yield n

def broad(h):
    if h.type is None: return True
    ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return any(isinstance(x, ast.Name) and x.id in ("Exception", "BaseException") for x in ts)

def asks(test):
    return any("exception" in (getattr(x, "id", None) or getattr(x, "attr", None) or "").lower() for x in ast.walk(test) if isinstance(x, (ast.Name, ast.Attribute)))

def reraises(h):
    """the handler raises although exceptions were not asked for"""
    def go(body, under):
        for s in body:
            if isinstance(s, ast.Raise): return not under
            if isinstance(s, (ast.Return, ast.Continue, ast.Break)): return False
            if isinstance(s, ast.If):
                u = under or asks(s.test)
                if go(s.body, u) or go(s.orelse, u): return True
                if asks(s.test) and not falls_off(s.body): under = True
            else:
                for fld in ("body", "orelse", "finalbody"):
                    if isinstance(getattr(s, fld, None), list) and go(getattr(s, fld), under): return True
        return False
    return go(h.body, False)

def guarded(f, node):
    """(handler, None) taking any ordinary error of node, or (None, reason)"""
    why = "no handler surrounds it"
    for t, part in enclosing_trys(f, node):
        if part != "body": continue
        hs = [h for h in t.handlers if broad(h)]
        if not hs: why = "the handler at line %d takes only %s" % (t.handlers[0].lineno if t.handlers else t.lineno, ", ".join(ast.unparse(h.type) for h in t.handlers if h.type is not None) or "nothing"); continue
        early = [h for h in t.handlers[:t.handlers.index(hs[0])] if reraises(h)]
        if reraises(hs[0]): why = "the handler at line %d raises again although no exception was asked for" % hs[0].lineno; continue
        if early: why = "the handler at line %d raises again" % early[0].lineno; continue
        return hs[0], None
    return None, why

def guards(ctx):
    for q, name, what in GUARDS:
        f = find(ctx, "raising-step", q)
        if f is None: continue
        sites = [(f, n) for n in uses(f, name)]
        outer = {}
        # new helpers of this function
        todo, seen = [f], {f}
        while todo:
            g = todo.pop()
            for c in calls_in(g):
                h = resolve_call(ctx.prog, g, c)
                if isinstance(h, Func) and h not in seen and (is_new(h) or h.parent is not None and h.parent in seen):
                    seen.add(h); todo.append(h); outer.setdefault(h, []).append((g, c))
                    sites += [(h, n) for n in uses(h, name)]
        if not sites: ctx.unres("raising-step", "%s: no %s (%s)" % (q, name, what)); continue
        def safe(g, n, d=0):
            h, why = guarded(g, n)
            if h is not None: return True, None
            if d < 3 and outer.get(g):
                rs = [safe(g2, c2, d + 1) for g2, c2 in outer[g]]
                return all(r[0] for r in rs), why
            return False, why
        for g, n in sites:
            okk, why = safe(g, n)
            ctx.decide(okk, "raising-step", "%s:%d" % (g.module.rel, n.lineno), g.qual, "a failure of the %s (%s) is not turned into the answer 'no result': %s" % (what, name, why),
                "%s:%s" % (q, name), "failures of %s (%s) are taken" % (name, what))

# ------------------------------------------------------------------ linear programming status
def lp_success(ctx):
    f = find(ctx, "lp-status", "triples.core.linsos.linsos._LinearSOS")
    if f is None: return
    calls = [c for c in calls_in(f) if (getattr(c.func, "id", None) or getattr(c.func, "attr", None)) == "linear_correction"]
    if not calls: ctx.unres("lp-status", "no linear_correction call"); return
    ps = parents(f)
    for c in calls:
        okk, node = False, c
        while node is not f.node and not okk:
            p = ps.get(node, f.node)
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(p, fld, None)
                if isinstance(b, list) and node in b:
                    if isinstance(p, ast.If) and any(status(ctx, f, a) and pol for a, pol in atoms_in(f, p.test, fld == "body")): okk = True
                    for s in b[:b.index(node)]:
                        if isinstance(s, ast.If) and not falls_off(s.body) and any(status(ctx, f, a) and pol for a, pol in atoms_in(f, s.test, False)): okk = True
                        if isinstance(s, ast.If) and s.orelse and not falls_off(s.orelse) and any(status(ctx, f, a) and pol for a, pol in atoms_in(f, s.test, True)): okk = True
                        if isinstance(s, ast.Assert) and any(status(ctx, f, a) and pol for a, pol in atoms_in(f, s.test, True)): okk = True
            node = p
        ctx.decide(okk, "lp-status", "%s:%d" % (f.module.rel, c.lineno), f.qual, "the result of the linear program is corrected although its success flag was not tested", "lp", "the success flag of the linear program is tested first")

def status(ctx, f, a):
    if any(isinstance(x, ast.Attribute) and x.attr in ("success", "status") for x in ast.walk(a)): return True
    if isinstance(a, ast.Call):
        h = resolve_call(ctx.prog, f, a)
        return isinstance(h, Func) and any(isinstance(x, ast.Attribute) and x.attr in ("success", "status") for x in ast.walk(h.node))
    if isinstance(a, ast.Name):
        ds = [n.value for n in walk_own(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == a.id for t in n.targets)]
        return any(isinstance(x, ast.Attribute) and x.attr in ("success", "status") for d in ds for x in ast.walk(d))
    return False

# ------------------------------------------------------------------ undefined quotients
UNDEFINED = [("triples.core.structsos.solution.SolutionStructural._extract_nonnegative_exprs", "arg", "a constant of a structural solution"),
             ("triples.core.structsos.ternary.quintic_symmetric.sos_struct_quintic_symmetric", "w1", "the weight of the secant point")]
DIVISIONS = [("triples.core.structsos.ternary.sextic._sos_struct_sextic_full_sdp", "z_", "the scale of the quadratic form")]
MARKS = {"nan", "zoo", "NaN", "ComplexInfinity", "is_finite", "is_infinite", "is_real", "is_extended_real", "is_comparable"}
NUMERIC = {"Rational", "Integer", "Float"}

def finite(ctx):
    for q, v, what in UNDEFINED:
        f = find(ctx, "finite", q)
        if f is None: continue
        m = {}
        for n in ast.walk(f.node):
            for c in ast.iter_child_nodes(n): m[c] = n
        cmps = [n for n in ast.walk(f.node) if isinstance(n, ast.Compare) and any(isinstance(o, (ast.Lt, ast.LtE, ast.Gt, ast.GtE)) for o in n.ops) and any(isinstance(x, ast.Name) and x.id == v for x in [n.left] + n.comparators)]
        if not cmps: ctx.unres("finite", "%s: no comparison of %s" % (q, v)); continue
        def marks(t):
            ns = {getattr(x, "attr", None) or getattr(x, "id", None) for x in ast.walk(t)}
            return v in ns and bool(ns & MARKS or "isinstance" in ns and ns & NUMERIC)
        first = min(cmps, key=lambda n: n.lineno)
        okk, node = False, first
        while node is not f.node and not okk:
            p = m[node]
            if isinstance(p, ast.BoolOp) and any(marks(x) for x in p.values[:p.values.index(node)]): okk = True
            if isinstance(p, (ast.If, ast.IfExp)) and node is not p.test and marks(p.test): okk = True
            for fld in ("body", "orelse"):
                b = getattr(p, fld, None)
                if isinstance(b, list) and node in b and any(isinstance(s, ast.If) and marks(s.test) for s in b[:b.index(node)]): okk = True
                if isinstance(b, list) and node in b and any(isinstance(s, ast.Assign) and marks(s.value) for s in b[:b.index(node)]): okk = True
            if isinstance(p, ast.Try) and node in p.body and any(catches(h) for h in p.handlers): okk = True
            node = p
        ctx.decide(okk, "finite", "%s:%d" % (f.module.rel, first.lineno), f.qual, "%s ('%s') may be undefined (0/0) and is compared without a test for that" % (what, v), "%s:%s" % (q, v), "%s is tested before it is compared" % what)
    for q, v, what in DIVISIONS:
        f = find(ctx, "finite", q)
        if f is None: continue
        m = parents(f)
        divs = [n for n in ast.walk(f.node) if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Div) and isinstance(n.right, ast.Name) and n.right.id == v]
        if not divs: ctx.unres("finite", "%s: no division by %s" % (q, v)); continue
        first = min(divs, key=lambda n: n.lineno)
        def tests(t): return any(isinstance(x, ast.Name) and x.id == v for x in ast.walk(t))
        okk, node = False, first
        while node is not f.node and not okk:
            p = m[node]
            if isinstance(p, (ast.If, ast.IfExp)) and node is not p.test and tests(p.test): okk = True
            for fld in ("body", "orelse"):
                b = getattr(p, fld, None)
                if isinstance(b, list) and node in b and any(isinstance(s, ast.If) and tests(s.test) and not falls_off(s.body) for s in b[:b.index(node)]): okk = True
            node = p
        ctx.decide(okk, "finite", "%s:%d" % (f.module.rel, first.lineno), f.qual, "%s ('%s') may be zero and is divided by without a test" % (what, v), "%s:%s" % (q, v), "%s is tested before it is divided by" % what)
