"""P12: every documented option reaches the code that implements it."""
import ast
from sa.load import Func, Cls, Ext
from sa.terms import T, C, NONE, TRUE, FALSE, subterms, callee, callee_name, call_args, call_kw, cval
from sa.util import *

TECHNIQUE = "interprocedural option-forwarding dataflow (value numbers of the arguments of every forwarding call on every path, new helpers inlined) and dominance of limit checks over growth sites"
EXPLANATION = ("A table of forwarding obligations (public function, option, function that receives it) is decided on every path: the value number of the argument must be the option itself or a copy of it. "
  "An omitted argument, a constant, another option, or an arithmetic combination is a violation. Selection of methods, per-method configurations and the numerical backend is checked on the facts of the path (a default is taken only when the option is None). "
  "Every growth of the linear-programming search space must be followed by the size check with the caller's limit, and the degree limits must hold as branch facts where a degree is used. "
  "Every numerical backend must hand the solver options to the package it drives. Not covered: what the receiving code does with an option beyond these limits, and options of functions that are not reachable from a public entry point.")

C_ = "triples.core."
U = "triples.utils."
D = "triples.sdp."

def row(caller, callee_, *opts, **kw):
    """caller, receiving function, options: 'name' or ('parameter of the receiver', 'option')"""
    return (caller, callee_, [(o, o) if isinstance(o, str) else o for o in opts], kw)

SOLVE = ("objective", "constraints", "min_eigen", "scaling", "solver", "use_default_configs", "allow_numer", "verbose", "solve_child", "propagate_to_parent", "solver_options", "raise_exception")
LIN = ("symmetry", "tangents", "rootsinfo", "preordering", "verbose", "quad_diff_order", "basis_limit", "lift_degree_limit", "linprog_options", "allow_numer", "_homogenizer", "ineq_constraints", "eq_constraints")
SDP = ("symmetry", "ineq_constraints_with_trivial", "preordering", "degree_limit", "verbose", "solver", "solver_options", "allow_numer", "ineq_constraints", "eq_constraints")

FLOWS = [
    row(C_ + "linsos.linsos.LinearSOS", C_ + "linsos.linsos._LinearSOS", *LIN),
    row(C_ + "linsos.linsos._LinearSOS", C_ + "linsos.linsos._get_qmodule_list", "preordering"),
    row(C_ + "linsos.linsos._LinearSOS", C_ + "linsos.updegree.lift_degree", "lift_degree_limit", "symmetry", "ineq_constraints"),
    row(C_ + "linsos.linsos._LinearSOS", C_ + "linsos.linsos._prepare_basis", "quad_diff_order", "basis_limit", "symmetry"),
    row(C_ + "linsos.linsos._LinearSOS", C_ + "linsos.correction.linear_correction", "symmetry"),
    row(C_ + "linsos.linsos._LinearSOS", ".linprog", ("**", "linprog_options")),
    row(C_ + "linsos.linsos._prepare_basis", ".generate_quad_diff", "quad_diff_order", "symmetry", exempt="eq_constraints", sig=C_ + "linsos.basis.LinearBasisTangent.generate_quad_diff"),
    row(C_ + "linsos.updegree.lift_degree", C_ + "linsos.updegree._get_multipliers", "symmetry"),
    row(C_ + "linsos.correction.linear_correction", C_ + "linsos.correction._basis_as_matrix", "symmetry"),
    row(C_ + "sdpsos.sdpsos.SDPSOS", C_ + "sdpsos.sdpsos._SDPSOS", *(SDP + (("**", "kwargs"),))),
    row(C_ + "sdpsos.sdpsos._SDPSOS", C_ + "sdpsos.sdpsos.SOSProblem", "symmetry", sig=C_ + "sdpsos.sdpsos.SOSProblem.__init__"),
    row(C_ + "sdpsos.sdpsos._SDPSOS", C_ + "sdpsos.sdpsos._get_qmodule_list", "ineq_constraints_with_trivial", "preordering"),
    row(C_ + "sdpsos.sdpsos._SDPSOS", ".construct", "verbose", sig=C_ + "sdpsos.sdpsos.SOSProblem.construct"),
    row(C_ + "sdpsos.sdpsos._SDPSOS", ".solve", "allow_numer", "verbose", "solver", "solver_options", ("**", "kwargs"), sig=D + "abstract.SDPProblemBase.solve"),
    row(C_ + "sdpsos.sdpsos.SOSProblem.construct", C_ + "sdpsos.sdpsos._form_sdp", "verbose"),
    row(C_ + "sdpsos.sdpsos.SOSProblem.construct", C_ + "sdpsos.sdpsos._constrain_nullspace", "verbose", "deparametrize"),
    row(C_ + "sdpsos.sdpsos.SOSProblem.solve", ".solve", ("*", "args"), ("**", "kwargs")),
    row(D + "dual.SDPProblem.solve", ".solve", *SOLVE, sig=D + "abstract.SDPProblemBase.solve"),
    row(D + "abstract.SDPProblemBase.solve", ".solve", *SOLVE, sig=D + "abstract.SDPProblemBase.solve"),
    row(D + "abstract.SDPProblemBase.solve", "._solve_from_multiple_configs", "scaling", "solver", "allow_numer", "verbose", "solver_options", "raise_exception", sig=D + "abstract.SDPProblemBase._solve_from_multiple_configs"),
    row(D + "abstract.SDPProblemBase._solve_from_multiple_configs", "._solve_numerical_sdp", "scaling", "solver", "solver_options", "raise_exception", ("objective", ("each", "list_of_objective")), ("constraints", ("each", "list_of_constraints")), ("min_eigen", ("each", "list_of_min_eigen")), sig=D + "dual.SDPProblem._solve_numerical_sdp"),
    row(D + "abstract.SDPProblemBase._solve_from_multiple_configs", ".rationalize", "verbose", sig=D + "abstract.SDPProblemBase.rationalize"),
    row(D + "dual.SDPProblem._solve_numerical_sdp", D + "backend.caller.solve_numerical_dual_sdp", "min_eigen", "scaling", "solver", "solver_options", "raise_exception"),
    row(D + "primal.SDPPrimal._solve_numerical_sdp", D + "backend.caller.solve_numerical_primal_sdp", "objective", "constraints", "min_eigen", "scaling", "solver", "solver_options", "raise_exception"),
    row(D + "backend.caller.solve_numerical_dual_sdp", D + "backend.caller._create_numerical_dual_sdp", "x0_and_space", "objective", "constraints", "min_eigen", "lower_bound", "scaling", "solver"),
    row(D + "backend.caller.solve_numerical_primal_sdp", D + "backend.caller._create_numerical_primal_sdp", "space", "x0", "objective", "constraints", "min_eigen", "scaling", "solver"),
    row(D + "backend.caller.solve_numerical_dual_sdp", ".solve", (0, "solver_options")),
    row(D + "backend.caller.solve_numerical_primal_sdp", ".solve", (0, "solver_options")),
    row(D + "abstract.SDPProblemBase.register_y", ".congruence_with_perturbation", "perturb", sig="triples.utils.roots.rationalize.congruence_with_perturbation"),
    row(D + "rationalize.rationalize_and_decompose", ".congruence_with_perturbation", "perturb"),
    row(D + "abstract.SDPProblemBase.rationalize", D + "rationalize.rationalize_and_decompose", ("**", "kwargs")),
    row(C_ + "sum_of_squares.sum_of_squares_multiple", C_ + "sum_of_squares.sum_of_squares", "method_order", "configs", "ineq_constraints", "eq_constraints"),
    row(C_ + "sum_of_squares.sum_of_squares_multiple", C_ + "sum_of_squares._process_records", "save_result", "save_solution_method"),
    row(C_ + "sum_of_squares.sum_of_squares_multiple", ".PolyReader", "polys", ("**", "poly_reader_configs"), sig=U + "text_process.PolyReader.__init__"),
    row(C_ + "sum_of_squares.sum_of_square", C_ + "sum_of_squares.sum_of_squares", ("*", "args"), ("**", "kwargs")),
    row(C_ + "sum_of_squares.sum_of_square_multiple", C_ + "sum_of_squares.sum_of_squares_multiple", ("*", "args"), ("**", "kwargs")),
    row("triples.gui.sos_manager.SOS_Manager.sum_of_squares", C_ + "sum_of_squares.sum_of_squares", "ineq_constraints", "eq_constraints", "method_order", "configs"),
    row("triples.gui.sos_manager.SOS_Manager.sum_of_squares", ".rewrite_symmetry", (0, "gens"), (1, "perm")),
    row("triples.gui.sos_manager.SOS_Manager.set_poly", U + "text_process.preprocess_text", "gens", "perm", kwonly=True),
    row("triples.gui.sos_manager.SOS_Manager.set_poly", U + "expression.form.poly_get_factor_form", "omit_mul", "omit_pow"),
    row("triples.gui.sos_manager.SOS_Manager.set_poly", U + "expression.form.poly_get_standard_form", "omit_mul", "omit_pow"),
    row("triples.gui.sos_manager.SOS_Manager.findroot", U + "roots.findroot.findroot", "grid"),
    row("triples.gui.sos_manager.SOS_Manager.latex_coeffs", U + "text_process.preprocess_text", "gens", "perm", kwonly=True),
    row(U + "text_process.pl", U + "text_process.preprocess_text", ("*", "args"), ("**", "kwargs")),
    row(U + "text_process.preprocess_text", U + "text_process._preprocess_text_completion", "scientific_notation", "preserve_sqrt", "preserve_cbrt"),
    row(U + "text_process.degree_of_zero", U + "text_process._preprocess_text_completion", "scientific_notation", "preserve_sqrt", "preserve_cbrt"),
    row(U + "expression.solution.SolutionSimple.as_eq", ".as_fraction", "together"),
    row(U + "expression.solution.SolutionSimple.to_string", ".as_eq", "lhs_expr", "together", "cancel", sig=U + "expression.solution.SolutionSimple.as_eq"),
    row(U + "roots.findroot.findroot", ".findroot", "standardize_method", "method", sig=U + "roots.findroot._findroot_helper.findroot"),
    row(U + "roots.monotonic_opt.rpa_gmop", U + "roots.monotonic_opt.rpa_monotonic", "tol", "max_iter", "cbv", "root_solver", "verbose"),
    row(U + "roots.monotonic_opt.rpa_polyopt", U + "roots.monotonic_opt.rpa_gmop", "tol", "max_iter", "cbv", "root_solver", "verbose"),
    row(U + "roots.monotonic_opt.rpa_monotonic", U + "roots.monotonic_opt._red", "root_solver"),
    row(D + "ipm.sdp_dual_feasible", D + "ipm.sdp_ipm", "dtype", "rho", "epsilon", "max_iter", "blocks", "callback"),
    row(D + "ipm.sdp_ipm_feasible", D + "ipm.sdp_ipm", "dtype", "rho", "epsilon", "max_iter", "callback"),
    row(U + "roots.grid.GridRender.render", "._render_grid_value", "size", "value_method", sig=U + "roots.grid.GridRender._render_grid_value"),
]

# options that their function must look at
USED = [
    (C_ + "linsos.linsos._LinearSOS", ("symmetry", "tangents", "rootsinfo", "preordering", "verbose", "quad_diff_order", "basis_limit", "lift_degree_limit", "linprog_options", "allow_numer")),
    (C_ + "sdpsos.sdpsos._SDPSOS", ("symmetry", "ineq_constraints_with_trivial", "preordering", "degree_limit", "verbose", "solver", "solver_options", "allow_numer", "kwargs")),
    (C_ + "linsos.linsos._prepare_basis", ("quad_diff_order", "basis_limit", "basis", "all_nonnegative")),
    (C_ + "linsos.updegree.lift_degree", ("degree_limit", "lift_degree_limit")),
    (D + "abstract.SDPProblemBase.solve", SOLVE),
    (D + "abstract.SDPProblemBase._solve_from_multiple_configs", ("scaling", "solver", "allow_numer", "verbose", "solver_options", "raise_exception")),
    (D + "backend.caller._create_numerical_dual_sdp", ("objective", "constraints", "min_eigen", "lower_bound", "scaling", "solver")),
    (D + "backend.caller._create_numerical_primal_sdp", ("objective", "constraints", "min_eigen", "scaling", "solver")),
    (D + "backend.caller.solve_numerical_dual_sdp", ("raise_exception", "solver_options", "solver", "scaling")),
    (D + "backend.caller.solve_numerical_primal_sdp", ("raise_exception", "solver_options", "solver", "scaling")),
    (C_ + "sum_of_squares.sum_of_squares", ("method_order", "configs")),
    (C_ + "sum_of_squares.sum_of_squares_multiple", ("method_order", "configs", "poly_reader_configs", "save_result", "save_solution_method", "verbose_sos", "verbose_progress")),
    (C_ + "sdpsos.sdpsos._get_qmodule_list", ("ineq_constraints_with_trivial", "preordering")),
    (C_ + "linsos.linsos._get_qmodule_list", ("all_nonnegative", "preordering")),
]

def cname(t): return callee_name(t) if t.op == "call" else None
def P(n): return T("p", n)

def run(ctx):
    ctx.rule("forward", "the option is handed on unchanged to the function that implements it")
    ctx.rule("used", "the function that owns an option looks at it")
    ctx.rule("select", "methods, configurations and backends are the ones asked for; defaults only stand in for None")
    ctx.rule("limit", "size and degree limits are enforced where the search space grows")
    ctx.rule("backend", "every numerical backend hands the solver options to the package it drives")
    by = {}
    for r in FLOWS: by.setdefault(r[0], []).append(r)
    for q, rows in by.items(): ctx.section(check_flows, ctx, q, rows)
    ctx.section(check_wrappers, ctx)
    for q, opts in USED: ctx.section(check_used, ctx, q, opts)
    for fn in (check_levels, check_exact, check_default_configs, check_derived, check_config_tables, check_entry, check_reader, check_select, check_multiple, check_backend_choice, check_backends, check_limit_basis, check_limit_degree, check_lift, check_quad, check_order): ctx.section(fn, ctx)

# ---------------------------------------------------------------- forwarding
COPY = {"dict", "list", "tuple", "copy", "deepcopy", "set"}

def is_opt(t, p, st):
    """True: the option or a copy of it; False: certainly something else; None: not understood"""
    if t is p: return True
    t2 = st.expand(t, 14)
    def same(t):
        if t is p: return True
        if t.op == "call" and cname(t) in COPY:
            if t.a[0].op == "attr" and t.a[0].a[0] is p and not t.a[1]: return True
            if len(t.a[1]) == 1 and not t.a[2]: return same(t.a[1][0])
        if t.op in ("list", "tuple") and len(t.a) == 1 and isinstance(t.a[0], T):
            x = t.a[0]
            if x.op == "star": return same(x.a[0])
            if x.op == "each" and x.a[0] is p and x.a[1].op == "bv" and len(x.a) == 2: return True
        return False
    if same(t2): return True
    sub = subterms(t2)
    if p in sub:
        if t2.op == "dict":
            r = star_of(t2, p, st.facts)
            if r is not None: return r
        if any(z.op == "sub" and z.a[1].op == "slice" and p in subterms(z.a[0]) for z in sub): return False
        if t2.op in ("bin", "neg", "not", "lt", "eq", "is", "isnone"): return False
        if t2.op == "call" and cname(t2) in ("min", "max", "bool", "int", "abs", "round"): return False
        if t2.op == "sub": return False
        return None
    if t2.op in ("c", "p", "g", "new", "list", "dict", "tuple", "attr"): return False
    if t2.op == "bin": return False
    return None

def argument(t, sig, name, off):
    """(value, known) of a parameter at a call"""
    if isinstance(name, int):
        if len(t.a[1]) > name and not any(x.op == "star" for x in t.a[1][:name + 1]): return t.a[1][name], True
        return None, not any(x.op == "star" for x in t.a[1])
    for k, v in t.a[2]:
        if k == name: return v, True
    if any(x.op == "star" for x in t.a[1]): return None, False
    if sig is not None:
        ar = [a for a in sig.args]
        if name in ar:
            i = ar.index(name) - off
            if 0 <= i < len(t.a[1]): return t.a[1][i], True
    return None, True

def star_args(t):
    return [x.a[0] for x in t.a[1] if x.op == "star"]
def kw_star(t):
    return [v for k, v in t.a[2] if k in (None, "**")] + [x.a[0] for x in t.a[1] if x.op in ("dstar", "starstar")]

def matches(t, target):
    if t.op != "call": return False
    if target.startswith("."): return cname(t) == target[1:]
    n = target.split(".")[-1]
    return callee(t) == target or cname(t) == n

def defaulted(p, facts):
    return any(k.op == "isnone" and k.a[0] is p and w is True for k, w in facts.items())

def check_flows(ctx, q, rows):
    f = find(ctx, "forward", q)
    if f is None: return
    targets = [r[1] for r in rows]
    ex = runf(ctx, "forward", f, inline=inliner(), max_states=6000, want=lambda t: t.op == "call" and any(matches(t, g) for g in targets))
    if ex is None: return
    for _, target, opts, kw in rows:
        evs = [e for e in events(ex) if e.kind == "call" and matches(e.term, target)]
        sig = ctx.prog.funcs.get(kw.get("sig") or target)
        if sig is None and (kw.get("sig") or "." in target[1:]): sig = find(ctx, "forward", kw.get("sig") or target, quiet=True)
        if target == ".solve" and q.endswith("dual.SDPProblem.solve"): evs = [e for e in evs if True]
        if target == ".solve" and q.endswith("SDPProblemBase.solve"): evs = [e for e in evs if e.term.a[0].op == "attr"]
        if target == ".solve" and q.startswith(D + "backend"): evs = [e for e in evs if e.term.a[0].op == "attr"]
        if not evs: ctx.unres("forward", "%s: no call of %s" % (q, target)); continue
        for e in evs:
            t = e.term
            off = 1 if sig is not None and sig.cls is not None and sig.args and sig.args[0] in ("self", "cls") else 0
            if kw.get("exempt") and any(P(kw["exempt"]) in subterms(e.st.expand(a)) for a in call_args(t)): ctx.ok("forward", e.loc, "equality constraints: deliberate"); continue
            for par, opt in opts:
                each = isinstance(opt, tuple)
                p = P(opt[1] if each else opt)
                key = "%s->%s:%s" % (q.split(".")[-1], target.split(".")[-1], p.a[0])
                msg = "option '%s' is not handed on to %s" % (p.a[0], target.split(".")[-1])
                if par in ("*", "**"):
                    vs = star_args(t) if par == "*" else kw_star(t)
                    rs = [star_of(e.st.expand(v, 14), p, e.facts) if par == "**" else is_opt(v, p, e.st) for v in vs]
                    if True in rs: ctx.ok("forward", e.loc, "%s%s" % (par, p.a[0]))
                    elif not vs and any(p in subterms(e.st.expand(a, 14)) for a in call_args(t)): ctx.unres("forward", "%s: %s" % (e.loc, msg))
                    elif None in rs: ctx.unres("forward", "%s: %s" % (e.loc, msg))
                    else: ctx.bad("forward", e.loc, q, msg, key, [str(t)[:300]] + path_of(e))
                    continue
                v, known = argument(t, sig, par, off)
                if v is None:
                    stars = kw_star(t)
                    carried = any(p in subterms(e.st.expand(s, 14)) or any(x.op == "kv" and x.a[0] is C(par) for x in subterms(e.st.expand(s, 14))) for s in stars)
                    if not known or carried: ctx.unres("forward", "%s: %s" % (e.loc, msg)); continue
                    if any(not is_forwarded_dict(s) for s in stars): ctx.unres("forward", "%s: %s" % (e.loc, msg)); continue
                    ctx.bad("forward", e.loc, q, msg + " (its own default applies)", key, [str(t)[:300]] + path_of(e)); continue
                if each:
                    s = subterms(e.st.expand(v, 14))
                    if p in s: ctx.ok("forward", e.loc, p.a[0])
                    else: ctx.bad("forward", e.loc, q, "the configurations in '%s' are not handed on" % p.a[0], key, [str(v)[:200]] + path_of(e))
                    continue
                r = is_opt(v, p, e.st)
                if r is False and (v is NONE or True) and defaulted(p, e.facts): ctx.ok("forward", e.loc, "%s: default for None" % p.a[0]); continue
                if r is False and SPECIAL.get((q, p.a[0])) and SPECIAL[(q, p.a[0])](e.st.expand(v, 14), p): ctx.ok("forward", e.loc, "%s: as documented" % p.a[0]); continue
                if r: ctx.ok("forward", e.loc, p.a[0])
                elif r is None and SPECIAL.get((q, p.a[0])) and p not in subterms(e.st.expand(v, 14)):
                    ctx.bad("forward", e.loc, q, "%s receives a value that does not depend on option '%s'" % (target.split(".")[-1], p.a[0]), key, [str(v)[:200]] + path_of(e))
                elif r is None:
                    sp = SPECIAL.get((q, p.a[0]))
                    if sp and sp(e.st.expand(v, 14), p): ctx.ok("forward", e.loc, "%s: as documented" % p.a[0])
                    else: ctx.unres("forward", "%s: %s receives %s" % (e.loc, target.split(".")[-1], str(v)[:80]))
                else: ctx.bad("forward", e.loc, q, "%s receives %s instead of option '%s'" % (target.split(".")[-1], str(v)[:60], p.a[0]), key, [str(t)[:300]] + path_of(e))

def is_forwarded_dict(s):
    """a ** argument that is itself one of the caller's parameters cannot carry another named option"""
    return s.op == "p"

def star_of(t, p, facts):
    """does **t carry all entries of p, unchanged?"""
    if t is p: return True
    if t.op == "call" and cname(t) in COPY and t.a[1]: return star_of(t.a[1][0], p, facts)
    if t.op == "call" and cname(t) == "copy" and t.a[0].op == "attr": return star_of(t.a[0].a[0], p, facts)
    if t.op == "dict":
        got = False
        for x in t.a:
            if not isinstance(x, T): return None
            if x.op in ("merge", "star", "dstar", "starstar", "ext", "extend") and x.a and star_of(x.a[0], p, facts): got = True
            elif x.op == "kv":
                if got and not any(k.op == "in" and k.a[0] is x.a[0] and w is False for k, w in facts.items()): return False
            elif p in subterms(x): return None
        return got
    if p in subterms(t): return None
    return False if t.op in ("c", "g", "new", "p") else None

def _gui_methods(t, p): return p in subterms(t)
def _configs(t, p): return p in subterms(t)
SPECIAL = {
    ("triples.gui.sos_manager.SOS_Manager.sum_of_squares", "method_order"): _gui_methods,
    ("triples.gui.sos_manager.SOS_Manager.sum_of_squares", "configs"): _configs,
    (C_ + "sum_of_squares.sum_of_squares_multiple", "configs"): _configs,
}

def check_wrappers(ctx):
    """the preparing and finishing decorators hand all other options on"""
    for q in ("sanitize_input", "sanitize_output"):
        fs = [g for g in ctx.prog.funcs.values() if g.module.name == "triples.core.shared" and g.name == "wrapper" and q in g.qual]
        for g in fs:
            va, kwa = g.node.args.vararg, g.node.args.kwarg
            sites = [n for n in ast.walk(g.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "func"]
            if not sites: ctx.unres("forward", "%s: wrapped function is not called" % g.qual); continue
            for n in sites:
                loc = "%s:%d" % (g.module.rel, n.lineno)
                k = any(x.arg is None for x in n.keywords)
                s = any(isinstance(x, ast.Starred) for x in n.args)
                ctx.decide(k or not kwa, "forward", loc, g.qual, "keyword options are handed on" if k else "the keyword options are lost", q + ":kwargs")
                ctx.decide(s or not va, "forward", loc, g.qual, "positional options are handed on" if s else "the positional options are lost", q + ":args")
            # dropping an entry of the caller's keyword options
            if kwa:
                for n in ast.walk(g.node):
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == kwa.arg and n.func.attr in ("clear", "popitem"):
                        ctx.bad("forward", "%s:%d" % (g.module.rel, n.lineno), g.qual, "keyword options are dropped", q + ":drop")
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == kwa.arg and n.func.attr == "pop" or isinstance(n, ast.Delete) and any(isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name) and x.value.id == kwa.arg for x in n.targets):
                        nm = n.args[0].value if isinstance(n, ast.Call) and n.args and isinstance(n.args[0], ast.Constant) else None
                        used = nm in ("symmetry",)
                        if not used: ctx.bad("forward", "%s:%d" % (g.module.rel, n.lineno), g.qual, "keyword option %s is dropped" % nm, q + ":pop", [])
                # overwriting an option the caller gave
                for n in ast.walk(g.node):
                    if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Subscript) and isinstance(n.targets[0].value, ast.Name) and n.targets[0].value.id == kwa.arg and isinstance(n.targets[0].slice, ast.Constant):
                        nm = n.targets[0].slice.value
                        if nm in ("symmetry", "_homogenizer"): ctx.ok("forward", "%s:%d" % (g.module.rel, n.lineno), "%s is derived" % nm)
                        else: ctx.bad("forward", "%s:%d" % (g.module.rel, n.lineno), g.qual, "option %s of the caller is overwritten" % nm, q + ":" + str(nm))

def check_used(ctx, q, opts):
    f = find(ctx, "used", q)
    if f is None: return
    names = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
    for o in opts:
        if o not in f.all_params: ctx.unres("used", "%s has no option %s" % (q, o)); continue
        ctx.decide(o in names, "used", f.loc, q, "looked at" if o in names else "option '%s' is ignored" % o, "%s:%s" % (f.name, o))

# ---------------------------------------------------------------- selection
def check_select(ctx):
    f = find(ctx, "select", C_ + "sum_of_squares.sum_of_squares")
    if f is None: return
    mo, cf = P("method_order"), P("configs")
    for lp in [n for n in walk_own(f.node) if isinstance(n, ast.For)]:
        for c in ast.walk(lp.iter):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("sorted", "reversed", "set", "frozenset") and uses(c, {"method_order"}): ctx.bad("select", "%s:%d" % (f.module.rel, lp.lineno), f.qual, "the methods are not tried in the order given", "order", [ast.unparse(lp.iter)])
    ex = runf(ctx, "select", f, merge=False, want=lambda t: t.op == "call")
    n = 0
    for e in events(ex or []):
        if e.kind != "call": continue
        t = e.term
        if t.a[0].op != "sub" and not (t.a[0].op == "call" and cname(t.a[0]) == "get"): continue
        if "NAME_TO_METHOD" not in str(t.a[0]): continue
        n += 1
        m = t.a[0].a[1] if t.a[0].op == "sub" else t.a[0].a[1][0]
        it = m.a[0] if m.op == "bv" else None
        if it is None: ctx.unres("select", "%s: method %s" % (e.loc, str(m)[:60])); continue
        base = unwrap(it, ("list", "tuple", "iter"))
        if base is mo: ctx.ok("select", e.loc, "methods in the order given")
        elif base.op == "g" and defaulted(mo, e.facts): ctx.ok("select", e.loc, "default order for None")
        elif base.op == "g" or (base.op == "c"): ctx.bad("select", e.loc, f.qual, "the methods tried are not those of method_order", "order", path_of(e))
        elif mo in subterms(it):
            if any(cname(z) in ("sorted", "reversed", "set", "frozenset") for z in subterms(it)) or it.op == "sub": ctx.bad("select", e.loc, f.qual, "the methods are not tried in the order given", "order", path_of(e))
            else: ctx.unres("select", "%s: %s" % (e.loc, str(it)[:80]))
        else: ctx.unres("select", "%s: %s" % (e.loc, str(it)[:80]))
        # positional problem arguments
        for i, nm in enumerate(("poly", "ineq_constraints", "eq_constraints")):
            v = t.a[1][i] if len(t.a[1]) > i else call_kw(t, nm)
            if v is None: ctx.bad("select", e.loc, f.qual, "'%s' is not handed to the method" % nm, "arg:" + nm, [str(t)[:200]])
            else:
                r = is_opt(v, P(nm), e.st)
                if r is None: ctx.unres("select", "%s: %s" % (e.loc, nm))
                else: ctx.decide(r, "select", e.loc, f.qual, "'%s' is not handed to the method" % nm, "arg:" + nm, nm, [str(t)[:200]])
        ks = kw_star(t)
        if not ks and isinstance(e.node, ast.Call) and any(k.arg is None for k in e.node.keywords):
            absent = any(q.op == "in" and q.a[0] is m and w is False or q.op == "isnone" and w for q, w in e.facts.items())
            if absent: ctx.ok("select", e.loc, "no configuration given")
            else: ctx.unres("select", "%s: empty configuration" % e.loc)
            continue
        if not ks: ctx.bad("select", e.loc, f.qual, "the configuration of the method is not handed to it", "config", [str(t)[:200]]); continue
        for k in ks:
            k2 = e.st.expand(k, 14)
            look = [s for s in subterms(k2) if (s.op == "sub" or cname(s) == "get") and m in subterms(s.a[1] if s.op == "sub" else T("tuple", *s.a[1]))]
            look = [s for s in look if "NAME_TO_METHOD" not in str(s)]
            if not look:
                if k2.op in ("dict", "new") and len(k2.a) <= (1 if k2.op == "new" else 0) and any(q.op == "in" and q.a[0] is m and w is False or q.op == "isnone" and w for q, w in e.facts.items()): ctx.ok("select", e.loc, "no configuration given"); continue
                if k2.op in ("g", "c", "dict", "new") or cf in subterms(k2): ctx.bad("select", e.loc, f.qual, "the method receives a configuration that is not its own", "config", [str(k2)[:200], str(m)] + path_of(e))
                else: ctx.unres("select", "%s: configuration %s" % (e.loc, str(k2)[:80]))
                continue
            for s in look:
                src = s.a[0] if s.op == "sub" else s.a[0].a[0]
                key = s.a[1] if s.op == "sub" else s.a[1][0]
                if key is not m: ctx.bad("select", e.loc, f.qual, "the configuration is looked up under another name than the method's", "confkey", [str(s)[:100]]); continue
                if unwrap(src, ("dict", "copy", "deepcopy")) is cf: ctx.ok("select", e.loc, "its own configuration")
                elif src.op == "g" and defaulted(cf, e.facts): ctx.ok("select", e.loc, "default configurations for None")
                elif src.op == "g": ctx.bad("select", e.loc, f.qual, "the caller's configurations are not used", "configs", path_of(e))
                else: ctx.unres("select", "%s: configurations %s" % (e.loc, str(src)[:80]))
    if not n: ctx.unres("select", "no method call found in sum_of_squares")

def check_multiple(ctx):
    """batch verbosity goes to the methods that understand it"""
    f = find(ctx, "select", C_ + "sum_of_squares.sum_of_squares_multiple")
    if f is None: return
    ex = runf(ctx, "select", f, want=lambda t: t.op == "call", want_store=lambda t, v: t.op == "sub")
    vs = P("verbose_sos")
    hit = False
    for e in events(ex or []):
        if e.kind != "store": continue
        if e.term.op == "sub" and e.term.a[1] is C("verbose"):
            if e.val is vs: hit = True; ctx.ok("select", e.loc, "verbosity of the methods")
            else: ctx.bad("select", e.loc, f.qual, "verbose_sos is not handed on", "verbose_sos", [str(e.val)[:100]])
    if not hit and not any(isinstance(n, ast.Name) and n.id == "verbose_sos" and isinstance(n.ctx, ast.Load) for n in ast.walk(f.node)):
        ctx.bad("select", f.loc, f.qual, "verbose_sos is not handed on", "verbose_sos")

def check_backend_choice(ctx):
    for nm, table in (("_create_numerical_dual_sdp", "_DUAL_BACKENDS"), ("_create_numerical_primal_sdp", "_PRIMAL_BACKENDS")):
        f = find(ctx, "select", D + "backend.caller." + nm)
        if f is None: continue
        ex = runf(ctx, "select", f, merge=False, max_states=8000, want=lambda t: t.op == "call" and (t.a[0].op == "sub" or cname(t.a[0]) == "get"))
        so = P("solver")
        for e in events(ex or []):
            if e.kind != "call" or table not in str(e.term.a[0]) and "BACKENDS" not in str(e.term.a[0]): continue
            b = e.term.a[0]
            k = b.a[1] if b.op == "sub" else b.a[1][0]
            src = b.a[0] if b.op == "sub" else b.a[0].a[0]
            if table not in str(src) : ctx.bad("select", e.loc, f.qual, "the backend is taken from the wrong table", nm + ":table", [str(src)[:100]]); continue
            if k is so:
                if any(q.op == "isnone" and q.a[0] is so and w is True for q, w in e.facts.items()): ctx.unres("select", "%s: None" % e.loc)
                else: ctx.ok("select", e.loc, "the backend asked for")
            elif defaulted(so, e.facts) :
                dflt = [s for s in subterms(k) if cname(s) == "get_default_sdp_backend"]
                ctx.ok("select", e.loc, "default backend when none is asked for")
                for s in dflt:
                    v = s.a[1][0] if s.a[1] else call_kw(s, "dual")
                    want = TRUE if "dual" in nm else FALSE
                    if v is None: v = TRUE
                    if v in (TRUE, FALSE): ctx.decide(v is want, "select", e.loc, f.qual, "the default backend is chosen for the wrong form", nm + ":dual")
            elif so in subterms(k): ctx.unres("select", "%s: backend %s" % (e.loc, str(k)[:80]))
            else: ctx.bad("select", e.loc, f.qual, "the solver asked for is replaced by %s" % str(k)[:60], nm + ":solver", path_of(e))

# ---------------------------------------------------------------- backends
def check_backends(ctx):
    base = ctx.prog.classes.get(D + "backend.backend.SDPBackend")
    if base is None: ctx.unres("backend", "SDPBackend not found"); return
    for c in ctx.prog.classes.values():
        if base not in ctx.prog.mro(c) or c is base: continue
        f = ctx.prog.lookup_method(c, "solve")
        if f is None or f.cls is None or f.cls.qual.startswith(D + "backend.backend."): continue
        ps = [a for a in f.args if a not in ("self", "cls")]
        if not ps: continue
        o = ps[0]
        reach = flows_into_call(ctx, c, f, o, 0)
        if reach is None: ctx.unres("backend", "%s: options" % f.qual)
        else: ctx.decide(reach, "backend", f.loc, f.qual, "solver options are used" if reach else "the solver options are ignored", c.name)

def flows_into_call(ctx, c, f, o, depth):
    """does parameter o (or something built from it) reach a call / attribute setting other than the container that collects it?"""
    if depth > 4: return None
    derived = {o}
    body = list(ast.walk(f.node))
    for _ in range(6):
        n0 = len(derived)
        for n in body:
            if isinstance(n, ast.Assign) and uses(n.value, derived):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store): derived.add(x.id)
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and uses(n.value, derived): derived.add(t.value.id)
            if isinstance(n, (ast.For, ast.comprehension)) and uses(n.iter, derived):
                for x in ast.walk(n.target):
                    if isinstance(x, ast.Name): derived.add(x.id)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.attr in ("update", "append", "extend", "add") and any(uses(a, derived) for a in n.args + [k.value for k in n.keywords]): derived.add(n.func.value.id)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and any(uses(a, derived) for a in n.args[1:]) and isinstance(n.args[0], ast.Name): derived.add(n.args[0].id)
        if len(derived) == n0: break
    # a parameter overwritten before use is not the caller's
    for n in f.body:
        if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == o for t in n.targets) and not uses(n.value, {o}): return False
        if uses(n, {o}): break
    unknown = False
    for n in body:
        if not isinstance(n, ast.Call): continue
        args = n.args + [k.value for k in n.keywords]
        if not any(uses(a, derived) for a in args): continue
        nm = n.func.attr if isinstance(n.func, ast.Attribute) else n.func.id if isinstance(n.func, ast.Name) else ""
        if nm in ("dict", "update", "items", "copy", "setattr", "len", "print", "list", "deepcopy"): continue
        g = None
        if isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "self": g = ctx.prog.lookup_method(c, nm)
        elif isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == "super": unknown = True; continue
        else:
            r = resolve_call(ctx.prog, f, n)
            if isinstance(r, Func): g = r
        if g is not None and isinstance(g, Func):
            off = 1 if g.cls is not None and g.args and g.args[0] in ("self", "cls") else 0
            for i, a in enumerate(n.args):
                if uses(a, derived) and i + off < len(g.args):
                    r = flows_into_call(ctx, c, g, g.args[i + off], depth + 1)
                    if r: return True
                    if r is None: unknown = True
            for k in n.keywords:
                if uses(k.value, derived) and k.arg in g.all_params:
                    r = flows_into_call(ctx, c, g, k.arg, depth + 1)
                    if r: return True
                    if r is None: unknown = True
            continue
        return True
    return None if unknown else False

def uses(n, names): return any(isinstance(x, ast.Name) and x.id in names for x in ast.walk(n))

# ---------------------------------------------------------------- limits
def raises_limit(n):
    return any(isinstance(x, ast.Raise) and x.exc is not None and "_basis_limit_exceeded" in ast.dump(x.exc) for x in ast.walk(n))

def limit_checkers(ctx):
    """functions that raise the limit signal exactly when len(first argument) exceeds the second"""
    out = {}
    for g in ctx.prog.funcs.values():
        if isinstance(g.node, ast.Lambda) or g.module.name != "triples.core.linsos.linsos" or not raises_limit(g.node): continue
        if len(g.args) < 2: continue
        ex = runf(ctx, "limit", g, merge=False)
        good = bool(ex)
        ln = T("call", T("g", "builtins.len"), (P(g.args[0]),), ())
        lm = P(g.args[1])
        for x in ex or []:
            over = exceeds(x.facts, ln, lm)
            if over is None:
                cmp_ = [k for k in x.facts if k.op in ("lt", "eq")]
                good = False if x.kind == "raise" and cmp_ and all(ln in subterms(k) for k in cmp_) and not any(lm in k.a and k.op == "lt" and ln not in k.a for k in cmp_) else None
                break
            if (x.kind == "raise") != over: good = False
        if good is None: ctx.unres("limit", "%s: condition not understood" % g.qual); continue
        out[g.qual] = g
        ctx.decide(good, "limit", g.loc, g.qual, "raises exactly when the limit is exceeded" if good else "the size limit is not compared as documented (more than the limit)", "checker")
    return out

def exceeds(facts, ln, lm):
    for k, w in facts.items():
        if k.op == "lt":
            a, b = k.a
            if a is lm and b is ln: return bool(w)
            if a is ln and b is lm: return False if w else "ge"
    return None

def growth_sites(body, name):
    """statements (in this block) that add terms to the list"""
    for s in body:
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == name: yield s
        elif isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == name and s.value.func.attr in ("extend", "append"): yield s
        elif isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets) and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(s.value)): yield s

def check_limit_basis(ctx):
    f = find(ctx, "limit", C_ + "linsos.linsos._prepare_basis")
    if f is None: return
    ck = limit_checkers(ctx)
    names = {g.name for g in ck.values()} | {"_check_basis_limit"}
    lim = "basis_limit"
    aliases = {lim}
    def is_check(s, var):
        """(is a check, uses the caller's limit)"""
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in names and any(isinstance(x, ast.Name) and x.id == var for a in n.args for x in ast.walk(a)):
                vals = n.args[1:] + [k.value for k in n.keywords]
                return True, any(isinstance(x, ast.Name) and x.id in aliases for a in vals for x in ast.walk(a)) and not any(isinstance(a, ast.BinOp) for a in vals)
            if isinstance(n, ast.If) and raises_limit(n) and any(isinstance(x, ast.Name) and x.id == var for x in ast.walk(n.test)):
                return True, any(isinstance(x, ast.Name) and x.id in aliases for x in ast.walk(n.test))
        return False, False
    # variables that hold the grown list: the first component of what is returned
    ret = set()
    for n in walk_own(f.node):
        if isinstance(n, ast.Return) and isinstance(n.value, ast.Tuple) and n.value.elts and isinstance(n.value.elts[0], ast.Name): ret.add(n.value.elts[0].id)
    helpers = [g for g in ctx.prog.funcs.values() if g.module is f.module and not isinstance(g.node, ast.Lambda) and g is not f and (g.parent is f or is_new(g))]
    if not ret: ctx.unres("limit", "_prepare_basis: result not understood"); return
    def scan(func, var):
        seen = False
        def block(body, inloop):
            nonlocal seen
            pend = None
            for s in body:
                chk, own = is_check(s, var)
                grows = list(growth_sites([s], var))
                hcall = [n for n in ast.walk(s) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and any(g.name == n.func.id for g in helpers) and any(isinstance(x, ast.Name) and x.id == var for a in n.args + [k.value for k in n.keywords] for x in ast.walk(a))] if not isinstance(s, (ast.FunctionDef, ast.For, ast.While, ast.If, ast.With, ast.Try)) else []
                if grows: pend = s; seen = True
                for n in hcall:
                    g = next(g for g in helpers if g.name == n.func.id)
                    gv = next((g.args[i] for i, a in enumerate(n.args) if isinstance(a, ast.Name) and a.id == var and i < len(g.args)), None)
                    if gv is None: continue
                    has = any(list(growth_sites(h.body if hasattr(h, "body") and isinstance(h.body, list) else [], gv)) for h in ast.walk(g.node))
                    if not has: continue
                    # the helper must check itself; or a check follows here
                    inner = any(is_check(h, gv)[0] for h in g.node.body)
                    seen = True
                    if not inner: pend = s
                    elif not any(is_check(h, gv)[1] for h in g.node.body) and not any(isinstance(x, ast.Name) and x.id in aliases for a in n.args + [k.value for k in n.keywords] for x in ast.walk(a)): ctx.bad("limit", "%s:%d" % (func.module.rel, s.lineno), func.qual, "the search space is checked against another limit than basis_limit", "which")
                    else: ctx.ok("limit", "%s:%d" % (func.module.rel, s.lineno), "checked in %s" % g.name)
                if isinstance(s, (ast.For, ast.While)): p2 = block(s.body, True); report(p2) if p2 else None
                elif isinstance(s, ast.If):
                    if not chk:
                        p1 = block(s.body, inloop); p2 = block(s.orelse, inloop)
                        pend = p1 or p2 or pend
                elif isinstance(s, (ast.With, ast.Try)): pend = block(s.body, inloop) or pend
                if chk and pend is not None and not isinstance(s, (ast.For, ast.While)):
                    if own: ctx.ok("limit", "%s:%d" % (func.module.rel, pend.lineno), "growth is followed by the size check")
                    else: ctx.bad("limit", "%s:%d" % (func.module.rel, s.lineno), func.qual, "the search space is checked against another limit than basis_limit", "which")
                    pend = None
            return pend
        def report(s):
            ctx.bad("limit", "%s:%d" % (func.module.rel, s.lineno), func.qual, "the search space grows here without a size check before it grows again", "growth:%s" % func.name, [ast.unparse(s)[:200]])
        p = block(func.node.body, False)
        if p: report(p)
        return seen
    # alias of the limit
    for n in walk_own(f.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in aliases:
            for t in n.targets:
                if isinstance(t, ast.Name): aliases.add(t.id)
        if isinstance(n, (ast.Assign, ast.AugAssign)) and any(isinstance(t, ast.Name) and t.id == lim for t in (n.targets if isinstance(n, ast.Assign) else [n.target])):
            if not (isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == lim): ctx.bad("limit", "%s:%d" % (f.module.rel, n.lineno), f.qual, "basis_limit is overwritten", "overwritten")
    got = False
    for v in ret: got = scan(f, v) or got
    if not got: ctx.unres("limit", "_prepare_basis: growth not recognised")
    # the multipliers that are added to the same linear program
    g = find(ctx, "limit", C_ + "linsos.linsos._LinearSOS")
    if g is None: return
    for loop in [n for n in walk_own(g.node) if isinstance(n, ast.For)]:
        vs = {x.elts[0].id for s in loop.body if isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and "_prepare_basis" in ast.dump(s.value.func) for x in s.targets if isinstance(x, ast.Tuple) and isinstance(x.elts[0], ast.Name)}
        for v in vs:
            pend = None
            for s in loop.body:
                if list(growth_sites([s], v)): pend = s
                elif pend is not None and is_check(s, v)[0]:
                    ctx.decide(is_check(s, v)[1], "limit", "%s:%d" % (g.module.rel, s.lineno), g.qual, "the search space is checked against another limit than basis_limit", "which:mult"); pend = None
                elif pend is not None and any(isinstance(n, ast.Name) and n.id == "linprog" for n in ast.walk(s)): break
            if pend is not None: ctx.bad("limit", "%s:%d" % (g.module.rel, pend.lineno), g.qual, "the multipliers are added to the linear program without a size check", "multipliers", [ast.unparse(pend)[:100]])

def check_limit_degree(ctx):
    f = find(ctx, "limit", C_ + "sdpsos.sdpsos._SDPSOS")
    if f is None: return
    ex = runf(ctx, "limit", f, merge=False, max_states=8000, want=lambda t: t.op == "call" and cname(t) in ("construct", "_get_qmodule_list", "SOSProblem"))
    lm = P("degree_limit")
    for e in events(ex or []):
        if e.kind != "call" or cname(e.term) not in ("construct", "SOSProblem"): continue
        hit = None
        for k, w in e.facts.items():
            if k.op == "lt" and lm in k.a:
                o = k.a[0] if k.a[1] is lm else k.a[1]
                deg = cname(o) == "total_degree" or cname(o) in ("degree", "homogeneous_order")
                if k.a[0] is lm and not w: hit = deg
                elif k.a[1] is lm and w: hit = "strict" if deg else False
                else: hit = False
        if hit is True: ctx.ok("limit", e.loc, "degree within the limit")
        elif hit == "strict": ctx.bad("limit", e.loc, f.qual, "a polynomial whose degree equals the limit is refused", "degree:strict", path_of(e))
        elif hit is None or hit is False:
            if any(lm in subterms(k) for k in e.facts) and hit is None: ctx.unres("limit", "%s: degree limit" % e.loc)
            else: ctx.bad("limit", e.loc, f.qual, "the semidefinite problem is built without the degree being within degree_limit", "degree", path_of(e))

def check_lift(ctx):
    f = find(ctx, "limit", C_ + "linsos.updegree.lift_degree")
    if f is None: return
    ex = runf(ctx, "limit", f, merge=False, want=lambda t: t.op == "yield" or t.op == "call" and cname(t) == "_get_multipliers")
    evs = []
    for x in ex or []:
        for e in x.events:
            if e.kind == "yield": evs.append(e)
    lims = (P("lift_degree_limit"), P("degree_limit"))
    if not evs: ctx.unres("limit", "lift_degree: nothing yielded"); return
    for e in evs:
        y = e.st.expand(e.term, 10)
        add = None
        for s in subterms(y):
            if s.op == "kv" and s.a[0] is C("add_degree"): add = s.a[1]
        for lm in lims:
            facts = [(k, w) for k, w in e.facts.items() if lm in subterms(k)]
            lts = [(k, w) for k, w in facts if k.op == "lt"]
            rng = [s for s in subterms(y) | {z for k in e.facts for z in subterms(k)} if s.op == "bv" and cname(s.a[0]) == "range" and lm in subterms(s.a[0])]
            nm = lm.a[0]
            if lts:
                okk = any((k.a[0] is lm and not w) or (k.a[1] is lm and w) for k, w in lts)
                strict = all(k.a[1] is lm and w for k, w in lts)
                if not okk and any(lm in subterms(k) and lm not in k.a for k, w in lts): ctx.unres("limit", "%s: %s" % (e.loc, str(lts)[:100])); continue
                ctx.decide(okk and not strict, "limit", e.loc, f.qual, "within %s" % nm if okk and not strict else "a lifted degree is produced that is not compared with %s as documented" % nm, "lift:" + nm, "", path_of(e))
            elif rng:
                for s in rng:
                    hi = s.a[0].a[1][-1] if len(s.a[0].a[1]) == 1 else s.a[0].a[1][1]
                    if hi is lm: ctx.bad("limit", e.loc, f.qual, "the highest degree allowed by %s is never tried" % nm, "lift:" + nm, [str(hi)[:100]])
                    elif hi.op == "bin" and hi.a[0] == "Add" and C(1) in hi.a[1:]: ctx.ok("limit", e.loc, "within %s" % nm)
                    elif cname(hi) in ("min", "max"): ctx.decide(cname(hi) == "min", "limit", e.loc, f.qual, "the larger of two limits is used", "lift:" + nm)
                    else: ctx.unres("limit", "%s: range %s" % (e.loc, str(hi)[:80]))
            elif facts or any(lm in subterms(z) for z in [y]): ctx.unres("limit", "%s: %s" % (e.loc, nm))
            elif lm not in {z for x in ex for k in x.facts for z in subterms(k)} and not any(isinstance(n, ast.Name) and n.id == nm for n in ast.walk(f.node)): ctx.bad("limit", e.loc, f.qual, "%s is not enforced" % nm, "lift:" + nm, path_of(e))
            else:
                tests = [n for n in ast.walk(f.node) if isinstance(n, (ast.While, ast.If)) and any(isinstance(z, ast.Name) and z.id == nm for z in ast.walk(n.test))]
                if not tests: ctx.bad("limit", e.loc, f.qual, "%s is not enforced" % nm, "lift:" + nm, path_of(e))
                else: ctx.unres("limit", "%s: %s" % (e.loc, nm))

def check_quad(ctx):
    """the expressions and the matrix of the linear basis are made with the same order, bounded by the option"""
    f = find(ctx, "limit", C_ + "linsos.basis.LinearBasisTangent.generate_quad_diff", quiet=True) or find(ctx, "limit", C_ + "linsos.basis.LinearBasisTangent.generate_quad_diff")
    if f is None: return
    p = P("quad_diff_order")
    tg = {"_get_cross_exprs_and_polys_of_quad_diff": 1, "_get_matrix_of_quad_diff": 2}
    ex = runf(ctx, "limit", f, merge=False, want=lambda t: t.op == "call" and cname(t) in tg)
    for x in ex or []:
        if x.kind != "return": continue
        vals = []
        for e in x.events:
            if e.kind == "call" and cname(e.term) in tg:
                v = call_kw(e.term, "quad_diff_order", tg[cname(e.term)])
                if v is None: ctx.unres("limit", "%s: order" % e.loc); continue
                vals.append((v, e))
        isb = any(cname(k) == "isinstance" and k.a[1][0] is p and w for k, w in x.facts.items())
        if len(vals) >= 2: ctx.decide(len({v for v, _ in vals}) == 1, "limit", vals[0][1].loc, f.qual, "basis and matrix are generated with different orders", "quad:same", "same order", [str(v)[:100] for v, _ in vals])
        for v, e in vals:
            if isb: continue
            ok = None
            if v is p: ok = True
            else:
                ok = bounded(v, p)
            if ok is None: ctx.unres("limit", "%s: order %s" % (e.loc, str(v)[:80]))
            else: ctx.decide(ok, "limit", e.loc, f.qual, "bounded by quad_diff_order" if ok else "the order used is not bounded by quad_diff_order", "quad:bound", "", [str(v)[:120]])

def bounded(v, p):
    """v <= max(0, p)?"""
    if v is p or v is C(0): return True
    n = cname(v)
    if n == "min": return True if any(bounded(a, p) for a in call_args(v)) else (False if p not in subterms(v) else None)
    if n == "max":
        rs = [bounded(a, p) for a in call_args(v)]
        if all(rs): return True
        return False if False in rs else None
    if v.op == "bin" and p in subterms(v): return False
    if p not in subterms(v): return False
    return None

def check_order(ctx):
    """unknown preordering names are refused instead of being replaced by a default"""
    for q in (C_ + "linsos.linsos._get_qmodule_list", C_ + "sdpsos.sdpsos._get_qmodule_list"):
        f = find(ctx, "select", q)
        if f is None: continue
        p = P("preordering")
        st = [n for n in ast.walk(f.node) if isinstance(n, (ast.Assign, ast.AugAssign)) and any(isinstance(t, ast.Name) and t.id == "preordering" for t in (n.targets if isinstance(n, ast.Assign) else [n.target]))]
        for n in st: ctx.bad("select", "%s:%d" % (f.module.rel, n.lineno), f.qual, "the preordering asked for is replaced", f.qual.split(".")[2] + ":preordering")
        if not st: ctx.ok("select", f.loc, "preordering used as given")

# ---------------------------------------------------------------- levels
def evalt(t, env):
    """value of a term under an assignment of concrete values to some terms; None: unknown"""
    if t in env: return env[t]
    if t.op == "c": return cval(t)
    try:
        if t.op == "not":
            v = evalt(t.a[0], env); return None if v is None else not v
        if t.op in ("lt", "eq", "is"):
            a, b = evalt(t.a[0], env), evalt(t.a[1], env)
            if a is None or b is None: return None
            return a < b if t.op == "lt" else a == b
        if t.op == "isnone":
            return None if evalt(t.a[0], env) is None else False
        if t.op == "in":
            a = evalt(t.a[0], env)
            if a is None or t.a[1].op not in ("tuple", "list", "set"): return None
            xs = [evalt(x, env) for x in t.a[1].a]
            return None if None in xs else a in xs
        if t.op == "call" and cname(t) in ("bool", "int") and len(t.a[1]) == 1: 
            v = evalt(t.a[1][0], env); return None if v is None else int(v)
        if t.op == "bin":
            a, b = evalt(t.a[1], env), evalt(t.a[2], env)
            if a is None or b is None: return None
            return {"Add": a + b, "Sub": a - b, "Mult": a * b}.get(t.a[0])
    except Exception: return None
    return None

def consistent(facts, env):
    for k, w in facts.items():
        v = evalt(k, env)
        if v is not None and bool(v) != bool(w): return False
    return True

def levels(facts, p, rng=range(4)): return {i for i in rng if consistent(facts, {p: i})}

def check_levels(ctx):
    """SDP: which kind of solution is accepted at which value of allow_numer (0 never, 1 as a last resort, 2 when rounding fails, 3 at once)"""
    f = find(ctx, "select", D + "abstract.SDPProblemBase._solve_from_multiple_configs")
    if f is None: return
    p = P("allow_numer")
    names = ("register_y", "rationalize", "_solve_numerical_sdp", "rationalize_and_decompose")
    ex = runf(ctx, "select", f, merge=False, max_states=6000, want=lambda t: t.op == "call" and cname(t) in names)
    n = 0
    for x in ex or []:
        direct, mean, accepted = [], [], False
        if any(e.kind == "call" and cname(e.term) not in names for e in x.events): pass
        for e in x.events:
            if e.kind != "call": continue
            t = e.term; nm = cname(t)
            if nm == "_solve_numerical_sdp": continue
            y = call_kw(t, "y", 0)
            if y is None: ctx.unres("select", "%s: %s" % (e.loc, str(t)[:80])); return
            own = any(cname(s) == "_solve_numerical_sdp" for s in subterms(y)) and not any(s.op == "attr" and s.a[1] == "_ys" for s in subterms(y))
            numer = nm == "register_y" or call_kw(t, "perturb") is TRUE
            L = levels(e.facts, p)
            if numer:
                accepted = True; n += 1
                want = {3} if own and not direct else {2, 3} if own else {1, 2, 3}
                ctx.decide(L <= want, "select", e.loc, f.qual, "a numerical solution is accepted at allow_numer=%s, where it must not be" % sorted(L - want), "levels:accept", "allow_numer in %s" % sorted(want), path_of(e))
            elif own:
                direct.append(e); n += 1
                ctx.decide(3 not in L, "select", e.loc, f.qual, "allow_numer=3 does not return the first numerical solution at once", "levels:3", "not at level 3", path_of(e))
            else: mean.append(e)
        if accepted or x.kind == "exc": continue
        L = levels(x.facts, p)
        def failed(e): return x.facts.get(T("isnone", e.term)) is True
        def result(e): return x.kind == "return" and e.term in subterms(x.val)
        if mean and failed(mean[-1]) and not result(mean[-1]):
            ctx.decide(1 not in L, "select", x.loc, f.qual, "allow_numer=1 does not fall back to the numerical solution", "levels:1", "level 1 falls back", path_of(x))
        if direct and not result(direct[-1]) and any(p in subterms(k) for k in x.facts) and failed(direct[-1]):
            ctx.decide(2 not in L, "select", x.loc, f.qual, "allow_numer=2 does not accept the numerical solution when rounding fails", "levels:2", "level 2 accepts", path_of(x))
        elif direct and not result(direct[-1]) and any(p in subterms(k) for k in x.facts):
            ctx.decide(2 not in L, "select", x.loc, f.qual, "allow_numer=2 does not accept the numerical solution when rounding fails", "levels:2", "level 2 accepts", path_of(x))
    if not n: ctx.unres("select", "%s: no use of allow_numer recognised" % f.qual)

def check_exact(ctx):
    """LinearSOS: an inexact solution is returned exactly when allow_numer asks for it"""
    f = find(ctx, "select", C_ + "linsos.linsos._LinearSOS")
    if f is None: return
    p = P("allow_numer")
    ex = runf(ctx, "select", f, merge=False, max_states=8000, want=lambda t: t.op == "call" and cname(t) in ("_from_y_basis", "linear_correction"))
    def eq_facts(facts):
        return [(k, w) for k, w in facts.items() if any(cname(s) == "linear_correction" for s in subterms(k)) and k.op in ("item", "sub", "attr")]
    n = 0
    for x in ex or []:
        acc = None
        for e in x.events:
            if e.kind == "call" and cname(e.term) == "_from_y_basis":
                acc = e; n += 1
                q = eq_facts(e.facts)
                if any(w is True for _, w in q): ctx.ok("select", e.loc, "exact"); continue
                if not any(p in subterms(k) for k in e.facts): continue
                L = levels(e.facts, p, range(3))
                ctx.decide(0 not in L, "select", e.loc, f.qual, "an inexact solution is returned although allow_numer is 0", "exact:0", "asked for", path_of(e))
        if acc is None and any(e.kind == "call" and cname(e.term) == "linear_correction" for e in x.events):
            q = eq_facts(x.facts)
            if all(w is False for _, w in q) and any(p in subterms(k) for k in x.facts):
                L = levels(x.facts, p, range(3))
                if 0 not in L: continue
                ctx.decide(not (L - {0}), "select", x.loc, f.qual, "a solution of the linear program is refused although allow_numer=%s" % sorted(L - {0}), "exact:1", "refused at level 0 only", path_of(x))
    if not n: ctx.unres("select", "%s: no solution built" % f.qual)

def check_default_configs(ctx):
    """the default objectives are added for use_default_configs=2, and for 1 exactly when none is given"""
    f = find(ctx, "select", D + "abstract.SDPProblemBase.solve")
    if f is None: return
    p = P("use_default_configs")
    ex = runf(ctx, "select", f, merge=False, max_states=6000, want=lambda t: t.op == "call" and cname(t) in ("_get_defaulted_configs", "_solve_from_multiple_configs"))
    got = False
    for x in ex or []:
        run_ = [e for e in x.events if e.kind == "call" and cname(e.term) == "_solve_from_multiple_configs"]
        if not run_: continue
        dflt = [e for e in x.events if e.kind == "call" and cname(e.term) == "_get_defaulted_configs"]
        facts = dflt[0].facts if dflt else run_[0].facts
        lens = [s for k in facts for s in subterms(k) if s.op == "call" and cname(s) == "len" and any(cname(z) == "align_iters" for z in subterms(s))]
        truth = [k for k in facts if k.op in ("item", "sub", "idx") and any(cname(z) == "align_iters" for z in subterms(k))]
        tests = not any(z.op == "not" for z in ())
        for u in (0, 1, 2):
            if u == 1 and not lens and not truth:
                if not consistent(facts, {p: 1}): continue
                if dflt: ctx.bad("select", dflt[0].loc, f.qual, "default configurations are added although configurations are given (use_default_configs=1)", "defaults:1", path_of(dflt[0]))
                else: ctx.bad("select", run_[0].loc, f.qual, "no default configuration is added for use_default_configs=1 when none is given", "defaults:0", path_of(run_[0])) if any(p in subterms(k) for k in facts) else ctx.unres("select", "%s: use_default_configs" % run_[0].loc)
                continue
            for m in (0, 1, 2):
                env = {p: u}
                for s in lens: env[s] = m
                for s in truth: env[s] = m
                if not consistent(facts, env): continue
                want = u == 2 or u == 1 and m == 0
                got = True
                if want and not dflt: ctx.bad("select", run_[0].loc, f.qual, "default configurations are not added for use_default_configs=%d with %d configurations given" % (u, m), "defaults:missing", path_of(run_[0]))
                elif dflt and not want: ctx.bad("select", dflt[0].loc, f.qual, "default configurations are added for use_default_configs=%d with %d configurations given" % (u, m), "defaults:extra", path_of(dflt[0]))
                else: ctx.ok("select", run_[0].loc, "use_default_configs=%d, %d given" % (u, m))
    if not got: ctx.unres("select", "%s: use_default_configs not recognised" % f.qual)

# (function, receiver, parameter, option): what the receiver gets is derived from the option on every path
DERIVED = [
    (C_ + "linsos.linsos._LinearSOS", "_prepare_tangents", "prepared_tangents", "tangents"),
    (C_ + "linsos.linsos._LinearSOS", "_get_qmodule_list", "ineq_constraints", "tangents"),
    (C_ + "linsos.linsos._LinearSOS", "_prepare_basis", "tangents", "tangents"),
    (C_ + "linsos.linsos._LinearSOS", "_prepare_basis", "eq_constraints", "eq_constraints"),
    (C_ + "linsos.linsos._LinearSOS", "_prepare_basis", "rootsinfo", "rootsinfo"),
    (C_ + "linsos.linsos._LinearSOS", "_prepare_tangents", "rootsinfo", "rootsinfo"),
    (C_ + "sdpsos.sdpsos._SDPSOS", "_get_qmodule_list", "ineq_constraints", "ineq_constraints"),
    (C_ + "sdpsos.sdpsos._SDPSOS", "construct", "qmodule", "ineq_constraints"),
    (C_ + "sdpsos.sdpsos._SDPSOS", "construct", "ideal", "eq_constraints"),
]

def check_derived(ctx):
    by = {}
    for r in DERIVED: by.setdefault(r[0], []).append(r)
    for q, rows in by.items():
        f = find(ctx, "forward", q)
        if f is None: continue
        names = {r[1] for r in rows} | {"findroot"}
        ex = runf(ctx, "forward", f, merge=False, max_states=8000, want=lambda t: t.op == "call" and cname(t) in names)
        for e in events(ex or []):
            if e.kind != "call": continue
            t = e.term
            if cname(t) == "findroot" and "rootsinfo" in f.all_params:
                r = P("rootsinfo")
                isn = [w for k, w in e.facts.items() if k is T("isnone", r)]
                if True in isn: ctx.ok("forward", e.loc, "roots are searched when none are given")
                else: ctx.bad("forward", e.loc, q, "the rootsinfo given by the caller is replaced", "rootsinfo", path_of(e))
            for _, g, par, opt in rows:
                if cname(t) != g: continue
                v = call_kw(t, par)
                if v is None: continue
                p = P(opt)
                s = subterms(e.st.expand(v, 14))
                if p in s or defaulted(p, e.facts): ctx.ok("forward", e.loc, "%s of %s derives from %s" % (par, g, opt))
                elif any(z.op in ("phi", "havoc", "unk", "new") for z in s) and v.op not in ("list", "dict", "c"): ctx.unres("forward", "%s: %s" % (e.loc, par))
                else: ctx.bad("forward", e.loc, q, "%s receives %s that do not come from option '%s'" % (g, par, opt), "derived:%s:%s" % (g, par), [str(v)[:200]] + path_of(e))

def check_config_tables(ctx):
    """entries of the caller's configurations are replaced by copies, never dropped"""
    for q in (C_ + "sum_of_squares.sum_of_squares_multiple", "triples.gui.sos_manager.SOS_Manager.sum_of_squares"):
        f = find(ctx, "select", q)
        if f is None: continue
        ex = runf(ctx, "select", f, merge=False, max_states=8000, want=lambda t: t.op == "call" and cname(t) == "sum_of_squares", want_store=lambda t, v: t.op == "sub")
        p = P("configs")
        def table(t, st):
            if t is p: return True
            if t.op == "call" and cname(t) in COPY: return any(table(a, st) for a in t.a[1]) or t.a[0].op == "attr" and table(t.a[0].a[0], st)
            x = st.expand(t, 14)
            return x.op == "dict" and any(y.op in ("merge", "star", "dstar", "starstar", "ext", "extend") and y.a and unwrap(y.a[0], tuple(COPY)) is p for y in x.a if isinstance(y, T))
        for e in events(ex or []):
            if e.kind != "store" or e.term.op != "sub" or e.val is None: continue
            base, key = e.term.a
            if key is C("verbose") or not table(base, e.st): continue
            v = e.st.expand(e.val, 14)
            if any((s.op == "sub" or cname(s) == "get") and key in subterms(s) for s in subterms(v)) or p in subterms(v): ctx.ok("select", e.loc, "configuration kept"); continue
            absent = any(k.op == "in" and k.a[0] is key and w is False for k, w in e.facts.items()) or any(key in subterms(k) and (k.op == "isnone" and w is True or (cname(k) == "get" or k.op == "sub") and w is False) for k, w in e.facts.items())
            if absent: ctx.ok("select", e.loc, "no configuration given for this method")
            elif v.op in ("dict", "new", "c", "list"): ctx.bad("select", e.loc, f.qual, "the configuration given for a method is thrown away", "config:dropped", [str(e.term)[:100], str(e.val)[:100]] + path_of(e))
            else: ctx.unres("select", "%s: %s" % (e.loc, str(v)[:80]))

def check_entry(ctx):
    """web and gradio front ends: the methods ticked and the configurations sent are those used"""
    for q, meth in (("web_main.sum_of_squares", "web"), ("gradio", "gradio")):
        fs = [g for n, g in ctx.prog.funcs.items() if (n == q or meth == "gradio" and g.module.rel == "gradio.app.py") and not isinstance(g.node, ast.Lambda)]
        for f in fs:
            for n in walk_own(f.node):
                if not (isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "sum_of_squares"): continue
                loc = "%s:%d" % (f.module.rel, n.lineno)
                kw = {k.arg: k.value for k in n.keywords}
                mo = deref(f, kw.get("method_order"))
                if mo is None:
                    if "method_order" in kw or None in kw: ctx.unres("select", "%s: methods" % loc)
                    else: ctx.bad("select", loc, f.qual, "the methods asked for are not handed on", meth + ":methods")
                else:
                    names = {x.id for x in ast.walk(mo) if isinstance(x, ast.Name)} | {x.value for x in ast.walk(mo) if isinstance(x, ast.Constant) and isinstance(x.value, str)} | {x.attr for x in ast.walk(mo) if isinstance(x, ast.Attribute)}
                    if "methods" not in names:
                        if isinstance(mo, (ast.Constant, ast.List, ast.Tuple)): ctx.bad("select", loc, f.qual, "the methods asked for are not handed on", meth + ":methods", [ast.unparse(mo)[:100]])
                        else: ctx.unres("select", "%s: methods %s" % (loc, ast.unparse(mo)[:60]))
                    elif meth == "web" and isinstance(mo, (ast.ListComp, ast.GeneratorExp)) and not any(g.ifs for g in mo.generators): ctx.bad("select", loc, f.qual, "methods that are switched off are used as well", meth + ":off", [ast.unparse(mo)[:100]])
                    else: ctx.ok("select", loc, "methods asked for")
                cf = kw.get("configs")
                if meth == "web" and cf is not None:
                    cf = deref(f, cf) or cf
                    if isinstance(cf, ast.Subscript): ctx.ok("select", loc, "configurations asked for")
                    elif isinstance(cf, ast.Dict) and not any(k is None for k in cf.keys): ctx.bad("select", loc, f.qual, "the configurations asked for are not all handed on", meth + ":configs", [ast.unparse(cf)[:100]])
                    elif isinstance(cf, ast.Constant): ctx.bad("select", loc, f.qual, "the configurations asked for are not handed on", meth + ":configs", [ast.unparse(cf)[:100]])
                    else: ctx.unres("select", "%s: configurations" % loc)
                elif meth == "web" and None not in kw: ctx.bad("select", loc, f.qual, "the configurations asked for are not handed on", meth + ":configs")

def deref(f, e):
    """expression behind a local that is assigned once"""
    for _ in range(4):
        if not isinstance(e, ast.Name): return e
        v = [n.value for n in walk_own(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets)]
        if len(v) != 1: return None
        e = v[0]
    return None

def check_reader(ctx):
    """PolyReader: options for the parser reach it for every polynomial read"""
    c = ctx.prog.classes.get(U + "text_process.PolyReader")
    if c is None: ctx.unres("forward", "PolyReader not found"); return
    init = ctx.prog.lookup_method(c, "__init__")
    kwa = init.node.args.kwarg.arg if init and init.node.args.kwarg else None
    attrs = set()
    for n in ast.walk(init.node) if init else []:
        if isinstance(n, ast.Assign) and kwa and any(isinstance(x, ast.Name) and x.id == kwa for x in ast.walk(n.value)):
            attrs |= {t.attr for t in n.targets if isinstance(t, ast.Attribute)}
    if not attrs: ctx.unres("forward", "PolyReader: options"); return
    seen = False
    for g in ctx.prog.funcs.values():
        if g.cls is not c or isinstance(g.node, ast.Lambda): continue
        for n in walk_own(g.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("preprocess_text", "pl"):
                seen = True
                loc = "%s:%d" % (g.module.rel, n.lineno)
                stars = [k.value for k in n.keywords if k.arg is None]
                full = any(isinstance(x, ast.Attribute) and x.attr in attrs for s in stars for d in [deref(g, s) or s] for x in ast.walk(d))
                if full: ctx.ok("forward", loc, "parser options")
                elif stars: ctx.unres("forward", "%s: parser options" % loc)
                else: ctx.bad("forward", loc, g.qual, "the parser options given to PolyReader are not handed on", "reader", [ast.unparse(n)[:150]])
    if not seen: ctx.unres("forward", "PolyReader: no parsing")
