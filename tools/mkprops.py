#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as a script so the lines stay schema-clean)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

p("P01", "Numerical answers are never presented as exact proofs",
  "Unless the caller opts in to numerical answers, the linear-programming and the semidefinite methods return a certificate only after its coefficients were re-verified in exact arithmetic (nonnegative, and reproducing the polynomial exactly) for the very coefficients and terms that are returned. A certificate that contains any unverified or floating-point value, in whichever part of it, is always marked inexact.",
  ["inputs", "configurations"],
  "every polynomial, every solver output (however inaccurate), every value of the numerical-answer option",
  "The numerical solver's output is arbitrary floating point; the 14 stable tests never call either method, and any finite sample of LP/SDP outputs says nothing about a nearly-correct one.",
  ["triples/core/linsos/linsos.py", "triples/core/linsos/correction.py", "triples/core/linsos/solution.py", "triples/core/sdpsos/sdpsos.py", "triples/core/sdpsos/solution.py", "triples/sdp/abstract.py", "triples/sdp/rationalize.py"],
  [("exact re-verification after rationalisation", "linear_correction, _is_Ax_equal_to_b"), ("return gate", "_LinearSOS: 'if is_equal or allow_numer > 0'"), ("opt-in levels for numerical SDP answers", "SDPProblemBase._solve_from_multiple_configs"), ("inexact marking", "SolutionSDP.from_decompositions / _is_numer_solution")],
  [("is_equal", "certificate claims exact equality", "SolutionSimple._is_equal")],
  ["return value of LinearSOS / SDPSOS / sum_of_squares", "solution.is_equal"])

p("P02", "Only exactly positive-semidefinite matrices are accepted",
  "A semidefinite problem records a solution (after solving, after a manual registration, or when a rationalised vector is accepted) only if every one of its matrices was exactly decomposed with no negative pivot and no nonzero entry in the row of a zero pivot; otherwise it reports failure. A rejected attempt leaves the previously recorded solution untouched, and a perturbation of the matrices is applied only when explicitly requested.",
  ["inputs", "histories"],
  "every symmetric matrix family, every candidate vector, every sequence of successful and failed attempts",
  "No stable test touches the semidefinite layer; indefinite matrices that differ from semidefinite ones only in one late pivot or one key are never sampled.",
  ["triples/sdp/utils.py", "triples/sdp/abstract.py", "triples/sdp/rationalize.py", "triples/core/structsos/utils.py"],
  [("exact congruence", "sdp.utils.congruence"), ("perturbation only on request", "sdp.utils.congruence_with_perturbation"), ("all-keys acceptance loop", "rationalize_and_decompose"), ("check-then-commit registration", "SDPProblemBase.register_y")],
  [("y / S / decompositions", "recorded solution of a problem", "SDPProblemBase")],
  ["SDPProblem.solve / register_y", "SDPProblem.decompositions"])

p("P03", "Structural and symmetric proofs use no sign that was not granted",
  "A certificate produced by the structural or the symmetric method is handed out only if each of its parts is visibly nonnegative from squares, nonnegative constants and the constraints the caller stated. An expression that would need a variable to be nonnegative without a constraint saying so, or that contains a negative constant factor, is reported as 'no solution', and methods that need nonnegative variables are tried only when every variable is constrained to be nonnegative.",
  ["inputs", "configurations"],
  "every polynomial and every set of constraints, including none",
  "Existing tests use a handful of inequalities that are true under the constraints they pass; a proof that silently assumes an extra sign passes all of them.",
  ["triples/core/structsos/solution.py", "triples/core/structsos/structsos.py", "triples/core/structsos/ternary/solver.py", "triples/core/structsos/quarternary/solver.py", "triples/core/symsos/symsos.py", "triples/core/symsos/symmetric.py", "triples/core/symsos/basic.py", "triples/core/symsos/solution.py"],
  [("nonnegativity kernel", "SolutionStructural._extract_nonnegative_exprs"), ("extract, substitute, reject leftovers", "structural_sos_3vars, structural_sos_4vars, SymmetricSOS"), ("monomial shortcut", "_structural_sos"), ("domain gate of the positive method", "SymmetricSOS")],
  None, ["StructuralSOS / SymmetricSOS / sum_of_squares return value"])

p("P04", "Problem preparation and restoration preserve the caller's problem",
  "Before a method runs, an inequality is only rescaled by positive quantities and an equality only by nonzero ones, and its label is adjusted by the same factor. Every placeholder introduced for a constraint and the homogenising variable are removed again, in the right order, on every path on which a certificate is returned, and the certificate reports the caller's own problem and constraints.",
  ["inputs", "configurations"],
  "every polynomial, every constraint list or dictionary, homogeneous or not, with any method",
  "Needs constraints with negative or repeated factors, non-homogeneous input and labelled constraints in combination with each method; the stable tests exercise none of it.",
  ["triples/core/shared.py", "triples/utils/expression/solution.py"],
  [("square-free normalisation", "_std_ineq_constraints, _std_eq_constraints"), ("homogenise / wrap / restore", "sanitize_input"), ("bookkeeping of the original problem", "sanitize_output")],
  None, ["solution.solution, solution.problem, solution.ineq_constraints, solution.eq_constraints"])

p("P05", "Solutions of a reduced SDP reach every problem it was reduced from",
  "Whenever a transformed semidefinite problem is solved, each problem above it in the transformation chain receives a vector, matrices and decompositions that are all derived from that solution through the transformation, and none of the three is left missing or stale. An unsolved reduced problem never writes anything into the problems above it.",
  ["histories", "inputs"],
  "every chain of transformations (masking rows, restricting the column space, removing parameters, switching forms) and every order of solves",
  "The number of transformation chains is unbounded and none is exercised by the stable tests.",
  ["triples/sdp/transform.py", "triples/sdp/abstract.py"],
  [("per-transformation propagation", "SDPTransformation.propagate_to_parent overrides"), ("recursive propagation", "TransformMixin.propagate_to_parent"), ("two-way registration of nodes", "SDPTransformation.__init__")],
  [("y / S / decompositions", "recorded solution of each node", "SDPProblemBase")],
  ["parent problem's y, S, decompositions after child.solve()"])

p("P06", "Numerical SDP backends are interchangeable",
  "Every backend that can be selected by name, or automatically, implements the full calling convention and takes every part of the problem (objective, inequality and equality rows, every matrix) into account. Its answer is used only if it has the expected length, and any failure while it is solving is reported as 'no numerical solution' unless the caller asked for exceptions.",
  ["configurations", "fault_sequences", "inputs"],
  "every registered backend, every problem with or without extra constraints, every error a backend can raise",
  "Only one or two of the backends are installed in any one environment, so the others cannot even be run by tests.",
  ["triples/sdp/backend/backend.py", "triples/sdp/backend/caller.py", "triples/sdp/backend/cvxopt_sdp.py", "triples/sdp/backend/picos_sdp.py", "triples/sdp/backend/cvxpy_sdp.py", "triples/sdp/backend/clarabel_sdp.py", "triples/sdp/backend/mosek_sdp.py", "triples/sdp/backend/sdpap_sdp.py"],
  [("backend tables", "caller._DUAL_BACKENDS, _PRIMAL_BACKENDS, _RECOMMENDED_BACKENDS"), ("length check and exception containment", "solve_numerical_dual_sdp, solve_numerical_primal_sdp")],
  None, ["return value of the numerical SDP entry points"])

p("P07", "Calls never change the caller's data or the shared defaults",
  "No documented entry point modifies a list, dictionary, matrix, polynomial or option table that the caller passed in, nor a default value shared between calls. Consequently repeating a call with the same objects gives the same answer.",
  ["histories", "inputs"],
  "every sequence of calls sharing argument objects or relying on defaults",
  "Tests build fresh arguments for each call and compare only the return value, so aliasing between calls is invisible to them.",
  ["triples/core/sum_of_squares.py", "triples/core/shared.py", "triples/core/linsos/linsos.py", "triples/core/sdpsos/sdpsos.py", "triples/gui/sos_manager.py", "triples/sdp/abstract.py", "triples/utils"],
  [("copy before modify", "sum_of_squares_multiple deep-copies configs; solver option tables are copied"), ("immutable defaults by convention", "module-wide '{}' / '[]' / *_CONFIGS defaults")],
  None, ["the argument objects after the call", "function defaults after the call"])

p("P08", "Cached tables and memoised results are never modified by their users",
  "Monomial tables, memoised bases, memoised representations and other cached objects that the library hands out internally are treated as read-only by all code that receives them. A memoised value depends only on the inputs it is filed under.",
  ["histories"],
  "every sequence of calls in one process",
  "A corrupted cache shows only in a later, unrelated call; tests run few calls per process and never re-check a cached value.",
  ["triples/utils/monomials.py", "triples/core/linsos/basis.py", "triples/core/linsos/tangents.py", "triples/core/symsos/representation.py", "triples/sdp/arithmetic.py"],
  [("monomial table cache", "MonomialManager._monoms, generate_monoms"), ("lru_cache memoisation", "core/linsos/basis.py")],
  [("_monoms", "degree -> (dict, list) of monomials", "MonomialManager")],
  ["results of later calls in the same process"])

p("P09", "Process-wide settings are left as they were found",
  "Rendering a solution, solving a problem or any other operation leaves process-wide settings (the library's own display switches, built-in functions, third-party global options) with the value they had before the call, on normal and on exceptional exits alike. What one caller displays therefore never depends on what another displayed before.",
  ["histories", "fault_sequences"],
  "every interleaving of rendering and solving calls, including calls that raise",
  "The leak shows only in a later call that renders something else; stable tests render nothing twice.",
  ["triples/utils/expression/solution.py", "triples/utils/expression/cyclic.py", "triples/sdp/utils.py", "triples/sdp/backend/cvxopt_sdp.py"],
  [("display switches", "CyclicExpr.PRINT_WITH_PARENS, PRINT_FULL"), ("temporary print hook", "sdp.utils.indented_print")],
  None, ["str/latex output before and after", "builtins, third-party option tables"])

p("P10", "A failed sub-step is reported as 'no solution', not as a crash or a bogus value",
  "Whenever an internal step (a sub-solver, a rationalisation, a numerical solve) answers None because it failed, its caller notices that before it uses the result, collects it or presents it as a solution. Steps that fail by raising or by a failure status (the numerical SDP solver, the linear program, the exact linear solve, the SDP construction, the parse of typed text, one problem of a batch) are turned into the documented failure answer. In particular the interactive front ends answer 'no solution' for a problem that no method can solve.",
  ["inputs", "fault_sequences"],
  "every input on which some sub-step fails, at every place where it can fail",
  "Each sub-step fails only on specific coefficient patterns; the tests mainly use solvable problems.",
  ["triples/core", "triples/gui/sos_manager.py", "triples/sdp", "triples/utils"],
  [("explicit None tests after optional results", "throughout core/, sdp/, gui/")],
  None, ["return value of public solvers; exceptions escaping them"])

p("P11", "Internal stop signals never escape from the solvers",
  "The library's own control-flow exceptions (problem found non-positive, problem unsolvable by this branch, nonnegativity rewriting impossible, basis limit exceeded, rational rounding failed) are always converted into 'no solution' before a public solving function returns. A caller never sees one of them unless it explicitly requested exceptions.",
  ["inputs", "fault_sequences"],
  "every input that triggers one of the signals, through every method and every route into it",
  "The signals are raised for rare coefficient patterns deep inside recursive solvers; tests do not reach most raising sites.",
  ["triples/core/structsos", "triples/core/linsos", "triples/core/symsos", "triples/core/sdpsos", "triples/sdp"],
  [("structural guard", "structural_sos_3vars / 4vars / pivoting try-except"), ("rewriting guard", "_extract_nonnegative_exprs"), ("basis guard", "_LinearSOS"), ("SDP guard", "_SDPSOS")],
  None, ["exceptions escaping StructuralSOS, LinearSOS, SymmetricSOS, SDPSOS, sum_of_squares"])

p("P12", "Every documented option reaches the code that implements it",
  "An option given to a public entry point (solver choice, solver options, verbosity, numerical-answer level, degree and size limits, symmetry, method order, per-method configurations) is passed unchanged to each layer below that implements it, and the size and degree limits are enforced every time the search space grows. No layer silently falls back to its own default.",
  ["configurations", "inputs"],
  "every combination of options through every public entry point",
  "Tests run with defaults, where a dropped option is indistinguishable from a forwarded one.",
  ["triples/core/linsos/linsos.py", "triples/core/sdpsos/sdpsos.py", "triples/core/sum_of_squares.py", "triples/sdp/abstract.py", "triples/sdp/dual.py", "triples/sdp/primal.py", "triples/sdp/backend/caller.py", "triples/gui/sos_manager.py"],
  [("explicit keyword forwarding", "LinearSOS -> _LinearSOS, SDPSOS -> _SDPSOS -> SDPProblem.solve -> backends"), ("limit checks", "_check_basis_limit, lift_degree")],
  None, ["effective option values in the innermost layer"])

p("P13", "Untrusted text is never evaluated as code",
  "Text that comes from the web forms or from the text interface reaches an evaluating parser only after it has passed through the sanitising text pipeline, and the interactive service applies its character restriction before any parsing, and its degree limits before any solving, on every route. Nothing a client sends is ever executed as program text.",
  ["inputs"],
  "every string in every field of every request",
  "Hostile strings are unbounded and no stable test sends a request.",
  ["web_main.py", "gradio.app.py", "triples/gui/sos_manager.py", "triples/utils/text_process.py"],
  [("character restriction and limits", "SOS_Manager.set_poly, DEPLOY_CONFIGS"), ("text pipeline", "preprocess_text")],
  None, ["arguments of sympify / eval / S"])

p("P14", "Each web request is answered exactly once, and only to its sender",
  "For every well-formed request the server sends the final answer of that request exactly once, also when solving or formatting fails. Every message produced on behalf of a client is addressed to that client's session only.",
  ["schedules", "fault_sequences", "inputs"],
  "every request, every failure inside the handlers, every interleaving of clients",
  "No test starts the server; failures during formatting and concurrent sessions are not sampled.",
  ["web_main.py"],
  [("session-addressed emits", "socketio.emit(..., to=sid)"), ("answer on every path", "findroot / sum_of_squares background tasks")],
  None, ["messages delivered to each socket session"])

p("P15", "Batch runs account for every problem",
  "A batch run over several problems yields exactly one record per problem, in order, whatever happens to the individual problems: an unreadable problem is recorded as invalid, a failing one as failed, a crashing one as an error, and an inexact one as inaccurate, never as success. One problem's failure never hides, stops or relabels another.",
  ["inputs", "fault_sequences", "histories"],
  "every list of problems and every pattern of individual failures",
  "Patterns of failures across a batch are unbounded and no stable test runs a batch.",
  ["triples/core/sum_of_squares.py", "triples/utils/text_process.py"],
  [("per-problem containment", "sum_of_squares_multiple loop"), ("reader advancing past unreadable input", "PolyReader.__next__")],
  None, ["the returned table"])

p("P16", "Machine-integer fast paths never overflow",
  "Matrix products over the integers or rationals that switch to fixed-width machine integers for speed do so only when the largest possible intermediate value provably fits, taking every operand and the length of the sums into account; otherwise they use arbitrary precision. The fast and the slow path therefore always agree.",
  ["inputs"],
  "every integer matrix, however large its entries or its dimensions",
  "Overflow needs entries near 2^63 in a specific combination; sampled matrices are small.",
  ["triples/sdp/arithmetic.py"],
  [("magnitude guards", "matmul, matmul_multiple, symmetric_bilinear_multiple: comparison with _INT64_MAX")],
  None, ["results of matrix products"])

p("P17", "Symmetric sums and products count every term of the group",
  "A symmetric sum or product over a permutation group stands for one term per group element, so whenever a constant, a common factor or a degenerate base is pulled out it is multiplied by, or raised to, the number of group elements, not the number of variables. Expanding, simplifying or factoring such an object never changes its value.",
  ["inputs", "programs"],
  "every base expression and every permutation group",
  "For cyclic groups both counts coincide, and the tests use almost only cyclic groups.",
  ["triples/utils/expression/cyclic.py", "triples/utils/monomials.py"],
  [("orbit-size accounting", "CyclicSum / CyclicProduct evaluation, simplification and content extraction")],
  None, ["value of .doit() before and after each rewriting"])

p("P18", "Every advertised method and internal solver can be reached",
  "Every method named in the default order, every cross-module solver lookup and every solver table entry resolves to a callable that accepts the arguments it is called with, and every call between functions of the library fits the callee's parameters. Lookups never silently yield nothing because a solver was not registered, and no registered, tabulated or implemented solver is cut off from the public entry points. A solver for a fixed degree, number of variables or symmetry receives only such problems and reads only coefficients that such problems have. Where several solvers or methods are tried in turn, one that gives no answer does not keep the next from being tried, unless it has shown the problem to be non-positive.",
  ["configurations", "inputs"],
  "every name in every table, every lookup site",
  "Lookups return nothing instead of failing, and the caller treats that as 'cannot solve', so a lost solver is invisible unless that degree is tested.",
  ["triples/core/shared.py", "triples/core/sum_of_squares.py", "triples/core/structsos", "triples/core/symsos/symsos.py", "triples/gui/sos_manager.py"],
  [("method table", "NAME_TO_METHOD, METHOD_ORDER, DEFAULT_CONFIGS"), ("solver registry", "SS._register_solver"), ("per-degree tables", "SOLVERS, SOLVERS_ACYCLIC, SOLVERS_SYMMETRIC, ...")],
  None, ["which solver runs for each degree / method name"])

p("P19", "Helper symbols never collide with the caller's symbols",
  "Every auxiliary variable or placeholder function that the library introduces into an expression involving the caller's symbols is either unique by construction or chosen to differ from all symbols of the problem and of all its constraints and labels. No name a user may choose can change the meaning of a result.",
  ["inputs"],
  "every choice of variable and label names",
  "Collisions need a user to pick exactly the internal name; tests use a, b, c.",
  ["triples/core/shared.py", "triples/core/structsos", "triples/core/symsos", "triples/sdp/dual.py", "triples/utils/expression"],
  [("fresh names", "uniquely_named_symbol calls; sp.Dummy")],
  None, ["free symbols of the returned certificate"])

p("P20", "Transforming a certificate yields a new one and keeps its facts in step",
  "Copying, substituting into, dehomogenising, simplifying, expanding or otherwise rewriting a certificate returns a new certificate and leaves the original, including its tables of constraints, as it was. Dehomogenising sets the same variable to 1 in the problem and in the certificate expression; splitting a certificate into numerator and multiplier, or writing it as an equation, keeps its value. The exactness mark of the result is never stronger than that of the original.",
  ["histories", "inputs"],
  "every sequence of transformations applied to every certificate",
  "Tests check only the expression after a single transformation.",
  ["triples/utils/expression/solution.py"],
  [("copy-on-write transformations", "Solution.copy, xreplace, signsimp, doit, collect, rewrite_symmetry, SolutionSimple.dehomogenize"), ("value-preserving split", "SolutionSimple.as_fraction, as_eq")],
  [("problem / solution / constraints / is_equal", "facts of a certificate", "SolutionSimple")],
  ["the original and the transformed certificate"])

p("P21", "Hard-coded certificate formulas are identities",
  "For every polynomial a structural solver accepts, the expression it builds equals the polynomial identically and each weight it computes is nonnegative.",
  ["inputs"], "every coefficient vector accepted by each of the closed-form solvers",
  "The accepted coefficient sets are continuous; tests sample a few hundred inequalities.",
  ["triples/core/structsos/ternary", "triples/core/structsos/quarternary", "triples/core/structsos/constrained"],
  [("closed-form solvers", "core/structsos/**")], None, ["solution.solution.doit() - problem"])
p("P22", "Root finding and rationalisation are accurate",
  "Numerically located extrema are close to true extrema, and a rationalised value satisfies the bound it was requested for.",
  ["inputs"], "every polynomial and tolerance",
  "Accuracy is a numerical quantity over a continuous input space.",
  ["triples/utils/roots"], [("root finding", "utils/roots/**")], None, ["RootsInfo.roots"])
p("P23", "Text and polynomial notation round-trip",
  "A polynomial written by the formatting functions and read back by the parser is the same polynomial.",
  ["inputs"], "every polynomial and notation option",
  "Round-trip equality over all polynomials.",
  ["triples/utils/text_process.py", "triples/utils/expression/form.py"], [("parser / writer", "preprocess_text, poly_get_standard_form")], None, ["parsed polynomial"])
p("P24", "Solving is deterministic across processes",
  "The same problem gives the same certificate in every process.",
  ["schedules", "inputs"], "every hash seed",
  "Tests run in one process with one hash seed.",
  ["triples"], [("ordering of candidate lists", "linsos/solution.py, utils/roots/findroot.py")], None, ["certificate text"])
p("P25", "Every solver call terminates",
  "Every public solving call returns within a time bounded by its limits.",
  ["inputs"], "every input",
  "Termination over all inputs.",
  ["triples/core"], [("limits", "lift_degree_limit, degree_limit, basis_limit")], None, ["wall-clock time"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P))
