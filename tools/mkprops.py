#!/usr/bin/env python3
"""Writes tools/props.json (rule and assumptions of each check) and MANIFEST.json. Run by hand after editing; both are committed."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FP = "Comparison thresholds are floating-point: differences below the stated multiple of the scalar type's rounding unit are not seen."
P = {}
def p(i, tech, rule, assume=(), note=""):
    P[i] = dict(rule=rule, assumptions=list(assume) + [FP], technique=tech, note=note)
QPA = "Generated problems have up to 40 variables/constraints with entries of order 0.05..100; larger or badly scaled problems are not explored."
p("C01", "property-based testing: generated convex QPs x settings x guesses, KKT-residual oracle recomputed from the mathematical statement",
  "random convex QP (strictly convex / singular / LP; every general and simple bound drawn among two-sided, one-sided, absent, equality; possibly infeasible), random settings and guesses, solved by ADMM/boxADMM dense/sparse; non-trivial = reported SOLVED and the constructed problem has an active or equality constraint", [QPA])
p("C02", "property-based testing: QPs constructed around a known KKT point, error-bound oracle",
  "feasible well-conditioned strictly convex QP built around a known optimal primal-dual pair, random penalty/relaxation/adaptive settings and start; non-trivial = at least one constraint active at the optimum", [QPA, "An adaptive penalty with a short interval may cycle: success is demanded when the penalty is kept for >= 300 iterations, the answer is checked always."])
p("C03", "property-based differential testing: dense vs sparse, pattern variants, reuse vs fresh analysis, KKT triangles, linear solvers, ADMM vs boxADMM",
  "random QP and settings; iterates after k iterations compared between storage / pattern / factorisation variants; non-trivial = the iterates moved and a constraint is active", [QPA])
p("C04", "stateful property-based testing: histories of solves on one object against fresh objects; metamorphic relations over iteration limit and check interval",
  "random sequence of QPs and settings changes on one solver object; non-trivial = at least two solves with different problems, at least one constrained iterate", [QPA])
p("C05", "property-based testing: round-trip and algebraic equivalence of scaled problem, KKT mapping oracle",
  "random QP (with zero / tiny / huge rows and columns), equilibrated; non-trivial = scaling differs from the identity", [QPA])
p("C06", "property-based differential testing: random user programs, exact second-order jets in extended precision",
  "random straight-line cost and constraint functions of the variables and parameters, evaluated at random points; non-trivial = a function is not affine", [])
p("C07", "property-based testing: composition oracle from extended-precision jets, histories of evaluations on one object",
  "random user functions, points, parameters, multipliers and cost scales, in random call histories; non-trivial = non-affine functions and non-zero multipliers", [])
p("C08", "property-based testing: random straight-line programs, independent second-order jets in extended precision with running error bounds",
  "random programs over all operations and functions of the scalar (in-place forms, mixed constants, aliasing, branches, vector algebra); non-trivial = at least one operation", ["Points within 1e-7 of a kink of abs/min/max/floor/branches are discarded."])
OCR = "Problems up to 3 states, 3 controls, 3 parameters, order 7, 3 segments (and one with more than 128 variables); functions are smooth random programs, a share of them with kinks (points within 1e-7 of a kink are discarded)."
p("C09", "property-based testing: random optimal control problems, extended-precision reference transcription from the definition",
  "random dynamics, running/terminal cost and path constraints of states, controls, parameters, static parameters and time, random horizons, call histories on one dense and one sparse object; non-trivial = non-affine functions at a non-zero point", [OCR])
p("C10", "property-based differential testing: random optimal control problems, exact Jacobians from extended-precision jets, call histories",
  "as C09; cost gradients and constraint Jacobians of dense and sparse formulation; non-trivial = non-affine functions at a non-zero point", [OCR])
p("C11", "property-based differential testing: random optimal control problems, exact Hessians from extended-precision jets, call histories",
  "as C09; cost and Lagrangian Hessians, Lagrangian and its gradient, cost scale; non-trivial = non-affine functions at a non-zero point", [OCR])
p("C12", "stateful property-based differential testing: histories of evaluations on one sparse object against fresh dense evaluation and pattern invariants",
  "random sequence of evaluations of all kinds with point, parameter, multiplier and horizon changes on one sparse object, matrices kept or renewed; non-trivial = at least one kind of evaluation repeated at another point", [OCR])
p("C13", "property-based testing: manufactured polynomial solutions, exact integrals, single-value perturbations",
  "random polynomial trajectories of degree up to the order and dynamics they satisfy, random horizon; non-trivial = a trajectory of degree >= 2", [OCR])
p("C14", "property-based testing: random smooth programs, settings and starts; the returned point is judged by closed-form extended-precision first-order conditions",
  "random smooth (convex and non-convex) program with constructed feasible point, random bounds, start, solver variant and settings; non-trivial = reported solved after more than one iteration", [])
p("C15", "property-based testing: strongly convex programs constructed around a known minimiser and multipliers, error-bound oracle",
  "sequence of 1-3 strongly convex programs (random quadratic plus convex nonlinear terms, parameters, linear constraints, bounds; well-conditioned active set) with constructed optimum solved on one object from random starts; non-trivial = some constraint active at an optimum",
  ["Inner tolerance 1e-8 or tighter, condition numbers of order 10 to 100, strict complementarity.", "Runs in which an inner QP was not solved are dropped; runs in which the line search shortened a step below 2e-3 are judged by the minimiser alone (finding stalled_line_search); the default BFGS strategy is judged on problems without active constraints (finding secant_pair), and with a consistent secant pair on all."])
p("C16", "stateful property-based testing: histories of solves and changes on one object, differential against new objects and an inner-solver recorder",
  "random history of 2-7 operations (solve from an explicit start, continue, change parameters, bounds or settings) on one solver object over random smooth programs; every solve is repeated on a new object configured alike and must agree exactly; non-trivial = more than one solve", [])
p("C17", "property-based testing against the textbook update in extended precision; dense/sparse differential",
  "random SPD matrix (dense, or on the stored pattern of a generated sparse optimal control problem) and (step, gradient difference) pairs, including zero steps, negative curvature and threshold cases; non-trivial = the update changes the matrix or a guard is exercised", [])
p("C18", "stateful model-based testing: operation histories against a reference filter model",
  "random history of queries/insertions/removals/clears over clustered cost/violation values; non-trivial = at least one rejected query or displaced pair", [])
p("C19", "property-based testing: random polynomials in long double against nodes, differentiation matrix and weights, all orders",
  "random polynomial coefficients for every order of every basis/quadrature; non-trivial = polynomial of degree >= 1", ["Legendre nodes are computed by monomial root finding; the tolerance grows with the order (documented limitation)."])
p("C20", "property-based testing: projection/evaluation round trip, textbook recurrences, interpolation oracle in long double",
  "random polynomials, intervals and evaluation points (end points, nodes, one ulp outside); non-trivial = degree >= 1", [])
p("C21", "property-based testing against a direct evaluation of the coefficient table; glibcxx/Eigen bounds assertions; autodiff oracle",
  "random coefficient tables, segment lengths and arguments at/near joints and outside; non-trivial = argument at a joint, outside, or table changed", [])
p("C22", "property-based testing: coefficient convolution reference, results under different memory contents",
  "random sparse coefficient vectors; non-trivial = both factors non-constant", [])
p("C23", "stateful model-based testing: histories of setter and getter calls against a model keyed by node in forward time and component",
  "random history of 3-14 setter calls (bounds, initial and final state, guesses, parameters, horizon, settings) with random, partly infinite values; every getter is compared with the model after each call; non-trivial = at least three different operations", [])
p("C24", "property-based testing: random trajectories and horizons against extended-precision Lagrange interpolation in the enclosing segment",
  "sequence of random horizons and state/control trajectories on one controller, queried at nodes, joints, one ulp beside joints, both ends and between nodes; non-trivial = a query between nodes of a trajectory with more than two nodes", ["Query times lie in the horizon; horizons are set through set_time_limits of the controller."])
p("C25", "stateful property-based testing: generated closed loops, independent assembly of the transcription in extended precision, interior-point reference optimum",
  "random linear-quadratic or mildly nonlinear system (affine time dependence, parameters, path constraints), limits placed around a trajectory that satisfies the dynamics, closed loop of 1-4 solves with warm starts, shifted and changed horizons; non-trivial = at least one solve reported success", ["Exactly solved inner problems (1e-8) are required only for the comparison with the optimum."])
p("C26", "stateful property-based testing: histories of operator calls against extended-precision evaluation of random functors",
  "random functors (run-time expression programs), default constructed or passed to the operator, and a history of 1-5 calls with new points and horizons on one (sparse) Jacobian; non-trivial = at least one Jacobian, gradient, Hessian or constraint evaluation", ["The differentiation matrix of Legendre bases is taken from the basis itself (decided by C19).", "Derivatives are those with respect to states and controls; parameter columns are zero."])
p("C27", "property-based testing: Moore-Penrose conditions, Kronecker-form Lyapunov and matrix-sign Riccati references in extended precision",
  "random, sparse, integrator-chain and oscillator systems with up to 6 states and 3 inputs, random positive definite weights with admissible cross weights, matrices of every shape and rank; non-trivial = more than one state (pinv: non-square, rank-deficient or larger than 1)", ["Riccati cases are kept when the reference solution is well conditioned (norm <= 1e3, decay >= 1e-2).", "Singular values handed to pinv are 0 or well above the rounding level of the largest one.", "Systems close to uncontrollable (ratio of the singular values of the shifted Gramian below 1e-3) are left out."])
p("C28", "property-based testing against extended-precision second-order jets",
  "random argument pairs at several distances, plain and seeded arguments, and arguments that are random programs of other variables; non-trivial = distinct arguments with a kernel value above 1e-8", ["Arguments whose scalar type has exactly as many derivatives as the kernel has inputs are seeded with the identity (these overloads return derivatives with respect to the arguments)."])
p("C29", "stateful property-based testing: random callback histories through a stand-in IPOPT API, extended-precision jets as oracle",
  "random program or optimal control problem (dense and sparse), bounds, guesses, parameters and horizons; 1-3 solves, each a random sequence of 1-6 callbacks at random points, arrays of exactly the announced size with canaries; non-trivial = non-affine functions and a Jacobian or Hessian evaluated",
  ["IPOPT itself is not installed: harness/stubs declares the part of its C++ interface that the adapter uses, with the documented calling conventions."])
p("C30", "stateful property-based testing: random histories of solves through a stand-in osqp-eigen that records the problem it is given",
  "random sequence of 1-5 solves on one object with random problems, sparsity patterns, settings, guesses, warm starts and pattern reuse; non-trivial = more than one solve",
  ["OSQP itself is not installed: harness/stubs/OsqpEigen declares the part of osqp-eigen that the adapter uses, with the documented semantics (set-once matrices, references to vectors, copies at set-up).", "Settings changed between warm-started solves are not claimed to take effect (OSQP copies them at set-up)."])
exec(open(os.path.join(V, "tools", "props_more.py")).read()) if os.path.exists(os.path.join(V, "tools", "props_more.py")) else None

ids = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
built = [i for i in ids if glob.glob(os.path.join(V, "harness", i + "_*.cpp")) and i in P]
json.dump({i: {"rule": P[i]["rule"], "assumptions": P[i]["assumptions"]} for i in built}, open(os.path.join(V, "tools", "props.json"), "w"), indent=1)
m = {"version": 1, "setup_cmd": "python3 tools/check.py setup",
     "checks": [{"property": i, "quick_cmd": "python3 tools/check.py %s --tier quick" % i, "thorough_cmd": "python3 tools/check.py %s --tier thorough" % i,
                 "evidence_file": "evidence/%s.json" % i, "technique": P[i]["technique"], "level": "exploration",
                 "level_note": P[i]["note"] or "Generated-input search against an explicit oracle on the real headers compiled from /repo/src: no counterexample among the cases counted in the evidence; it is not a proof."} for i in built],
     "not_applicable": [{"property": i, "reason": NA.get(i, "no check has been built for it yet") if "NA" in globals() else "no check has been built for it yet"} for i in ids if i not in built]}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print("claimed:", *built)
