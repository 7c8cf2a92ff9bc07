#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def p(id, title, statement, over, text, why, files, mech, claimed=True, technique="", note="", na=None):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                claimed=claimed, technique=technique, note=note, na=na)


T = []
T.append(p(
    "C01", "Hypervolume value is the exact measure of the dominated region",
    "For every finite set of objective points and every reference point, in one or more objectives, the reported "
    "hypervolume (and hypervolume improvement) equals the Lebesgue measure of the region dominated by the set and "
    "bounded by the reference point, whatever the row order, ties, repeated, dominated or out-of-reference points. "
    "Evaluating does not modify the inputs and does not depend on earlier evaluations with the same object, and a "
    "maximisation problem has the value of its negated minimisation problem.",
    ["inputs", "histories"],
    "all point sets (sizes, order types, ties, duplicates, points on/beyond the reference), all reference points, all sequences of evaluations",
    "Tests value a handful of fixed fronts in 2-3 objectives; the linked-list sweep branches on order types, ties and bounds that only a complete enumeration of orders and subsets reaches (e.g. tied coordinates in 4 objectives).",
    ["hvd/hypervolume.py", "hvd/hypervolume_derivatives.py"],
    [("dimension-sweep recursion with removal/reinsertion bounds", "hvd/hypervolume.py HyperVolume.hvRecursive/preProcess"),
     ("hypervolume improvement", "hvd/hypervolume_derivatives.py hypervolume_improvement"),
     ("reference negation under maximisation", "hvd/hypervolume_derivatives.py HypervolumeDerivatives.compute/ref")],
    technique="bounded exhaustive enumeration of order types/grids/histories on the real code vs unit-cell counting model",
    note="Decides every point set, order type and call history inside the stated bounds; trusts integer unit-cell counting."))
T.append(p(
    "C02", "Hypervolume gradient is the exact derivative of the hypervolume",
    "Wherever the hypervolume is differentiable, the returned gradient equals its derivative with respect to every "
    "coordinate of every decision point: zero for dominated points and points beyond the reference, and the chain rule "
    "through the objective map otherwise. This holds for every population size and number of objectives, under "
    "minimisation and maximisation, with objective values and Jacobians supplied or computed, by the analytical and the automatic "
    "derivative, from whole or real numbers, for the current reference point also after it was replaced, independent of row order and of earlier requests, and leaves the inputs unmodified.",
    ["inputs", "histories", "configurations"],
    "all order types of N points in m objectives relative to the reference, all request histories, all ways of supplying values",
    "Tests compare a few random or hand-made populations; each order type of the points selects a different branch of the recursive projection code.",
    ["hvd/hypervolume_derivatives.py", "hvd/utils.py", "hvd/hypervolume.py"],
    [("planar formula and recursive projections", "HypervolumeDerivatives.hypervolume_dY/_project"),
     ("dominated/contributing partition", "HypervolumeDerivatives.objective_points"),
     ("automatic derivatives", "HypervolumeDerivatives.compute_automatic_differentiation, ref"),
     ("chain rule", "HypervolumeDerivatives._compute_gradient/_compute_objective_derivatives")],
    technique="exhaustive order-type enumeration on the real code vs exact inclusion-exclusion derivatives",
    note="Exact for every order type within the bounds; kinks (ties of contributing points) are outside the domain."))
T.append(p(
    "C03", "Hypervolume Hessian is the exact, symmetric second derivative",
    "Wherever the hypervolume is twice differentiable, the returned Hessian is symmetric and equals its second "
    "derivative with respect to all pairs of decision coordinates (within one point and across points), including the "
    "curvature of the objective map, with zero rows and columns for dominated points and points beyond the reference. "
    "This holds for every population size and number of objectives, under minimisation and maximisation, with objective "
    "values and Jacobians supplied or computed, by the analytical and the automatic derivative, from whole or real numbers, for the current reference point also "
    "after it was replaced, and independent of row order and earlier requests.",
    ["inputs", "histories", "configurations"],
    "all order types of N points in m objectives relative to the reference, all request histories, all ways of supplying values",
    "Tests compare a few populations with automatic differentiation; cross-point blocks depend on which projected neighbours are nondominated, which differs per order type.",
    ["hvd/hypervolume_derivatives.py", "hvd/utils.py"],
    [("own-point and cross-point blocks", "HypervolumeDerivatives._compute_hessian"),
     ("projection", "HypervolumeDerivatives._project"),
     ("chain rule with objective Hessians", "HypervolumeDerivatives._compute_hessian/_compute_objective_derivatives")],
    technique="exhaustive order-type enumeration on the real code vs exact inclusion-exclusion second derivatives",
    note="Exact for every order type within the bounds; kinks are outside the domain."))
T.append(p(
    "C04", "Non-dominated sorting equals iterated removal of nondominated points",
    "For every population with two or more objectives, the k-th front returned by non-dominated sorting is exactly the "
    "set of points nondominated once the earlier fronts are removed, fronts are numbered consecutively from zero, and "
    "every row (equal rows share a front) occurs in exactly one front, whether indices or decisions are requested and "
    "whether objectives are the decisions themselves or a mapping of them. The nondominated-subset filter returns "
    "exactly the rows of the first front, in input order, and inputs are never modified.",
    ["inputs"],
    "all populations (ties, duplicates, chains, antichains), 2 to 5 objectives",
    "There is no direct test of the divide-and-conquer sort; its sweep and split branches depend on order types and ties with many points.",
    ["hvd/utils.py"],
    [("divide and conquer with two-objective sweeps", "hvd/utils.py non_domin_sort, _nd_helper_a/_nd_helper_b/_sweep_a/_sweep_b"),
     ("naive filter", "hvd/utils.py get_non_dominated")],
    technique="exhaustive enumeration of subsets, multisets and order types on the real code vs naive peeling",
    note="Complete within the stated grids and order types; larger sizes only through structured families."))

T.append(p(
    "C05", "Cached quantities of an optimisation state always match its points",
    "After any sequence of population updates, single-point updates, subsetting, copying and saving/loading, every "
    "quantity an optimisation state reports (points, multipliers, objectives, Jacobian, Hessian, constraint values, "
    "their Jacobians and Hessians, the stacked versions) equals a fresh evaluation at its current points. A subset "
    "holds exactly the selected rows of every quantity, and derived states and the arrays handed in never influence "
    "each other; derivatives are reported as absent when they were not evaluated.",
    ["histories", "configurations"],
    "all operation sequences up to a depth, all constraint/callback configurations, populations of 1-3 points",
    "Tests build one state per configuration and never interleave partial updates, subsetting and reloading.",
    ["hvd/base.py"],
    [("cached evaluation and partial update", "hvd/base.py State.update/update_one/evaluate_cstr"),
     ("subsetting", "hvd/base.py State.__getitem__"), ("persistence", "hvd/base.py State.save/load")],
    technique="explicit-state exploration of operation sequences on the real State class vs an abstract row model",
    note="All sequences to the stated depth; deterministic callbacks."))
T.append(p(
    "C06", "Feasibility, active set and approximate KKT test are correct",
    "A point is reported feasible exactly when every equality constraint vanishes and every inequality constraint is "
    "nonpositive up to the stated tolerances, and the active set is all equalities plus exactly the inequalities at or "
    "beyond their bound. A point passes the approximate first-order test exactly when it is feasible and some convex "
    "combination of objective gradients is balanced by active-constraint gradients (nonnegative for inequalities, free "
    "for equalities), whatever the number of objectives and constraints.",
    ["inputs"],
    "all constraint value vectors around the thresholds; all integer gradient configurations up to the stated sizes",
    "Tests check a few points of one or two problems; the least-squares sign logic depends on the gradient configuration.",
    ["hvd/base.py"],
    [("feasibility and active mask", "hvd/base.py State.check_feasibility/is_feasible/evaluate_cstr"),
     ("nonnegative least squares test", "hvd/base.py State.check_KKT")],
    technique="exhaustive enumeration of value and gradient configurations on the real code vs exact rational decision",
    note="Exact rational Caratheodory decision per configuration; values within 1e-7 of thresholds not probed."))
T.append(p(
    "C07", "Backtracking line search takes the first halving that decreases",
    "The backtracking line search tries the step bound and then halves it (at most six trials), evaluates nothing else, "
    "and returns the first tried step at which the residual norm decreases sufficiently (a residual already at machine "
    "precision takes the full bound). When no trial decreases it sufficiently, also when the merit is not finite, it "
    "returns a positive step no larger than the smallest one tried.",
    ["inputs", "histories"],
    "all answer sequences of the merit function, all step bounds, residual shapes and scales",
    "No test exercises failed trials or non-finite residuals.",
    ["hvd/line_search.py"],
    [("halving loop", "hvd/line_search.py backtracking_line_search")],
    technique="exhaustive exploration of the environment's answer tree on the real line search",
    note="The complete tree of merit answers over the palette for all attempts."))
T.append(p(
    "C08", "A hypervolume Newton iteration is the constrained Newton step",
    "From any population, one iteration of the hypervolume Newton method partitions the points into nondominated layers "
    "(feasible points) and infeasible points, moves every group by the Newton step of its own hypervolume (and its "
    "active constraints) scaled by a step size that does not increase the residual unless the trials run out, and keeps "
    "every point inside the box. Points and multipliers of inactive inequalities are treated as inactive, the reported "
    "population, iteration count and histories always describe the current points, and the run stops exactly on its "
    "criteria.",
    ["inputs", "histories", "configurations"],
    "all ordered populations from palettes of decision points, all constraint configurations, several iterations each",
    "Tests run to convergence from a few starts on 1-2 problems and only look at the final gap.",
    ["hvd/newton.py", "hvd/line_search.py", "hvd/utils.py", "hvd/base.py"],
    [("partition, Newton system, update", "hvd/newton.py HVN.iterate/_compute_netwon_step/_compute_R"),
     ("step bound and box", "hvd/newton.py HVN._handle_box_constraint/_compute_max_step_size"), ("line search", "hvd/line_search.py backtracking_line_search; HVN._get_phi_func")],
    technique="bounded exhaustive exploration of optimiser transitions, each conformance-checked against a dense model",
    note="Every transition in the bounds is replayed on the real optimiser; ties, ill-conditioned systems and borderline line searches are excluded and counted."))
T.append(p(
    "C09", "A Delta_p Newton iteration is the matched, box-safe Newton step",
    "From any population, one iteration of the averaged-Hausdorff Newton method matches reference and approximation "
    "points, shifts the targets along the given or default direction as documented, moves every point by the Newton "
    "step of the chosen indicator and its active constraints, and never lets a point leave the box. The reported "
    "population, indicator values, iteration count and histories always describe the current points, for one or several "
    "reference components, with or without constraints and preconditioning.",
    ["inputs", "histories", "configurations"],
    "all ordered populations from palettes incl. every kind of box face and corner, all indicator types, constraint sets and reference configurations",
    "Tests run to convergence from a few starts; box projection, shifting and matching interact per population.",
    ["hvd/newton.py", "hvd/reference_set.py", "hvd/delta_p.py", "hvd/utils.py"],
    [("step, projection and line search", "hvd/newton.py DpN._compute_netwon_step/_handle_box_constraint/_backtracking_line_search"),
     ("target shifting", "hvd/newton.py DpN._shift_reference_set"), ("matching", "hvd/reference_set.py ReferenceSet.match")],
    technique="bounded exhaustive exploration of optimiser transitions, each conformance-checked against a dense model",
    note="Every transition in the bounds is replayed on the real optimiser; borderline decisions are excluded and counted."))
T.append(p(
    "C10", "MMD value, gradient and Hessian are exact",
    "For every approximation and reference set, kernel, length scale and trade-off, the maximum mean discrepancy (plain "
    "and with matched targets) equals its closed form, and its gradient and Hessian are the exact derivatives with "
    "respect to the decision points, through the objective map. Points may be whole or real numbers, objective values and Jacobians may be supplied or "
    "computed, repeated requests on one object are independent and refer to its current reference set and trade-off weight also after these "
    "were replaced, and inputs are not modified.",
    ["inputs", "histories", "configurations"],
    "all multisets of points from grids, three kernels, length scales, trade-offs, ways of supplying values and request histories",
    "Tests compare one random set per kernel with automatic differentiation.",
    ["hvd/mmd.py", "hvd/reference_set.py"],
    [("current weight inside compiled derivatives", "hvd/mmd.py MMDMatching._build_kernel_gradient/_build_kernel_hessian"), ("value", "hvd/mmd.py MMD.compute/MMDMatching.compute"), ("derivatives", "hvd/mmd.py compute_derivatives/compute_gradient/compute_hessian"),
     ("kernels", "hvd/mmd.py rbf/laplace/rational_quadratic")],
    technique="exhaustive enumeration of point multisets and request histories on the real code vs closed forms",
    note="Closed-form oracle; Laplace kinks excluded from derivatives."))
T.append(p(
    "C11", "Generational distances and their derivatives are exact",
    "For every approximation and reference set and exponent, the generational and inverted generational distance equal "
    "the p-mean of nearest-neighbour distances, and their gradients and Hessians are the exact derivatives wherever the "
    "nearest neighbours are unique, through the objective map; with matching, the derivatives are those of the squared "
    "distances to the matched targets. Values and Jacobians may be supplied or computed, requests on one object are "
    "independent (also after the reference set changed) and inputs are not modified.",
    ["inputs", "histories", "configurations"],
    "all multisets of points from grids with ties and zero distances, five exponents, ways of supplying values, request histories",
    "Tests compare one or two random sets for exponent 2.",
    ["hvd/delta_p.py", "hvd/reference_set.py"],
    [("values", "hvd/delta_p.py compute"), ("derivatives", "hvd/delta_p.py compute_derivatives/_compute_indices")],
    technique="exhaustive enumeration of point multisets and request histories on the real code vs closed forms",
    note="Closed-form oracle; non-unique neighbours excluded from derivatives."))
T.append(p(
    "C12", "Reference sets stay optimally matched to the approximation set",
    "After any sequence of matching, shifting, freezing and unfreezing, the targets of a reference set are in the order "
    "of the approximation points, every target is a distinct representative of the component assigned to the point's "
    "cluster (moved by the shifts applied to it), and the assignment of points to targets and of components to clusters "
    "has least total distance. A frozen set keeps its targets, a shift moves exactly the requested targets along the "
    "direction of their component (whatever the numeric type of the given points), and neither the given reference set nor the population is modified.",
    ["histories", "inputs", "configurations"],
    "all operation sequences up to a depth for all component/partition/direction configurations; all small grid matchings",
    "Tests match one or two sets once; shifting, re-matching and component permutation interact over histories.",
    ["hvd/reference_set.py"],
    [("partition and component matching", "hvd/reference_set.py ReferenceSet._partition_Y/_match_components"),
     ("point matching", "hvd/reference_set.py ReferenceSet.match/_match/_cluster"), ("shift", "hvd/reference_set.py shift")],
    technique="explicit-state exploration of operation sequences on the real class vs an independent optimal-assignment model",
    note="All sequences to the stated depth; ties of the optimum excluded."))

T.append(p(
    "C13", "Benchmark problems evaluate their published functions and derivatives",
    "Every benchmark problem (ZDT, DTLZ, IDTLZ, CDTLZ/DC-DTLZ, Eq-DTLZ, CF, UF, WFG, CONV and the other built-in ones) "
    "returns, at every decision point inside its box and for every supported dimension and number of objectives, the "
    "objective and constraint values of its published definition. Its Jacobians and Hessians are the derivatives of "
    "those values wherever they are differentiable, whether asked for one point or a batch, whatever was evaluated before.",
    ["inputs", "configurations"],
    "all problems of the library, dimensions and objective counts up to a bound, complete grids of decision points including box corners and region boundaries",
    "Tests evaluate a few problems at one or two points; an index slip (odd/even sums, last variable, one branch of a piecewise constraint) shows only for specific dimensions and points.",
    ["hvd/problems/base.py", "hvd/problems/cf.py", "hvd/problems/dtlz.py", "hvd/problems/eqdtlz.py", "hvd/problems/misc.py",
     "hvd/problems/uf.py", "hvd/problems/wfg.py", "hvd/problems/zdt.py"],
    [("objective functions", "hvd/problems/*.py _objective"), ("constraints", "hvd/problems/*.py _eq_constraint/_ieq_constraint"),
     ("automatic differentiation wrappers", "hvd/problems/base.py MOP/CMOP")],
    technique="exhaustive enumeration of problem configurations and decision grids on the real code vs independent second-order-jet formulas",
    note="Reference formulas transcribed from the publications; points of non-differentiability excluded from derivatives."))

T.append(p(
    "C14", "Reported Pareto fronts and sets are the optimal ones",
    "Every point of the Pareto front a benchmark problem reports is attained by a feasible decision inside its box, is not "
    "dominated by another reported point or by any feasible decision, and the points cover the whole front in the requested "
    "number. Every decision of a reported Pareto set lies in the box, is feasible, and its image lies on that front.",
    ["inputs", "configurations"],
    "all problems, dimensions, objective counts and requested numbers of points up to a bound, all returned points, all decisions of a complete grid",
    "No test looks at the values of the fronts; they are the reference sets every optimizer and metric run is judged with.",
    ["hvd/problems/cf.py", "hvd/problems/dtlz.py", "hvd/problems/eqdtlz.py", "hvd/problems/misc.py", "hvd/problems/uf.py",
     "hvd/problems/wfg.py", "hvd/problems/zdt.py", "hvd/problems/utils.py"],
    [("fronts and sets", "hvd/problems/*.py get_pareto_front/get_pareto_set"), ("simplex and sphere directions", "hvd/problems/utils.py get_ref_dirs/generic_sphere"),
     ("optimal WFG positions", "hvd/problems/wfg.py _optimal_positions")],
    technique="exhaustive enumeration of returned points and decision grids, inverted to optimal decisions and re-evaluated on the real code and on independent formulas",
    note="All returned points for every configuration in the bounds; completeness up to the stated resolution."))

T.append(p(
    "C15", "Problem objects keep their interface contract",
    "For every problem (built-in, user-defined or adapted from pymoo) evaluating a batch gives row by row the results of evaluating "
    "its points, with the documented shapes; box constraints are appended after the native ones as xl-x then x-xu, and bounds and "
    "counts belong to the instance. Adapting a problem to or from pymoo preserves dimensions, bounds, objectives, constraints and "
    "derivatives and leaves pymoo's backend as it was, whatever was imported before; invalid dimensions, bounds or parameters are "
    "rejected and fixed dimensions are kept with a warning.",
    ["inputs", "configurations", "histories"],
    "all problems and all small custom problems x switches x batches; all invalid arguments of a list; all sequences of factory calls, imports and backend switches up to a depth",
    "Tests try one problem per feature; the factory depends on the import history of the process.",
    ["hvd/problems/base.py", "hvd/problems/_pymoo_factory.py", "hvd/problems/_pymoo_wrapper.py", "hvd/problems/misc.py", "hvd/problems/utils.py"],
    [("batch and point wrappers, box constraints, validation", "hvd/problems/base.py MOP/CMOP"),
     ("factory with temporary backend", "hvd/problems/_pymoo_factory.py get_pymoo_problem"), ("adapters", "hvd/problems/_pymoo_wrapper.py")],
    technique="exhaustive enumeration of configurations and explicit-state exploration of factory/import/backend histories on the real code",
    note="Custom problems are polynomials with closed-form derivatives; histories to the stated depth."))

T.append(p(
    "C20", "An MMD Newton iteration is the joint, matched Newton step",
    "From any population, one iteration of the maximum-mean-discrepancy Newton method matches targets and points (or uses all targets when "
    "matching is off), shifts the targets only at the first iteration or for settled points, and moves all points and multipliers by the "
    "joint Newton step of the indicator and the active constraints, scaled by one step size that does not increase the residual unless "
    "the trials run out. The reported population, indicator values, iteration count and histories always describe the current points, "
    "and the reference set and population handed in are not modified.",
    ["inputs", "configurations", "histories"],
    "all ordered populations of a palette x kernels x matching x constraints x preconditioning x reference sets, several iterations, all budgets",
    "Tests run a few fixed problems to convergence; a wrong multiplier, shift or skipped line search changes only some iterations and still converges.",
    ["hvd/mmd_newton.py", "hvd/mmd.py", "hvd/reference_set.py", "hvd/base.py"],
    [("KKT system and step", "hvd/mmd_newton.py _compute_R/_compute_netwon_step"), ("target shift", "hvd/mmd_newton.py _shift_reference_set"),
     ("line search", "hvd/mmd_newton.py _backtracking_line_search_global")],
    technique="explicit-state exploration of optimiser iterations (transitions of the real object) vs dense KKT/matching/line-search model",
    note="Every population of the palettes under every configuration; ties, near-singular systems are skipped."))

T.append(p(
    "C16", "Evolutionary selection and replacement follow their stated rules",
    "SMS-EMOA keeps the requested number of individuals: feasible before infeasible (the less violated first), complete better "
    "nondominated layers before worse ones, and in the layer that must be cut the individual with the least current hypervolume contribution "
    "is dropped repeatedly, for two and more objectives; its tournament prefers less violation, then domination. The "
    "constraint-aware MOEA/D advances one generation per call, keeps the ideal point of everything evaluated and replaces exactly those neighbours "
    "that the offspring improves in violation beyond the (linearly vanishing) relaxation or, without such violation, in the decomposed "
    "objective; the hypervolume tracker's value and contributions are those of its current points after any additions and deletions.",
    ["inputs", "histories", "configurations"],
    "all small populations with violations and all numbers of survivors; all pairs; all neighbourhood states; complete runs generation by generation",
    "There are no tests of these operators; contribution updates, layer cuts and relaxation levels only differ for particular populations.",
    ["hvd/moea/sms_emoa.py", "hvd/moea/moead.py", "hvd/exact.py"],
    [("hypervolume tracker", "hvd/exact.py DynamicHypervolume"), ("survival", "hvd/moea/sms_emoa.py LeastHypervolumeContributionSurvival"), ("tournament", "hvd/moea/sms_emoa.py cv_and_dom_tournament"),
     ("replacement and relaxation", "hvd/moea/moead.py ConstraintAwareMOEAD._replace/_cv_eps/next")],
    technique="exhaustive enumeration of selection/replacement transitions on the real operators vs exact model; monitored complete runs",
    note="Populations up to 5 (2 objectives) / 4 (3-4 objectives); Monte-Carlo choices decided only beyond ten standard deviations."))

T.append(p(
    "C17", "Reference filling and bootstrapping rebuild the reference set as specified",
    "RSG on two-objective points drops isolated points, and puts on every connected component its share (rounded half away from zero, "
    "by length) of the requested number of points, evenly spaced by arc length on the polyline through the component ordered by the first "
    "objective, both ends included, whatever the order of the rows. bootstrap_reference_set advances the optimiser exactly its budget; before every "
    "iteration whose index is a positive multiple of the interval it replaces the reference set of the optimiser and of its indicator by the (optionally filled) "
    "population relaxed by 5% towards its mean objective and moved by 0.05 along its normal (which later shifts follow), and discounts the spread weight by 0.8. It writes exactly the files asked for, with every iterate and every bootstrapped set, and returns as many "
    "corresponding pairs of points and values as requested, medoids of the non-dominated inliers among the populations recorded before the last "
    "iterations, together with the reference set in force and the list of the bootstrapped sets.",
    ["inputs", "histories", "configurations"],
    "all point sets on a lattice x radii x sizes; all histories of populations x intervals x modes; real runs against a twin",
    "There are no tests of these modules; shares that round to zero, budgets shorter than the interval and row orders are particular inputs.",
    ["hvd/rsg.py", "hvd/bootstrap.py"],
    [("component detection, shares and interpolation", "hvd/rsg.py ComponentDetection/RSG/interpolate_tst"),
     ("bootstrap loop and final selection", "hvd/bootstrap.py bootstrap_reference_set/filter_outliers")],
    technique="exhaustive enumeration of lattice point sets and of scripted population histories on the real code vs independent model",
    note="Points of a component with tied first objective and undecided roundings are skipped; library outlier factor and k-medoids are trusted, medoid optimality is checked."))

T.append(p(
    "C18", "Numerical helpers keep their contracts for every input",
    "precondition_hessian returns, for every symmetric matrix, the matrix plus a non-negative multiple of the identity that is positive definite, is zero for a "
    "positive definite matrix and is at most about twice the smallest sufficient one. handle_box_constraint reflects every coordinate with two finite bounds into its "
    "interval, leaves the others and interior points alone and does not change its arguments; set_bounds expands every accepted form to one bound per variable and refuses wrong lengths; "
    "compute_chim returns the unit vector of non-positive entries whose magnitudes are those of the normal of the plane through the extreme points. "
    "Packing primal-dual tables into a vector and back preserves primal and active entries and zeroes inactive ones.",
    ["inputs"],
    "all symmetric lattice matrices over seven magnitudes; all positions relative to all boxes; all forms of bounds; all lattice sets; all activity masks",
    "The helpers have no tests of their own; indefinite, singular or badly scaled matrices and reflections over several widths only occur in particular iterations.",
    ["hvd/utils.py", "hvd/mmd_newton.py"],
    [("shifted Cholesky", "hvd/utils.py precondition_hessian"), ("reflection", "hvd/utils.py handle_box_constraint"),
     ("packing", "hvd/utils.py matrix_to_Nd_vector/Nd_vector_to_matrix")],
    technique="exhaustive enumeration of lattice inputs on the real functions vs eigenvalue/closed-form oracles",
    note="Orders up to 4; most negative eigenvalue above -1e7 (limit of the doublings)."))

T.append(p(
    "C19", "A steepest-descent (Lara) iteration is the bounded descent step it claims",
    "Each iteration removes points that coincide with an earlier one and moves all others by the negative sum of their normalised objective gradients (a vanishing "
    "gradient contributes nothing), with components that would leave the box at a bound set to zero and one common step size, at most one and as large as the box "
    "allows for every point. All points stay finite and inside the box, values and Jacobians belong to the current points, every history holds one entry per "
    "iteration, and exactly the budget of iterations is made.",
    ["inputs", "histories", "configurations"],
    "all ordered populations (with repetition) of a palette x objectives x boxes, several iterations; all budgets",
    "There are no tests of this optimiser; minimisers of single objectives, bounds and coinciding points are particular states.",
    ["hvd/gradient_based.py", "hvd/base.py"],
    [("descent direction", "hvd/gradient_based.py Lara._compute_step"), ("box handling", "hvd/gradient_based.py Lara._handle_box_constraint"),
     ("removal of coinciding points", "hvd/gradient_based.py Lara._check_points_uniqueness")],
    technique="explicit-state exploration of optimiser iterations (transitions of the real object) vs closed-form step model",
    note="Up to 3 points; comparisons within 1e-6 of a threshold are skipped."))

T.append(p(
    "C21", "Optimisers are isolated from each other, deterministic and resumable",
    "The trajectory, targets, histories and metrics of an optimiser (HVN, DpN, MMDNewton, Lara) depend only on its inputs: they are the same alone, interleaved in any way with "
    "another optimiser (also in another thread, and with shared input arrays, bounds, directions and metric objects, which are never modified), after an exception in the user's functions of "
    "another optimiser, and for any state of the random generator when initial points are given. Exceptions of the user's functions reach the caller; run() with a budget equals that many single "
    "iterations, a smaller budget gives a prefix, and raising the budget resumes the uninterrupted run. An optimiser that is not verbose prints nothing to standard output, whatever others do, and the user's functions and problem objects themselves are called, never copies of them.",
    ["schedules", "histories", "fault_sequences", "configurations"],
    "all interleavings of two optimisers' constructions and iterations, all schedules with at most two preemptions at calls of the user's functions, all fault positions, all budgets, all verbosity histories",
    "Tests run one optimiser at a time to its end; shared module or class state shows only in particular interleavings or after particular faults.",
    ["hvd/newton.py", "hvd/mmd_newton.py", "hvd/gradient_based.py", "hvd/base.py", "hvd/utils.py", "hvd/reference_set.py", "hvd/delta_p.py"],
    [("optimiser state", "hvd/base.py State"), ("iteration and bookkeeping", "hvd/newton.py, hvd/mmd_newton.py, hvd/gradient_based.py"),
     ("logger shared per class", "hvd/utils.py get_logger")],
    technique="stateless exploration of interleavings/schedules (preemption bound 2, controlled scheduler) and fault positions on the real optimisers",
    note="Two optimisers, 2-3 iterations each; preemption points are the calls of the user's functions."))

T.append(p(
    "C22", "Double precision and importability for every order of imports",
    "Every module of the package can be the first one that is imported, and afterwards all derivatives (problem Jacobians and Hessians, indicator derivatives) are computed in double precision, "
    "whether jax was imported or used before, whatever the environment variable for its precision says, and for every order of importing two modules.",
    ["histories", "configurations"],
    "all modules as first import x all preludes (and all ordered pairs of modules), each in a fresh interpreter",
    "Tests share one interpreter whose first import fixes the configuration; one subprocess test covers one order.",
    ["hvd/__init__.py", "hvd/problems/__init__.py", "hvd/mmd.py"],
    [("precision switch", "hvd/__init__.py"), ("import graph", "hvd/*.py")],
    technique="exhaustive enumeration of import histories in fresh interpreters with precision probes on the real code",
    note="Preludes: nothing, jax imported/used, environment variable disabling; all ordered module pairs in the thorough tier."))

T.append(p(
    "C24", "Stored runs are loaded as a consistent, row-aligned start",
    "Loading a stored run (read_reference_set_data) returns exactly the individuals of the requested algorithm, run and generation that are not outliers (labels of "
    "one and more), in stored order, with decisions, objectives and cluster membership row-aligned, clusters in the order of their labels and partitioning the individuals. The reference components are the stored ones (3000 distinct random "
    "members of larger ones); they are merged into one, without shift direction, with a single cluster and at most as many individuals (the first) as reference points, exactly if there are more clusters than "
    "components or a cluster is larger than the smallest component. A missing shift direction is that of the preceding component, and none are given if the first is missing or any is undefined.",
    ["inputs", "configurations"],
    "all label sequences up to 3-4 individuals x all numbers/sizes of components x all patterns of missing or undefined directions",
    "There are no tests of the loader, and its merging, truncation and fallback branches depend on combinations of labels, sizes and missing files.",
    ["scripts/utils.py"], [("loader", "scripts/utils.py read_reference_set_data")],
    technique="exhaustive enumeration of small stored runs (scratch files, decoys) loaded by the real code vs a literal reading of the rules",
    note="Runs of up to 4 individuals and 3 components; components around 3000 points for the random subset."))
T.append(p(
    "C25", "Reported evaluation counts equal the evaluations made",
    "The numbers of evaluations that the state of an optimiser (HVN, DpN, MMDNewton, Lara) reports - of the Jacobian of the objectives, and of the Jacobians and Hessians of the "
    "constraints - equal the numbers of decision points at which the user's functions of that kind were evaluated since the construction, at every moment of a run and for every way of giving "
    "the functions (per point or with batch variants, line searches and trial states included). Slices and copies of a state continue its counts, and operations that need no derivative evaluate and count none.",
    ["histories", "inputs", "configurations"],
    "all ordered populations of a palette x optimisers x constraint sets x callback styles, all sequences of state operations up to a depth",
    "Comparisons of optimisers report results per evaluation; tests assert one total of one run at most, while counting is spread over caches, single-point updates, trial states and batch paths.",
    ["hvd/base.py", "hvd/newton.py", "hvd/mmd_newton.py", "hvd/gradient_based.py"],
    [("counters", "hvd/base.py State evaluate_jac/evaluate_cstr/_count, add_evaluations, __getitem__"),
     ("trial states of the line searches", "hvd/newton.py HVN/DpN line searches, hvd/mmd_newton.py MMDNewton line search")],
    technique="exhaustive enumeration of populations, configurations and state-operation histories on the real code with counting callbacks",
    note="Populations of 1-3 points (thorough 4), 2-3 objectives, 3-4 iterations; histories of 3-4 operations."))
T.append(p(
    "C26", "Optimisers start from the given population, or one drawn in the box",
    "The initial state of every optimiser (HVN, DpN, MMDNewton, Lara) holds the given points projected on the box, in their order and as many as given, as an own copy that the caller's array neither "
    "loses nor later affects; without given points it holds the requested number of points (5 by default) that lie in the box, differ, use the whole range of every variable and depend on the state "
    "of the global random generator only. Values, Jacobians and constraints of the initial state are those of its points, multipliers start at zero (HVN: 1/N), and all forms of "
    "bounds (scalars, lists, arrays, whole numbers) mean the same; a box with infinite sides is accepted for given points and rejected if points have to be drawn.",
    ["inputs", "configurations"],
    "all lattice populations relative to the box x boxes x forms of bounds x constraint sets x optimisers; a family of generator states for drawn ones",
    "Tests start from points inside the box with array bounds; clipping, scaling per variable, aliasing and defaults are only visible for other combinations.",
    ["hvd/newton.py", "hvd/mmd_newton.py", "hvd/gradient_based.py", "hvd/base.py", "hvd/utils.py"],
    [("initialisation", "hvd/newton.py HVN/DpN._initialize, hvd/mmd_newton.py MMDNewton._initialize, hvd/gradient_based.py Lara._initialize"),
     ("bounds", "hvd/utils.py set_bounds")],
    technique="exhaustive enumeration of starting populations, boxes and argument forms on the real constructors vs a literal model",
    note="1-4 variables, 1-3 points; drawn populations for 40 generator states."))
T.append(p(
    "C23", "Iterations converge quadratically near regular solutions",
    "Near a regular critical point the Newton iterations of HVN, DpN and MMDNewton converge quadratically, so few iterations suffice for the residual to vanish.",
    ["inputs"], "all problems and starting points in the region of attraction",
    "A test can observe the decrease of the residual for a few problems only.",
    ["hvd/newton.py", "hvd/mmd_newton.py"], [("Newton step", "hvd/newton.py")], claimed=False,
    na="A statement about the limit of infinite runs on a continuum of problems: no finite set of executions decides it; each single step is decided exactly under C08, C09 and C20."))

LEVEL = "model_checking"


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for t in T:
            assert len(t["title"]) <= 80, t["id"]
            assert t["statement"].count(". ") <= 2, t["id"]
            f.write(json.dumps(dict(
                id=t["id"], title=t["title"], statement=t["statement"],
                quantifier=dict(over=t["over"], text=t["text"]), why_tests_cant=t["why"],
                anchors=dict(files=t["files"], mechanism=[dict(name=a, where=b) for a, b in t["mech"]]))) + "\n")
    checks = []
    for t in T:
        if not t["claimed"]:
            continue
        cmd = f"/opt/venv/bin/python mc/run.py {t['id']} --tier "
        checks.append(dict(property=t["id"], quick_cmd=cmd + "quick", thorough_cmd=cmd + "thorough",
                           technique=t["technique"], level=LEVEL, level_note=t["note"]))
    man = dict(
        version=1,
        setup_cmd="/opt/venv/bin/python mc/run.py SELFTEST",
        hooks=dict(guard="HVD_MC_HOOKS", enable="no hooks are needed: every check drives the public API of the unmodified package", source_commits=[]),
        checks=checks,
        not_applicable=[dict(property=t["id"], reason=t["na"]) for t in T if not t["claimed"]],
        notes="All checks drive the real code in /repo (import at check time, nothing cached); see DESIGN.md.",
    )
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
