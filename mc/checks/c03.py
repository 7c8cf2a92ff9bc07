"""C03  The hypervolume Hessian is the exact second derivative."""
from mc import layouts
from mc import hv_deriv as H
from mc.hv_plan import build

PROPERTY = "C03"
HESS = True
RULE = (
    "Complete enumeration of the order types (independent rank permutations per objective) of N points in m "
    "objectives, of grid sequences with ties, of decision grids mapped through a curved objective, and of request "
    "histories (reference point replaced, automatic differentiation) on one object; derivative = exact inclusion-exclusion differentiation (integers) per state."
    " Curved fronts of every size up to 64 (2 objectives; and 100), 24 (3), 10 (4), 7 (5) in three row orders, against faces and edges read off the coordinate grid."
)
ASSUMPTIONS = [
    "domain: no kink of the hypervolume at the inputs (two relevant points tied in an objective, or a relevant "
    "point exactly at the reference); such inputs are counted as skipped",
    "within a cell of the order-type arrangement the value is multilinear, so one representative per order type plus "
    "unequal extents decides the comparison logic",
]
SCENARIOS = dict(
    order_types=H.order_types, grid=H.grid, families=H.families, fronts=H.fronts, composed=H.composed, histories=H.histories, shared=H.shared,
    automatic=H.automatic, references=H.references,
)


def plan(tier):
    return build(tier, HESS)


plan = layouts.extend(SCENARIOS, plan, layouts.s_hv_derivatives, hessian=True)
