#!/usr/bin/env python3
"""Source of properties.jsonl (run it to regenerate)."""
import json, os
H = "include/hpp/constraints/"
PR = []


def P(id, title, statement, over, text, tests, files, mech, observe, state=()):
    assert len(title) <= 80, title
    PR.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                   why_tests_cant=tests,
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                                observe_at=observe, hook_needed=None)))


P("C01", "Jacobians are the derivatives of the values",
  "For every kinematic constraint function of the library (absolute/relative position, orientation and "
  "transformation in R^n, SO(3) or SE(3) outputs, relative centre of mass, centre of mass between feet, "
  "configuration distance, distance between points or bodies, manipulability, static stability, contact), at every "
  "configuration where the value is differentiable, entry (i,j) of the computed Jacobian is the derivative of "
  "the i-th velocity coordinate of the value along the j-th velocity coordinate of the robot (extra degrees of "
  "freedom included). Every entry of the output matrix is written, whatever it contained before the call.",
  ["inputs", "configurations"], "all robots, all functions and masks, all regular configurations, all initial contents of the output matrix",
  "the finite-difference test of the repository (test-jacobians) is not even built in the stable suite, and it samples a few "
  "configurations of one robot with a coarse tolerance and a zeroed output matrix",
  ["src/generic-transformation.cc", "src/generic-transformation/helper.hh", "src/relative-com.cc", "src/com-between-feet.cc",
   "src/configuration-constraint.cc", "src/distance-between-points-in-bodies.cc", "src/distance-between-bodies.cc", "src/manipulability.cc", "src/static-stability.cc",
   "src/convex-shape-contact.cc", "src/differentiable-function.cc"],
  [("impl_jacobian of each function", "src/*.cc"), ("selection of rows by the mask", "src/generic-transformation/helper.hh")],
  ["DifferentiableFunction::jacobian", "DifferentiableFunction::value"])

P("C02", "Kinematic functions compute their documented values",
  "For any two frames fixed to two joints of a robot (or one of them to the world), the value of a position, "
  "orientation or transformation function is the error documented for it: with M the pose of frame 2 in frame 1, "
  "the translation of M, the rotation vector of M (or its quaternion for group-valued functions), restricted in "
  "order to the coordinates selected by the mask; the 'position' and 'orientation' forms are the matching "
  "sub-vectors, and the function's output space has the documented size and type. The relative centre of mass, the "
  "centre of mass between feet, the weighted distance to a configuration, the distances between points and between bodies (smallest distance between their shapes) and the "
  "manipulability likewise return the quantity documented for them, whatever the masks, weights and extra degrees of freedom.",
  ["inputs", "configurations"], "all robots, joints, frames, masks and configurations",
  "tests compare a handful of configurations of two fixed robots, mostly with identity frames",
  ["src/generic-transformation.cc", "src/generic-transformation/helper.hh", H + "generic-transformation.hh", "src/relative-com.cc",
   "src/com-between-feet.cc", "src/configuration-constraint.cc", "src/distance-between-points-in-bodies.cc", "src/distance-between-bodies.cc", "src/manipulability.cc"],
  [("compute error", "src/generic-transformation/helper.hh"), ("output space / mask", "src/generic-transformation.cc")],
  ["GenericTransformation::value", "GenericTransformation::outputSpace", "PointInJoint and RelativeCom values"])

P("C03", "Symbolic expressions evaluate and differentiate exactly",
  "An expression built from points and vectors of joints, centres of mass, frames and constants with sums, "
  "differences, scalar products, cross products, norms, scaling and rotations has the value given by the "
  "corresponding formula on the current robot state, and its Jacobian is the derivative of that value. This holds "
  "whatever the order in which values, cross-product matrices and Jacobians are requested, for sub-expressions "
  "shared between expressions, and after the robot state changes and the cache is invalidated. Matrices of expressions, their pseudo-inverse and its derivative "
  "follow, and a function made of an expression has exactly the components selected by its mask.",
  ["inputs", "histories"], "all expression trees, all request orders, all robot states",
  "tests evaluate a few fixed expressions in one request order",
  [H + "symbolic-calculus.hh", H + "symbolic-function.hh"],
  [("value/cross/jacobian caches", H + "symbolic-calculus.hh"), ("product rules", H + "symbolic-calculus.hh")],
  ["CalculusBase::value", "CalculusBase::jacobian", "SymbolicFunction::value"])

P("C04", "Function combinators compute what they announce",
  "Sets of functions, affine, constant and identity functions, restrictions to a subset of parameters, "
  "differences of a function over two parameter subsets and restrictions to active columns return, for every "
  "argument, the value defined by their components (concatenation in insertion order, A x + b, f(x_S), "
  "f(x_S1) - f(x_S2) in the tangent space, ...), and a Jacobian, written in all its entries, that is the derivative of that value, with zero "
  "columns where restricted. Their input and output sizes and their sets of "
  "active parameters are those of that composition.",
  ["inputs", "programs"], "all compositions of the combinators over vector-space and Lie-group valued leaves, all arguments",
  "the combinators are tested on one or two instances each, without Lie-group outputs or pre-filled Jacobians",
  [H + "differentiable-function-set.hh", H + "affine-function.hh", H + "active-set-differentiable-function.hh",
   "src/function/of-parameter-subset.cc", "src/function/difference.cc", "src/differentiable-function-set.cc", "src/affine-function.cc"],
  [("impl_compute/impl_jacobian", "src/function/"), ("stacking", H + "differentiable-function-set.hh")],
  ["DifferentiableFunction::value", "DifferentiableFunction::jacobian", "activeParameters"])

P("C05", "A function depends only on the parameters it declares active",
  "Changing a configuration coordinate that a function does not declare active never changes its value, and the "
  "columns of its Jacobian for velocity coordinates not declared active are zero. When a function or constraint reports that "
  "it depends only on the relative pose of two joints, configurations with the same relative pose of these joints "
  "give the same value.",
  ["inputs", "configurations"], "all functions, all pairs of configurations differing in inactive coordinates or preserving the relative pose",
  "no test varies the inactive coordinates systematically",
  ["src/differentiable-function.cc", "src/generic-transformation.cc", "src/relative-com.cc", "src/convex-shape-contact.cc",
   "src/distance-between-points-in-bodies.cc", "src/com-between-feet.cc", "src/locked-joint.cc", "src/implicit.cc"],
  [("activeParameters computation", "src/generic-transformation.cc (computeActiveParams)"), ("dependsOnRelPoseBetween", "src/generic-transformation.cc")],
  ["DifferentiableFunction::activeParameters", "activeDerivativeParameters", "dependsOnRelPoseBetween"])

P("C06", "Evaluating a function depends only on its argument",
  "The value and the Jacobian of a function at a configuration are the same whatever was evaluated before (the same "
  "or other functions, at other configurations), whatever the current state of the robot device, and whether values or Jacobians are asked first. Pose, relative centre of mass, configuration and contact "
  "functions give the same results when several threads evaluate them at the same time as when one thread does.",
  ["histories", "schedules"], "all interleavings of evaluations of functions sharing a device, by one or several threads",
  "tests evaluate functions in one fixed order and reset them between evaluations; one multi-thread test compares a few functions",
  ["src/generic-transformation.cc", "src/relative-com.cc", "src/com-between-feet.cc", "src/distance-between-points-in-bodies.cc",
   "src/distance-between-bodies.cc", "src/manipulability.cc", "src/static-stability.cc", "src/convex-shape-contact.cc",
   H + "symbolic-function.hh"],
  [("per-call device data", "hpp::pinocchio::DeviceSync in impl_compute"), ("mutable caches", "Distance*: latestArgument_/latestResult_")],
  ["DifferentiableFunction::value", "DifferentiableFunction::jacobian"])

P("C07", "A solver that reports success has solved the problem",
  "When a hierarchical or by-substitution solver returns success, the returned configuration satisfies every "
  "non-optional constraint within the error threshold according to its comparison type (equality, equal to zero, "
  "at most, at least), mask and right hand side, as recomputed from the constraint functions alone. The verdicts of "
  "the solver's own satisfaction tests agree with that independent recomputation on every configuration. Optimising the last level "
  "from a configuration that satisfies the other ones keeps them satisfied and never increases the cost.",
  ["inputs", "programs", "configurations"], "all sets of constraints, priorities, comparison types, right hand sides, thresholds, line searches and start configurations",
  "tests solve a few fixed problems and check success through the solver's own isSatisfied",
  ["src/solver/hierarchical-iterative.cc", "src/solver/by-substitution.cc", H + "solver/impl/hierarchical-iterative.hh",
   H + "solver/impl/by-substitution.hh"],
  [("computeError / comparison types", "src/solver/hierarchical-iterative.cc"), ("solve loop", H + "solver/impl/by-substitution.hh")],
  ["solve return status and configuration", "isSatisfied", "isConstraintSatisfied", "residualError"])

P("C08", "Solvers move only free variables and respect the bounds",
  "Whatever the constraints and the outcome, solving from a configuration within the joint bounds leaves unchanged "
  "every variable that is neither free nor the output of an explicit constraint, returns, unless the iterations diverge, a finite, normalised "
  "configuration, and when a saturation by bounds is set every free variable stays within these bounds. The number of "
  "iterations is bounded by the configured maximum.",
  ["inputs", "programs", "configurations"], "all sets of constraints, free variables, bounds and start configurations",
  "tests never look at the other variables and check bounds on one problem",
  ["src/solver/hierarchical-iterative.cc", "src/solver/by-substitution.cc", H + "solver/impl/hierarchical-iterative.hh"],
  [("integrate and saturate", "src/solver/hierarchical-iterative.cc"), ("reduced Jacobian", "src/solver/hierarchical-iterative.cc")],
  ["solve / oneStep output configuration"])

P("C09", "Right hand sides are stored, read back and initialised consistently",
  "A right hand side given to a constraint, or to a solver for the whole stack or for one constraint, is what is read back, up to the "
  "components whose comparison type forces zero (for vector-valued constraints; Lie-group-valued ones have components of equality "
  "type only). Initialising the right hand side from a configuration makes that "
  "configuration satisfy all components of equality type, and makes no other constraint's right hand side change; "
  "time-varying right hand sides are evaluated at the time that is set, and a function extracted on a sub-interval of time is "
  "the original one at the shifted (or reversed) time, with the matching derivative.",
  ["inputs", "histories"], "all constraints, comparison types, configurations, orders of set and get operations",
  "tests set right hand sides of whole stacks with constraints of a single kind",
  ["src/implicit.cc", "src/solver/hierarchical-iterative.cc", "src/solver/by-substitution.cc", "src/explicit-constraint-set.cc", "src/explicit.cc"],
  [("segments of the stacked right hand side", "src/solver/hierarchical-iterative.cc"), ("equality indices", "src/implicit.cc")],
  ["rightHandSide", "getRightHandSide", "rightHandSideFromConfig", "rightHandSideAt", "rightHandSideSize"])

P("C10", "Explicit constraint sets are accepted, ordered and solved soundly",
  "A set of explicit constraints accepts a constraint exactly when its outputs are not already outputs and no "
  "cyclic dependency arises, whatever the order of insertion. Solving writes every output variable as "
  "its function of the inputs plus right hand side in dependency order and changes nothing else, so that every constraint then holds; the reported "
  "input, output and free index sets partition the variables, and the reported Jacobian is the derivative of the outputs with "
  "respect to the free inputs.",
  ["inputs", "programs", "histories"], "all sets of explicit constraints (vector and Lie-group outputs, nested and overlapping inputs), all insertion orders, all configurations",
  "tests insert a few hand-written constraints with contiguous inputs",
  ["src/explicit-constraint-set.cc", "src/explicit.cc", H + "explicit-constraint-set.hh", "src/matrix-view.cc"],
  [("computation order", "src/explicit-constraint-set.cc"), ("Jacobian chain rule", "src/explicit-constraint-set.cc")],
  ["ExplicitConstraintSet::add/solve/jacobian/isSatisfied", "inArgs/outArgs/notOutArgs"])

P("C11", "Solving by substitution keeps explicit constraints exact and derivatives reduced",
  "After solving by substitution (success or not), the explicit constraints "
  "hold for the returned configuration. The reduced Jacobian used for the implicit constraints is the derivative of "
  "the implicit errors along motions that keep the explicit constraints, and projecting a velocity on the kernel gives, for the free variables, the velocity closest "
  "to the argument that keeps all the constraints to first order; projecting a configuration integrates that velocity.",
  ["inputs", "programs", "configurations"], "all mixes of explicit and implicit constraints, configurations and velocities",
  "tests check reduced Jacobians on single hand-written examples",
  ["src/solver/by-substitution.cc", H + "solver/impl/by-substitution.hh", "src/explicit-constraint-set.cc"],
  [("updateJacobian", "src/solver/by-substitution.cc"), ("projectVectorOnKernel", "src/solver/by-substitution.cc")],
  ["BySubstitution::solve", "getReducedJacobian", "projectVectorOnKernel", "projectOnKernel"])

P("C12", "Sets of index intervals behave as sets of integers",
  "Sorting, shrinking, union, overlap, difference, insertion, splitting and extraction of lists of index intervals "
  "denote the corresponding operations on the sets (or sequences) of integers, for every input their documentation "
  "allows. Results keep the documented form: sorted, disjoint where promised, cardinal equal to the number of indices.",
  ["inputs", "programs"], "all lists of intervals (adjacent, nested, overlapping, empty) and programs of operations",
  "tests use a dozen hand-written interval lists",
  ["src/matrix-view.cc", H + "matrix-view.hh"], [("BlockIndex operations", "src/matrix-view.cc")],
  ["BlockIndex static functions"])

P("C13", "Block views read and write exactly the selected coefficients",
  "A view of a matrix through sets of row and column intervals reads as the dense matrix made of the selected rows "
  "and columns in order, and writing or adding through it modifies the selected coefficients and nothing else. "
  "Arithmetic between views and matrices, transposes, and sub-blocks of index sets agree with the same operations on "
  "the dense copies.",
  ["inputs", "programs"], "all matrix sizes, interval sets (rows only, columns only, both) and arithmetic combinations",
  "tests print or compare a few views of fixed size",
  [H + "matrix-view.hh", H + "impl/matrix-view-operation.hh", H + "impl/matrix-view.hh"],
  [("block iterator", H + "matrix-view.hh"), ("binary operators", H + "impl/matrix-view-operation.hh")],
  ["MatrixBlocks::lview/rview/transpose/keepRows/keepCols/block"])

P("C14", "Logarithms of rotations and poses are accurate everywhere",
  "For every rotation or rigid motion (including angles near 0 and near pi), the logarithm returned is the rotation "
  "vector / twist of norm at most pi whose exponential is the argument, and the Jacobians of the logarithm are its "
  "derivatives. The value is continuous across the switches between the formulas used for small, ordinary and nearly straight angles.",
  ["inputs"], "all rotations and poses, with angles concentrated near 0 and pi",
  "one test draws uniformly random rotations, which never come near the switching angles",
  [H + "tools.hh"], [("logSO3, JlogSO3, logSE3, JlogSE3 and quaternion variants", H + "tools.hh")],
  ["logSO3", "JlogSO3", "logSE3", "JlogSE3", "computeLog"])

P("C15", "Pseudo-inverses and projectors satisfy their defining identities",
  "For every matrix, of any shape and rank, the pseudo-inverse computed from its singular value decomposition satisfies the four Penrose "
  "identities for the numerical rank implied by the threshold, and the projectors on the span and kernel (of the "
  "matrix and of its transpose) are the orthogonal projectors of matching rank, complementary to each other. The numerical rank is the number of "
  "singular values above the threshold.",
  ["inputs"], "all matrices: wide, tall, rank deficient, zero, badly scaled",
  "the test draws full-rank Gaussian matrices",
  [H + "svd.hh"], [("pseudoInverse, projectors", H + "svd.hh")], ["pseudoInverse", "projectorOnKernel", "projectorOnSpan", "getU1 ... getV2"])

P("C16", "Convex polygon queries agree with the geometry",
  "For every convex polygon given by its vertices in a plane, the signed distance is minus or plus the distance to "
  "the border depending on whether the projected point is inside, insideness agrees with the half planes, the intersection of a line with the plane "
  "lies on both, and centre, normal and frame are those of the polygon whatever the rigid motion applied to it. "
  "Reversing the polygon flips the normal and changes no distance.",
  ["inputs"], "all convex polygons with one to many vertices (distances and insideness: at least three), all points and lines, all rigid motions",
  "tests use one triangle and a few points",
  [H + "convex-shape.hh"], [("distance, isInside, closestPointToSegment, linePlaneIntersection", H + "convex-shape.hh")],
  ["ConvexShape methods", "linePlaneIntersection", "closestPointToSegment"])

P("C17", "Contact functions realise the documented contact model",
  "For any floor and object polygons on any joints, the contact value is that of the pair of shapes that are closest according "
  "to the documented rule; the normal component is the signed height plus margin, the two tangential components vanish exactly when the "
  "centre of the object polygon projects inside the floor polygon, and the orientation components are zero exactly when the "
  "planes are parallel with opposite normals. Contact and complement together determine the relative pose of the two shapes, and the hold "
  "constraint is their concatenation. The reported contact points are those of the pairs of surfaces whose object centre projects inside the "
  "floor below the given height.",
  ["inputs", "configurations"], "all sets of polygons, joints and configurations",
  "tests evaluate fixed boxes with a handful of configurations",
  ["src/convex-shape-contact.cc", H + "convex-shape-contact.hh"],
  [("selectConvexShapes", "src/convex-shape-contact.cc"), ("computeInternalValue", "src/convex-shape-contact.cc")],
  ["ConvexShapeContact::value", "ConvexShapeContactComplement::value", "ConvexShapeContactHold::value"])

P("C18", "Explicit and implicit forms of a constraint agree",
  "For explicit constraints (relative pose, locked joint, custom functions), a configuration satisfies the implicit form with a "
  "right hand side exactly when the output variables equal the explicit function of the inputs for the same right "
  "hand side. The Jacobians of the implicit function and of the output value are their derivatives, and the explicit expression of a "
  "relative pose gives the joint pose that puts the two frames at the requested relative pose. The explicit form of a contact puts the object, "
  "whatever the inputs, at the pose relative to the floor surface that the right hand side was taken from, so that the contact and its complement "
  "have the requested values there.",
  ["inputs", "configurations"], "all joint pairs with a freeflyer output, frames, right hand sides and configurations",
  "tests use identity right hand sides and one robot",
  ["src/explicit.cc", "src/explicit/implicit-function.cc", "src/explicit/relative-pose.cc", "src/explicit/relative-transformation.cc",
   "src/explicit/convex-shape-contact.cc"],
  [("implicitToExplicitRhs / explicitToImplicitRhs", "src/explicit/relative-pose.cc"), ("RelativeTransformation", "src/explicit/relative-transformation.cc")],
  ["Explicit::explicitFunction/outputValue/jacobianOutputValue", "Implicit::function", "solver results"])

P("C19", "Locked joints lock exactly the requested coordinates",
  "A locked joint (whole joint, part of a vector joint, or extra degrees of freedom) is an explicit constraint whose "
  "outputs are exactly the coordinates of that joint (part), and whose value with the given right hand side is the requested joint configuration. "
  "Solving with it sets these coordinates to the right hand side and changes no other one; equality, printing "
  "and copies reflect the joint and its value.",
  ["inputs", "configurations"], "all joints of all robots, all values, partial index ranges and extra dofs",
  "tests lock whole joints of two robots",
  ["src/locked-joint.cc", H + "locked-joint.hh"], [("constructors", "src/locked-joint.cc")],
  ["LockedJoint::create", "rankInConfiguration", "configSize", "solver results", "operator<<"])

P("C20", "Comparison types decide satisfaction as documented",
  "For every constraint, vector of comparison types and mask, the satisfaction test of the constraint, of an explicit constraint set and of a "
  "solver accept a configuration exactly when each masked component is: equal to the right hand side, equal to zero, at most the right hand side, or at "
  "least the right hand side, up to the threshold. Builders of comparison vectors (repetition, concatenation, n times type) produce "
  "the listed sequence, and inequality components are never pushed further once satisfied.",
  ["inputs", "programs"], "all vectors of comparison types, masks, values and right hand sides, including values close to the threshold",
  "tests check the operators on one vector",
  [H + "comparison-types.hh", "src/implicit.cc", "src/solver/hierarchical-iterative.cc", "src/explicit-constraint-set.cc"],
  [("setInactiveRowsToZero / comparison handling", "src/implicit.cc"), ("computeSaturation of inequalities", "src/solver/hierarchical-iterative.cc")],
  ["ComparisonTypes_t operators", "isSatisfied", "isConstraintSatisfied", "applyComparison"])

P("C21", "Serialisation round trips preserve behaviour",
  "Functions, constraints and solvers written to an archive and read back (text, XML or binary, through the archives of hpp-util with the robot inserted) give the same values, "
  "Jacobians, comparison types, masks and right hand sides as the original on every configuration; functions that are compared by value are equal to the original. "
  "A restored solver has the same constraints, priorities, thresholds, options, free variables and bounds, and gives the same verdicts and solutions once the right hand side "
  "is set again (it is documented as not stored); constraints can be added to it as to the original. Objects shared "
  "between serialised parents remain shared, and the original is not altered.",
  ["inputs", "programs"], "all serialisable functions, constraints and solvers with arbitrary parameters",
  "tests round trip a few default-constructed objects and do not evaluate all of them",
  ["src/serialization.hh", H + "serialization.hh", "src/generic-transformation.cc", "src/solver/hierarchical-iterative.cc",
   "src/solver/by-substitution.cc", "src/implicit.cc", "src/explicit.cc", "src/locked-joint.cc", "src/convex-shape-contact.cc"],
  [("serialize members", "src/*.cc")], ["boost archives", "value/jacobian/solve of the restored object"])

P("C22", "Copies are independent and equality is an equivalence",
  "Copying, merging or extracting from constraints and solvers gives objects that behave as the original, and later "
  "changes (right hand sides, constraints added, thresholds) to one never alter the other. Equality of functions and "
  "constraints is reflexive and symmetric, equal objects have equal values, and objects that differ in a frame, joint, mask, comparison type or constant are not equal; a merged solver "
  "contains exactly the constraints of both.",
  ["histories", "programs"], "all sequences of copy, merge, extract and modification on all kinds of constraints",
  "tests copy one solver and compare a few functions of distinct kinds",
  ["src/implicit.cc", "src/explicit.cc", "src/solver/hierarchical-iterative.cc", "src/solver/by-substitution.cc",
   "src/explicit-constraint-set.cc", "src/differentiable-function.cc"],
  [("copy constructors / createCopy", "src/*.cc"), ("isEqual", "src/*.cc"), ("merge", "src/solver/hierarchical-iterative.cc")],
  ["operator==", "copy()", "merge", "contains", "extract"])

P("C23", "Static stability functions characterise equilibrium",
  "For any set of contact points with normals and centre of mass, the QP static stability value is zero exactly when "
  "non-negative normal forces balance the weight (unit gravity, moments about the centre of mass), and it otherwise is the squared residual of the "
  "best such forces. The linear static stability value gives normal forces of least residual, obtained from those of least norm by adding the projection on "
  "the kernel of their negative parts, followed by the residual: non-negative forces with zero residual are an equilibrium.",
  ["inputs", "configurations"], "all contact layouts on robot bodies and all configurations",
  "tests use one robot with four contacts and never compare with an independent equilibrium computation",
  ["src/static-stability.cc", "src/qp-static-stability.cc"], [("phi matrix and pseudo-inverse", "src/static-stability.cc"), ("QP", "src/qp-static-stability.cc")],
  ["StaticStability::value", "QPStaticStability::value"])

P("C24", "Solver queries describe the constraints a solver holds",
  "After any sequence of additions, merges, extractions and changes of free variables, what a solver reports describes the constraints it holds: list of constraints, "
  "dimensions, right hand side and error sizes, names and comparison types by level, reduced dimension, implicit degrees of freedom (velocity "
  "coordinates the implicit constraints depend on once explicit ones are solved), residual error, and membership (contains). "
  "An answer that one solver defines a submanifold of another is only given when every configuration satisfying the one satisfies the other. "
  "Adding a constraint already held is refused and changes nothing.",
  ["histories", "programs"], "all sequences of construction steps on solvers with and without explicit constraints, free variables and optional levels",
  "tests read a few sizes on solvers built in one fixed way",
  ["src/solver/hierarchical-iterative.cc", "src/solver/by-substitution.cc", "src/explicit-constraint-set.cc", H + "solver/hierarchical-iterative.hh",
   H + "solver/by-substitution.hh"],
  [("add / merge / update", "src/solver/hierarchical-iterative.cc"), ("add / implicitDof / errorSize", "src/solver/by-substitution.cc")],
  ["constraints()", "dimension", "reducedDimension", "errorSize", "rightHandSideSize", "implicitDof", "residualError", "contains", "definesSubmanifoldOf"])

P("C25", "Descent steps solve the linearised hierarchy",
  "One step of a solver moves along the direction of least norm that minimises, level after level (each without degrading the previous ones), the linearised error "
  "of the active constraints over the free variables; coordinates that are not free are not moved by the direction; the smallest singular value reported is the one "
  "of the levels solved. Step lengths follow the rule of the line search (constant; backtracking with sufficient decrease; documented sequence; bounded "
  "function of the error), and the configuration reached is the integration of the scaled step, saturated and with explicit constraints solved.",
  ["inputs", "histories"], "all stacks of constraints with priorities, redundant and conflicting ones, all free variables, all line searches",
  "tests check that the solver converges on average on random starts, which a wrong but plausible direction or step length also does",
  ["src/solver/hierarchical-iterative.cc", "src/solver/by-substitution.cc", H + "solver/impl/hierarchical-iterative.hh"],
  [("computeDescentDirection", "src/solver/hierarchical-iterative.cc"), ("line searches", H + "solver/impl/hierarchical-iterative.hh"),
   ("integrate", "src/solver/hierarchical-iterative.cc")],
  ["oneStep", "lastStep", "sigma", "lineSearch::*", "integrate"])

P("C26", "Malformed requests are refused and change nothing",
  "Requests that cannot be satisfied are refused with the documented exception (std::invalid_argument or std::logic_error) or status, and "
  "leave the objects as they were: right hand side functions of wrong sizes, spaces or comparison types, extraction from functions of several inputs, weights of the wrong size, "
  "unknown collision pairs, contact shapes that are empty or have too few points, contacts that cannot be explicit, malformed explicit constraints, and explicit functions undefined at "
  "a configuration (the solver reports an infeasible problem). The same object then answers the same well-formed requests as one that never received the malformed one.",
  ["histories", "faults"], "all malformed requests of the listed kinds inserted in histories of well-formed ones",
  "tests check one or two throws on fresh objects, never the state left behind",
  ["src/implicit.cc", "src/explicit.cc", "src/function/of-parameter-subset.cc", "src/configuration-constraint.cc", "src/distance-between-bodies.cc",
   "src/convex-shape-contact.cc", "src/explicit/convex-shape-contact.cc", "src/explicit-constraint-set.cc", "src/solver/by-substitution.cc",
   H + "convex-shape.hh"],
  [("argument checks", "src/*.cc"), ("undefined explicit functions", "src/solver/by-substitution.cc")],
  ["exceptions thrown", "values and right hand sides after the exception", "solver status"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in sorted(PR, key=lambda p: p["id"]):
        f.write(json.dumps(p) + "\n")
print(len(PR))
