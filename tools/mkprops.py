#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the prose is readable)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=qtext), why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=list(observe), hook_needed=None)))

prop("C01", "Index-set operations compute exactly the set operation they name",
 """A list of index intervals denotes a set of indices. Normalising any list, with overlapping, adjacent, duplicated or empty
 intervals in any order, keeps the set of indices and gives sorted, disjoint, non-adjacent intervals. Counting, testing overlap, uniting,
 subtracting, complementing and splitting normalised lists yield exactly the indices the corresponding set operation yields.""",
 ["inputs", "histories"], "every pair of interval lists, and every sequence of additions and normalisations",
 "The tests check a handful of literal interval lists; the case analysis on how two intervals can overlap is combinatorial.",
 ["include/hpp/constraints/matrix-view.hh", "src/matrix-view.cc"],
 [("BlockIndex::sort/shrink/cardinal/sum/difference/split/overlap", "src/matrix-view.cc"),
  ("MatrixBlocks::addRow/addCol/updateRows/updateCols", "include/hpp/constraints/matrix-view.hh")],
 observe=["BlockIndex static functions", "RowBlockIndices/ColBlockIndices/MatrixBlocks accessors"])

prop("C02", "Sub-matrix views read and write exactly the selected entries",
 """A view of a matrix or vector through a list of row and column intervals shows the selected entries in list order and
 nothing else. Assigning to a view changes exactly those entries, leaving every other entry of the underlying matrix as
 it was; extracting, transposing, restricting the view to a block and evaluating it agree with entry-by-entry selection.""",
 ["inputs", "histories"], "all interval lists on rows and columns (including empty, unordered ones), all matrices, all sequences of view reads and writes",
 "Tests use two or three fixed block lists on one matrix size.",
 ["include/hpp/constraints/matrix-view.hh", "include/hpp/constraints/impl/matrix-view.hh", "include/hpp/constraints/impl/matrix-view-operation.hh", "src/matrix-view.cc"],
 [("MatrixBlocks::lview/rview/transpose/keepRows/keepCols/middleRows, MatrixBlockView assignment and writeTo", "include/hpp/constraints/matrix-view.hh")],
 observe=["lview(M) = X", "rview(M).eval()", "nbRows/nbCols/indices"])

prop("C03", "Explicit constraints are accepted exactly when they can be solved in sequence",
 """A set of explicit constraints accepts a new one exactly when its outputs are not already computed by a member and
 accepting it creates no circular dependency, and refuses it without side effect otherwise. After any
 sequence of additions, inputs, outputs and free variables reported by the set describe exactly the accepted
 constraints: every configuration and velocity variable is either the output of exactly one constraint or not an output, and
 the reported inputs are exactly those the constraints read.""",
 ["histories", "inputs"], "every sequence of candidate explicit constraints with arbitrary input and output variables",
 "The tests add two or three hand written constraints; cycles and overlaps form a combinatorial space of orders.",
 ["src/explicit-constraint-set.cc", "include/hpp/constraints/explicit-constraint-set.hh"],
 [("ExplicitConstraintSet::add, contains, canAdd conditions", "src/explicit-constraint-set.cc")],
 [("argFunction_/computationOrder_", "which constraint computes a variable, and in what order", "include/hpp/constraints/explicit-constraint-set.hh")],
 observe=["add() return value", "inArgs/outArgs/notOutArgs/inDers/outDers/notOutDers, argFunction, derFunction, nv, inArgs.nbIndices"])

prop("C04", "Resolving explicit constraints yields the unique consistent configuration",
 """Resolving a set of explicit constraints changes only output variables, and the result satisfies every explicit
 relation (output equals function of input displaced by the right-hand side) whatever the order in which the constraints were inserted. Resolution is idempotent, and two
 configurations equal on the non-output variables resolve to the same configuration.""",
 ["inputs", "histories"], "every acceptable set of explicit constraints, every insertion order, every right-hand side and start configuration",
 "Tests solve a few fixed chains in the insertion order that the author wrote.",
 ["src/explicit-constraint-set.cc", "include/hpp/constraints/explicit-constraint-set.hh"],
 [("ExplicitConstraintSet::solve, solveExplicitConstraint, computeOrder", "src/explicit-constraint-set.cc")],
 observe=["ExplicitConstraintSet::solve(q)", "BySubstitution::explicitConstraintSet().solve"])

prop("C05", "The derivative of explicit resolution is the derivative of the resolved configuration",
 """The derivative computed for a resolved configuration with respect to the variables that are not outputs equals the true derivative of explicit resolution, through chains of constraints of any
 length and order. The derivative used to solve the remaining implicit constraints is the corresponding composition, and
 the reported dependency of outputs on inputs is exactly the transitive dependency.""",
 ["inputs", "histories"], "every acyclic set of explicit constraints with arbitrary coefficients; every insertion order",
 "Tests compare against finite differences for a couple of robots; orders and chains are not varied.",
 ["src/explicit-constraint-set.cc", "src/solver/by-substitution.cc"],
 [("ExplicitConstraintSet::jacobian, computeJacobian, jacobianNotOutToOut", "src/explicit-constraint-set.cc"),
  ("BySubstitution::updateJacobian, computeActiveRowsOfJ", "src/solver/by-substitution.cc")],
 observe=["jacobian(J,q)", "jacobianNotOutToOut", "inOutDependencies/inOutDofDependencies", "BySubstitution getReducedJacobian"])

prop("C06", "A constraint problem contains exactly what was added, at the requested priority",
 """After any sequence of adding and merging constraints, a problem contains each added constraint once, holds it as explicit
 relation exactly when it can be resolved explicitly and otherwise as implicit constraint at its requested priority, and
 reports dimensions, free and active variables and constraint lists that agree with that content. Adding a constraint that is already
 contained changes nothing and says so.""",
 ["histories", "inputs"], "every sequence of add, merge, replace-free-variable and priority operations",
 "Tests build a few problems by hand and check counts.",
 ["src/solver/hierarchical-iterative.cc", "src/solver/by-substitution.cc", "include/hpp/constraints/solver/hierarchical-iterative.hh", "include/hpp/constraints/solver/by-substitution.hh"],
 [("HierarchicalIterative::add/merge/contains/update/computeActiveRowsOfJ", "src/solver/hierarchical-iterative.cc"),
  ("BySubstitution::add/contains/explicitConstraintSetHasChanged", "src/solver/by-substitution.cc")],
 observe=["add() result", "contains", "constraints()", "numericalConstraints()", "numberStacks/dimension/reducedDimension", "freeVariables/activeParameters/implicitDof"])

prop("C07", "Right-hand sides are routed to the right constraint and read back unchanged",
 """Setting the right-hand side of one constraint (by value, from a configuration, or through the vector of all
 right-hand sides) is what reading it back returns, on the components that have a right-hand side, and leaves every
 other constraint's right-hand side unchanged. Reading the whole vector and writing it back changes nothing, and setting from a
 configuration makes that configuration satisfy the constraint's equality components.""",
 ["histories", "inputs"], "every problem mixing priorities, explicit and implicit constraints, comparison types; every sequence of set/get operations",
 "Tests check round trip on single-level problems, where wrong offsets are invisible.",
 ["src/solver/hierarchical-iterative.cc", "src/solver/by-substitution.cc", "src/explicit-constraint-set.cc", "src/implicit.cc"],
 [("rightHandSide, getRightHandSide, rightHandSideFromConfig overloads", "src/solver/*.cc, src/explicit-constraint-set.cc, src/implicit.cc")],
 observe=["rightHandSide()", "getRightHandSide(constraint)", "rightHandSide(constraint, v)", "rightHandSideFromConfig(q[, constraint])"])

prop("C08", "Satisfaction verdicts follow the comparison types, activity masks and thresholds",
 """A configuration is declared satisfying exactly when every active component of every required constraint is satisfied: equality components deviate from their right-hand side by less than the
 error threshold, inequality components are on the allowed side, and inactive components never count. The
 verdict for the whole problem, the verdict per constraint and the reported error agree, and a last
 priority level declared optional is ignored.""",
 ["inputs", "configurations"], "every combination of comparison types, masks, priorities, optional last level, thresholds, right-hand sides and configurations",
 "Tests check a few equality-only problems.",
 ["src/solver/hierarchical-iterative.cc", "src/solver/by-substitution.cc", "src/explicit-constraint-set.cc", "src/implicit.cc", "include/hpp/constraints/solver/impl/hierarchical-iterative.hh"],
 [("applyComparison, setInactiveRowsToZero, computeError", "src/solver/hierarchical-iterative.cc"),
  ("isSatisfied/isConstraintSatisfied", "src/solver/*.cc, src/explicit-constraint-set.cc, src/implicit.cc")],
 observe=["isSatisfied(q[,error[,threshold]])", "isConstraintSatisfied", "residualError", "Implicit/Explicit::isSatisfied"])

prop("C09", "Solving reports success only with a satisfying configuration within its budget",
 """When solving reports success the returned configuration satisfies every required constraint and every explicit relation,
 differs from the input only on variables the problem may change, and respects bounds when saturation is enabled. A configuration that already satisfies the problem is
 accepted and is not made worse; solving uses at most the configured number of iterations, whatever line search is selected, and never reports success on a problem that has no
 solution.""",
 ["inputs", "histories", "configurations"], "every affine problem (feasible or not), start configuration, line search, iteration limit and threshold",
 "Tests check success rates from random starts on one robot.",
 ["src/solver/hierarchical-iterative.cc", "src/solver/by-substitution.cc", "include/hpp/constraints/solver/impl/hierarchical-iterative.hh", "include/hpp/constraints/solver/impl/by-substitution.hh"],
 [("HierarchicalIterative::solve, BySubstitution::impl_solve, line searches", "include/hpp/constraints/solver/impl/*.hh")],
 observe=["solve(q) status and q", "isSatisfied", "residualError"])

prop("C10", "Saturation keeps configurations within bounds and reports exactly what it clamped",
 """Saturating a configuration clamps every bounded variable into its bounds, leaves all others as they are, and
 flags exactly the velocity variables whose configuration variable was at or beyond a bound, with the right side. A solver with
 saturation never brings a variable that it is free to choose outside its bounds (outputs of explicit constraints follow from the others), and
 within a step leaves out a variable that a level would push further out, rather than clamping its effect away afterwards.""",
 ["inputs", "configurations"], "all bounds, configurations (inside, on, beyond either bound) and robots whose configuration and velocity indices differ",
 "Tests saturate one robot with unit bounds.",
 ["src/solver/hierarchical-iterative.cc", "include/hpp/constraints/solver/hierarchical-iterative.hh"],
 [("saturation::Bounds/Device::saturate, HierarchicalIterative::saturate, computeSaturation", "src/solver/hierarchical-iterative.cc")],
 observe=["saturation::Base::saturate", "solve with saturation"])

prop("C11", "Copies and extracted sub-problems are faithful and independent of the original",
 """A copy of a solver, explicit set or constraint behaves like the original at the time of copying, and later
 changes to either (right-hand sides, thresholds, added constraints) never show in the other.""",
 ["histories"], "every sequence of operations interleaved between an original and its copies",
 "Tests copy a few objects once and compare them immediately.",
 ["src/solver/hierarchical-iterative.cc", "src/solver/by-substitution.cc", "src/implicit.cc", "src/explicit.cc", "src/locked-joint.cc", "src/explicit-constraint-set.cc"],
 [("copy constructors, Implicit::copy family", "src/*.cc")],
 observe=["all queries on original and copy after interleaved updates"])

prop("C12", "Saving and restoring preserves behaviour",
 """A constraint, function or solver that is saved and restored answers every query and solves every start configuration
 as the saved one did.""",
 ["histories", "inputs"], "every serialisable object reachable by a sequence of construction and update operations",
 "Tests compare a few fields of a few objects after one round trip.",
 ["src/solver/hierarchical-iterative.cc", "src/solver/by-substitution.cc", "src/implicit.cc", "src/explicit.cc", "src/locked-joint.cc", "src/differentiable-function.cc", "src/affine-function.cc", "src/explicit-constraint-set.cc", "src/generic-transformation.cc"],
 [("serialize() methods", "src/*.cc")],
 observe=["queries on the restored object"])

prop("C13", "Time-varying right-hand sides are evaluated at the time that was set",
 """When a constraint has a right-hand side function of time, setting the time gives it exactly the value of that function
 at that time, in every solver containing it and for that constraint only; constraints without such a function keep their right-hand side. Restricting a path-like function to an interval gives the function
 re-parameterised over that interval (value and derivative), including reversed intervals.""",
 ["inputs", "histories"], "all times, interleavings of time changes and right-hand side changes, intervals in both directions",
 "Tests check one function at a few times.",
 ["src/implicit.cc", "src/solver/hierarchical-iterative.cc", "src/explicit-constraint-set.cc", "src/extracted-function.hh", "src/differentiable-function.cc"],
 [("rightHandSideFunction, rightHandSideAt", "src/implicit.cc, src/solver/*.cc"), ("ExtractedFunction", "src/extracted-function.hh")],
 observe=["rightHandSideAt(s) then getRightHandSide/isSatisfied", "extract(interval) value and Jacobian"])

prop("C14", "Composed functions compute what their parts compute, and declared dependencies are sound",
 """Stacking functions, taking their difference, and applying a function to a subset of the parameters or restricting it to active parameters give values and
 derivatives assembled from those of the parts. A function never depends on a parameter it declares inactive, and a
 composed function declares active whatever its parts do. Forward and central finite differences approximate the same
 derivative on vector spaces and along the joints of a robot, up to their truncation error.""",
 ["inputs", "programs"], "every expression built from base functions with those combinators, every argument",
 "Tests build one or two compositions.",
 ["include/hpp/constraints/differentiable-function-set.hh", "src/differentiable-function-set.cc", "src/function/difference.cc", "src/function/of-parameter-subset.cc", "include/hpp/constraints/active-set-differentiable-function.hh", "src/affine-function.cc", "include/hpp/constraints/affine-function.hh"],
 [("impl_compute/impl_jacobian of combinators; activeParameters", "include/hpp/constraints, src/function")],
 observe=["value(), jacobian(), activeParameters(), activeDerivativeParameters()"])

prop("C15", "Equality of functions and constraints is an equivalence that distinguishes behaviour",
 """Comparing functions or constraints is reflexive, symmetric and transitive, an object equals its copy, and two objects
 of the same kind built with different mathematical content (coefficients, comparison types, variables, values) are
 different.""",
 ["inputs"], "all pairs and triples of objects over a catalogue of kinds and parameters",
 "Tests compare a few pairs.",
 ["src/differentiable-function.cc", "include/hpp/constraints/affine-function.hh", "src/implicit.cc", "src/explicit.cc", "src/locked-joint.cc", "src/generic-transformation.cc", "include/hpp/constraints/differentiable-function-set.hh"],
 [("isEqual / operator==", "src, include")],
 observe=["operator== / operator!= on functions and constraints"])

prop("C16", "Symbolic expressions give the right value and derivative in every evaluation order",
 """An expression built from points, vectors and frames attached to joints, differences, sums, scalar and
 cross products, scaling, and rotations evaluates to the value and derivative of that expression at the current
 configuration, whatever sub-expressions are shared and in whatever order values and derivatives were requested, once the
 cache is invalidated on a configuration change.""",
 ["programs", "histories", "inputs"], "all expressions up to a depth, all sharing patterns, all evaluation orders and configurations",
 "Tests evaluate a few expressions once.",
 ["include/hpp/constraints/symbolic-calculus.hh", "include/hpp/constraints/symbolic-function.hh"],
 [("CalculusBase caching, expression classes", "include/hpp/constraints/symbolic-calculus.hh")],
 observe=["value(), jacobian(), cross() after computeValue/computeJacobian/invalidate"])

prop("C17", "Contact constraints select the contacting pair and encode relative poses faithfully",
 """A surface contact constraint is about the pair of surfaces that is closest in the documented sense, is satisfied exactly
 when the object surface lies flat on the floor surface inside its outline, and together with its complement determines the
 pair and the full relative pose. Point-in-polygon, distance and projection queries on the planar surfaces are exact.""",
 ["inputs", "configurations"], "all polygons over a grid, all point positions, all arrangements of several object and floor surfaces",
 "Tests sample a few random contacts and check Jacobians.",
 ["src/convex-shape-contact.cc", "include/hpp/constraints/convex-shape.hh", "src/explicit/convex-shape-contact.cc"],
 [("ConvexShapeContact::selectConvexShapes/computeInternalValue/computeContactPoints", "src/convex-shape-contact.cc"),
  ("ConvexShape geometry", "include/hpp/constraints/convex-shape.hh"),
  ("ConvexShapeContactComplement::computeRelativePoseRightHandSide", "src/convex-shape-contact.cc")],
 observe=["function values", "computeRelativePoseRightHandSide", "isInsideLocal/distanceLocal/intersection"])

prop("C18", "Locked joints and relative-pose queries describe the constraint they were built from",
 """Locking a joint (or some of its variables) makes exactly those variables outputs with the given value and no other variable. The
 query telling which two joints' relative pose a constraint fixes or restricts names exactly the joints of that constraint, and resolving an explicit relative pose puts the moved
 object at the requested pose.""",
 ["inputs", "configurations"], "all joints and index ranges of robots with several joint types; all poses and joint pairs",
 "Tests lock a few whole joints of one robot.",
 ["src/locked-joint.cc", "src/explicit/relative-pose.cc", "src/explicit/relative-transformation.cc", "src/explicit/implicit-function.cc", "src/generic-transformation.cc", "include/hpp/constraints/generic-transformation.hh"],
 [("LockedJoint constructors; doesConstrainRelPoseBetween; dependsOnRelPoseBetween; RelativePose", "src/locked-joint.cc, src/implicit.cc, src/explicit")],
 observe=["indices, value, doesConstrainRelPoseBetween, solve"])

prop("C19", "Lower priorities never disturb higher priorities",
 """In a problem with several priority levels, one descent direction decreases the highest level as if the lower ones were absent and each lower level
 moves only in directions that leave the higher levels unchanged to first order. Solving an affine problem whose levels conflict satisfies
 every level that can be satisfied given those above it.""",
 ["inputs", "configurations"], "all affine problems with conflicting, redundant or rank-deficient levels",
 "Tests never build conflicting levels.",
 ["src/solver/hierarchical-iterative.cc", "include/hpp/constraints/svd.hh"],
 [("HierarchicalIterative::computeDescentDirection, expandDqSmall", "src/solver/hierarchical-iterative.cc")],
 observe=["oneStep, solve, residualError"])

prop("C20", "Projecting a velocity on the constraint tangent space is the orthogonal projection",
 """Projecting a velocity on the tangent space of the constraints at a configuration yields a velocity of the free variables that, together with the
 motion of the explicit variables it induces, changes no active equality to first order, that leaves tangent velocities unchanged, and that is the closest one. Projecting a
 configuration is moving along the projected velocity.""",
 ["inputs"], "all affine problems with explicit parts, all velocities",
 "Tests check one projection.",
 ["src/solver/hierarchical-iterative.cc", "src/solver/by-substitution.cc"],
 [("BySubstitution::projectVectorOnKernel, projectOnKernel", "src/solver/by-substitution.cc")],
 observe=["projectVectorOnKernel, projectOnKernel"])

prop("C21", "Pose functions return the pose error of the frames they were given, with its derivative",
 """Position, orientation and transformation functions, absolute or relative, return the relative pose of the second frame in the first one, restricted to
 the selected components and expressed in the documented frame, and their derivative is that of this value; configuration-distance, centre-of-mass, point-distance, body-distance, static-stability and manipulability functions likewise equal their definition.""",
 ["inputs", "configurations"], "all joint pairs (including the world), frame placements, component masks and configurations of a robot with rotations and translations",
 "Tests compare derivatives with finite differences on random configurations; values are compared to hand formulas on a few.",
 ["src/generic-transformation.cc", "src/generic-transformation/helper.hh", "include/hpp/constraints/generic-transformation.hh", "src/configuration-constraint.cc", "src/relative-com.cc", "src/com-between-feet.cc", "src/distance-between-points-in-bodies.cc", "src/distance-between-bodies.cc", "src/static-stability.cc", "src/manipulability.cc"],
 [("GenericTransformation::impl_compute/impl_jacobian", "src/generic-transformation.cc, helper.hh")],
 observe=["value(q), jacobian(q)"])

with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
