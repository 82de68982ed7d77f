#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script only so that the text stays readable)."""
import json, pathlib
P = []
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why,
              "anchors": {"files": files,
                          "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                          "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                          "observe_at": list(observe), "hook_needed": None}})

p("C01", "A spline evaluates to its piecewise definition",
  "Evaluating a spline at any batch of points (any order, any number including zero, any start of domain, points on breakpoints, points outside the domain) returns for each point and component the sum of coefficient times basis function of the piece that contains the point; a breakpoint belongs to the piece ending there and points outside the domain use the first or last piece. "
  "Evaluating a batch is the same as evaluating its points one by one, whether through the returning or the buffer-filling call. "
  "The reported breakpoints, waypoints, interval lengths, coefficients, domain and dimensions are those of that same function.",
  ["inputs"], "all bases (Legendre, Lagrange on arbitrary nodes, Gauss-Lobatto Lagrange, basis0101), basis dimensions, codomain dimensions, numbers and lengths of intervals, coefficient vectors, domain starts and batches of points",
  "Tests evaluate a few random splines starting at 0 on uniformly spaced points and compare two evaluations of the library with each other.",
  ["src/GSpline.cpp", "include/gsplines/GSpline.hpp", "src/Basis"],
  [("piece lookup, window map and coefficient addressing", "src/GSpline.cpp"), ("basis evaluation", "src/Basis/*.cpp")],
  [("coefficients", "[interval][component][basis function]", "include/gsplines/GSpline.hpp")],
  ["values returned by operator() and value()", "get_waypoints, get_domain_breakpoints"])

p("C02", "Differentiating a spline is exact for every order",
  "The derivative of a spline of any order, obtained in one step, by repeated differentiation or through an expression, is a spline on the same domain, intervals and codomain whose value inside every piece is the exact derivative of that piece. "
  "Order zero returns the same function, and orders beyond the polynomial degree return zero.",
  ["inputs"], "all bases, dimensions, interval lengths, codomain dimensions, coefficients and derivative orders 0 to beyond the basis dimension, in every split of the order",
  "Tests compare low orders against finite differences or against one other basis on a few interpolated curves.",
  ["include/gsplines/GSpline.hpp", "src/Basis/BasisLegendre.cpp", "src/Basis/BasisLagrange.cpp", "src/Basis/Basis0101.cpp"],
  [("coefficient differentiation through the basis derivative matrix with the interval scale", "include/gsplines/GSpline.hpp deriv_impl"), ("cached derivative matrices", "include/gsplines/Basis/Basis.hpp")],
  [], ["derivate(k), deriv(k)"])

p("C03", "Basis functions, their derivatives and matrices are analytic",
  "For every basis the values, the time derivatives of any order, the derivatives with respect to the interval length and the derivative matrices of any order are those of the mathematical basis functions, at every window point and interval length. "
  "Results do not depend on which orders were requested before, and every entry of the output buffer is written, also when the buffer is a strided view.",
  ["inputs", "histories"], "Legendre of every dimension, Lagrange on any set of distinct nodes, Gauss-Lobatto Lagrange, basis0101 for every parameter in (0,1); window points inside and outside [-1,1] and on nodes; any interval length; any order; any order of requests",
  "Tests check two or three dimensions, low orders, and mostly compare library routines against each other.",
  ["src/Basis/BasisLegendre.cpp", "src/Basis/BasisLagrange.cpp", "src/Basis/Basis0101.cpp", "include/gsplines/Basis/Basis.hpp"],
  [("recurrences, barycentric formulas, closed forms", "src/Basis/*.cpp"), ("lazy cache of derivative matrices", "include/gsplines/Basis/Basis.hpp get_derivative_matrix_block")],
  [("derivative_matrix_array_", "matrices of orders computed so far", "include/gsplines/Basis/Basis.hpp")],
  ["eval_on_window, eval_derivative_on_window, eval_derivative_wrt_tau_on_window, get_derivative_matrix_block"])

p("C04", "Interpolation meets waypoints, rest ends and smoothness",
  "For any waypoints and positive interval lengths and any even-dimensional basis, the interpolated spline passes through every waypoint at the cumulative time of its interval, has zero derivatives of order 1 to dim/2-1 at both ends, and has continuous derivatives of order 1 to dim-2 at every interior breakpoint. "
  "The result depends only on the arguments of that call: an interpolator that was used before, for interpolation or for sensitivities, gives what a fresh one gives.",
  ["inputs", "histories"], "numbers of intervals, codomain dimensions, waypoints of any magnitude, interval lengths over decades, all even-dimensional bases, and sequences of calls on one interpolator",
  "Tests solve a handful of random well-scaled problems with a fresh interpolator.",
  ["src/Interpolator.cpp", "include/gsplines/Interpolator.hpp"],
  [("sparse collocation system of positions, boundary and continuity rows", "src/Interpolator.cpp"), ("reused matrix and vector buffers", "include/gsplines/Interpolator.hpp")],
  [("interpolating_matrix_", "reused between calls", "include/gsplines/Interpolator.hpp")],
  ["interpolate, solve_interpolation"])

p("C05", "Coefficient sensitivities to interval lengths are true",
  "The reported derivative of the interpolation coefficients with respect to any interval length equals the true derivative of the coefficients as a function of that length. "
  "It does not depend on the order in which sensitivities, other interval lengths or interpolations were requested from the same interpolator.",
  ["inputs", "histories"], "all even-dimensional bases, numbers of intervals from one, codomain dimensions, interval lengths, waypoints, interval indexes, and call histories on one interpolator",
  "Tests compare a few indexes against coarse finite differences of one history.",
  ["src/Interpolator.cpp", "src/Basis"],
  [("derivative system dA/dtau and linear solve", "src/Interpolator.cpp get_coeff_derivative_wrt_tau")],
  [("interpolation_matrix_ders_", "reused per interval", "include/gsplines/Interpolator.hpp")],
  ["get_coeff_derivative_wrt_tau"])

p("C06", "Sobolev cost and its gradient are those of the spline",
  "The Sobolev cost of a set of waypoints equals the weighted sum, over the requested derivative orders, of the integral over the whole domain of the squared norm of that derivative of the spline interpolating them, for any number of terms and weights. "
  "The reported gradient is the true gradient of that cost with respect to the interval lengths, and neither depends on earlier evaluations.",
  ["inputs", "histories"], "bases, waypoints, interval lengths, sets of (order, weight) terms, call histories",
  "Tests use a single term, one basis family per test and coarse finite differences.",
  ["src/FunctionalAnalysis/Sobolev.cpp", "src/Basis"],
  [("Gram matrices of the derivatives of the basis and their derivative with respect to the interval length", "src/Basis/*.cpp add_derivative_matrix*"), ("chain rule over coefficients", "src/FunctionalAnalysis/Sobolev.cpp")],
  [], ["SobolevNorm::operator(), deriv_wrt_interval_len"])

p("C07", "Function algebra acts pointwise in every overload",
  "Sum, difference, negation, product, product with a number, composition, concatenation, dot product, conversion to expression and the compound assignments give a function whose value at every point of its domain is the same operation on the values of the operands, for arbitrarily nested expressions. "
  "The domain and codomain dimension of the result are those of the mathematical result, and every copy, temporary and in-place variant of an operation gives the same function.",
  ["inputs", "programs"], "all expression trees over constant, dilation, identity, exponential, sine, cosine, polynomial, dot product and spline leaves, in every combination of copied and temporary operands",
  "Tests build a few fixed shallow trees; the nesting and value-category combinations are unbounded.",
  ["src/Functions", "include/gsplines/Functions"],
  [("flattening of operand lists by operation type", "src/Functions/FunctionGenericOperations.cpp"), ("evaluation per expression type", "src/Functions/Function*.cpp")],
  [("function_array_", "operands of an expression node", "include/gsplines/Functions/FunctionExpression.hpp")],
  ["operator(), get_domain, get_codom_dim"])

p("C08", "Derivatives of arbitrary expressions are exact",
  "Differentiating any expression any number of times, in one request or step by step, gives a function on the same domain and codomain whose value is the exact derivative of the expression at every point where it is differentiable. "
  "Order zero gives the same function.",
  ["inputs", "programs"], "all expression trees as in C07, orders 0 to 4, evaluation points in the domain",
  "Tests compare derivatives of a few fixed shallow expressions.",
  ["src/Functions", "include/gsplines/Functions"],
  [("sum, product, chain and concatenation rules building new expressions", "src/Functions/*.cpp deriv_*"), ("derivatives of elementary functions", "src/Functions/ElementalFunctions.cpp")],
  [], ["derivate(k), deriv(k)"])

p("C09", "Functions are values: operands and copies stay intact",
  "No operation that takes a function or spline by constant reference (algebra, evaluation, differentiation, integration, interpolation, scaling, copying) changes what that object evaluates to, its domain, dimension or coefficients. "
  "Copies and clones are independent of their source: later in-place changes, moves or destruction of one never show in the other, and a moved-to object is the function that was moved.",
  ["histories", "programs"], "sequences of operations over pools of functions, expressions, splines and bases, including self-operands, copy, move, clone, move-clone, in-place update and destruction in any order",
  "Tests never look at operands again after an operation.",
  ["src/Functions", "include/gsplines/Functions", "src/GSpline.cpp", "src/Basis", "src/Collocation/GaussLobattoLagrange.cpp"],
  [("deep copies through clone", "include/gsplines/Functions/FunctionInheritanceHelper.hpp"), ("rvalue overloads reuse storage", "src/Functions/*.cpp, include/gsplines/GSpline.hpp")],
  [], ["evaluation before and after"])

p("C10", "Splines form a vector space with consistent equality",
  "Sum, difference, negation and scaling of splines of the same space are splines of that space whose value is the same operation on the values, in every copy and temporary variant. "
  "Splines that do not share basis, intervals, codomain and domain are refused by sum and difference. Equality holds between a spline and its copies and fails when domain, intervals, basis or coefficients differ noticeably, and inequality is its negation. Randomly generated splines live on the requested domain.",
  ["inputs", "programs"], "all bases, shapes, coefficient magnitudes and value-category combinations, pairs of equal, nearly equal and different splines",
  "Tests check one or two sums of random splines.",
  ["include/gsplines/GSpline.hpp", "src/GSpline.cpp", "src/Tools.cpp", "src/Basis/Basis.cpp"],
  [("coefficient arithmetic guarded by same_vector_space", "include/gsplines/GSpline.hpp"), ("approximate comparison", "src/Tools.cpp")],
  [], ["operators of GSpline and collocation splines"])

p("C11", "Time scaling keeps the path and honours the limits",
  "Scaling a spline to a new execution time gives a spline with the same start, that duration and the same path: its value at a fraction of the new domain equals the original's at the same fraction, and derivatives scale accordingly. "
  "Scaling to velocity and acceleration limits (scalar or per component, either or both given) yields a spline that respects every given limit up to the sampling of the chosen step and is not slower than necessary.",
  ["inputs"], "all bases including basis0101, durations over decades, domain starts, limits present or absent, sampling steps",
  "Tests scale a few random splines and only with both limits.",
  ["include/gsplines/GSpline.hpp", "src/GSpline.cpp"],
  [("rescaling of interval lengths, reparametrisation of basis0101", "include/gsplines/GSpline.hpp linear_scaling_*")],
  [], ["linear_scaling_new_execution_time, linear_scaling_new_execution_time_max_velocity_max_acceleration"])

p("C12", "Gauss-Lobatto rules are the exact quadrature rules",
  "For any number of nodes from two on, the nodes are increasing, symmetric, include both ends, and with their positive weights integrate every polynomial of degree up to 2n-3 exactly on [-1,1]. "
  "The evaluated node polynomial is the difference of the Legendre polynomials of degrees n+1 and n-1, with its derivative. The rules on a domain with any number of equal or unequal intervals are those nodes and weights mapped to each interval in order, with weights summing to the length of the domain.",
  ["inputs", "configurations"], "numbers of nodes 2 to 64 and beyond, domains anywhere, numbers of intervals, unequal interval lengths",
  "Tests compare a few sizes with tabulated values; unequal intervals are not tested.",
  ["src/Collocation/GaussLobattoPointsWeights.cpp"],
  [("Newton iteration on Legendre polynomials", "src/Collocation/GaussLobattoPointsWeights.cpp")],
  [], ["legendre_gauss_lobatto_points, legendre_gauss_lobatto_weights"])

p("C13", "Integrals and Sobolev products of functions are right",
  "The integral of a scalar function over its domain with n nodes and m equal intervals is exact whenever the function is a polynomial of degree up to 2n-3 on each of them, and converges for smooth functions as n or m grow. "
  "The Sobolev and L2 inner products and squared norms equal the sum over the requested orders of weight times the integral of the dot product of the derivatives, are symmetric and bilinear, and squared norms are never negative. The integral of a path along a reparametrisation of time is that of the squared length of the path at the reparametrised time.",
  ["inputs"], "scalar and vector functions of every kind, domains anywhere, node and interval counts, sets of orders and weights",
  "Tests check a few integrals and one norm.",
  ["src/FunctionalAnalysis/Integral.cpp", "src/FunctionalAnalysis/Sobolev.cpp", "src/Functions/ElementalFunctions.cpp"],
  [("composite Gauss-Lobatto sum", "src/FunctionalAnalysis/Integral.cpp"), ("dot products of derivatives", "src/FunctionalAnalysis/Sobolev.cpp")],
  [], ["integral (both), sobolev_semi_inner_product, sobolev_semi_norm, sobolev_inner_product, sobolev_norm, l2_norm, l2_inner_product"])

p("C14", "Collocation splines hold and combine nodal values",
  "Approximating a function by a collocation spline with given numbers of nodes and intervals gives a spline that equals the function at every collocation point, reproduces it exactly when it is a polynomial of that degree on each interval, and reports those points as its discretisation. "
  "Products, sums and differences with splines, numbers and vectors, quotients, norms, powers and assignments act on the nodal values, in every copy and temporary variant, leaving the spline consistent with its domain and intervals.",
  ["inputs", "histories", "programs"], "functions, domains, node and interval counts, scalar and vector splines, value categories, assignment histories",
  "The collocation tests need an optimizer that is rarely installed and cover one size each.",
  ["src/Collocation/GaussLobattoLagrange.cpp", "include/gsplines/Collocation/GaussLobattoLagrange.hpp"],
  [("nodal value blocks", "src/Collocation/GaussLobattoLagrange.cpp get_value_block")],
  [], ["approximate, identity, operators, value_at, get_domain_discretization"])

p("C15", "Derivative and continuity matrices are the operators",
  "The spline derivative matrix of any order maps the coefficients of any spline of that shape to the coefficients of its derivative, and the continuity matrix maps them to the jumps (end of the left piece minus start of the right one) of the value and of every derivative up to the given order at the interior breakpoints. "
  "Both depend only on the shape, order and interval lengths of that request, not on earlier requests to the same basis object or to its copies.",
  ["inputs", "histories"], "bases, interval counts, codomain dimensions, orders, interval lengths, and sequences of requests on one basis object",
  "Tests check smooth splines only (whose jumps vanish) on a few shapes, each with a fresh basis.",
  ["src/Basis/Basis.cpp", "include/gsplines/Basis/Basis.hpp"],
  [("cached sparse patterns rescaled per request", "src/Basis/Basis.cpp")],
  [("continuity_matrix_buff_, derivative_matrix_buff_", "caches keyed by shape and order", "include/gsplines/Basis/Basis.hpp")],
  ["gspline_derivative_matrix, continuity_matrix"])

p("C16", "Serialised splines come back unchanged",
  "Converting any spline or basis to its dictionary form and back, also through JSON text, gives an object with the same basis, parameters, domain, dimensions, interval lengths and coefficients, bit for bit, and therefore the same values and derivatives. "
  "Dictionaries with missing or ill-typed top-level entries are refused with an exception.",
  ["inputs"], "all bases, shapes, domain starts, coefficient and length values; dictionaries with any entry missing or of another type",
  "The test round-trips random splines of one basis and compares approximately.",
  ["python/gsplines/serialization.py", "bindings/bindings.cpp", "src/Basis/Basis.cpp"],
  [("field by field dictionaries", "python/gsplines/serialization.py"), ("basis factory", "src/Basis/Basis.cpp get_basis")],
  [], ["gspline_to_dict, dict_to_gspline, basis_to_dict, dict_to_basis"])

p("C17", "Invalid requests throw and leave everything intact",
  "Operations without mathematical sense (sums of functions with different domains or codomains, products of two vector functions, composition with a vector-valued inner function, concatenation of functions that do not touch, splines with wrong coefficient counts, incompatible splines, non-positive interval lengths or durations, odd-dimensional or unknown bases, missing limits, vectors of limits, interval lengths or waypoints of the wrong size) raise a C++ exception. "
  "They never return a result, crash or change an operand, and the objects involved remain usable.",
  ["inputs", "histories"], "all invalid operand combinations near and far from the limit of validity, in every overload, followed by further use of the operands",
  "Tests exercise at most one invalid call per class and never look at the operands afterwards.",
  ["src/Functions", "include/gsplines/GSpline.hpp", "src/GSpline.cpp", "src/Interpolator.cpp", "src/Basis/Basis.cpp", "src/Collocation/GaussLobattoLagrange.cpp"],
  [("compatibility checks before building results", "src/Functions/*.cpp *_throw, include/gsplines/GSpline.hpp")],
  [], ["exceptions raised at the API"])

p("C18", "No memory error, undefined behaviour, leak or garbage read",
  "No sequence of valid API calls, and no rejected call, reads or writes outside live memory, executes undefined behaviour, leaks, or aborts. "
  "Every returned number is determined by the arguments: results never depend on uninitialised memory or on what the allocator returns.",
  ["inputs", "histories"], "mixed sequences of API calls over all parts with boundary sizes (no points, one interval, smallest dimensions, strided views), object lifetimes, moves and rejected calls; different contents of fresh memory",
  "Tests run without instrumentation and compare tolerantly; a stale or uninitialised entry often happens to be zero.",
  ["src", "include/gsplines"],
  [("Eigen containers, unique_ptr ownership, asserts", "src, include/gsplines")],
  [], ["sanitizer reports, allocator balance, digests of all results under different memory fills"])

p("C19", "Threads using distinct objects do not interfere",
  "Threads that each work only on their own functions, splines, bases, interpolators and costs, including copies made from a common object beforehand, run without data races, and each obtains exactly the results it would obtain alone.",
  ["schedules"], "interleavings of 2 to 8 threads running mixed API calls on distinct objects",
  "No test starts a thread.",
  ["src", "include/gsplines"],
  [("objects own deep copies of everything they use", "include/gsplines/Functions/FunctionInheritanceHelper.hpp, src/GSpline.cpp"), ("no shared mutable globals", "src/Tools.cpp, src/Functions/FunctionExpression.cpp")],
  [("last_error, call counters", "process-wide state", "src/Tools.cpp, src/Functions/FunctionExpression.cpp")],
  ["race detector reports, per-thread result digests"])

p("C20", "Collocation functionals agree with the operations they discretise",
  "The linear and quadratic functionals on collocation splines (derivative, multiplication by a spline or its transpose, continuity error, integral, and the H1 distance by quadrature at the collocation points) evaluated on a spline give the result of the corresponding operation on the function it represents, and their derivatives or matrices are the true derivatives of that evaluation. "
  "Updating a functional with new data or interval lengths gives what building it anew gives.",
  ["inputs", "histories"], "node and interval counts, codomain dimensions, domains, splines, update histories",
  "These tests need the ifopt optimizer and are not built without it; they cover one size each.",
  ["src/Collocation/GaussLobattoLagrangeFunctionals.cpp", "include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp"],
  [("sparse matrices assembled from Lagrange operators", "src/Collocation/GaussLobattoLagrangeFunctionals.cpp, include/gsplines/Collocation/GaussLobattoLagrangeFunctionals.hpp")],
  [], ["operator() and matrices of the functionals"])

p("C21", "The optimisation problem posed is the one promised",
  "The problem handed to the optimizer has one variable per interval length, starting feasible and bounded below by zero, a constraint equal to the total duration with its exact gradient, and a cost and gradient equal to the Sobolev cost of the interpolating spline. "
  "The returned path interpolates the waypoints with the interval lengths of the solution, whose sum is the requested duration; when the solver reports failure no path is returned. The options set by the user reach the solver.",
  ["inputs", "histories"], "waypoints, weights, bases, durations, sequences of points visited by the optimizer",
  "The tests need ifopt and Ipopt, and only look at the final path.",
  ["src/Optimization/ipopt_interface.cpp", "src/Optimization/ipopt_solver.cpp", "include/gsplines/Optimization"],
  [("ifopt components", "src/Optimization/ipopt_interface.cpp"), ("solver front ends", "src/Optimization/ipopt_solver.cpp")],
  [], ["values and Jacobians of the posed problem at every visited point"])

p("C22", "Basis construction by name and equality are faithful",
  "Requesting a basis by name, dimension and parameters gives the basis of that family with those parameters and, where the family does not fix it, that dimension, behaving like one built directly; an unknown name, missing or invalid parameters (repeated nodes, a basis0101 parameter outside (0,1)) and dimension zero are refused. "
  "Two bases compare equal exactly when family and dimension agree and the parameters agree up to about 1e-6, and copies, clones and moved clones equal and behave like their source.",
  ["inputs", "histories"], "families, dimensions, parameter vectors, copy and move histories",
  "Tests request one basis per family.",
  ["src/Basis/Basis.cpp", "src/Basis", "include/gsplines/Basis"],
  [("factory", "src/Basis/Basis.cpp get_basis"), ("comparison of name, dimension and parameters", "src/Basis/Basis.cpp operator==")],
  [], ["get_basis, operator==, clone, move_clone"])

p("C23", "Lagrange node operators and Gram matrices are exact",
  "For any distinct nodes, the barycentric weights, the derivative matrices of any order and the change-of-nodes matrix reproduce every polynomial of the corresponding degree exactly, also when some nodes coincide between the two sets. "
  "For every basis the accumulated matrices of the squared derivative norms are the true Gram matrices of the derivatives on an interval of the given length, are added to what the buffer held, and their length derivatives, where the basis provides them, are the true ones.",
  ["inputs"], "node sets with and without the end points, coincident and distinct target nodes, orders, interval lengths, prior buffer contents",
  "Tests use Gauss-Lobatto nodes and one order.",
  ["src/Basis/BasisLagrange.cpp", "src/Basis/BasisLegendre.cpp", "src/Basis/Basis0101.cpp"],
  [("barycentric formulas", "src/Basis/BasisLagrange.cpp"), ("Gram matrices", "src/Basis/*.cpp add_derivative_matrix")],
  [], ["barycentric_weights, derivative_matrix, change_interpolation_points, add_derivative_matrix, add_derivative_matrix_deriv_wrt_tau"])

p("C24", "The Python interface computes what the C++ library computes",
  "Through the Python bindings, evaluation, differentiation, algebra, composition, concatenation, interpolation, scaling, integration, collocation and basis queries give the mathematically defined values for float arrays of any layout (contiguous, strided, reversed, transposed, broadcast, read-only), integer and single precision arrays and lists, never modify their array arguments, and raise Python exceptions for invalid requests. "
  "Returned arrays and objects stay valid and unchanged after the objects they came from are modified or deleted.",
  ["inputs", "histories"], "array layouts and types, function and spline trees, lifetimes and deletion orders",
  "The Python tests use contiguous float arrays and keep all objects alive.",
  ["bindings", "python/gsplines"],
  [("pybind11 wrappers and trampolines", "bindings/bindings.cpp, bindings/pybasis.hpp, bindings/pyfunctions.hpp")],
  [], ["values returned to Python"])

p("C25", "Plots show the function",
  "Every plotting helper draws, for any function or spline of any codomain dimension, number of derivatives and time step, one axis per derivative and component with the value of that derivative and component over the whole domain at the requested step, inside the limits of the axis. "
  "Splines also get a vertical line at every breakpoint and a marker at every waypoint; compared curves keep their colours and their legend labels; the two-dimensional plots draw the path itself. Nothing else is drawn and the function is not changed.",
  ["inputs"], "functions and splines of 1 to 4 components, 0 to 4 derivatives, time steps, numbers of compared curves, colours and legends",
  "There are no tests of the plots.",
  ["python/gsplines/plot"],
  [("line containers", "python/gsplines/plot/LinesContainer.py"), ("figures", "python/gsplines/plot/plot.py")],
  [], ["data, colours, legends and limits of the matplotlib artists after the call"])

p("C26", "Approximate comparisons separate close from different",
  "Comparing two numbers, matrices or splines with a tolerance is symmetric and reflexive, answers yes when they have the same shape (for splines also the same basis) and differ by well less than the tolerance relative to their size (or absolutely, when one of them is below the tolerance), and no when any single entry, interval length or start of domain differs by well more. "
  "Comparing with zero answers whether every entry is below the tolerance.",
  ["inputs"], "numbers, matrices and splines of any size and magnitude including zero, tolerances from 1e-10 to 1e-2, one difference anywhere",
  "The tests use the comparisons as their own oracle, on values that agree.",
  ["src/Tools.cpp", "include/gsplines/Tools.hpp"],
  [("comparisons", "src/Tools.cpp")],
  [], ["the verdict of each comparison in both orders"])

out = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
out.write_text("".join(json.dumps(x) + "\n" for x in P))
for x in P:
    assert len(x["title"]) <= 80, x["id"]
print(len(P), "properties")
