"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
A = "active_subspaces/"
U = A + "utils/"
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, observe=observe, state=state))


prop("C01", "Gradient-based subspace is the eigendecomposition of the weighted outer product",
     "For every M-by-m array of gradients and every vector of weights, the computed eigenvalues (m-by-1, descending) and eigenvectors "
     "(m-by-m orthogonal, first row non-negative) are those of the weighted average of the gradients' outer products, whatever the scaling, "
     "rank or memory layout of the array. "
     "W1 and W2 are consecutive columns of the eigenvectors, and no bootstrap ranges exist when no bootstrap was asked for.",
     ["inputs"], "all gradient arrays with at least two inputs, all weight vectors",
     "Tests compare a handful of fixed random arrays with stored output; rank deficiency, ties, scaling, weights and layouts are not reached.",
     [A + "subspaces.py"], [("Subspaces.compute", A + "subspaces.py"), ("active_subspace", A + "subspaces.py"), ("sorted_eigh", A + "subspaces.py")],
     "property-based testing against an independently accumulated matrix (residual, orthogonality, order, sign)",
     "Generated gradient arrays; residual and orthogonality bounds near rounding. Bounded sizes (m<=25).",
     ["Subspaces.eigenvals", "Subspaces.eigenvecs", "Subspaces.W1", "Subspaces.W2"])
prop("C02", "OLS, QPHD and OPG estimators equal their defining regressions",
     "The OLS estimator returns the rank-one outer product of the weighted least-squares linear gradient, QPHD the average outer product of the gradient of "
     "the least-squares quadratic (second moment 1/3 for data in the unit box, 1 otherwise), and OPG the average outer product of local linear gradients. "
     "On affine data all agree with the true gradient; on exactly quadratic data QPHD is exact.",
     ["inputs"], "all input/output data with a well-conditioned regression",
     "Tests check stored outputs of one data set; the box/Gaussian switch and the weights are never varied.",
     [A + "subspaces.py", A + "gradients.py", U + "response_surfaces.py"],
     [("ols_subspace", A + "subspaces.py"), ("qphd_subspace", A + "subspaces.py"), ("opg_subspace", A + "subspaces.py")],
     "property-based testing against an independent regression model",
     "Generated data sets with known gradients or an independent regression; OPG on affine and two-cluster data.")
prop("C03", "Dimension choice and partition are consistent over every call history",
     "The automatic dimension follows the documented rule: the largest gap of the eigenvalues (or of the subspace errors, or the minimum of the ladle criterion) and lies in the admissible range. "
     "After any history of computations and valid or rejected partition calls, W1 and W2 are the first n and the remaining eigenvectors of the last computation.",
     ["inputs", "histories"], "all spectra and all histories of compute/partition calls",
     "Tests try three fixed spectra and one partition; ties, zeros, rejected calls and repeated computations are not sampled.",
     [A + "subspaces.py"], [("eig_partition, errbnd_partition, ladle_partition", A + "subspaces.py"), ("Subspaces.partition", A + "subspaces.py")],
     "model-based testing over generated call histories, oracle for the gap and ladle rules",
     "Generated spectra (with ties accepted either way) and histories of up to 8 calls against a small model.")
prop("C04", "Bootstrap ranges summarise resamples of the data",
     "The bootstrap eigenvalue ranges are the minimum and maximum, and the subspace errors the minimum, mean and maximum, over resamples of the data rows with replacement, each row "
     "keeping its own output, gradient and weight. "
     "Ranges are ordered and subspace errors lie in [0,1]; data whose every resample determines the same subspace have ranges that collapse onto the estimate.",
     ["inputs"], "all data sets; exhaustively over resamples for samples of up to four rows",
     "Tests compare one seeded run with stored numbers, which says nothing about which resamples are admissible.",
     [A + "subspaces.py"], [("_bootstrap_ranges", A + "subspaces.py"), ("_bootstrap_replicate", A + "subspaces.py")],
     "property-based testing with exhaustive enumeration of resamples as oracle",
     "All M^M resamples of samples with M<=4 rows are enumerated and compared with a bootstrap large enough to see each; statistical mean at 6.5 sigma.")
prop("C05", "Finite-difference gradients are forward differences of the given function",
     "Every entry of the finite-difference gradient is the forward difference of the function at that row and coordinate with the step given (1e-6 by default). "
     "The function is only ever run at the rows and at the rows with one coordinate shifted by the step; plain functions and simulation runners give the same result.",
     ["inputs"], "all point sets, step sizes and functions",
     "Tests run one smooth function at one step.", [A + "gradients.py"], [("finite_difference_gradients", A + "gradients.py")],
     "property-based testing against the definition, with a recording function", "Generated functions, points and steps; recorded evaluation points.")
prop("C06", "Local linear gradients are nearest-neighbour regressions",
     "Every returned gradient is the slope of the least-squares linear model of the p samples nearest to one of the samples (p = floor(1.7 m) by default). "
     "Hence gradients of affine data are exact, and points from far-apart clusters are not mixed.",
     ["inputs"], "all samples in general position, all admissible p and weights",
     "Tests check shapes and one stored result; the set of neighbours is not observed.", [A + "gradients.py"], [("local_linear_gradients", A + "gradients.py")],
     "property-based testing against all admissible neighbourhood regressions",
     "Every row must match the regression for some centre; generated samples, p and weights.")
prop("C07", "Simulation runners apply the function to each row once, in order",
     "Running a simulation or gradient runner calls the function exactly once per row, in order, with a 1-by-m array holding that row, and stacks the results row by row. "
     "An exception of the function reaches the caller, and a function may keep its argument or reuse the array it returns without harm.",
     ["inputs"], "all input arrays and functions", "Tests use one function and two or ten rows.", [U + "simrunners.py"],
     [("SimulationRunner.run", U + "simrunners.py"), ("SimulationGradientRunner.run", U + "simrunners.py")],
     "property-based testing with recording functions", "Generated arrays (layouts, dtypes) and recording functions.")
prop("C08", "Normalizers are mutually inverse affine maps onto the reference domain",
     "The bounded normalizer maps lower and upper bounds to -1 and 1 affinely, and the unbounded one maps the Gaussian's mean to 0 and whitens its covariance. "
     "Normalizing and unnormalizing are inverse to each other to rounding, for every point and every shape in which bounds or mean may be given.",
     ["inputs"], "all boxes, positive definite covariances and points", "Tests check shapes and one round trip in the reference box.",
     [U + "misc.py"], [("BoundedNormalizer", U + "misc.py"), ("UnboundedNormalizer", U + "misc.py")],
     "property-based testing: round trips, affine and whitening relations", "Condition-aware tolerances; condition numbers up to 1e6.")
prop("C09", "The bounded active-variable domain is exactly the image of the hypercube",
     "The vertices, hull and constraints of a bounded domain describe the image of [-1,1]^m under the active directions: vertices are images of corners, their number is the zonotope's, "
     "and a point satisfies the constraints exactly when it is in the image. "
     "For one active variable the domain is the interval between the two extreme corners.",
     ["inputs"], "all orthogonal bases in general position but for zero and parallel rows", "Tests compare one or two seeded bases and the vertex count of a few sizes.",
     [A + "domains.py"], [("BoundedActiveVariableDomain.compute_boundary", A + "domains.py"), ("zonotope_vertices, nzv, interval_endpoints", A + "domains.py")],
     "property-based testing against support functions, a corner-enumeration oracle and the volume formula",
     "m<=8, n<=4, general position (small sign cells excluded by an own sampling rule).")
prop("C10", "Forward and inverse maps between inputs and active variables are consistent",
     "The forward map returns the coordinates of each input along the active and inactive directions; the inverse map returns, for each active point, the requested number of inputs that "
     "map back to it, with the index of the active point. "
     "Bounded inputs stay in the hypercube and cover what the active point leaves free; unbounded inactive variables are independent standard normals; a repeated active point gets inputs of its own.",
     ["inputs"], "all bases, active points of the domain (interior to corner) and sample counts", "Tests check shapes and one round trip on an interior point.",
     [A + "domains.py"], [("ActiveVariableMap.forward/inverse", A + "domains.py"), ("regularize_z", A + "domains.py"), ("_rotate_x", A + "domains.py")],
     "property-based testing: projection identities, feasibility, moment tests", "Generated bases and active points including the boundary; moments at a false-alarm level below 1e-9.")
prop("C11", "Samplers of the inactive variables stay feasible and sample the uniform law",
     "Every sampler of the inactive variables returns the requested number of finite points of the polytope that the active point leaves free, also when the point lies on or next to the boundary. "
     "Where the polytope has volume the samples are distinct, cover it and follow the uniform law (the random walk at least moves through it).",
     ["inputs"], "all bases, active points and sample counts", "Tests run each sampler on one seeded interior point and check the shape.",
     [A + "domains.py"], [("sample_z, hit_and_run_z, rejection_sampling_z, random_walk_z", A + "domains.py")],
     "property-based testing: feasibility invariants and distribution tests against closed forms",
     "Feasibility for every sample; Kolmogorov and moment tests on fibres with known law at levels below 1e-9.")
prop("C12", "Gaussian quadrature rules are exact to their degree",
     "For every number of points per dimension, the Gauss-Legendre and Gauss-Hermite rules integrate every polynomial up to degree 2N-1 in each variable exactly against the uniform and the standard Gaussian law, with positive weights that sum to one and nodes on the tensor grid in lexicographic order. "
     "The recurrence coefficients are those of the corresponding orthogonal polynomials, for all admissible Jacobi parameters and intervals.",
     ["inputs"], "all counts 1..40 per dimension, 1..4 dimensions, all Jacobi parameters > -1", "Tests compare a few rules with stored numbers.",
     [U + "quadrature.py"], [("r_hermite, r_jacobi, jacobi_matrix", U + "quadrature.py"), ("gl1d, gh1d, g1d, gauss_legendre, gauss_hermite", U + "quadrature.py")],
     "property-based testing against exact moments", "All monomials or random polynomials up to the degree of exactness; moments in closed form.")
prop("C13", "Designs lie in their domain and are spread out",
     "Interval designs are equally spaced interior points; Gauss-Hermite designs are the tensor grid of Gauss-Hermite nodes; maximin designs lie inside the polytope of the given vertices, symmetric or not, to rounding and not just to the tolerance of an optimiser, and do not depend on the random state or on earlier calls. "
     "Maximin designs succeed on most polytopes and are about as well spread as the best of many random designs.",
     ["inputs"], "all intervals, point counts and polytopes in two and three dimensions", "Tests check one seeded zonotope (symmetric, so mirror images go unnoticed).",
     [U + "designs.py"], [("interval_design", U + "designs.py"), ("maximin_design", U + "designs.py"), ("gauss_hermite_design", U + "designs.py")],
     "property-based testing: feasibility, determinism, comparison with random designs", "Success and spread are required of 4 out of 10 polytopes per group, since SLSQP may fail.")
prop("C14", "Polynomial surfaces are least-squares fits with exact derivatives",
     "A trained polynomial surface predicts the least-squares polynomial of total degree N (hence reproduces polynomials exactly), its gradient is the derivative of its prediction, and its reported linear and quadratic coefficients and R-squared belong to that polynomial. "
     "Predictions do not depend on how points are batched, nor on earlier trainings of the same object.",
     ["inputs", "histories"], "all well-conditioned data sets, degrees, dimensions and training sequences", "Tests check degree two or three on one data set.",
     [U + "response_surfaces.py"], [("PolynomialApproximation", U + "response_surfaces.py"), ("polynomial_bases, grad_polynomial_bases, index_set", U + "response_surfaces.py")],
     "property-based testing against an independent basis and least squares; derivative check", "Up to 130 terms; data kept well conditioned.")
prop("C15", "Radial basis surfaces solve their interpolation equations",
     "A trained radial basis surface satisfies its equations: kernel matrix plus noise times the coefficients plus the polynomial part equals the data, predictions are kernels plus polynomial, gradients are the derivative of the predictions. "
     "Polynomials up to its degree are reproduced, length scales are inversely proportional to the eigenvalues, up to one factor in the documented range that is locally optimal for the training objective.",
     ["inputs", "histories"], "all data sets, noise vectors and eigenvalues", "Tests check shapes and one stored value; training fails altogether on current numpy before the fix.",
     [U + "response_surfaces.py"], [("RadialBasisApproximation", U + "response_surfaces.py"), ("exponential_squared, grad_exponential_squared", U + "response_surfaces.py")],
     "property-based testing of the defining equations and metamorphic relations", "Structure rather than stored values, as the length-scale search is sensitive to rounding.")
prop("C16", "Active-subspace response surfaces are surfaces of the active variables",
     "Training with data fits the surface to the active coordinates of the inputs; training with an interface runs the simulation on the design (and the vertices of a bounded domain) and fits the conditional means, with conditional variances as noise. "
     "Predictions and gradients in the full space are those of the active variables carried through W1, constant along inactive directions; polynomial ridge functions are recovered exactly.",
     ["inputs"], "all bases, domains, surfaces, functions and design sizes", "Tests check shapes on one seeded example per method.",
     [A + "response_surfaces.py"], [("ActiveSubspaceResponseSurface", A + "response_surfaces.py"), ("av_design", A + "response_surfaces.py")],
     "property-based testing: recorded interface calls, differential fit, chain-rule relation", "Interface evaluations are recorded and replayed into an independent fit.")
prop("C17", "Integration rules on the active variables have the right nodes and weights",
     "The rule on the active variables has non-negative weights that sum to one and equal the probability that the active coordinates of a random input fall in the node's cell (Gauss-Hermite for Gaussian inputs); the rule on the inputs splits each weight over points that map to the node. "
     "The integral is the weighted sum of the function values, with the documented 95% Monte Carlo bounds; constants, and low-degree polynomial ridge functions of Gaussian inputs, are integrated exactly.",
     ["inputs"], "all bases, domains, rule sizes, sample counts and integrands", "Tests compare one seeded value per domain.",
     [A + "integrals.py"], [("integrate, av_integrate", A + "integrals.py"), ("quadrature_rule, av_quadrature_rule", A + "integrals.py"), ("interval_/zonotope_quadrature_rule", A + "integrals.py")],
     "property-based testing against independent cell probabilities, recorded evaluations and exact moments",
     "Cell probabilities within 7 standard deviations; runs in which SLSQP fails are skipped and bounded by C13.")
prop("C18", "Minimisation over the active variables finds a minimiser inside the domain",
     "The minimiser returned lies in the domain, the minimum returned is the function's value there, and it is a first-order minimiser, the global one for convex functions and nearly always for double wells, in whatever units the function is given; a function without a minimum raises an exception. "
     "The result does not depend on the state of the random generator, which is left untouched even when the minimisation fails or the function raises.",
     ["inputs"], "all domains and smooth functions, with and without a gradient", "Tests minimise one quadratic per domain.",
     [A + "optimizers.py"], [("av_minimize, interval_/zonotope_/unbounded_minimize", A + "optimizers.py")],
     "property-based testing against optimality conditions (linear minorant over the vertices) and known minima",
     "Groups of eight functions of which at least four must be solved; scipy may report failure.")
prop("C19", "The minimising map completes active points with minimising inactive variables",
     "The inverse of the minimising map returns, for each active point, an input that maps back to it, lies in the hypercube when inputs are bounded, and whose inactive variables minimise the (slightly regularised) quadratic surrogate trained from the data, whatever the units of the outputs. "
     "Minimising a response surface returns an input whose predicted value is the returned minimum and that is a minimiser of the surface.",
     ["inputs"], "all bases, domains, training data and active points including corners", "Tests only check the shape of the results, so sign and factor errors go unseen.",
     [A + "optimizers.py"], [("BoundedMinVariableMap, UnboundedMinVariableMap", A + "optimizers.py"), ("minimize", A + "optimizers.py")],
     "property-based testing against optimality conditions of an independently fitted surrogate", "First-order optimality by linear programming over the fibre; scipy failures bounded per group.")
prop("C20", "Linear and quadratic programs are solved to optimality or refused",
     "Every solvable linear or convex quadratic program gets a feasible point whose objective is the optimum, including programs with a non-symmetric quadratic term, active bounds, fixed variables, an infeasible origin or an objective in other units. "
     "Infeasible and unbounded programs raise an exception instead of returning a point; well-posed quadratic programs are rarely refused.",
     ["inputs"], "all programs with up to 24 variables and 60 constraints, built around a known optimum", "Tests solve one program of each kind.",
     [U + "qp_solver.py"], [("QPSolver", U + "qp_solver.py")], "property-based testing with programs generated from their optimality conditions",
     "Optimum known by construction; tolerances follow scipy's solvers.")
prop("C21", "Calls do not change their arguments, other objects, or later results",
     "No public call changes the arrays it is given or the objects made by other calls, and a seeded call returns the same result whatever was called before, in a fresh process, on a reused object, inside another call or in another thread; results already returned do not change. "
     "Designs and minimisations that reseed the global generator internally restore its state.",
     ["histories", "schedules"], "all histories of up to eight calls over the public interface, nested calls and calls from several threads", "Tests run each call in isolation on fresh data.",
     [A + "subspaces.py", A + "domains.py", A + "response_surfaces.py", A + "integrals.py", A + "optimizers.py", U + "response_surfaces.py", U + "designs.py", U + "misc.py"],
     [("copies of arguments, restored random state, per-instance attributes", A)],
     "stateful property-based testing over generated histories with a before/after differential", "27 kinds of action; equality to 1e-7; thread schedules are those the interpreter happens to take.")
prop("C22", "Invalid input is rejected, not turned into an answer",
     "Arguments of the wrong dimension, mismatched lengths, wrong types, out-of-range sizes, missing data, unknown options and objects that are not ready raise an exception instead of producing a result. "
     "A rejected call leaves the object as it was.",
     ["inputs"], "about 140 kinds of invalid call with generated sizes and values", "Tests cover about a dozen fixed invalid calls.",
     [A + "subspaces.py", A + "domains.py", A + "gradients.py", A + "integrals.py", A + "optimizers.py", A + "response_surfaces.py", U + "misc.py", U + "designs.py", U + "quadrature.py", U + "response_surfaces.py"],
     [("process_inputs, process_inputs_outputs", U + "misc.py"), ("argument checks of each entry point", A)],
     "property-based negative testing with valid neighbours", "Any exception counts as a rejection; the valid neighbour must succeed.")
prop("C23", "Plots show exactly the data they are given",
     "Each plotting function draws every given value at its coordinates (eigenvalues and ranges, subspace errors, eigenvector entries, summary points with their outputs as height or colour, zonotope hull, design and its triangulation), inside the axes and not hidden, whatever the data's signs and scale. "
     "With saving on it writes the documented files in the chosen format, each holding the figure shown, otherwise none.",
     ["inputs", "configurations"], "all data of the documented shapes, labels and options", "Tests only check that the functions do not raise.",
     [U + "plotters.py"], [("eigenvalues, subspace_errors, eigenvectors, sufficient_summary, zonotope_2d_plot, plot_opts", U + "plotters.py")],
     "property-based testing by reading back the figure objects", "Artists held by matplotlib (Agg) are compared with the data; styles are not examined.")
prop("C24", "Grouped means and variances and array-shape helpers are exact",
     "Conditional expectations return, for each label, the mean and the population variance of the values with that label, in whatever order labels come. "
     "Shape helpers return the same values as a two-dimensional array of the documented orientation, and the unique-row helper returns each distinct row once, for any memory layout.",
     ["inputs"], "all value/label arrays, array-likes and memory layouts", "Tests use sorted labels in equal groups and one-dimensional lists.",
     [U + "misc.py", A + "domains.py"], [("conditional_expectations, atleast_2d, process_inputs", U + "misc.py"), ("unique_rows", A + "domains.py")],
     "property-based testing against definitions", "Direct definitions as the oracle.")
prop("C25", "Shipped test functions have correct values and gradients",
     "Each model in the tutorials (borehole, circuit, piston, robot arm, wing weight in normalized and in physical inputs) returns its published formula at every row, and its gradient function returns the derivative of that formula with respect to the inputs it takes. "
     "Rows are independent of each other and the input array is not changed.",
     ["inputs"], "all points of the models' domains", "There are no tests of the tutorial functions.",
     ["tutorials/wing_functions.py", "tutorials/test_functions/borehole/borehole_functions.py", "tutorials/test_functions/otl_circuit/otlcircuit_functions.py",
      "tutorials/test_functions/piston/piston_functions.py", "tutorials/test_functions/robot/robot_functions.py", "tutorials/test_functions/wing_weight/wing_functions.py"],
     [("value and gradient functions", "tutorials/")],
     "property-based testing against independent formulas and extrapolated differences",
     "Physical-input wing model: the sweep derivative is per radian, as the tutorial's own chain-rule factor assumes.")
prop("C26", "The whole pipeline recovers ridge functions",
     "For a function of a few linear combinations of its inputs, exact gradients give an active subspace that is the span of those combinations, points mapped back from active variables have the same function value, polynomial surfaces of sufficient degree reproduce value and gradient, "
     "integrals agree with the exact mean and minima of convex functions are found. "
     "An orthogonal change of inputs or a rescaling of the outputs changes the computed subspaces and eigenvalues accordingly.",
     ["inputs", "configurations"], "all ridge polynomials of degree up to 3 in 2 to 7 inputs, bounded or Gaussian", "No test runs more than one stage on the result of another with a known answer.",
     [A + "subspaces.py", A + "domains.py", A + "response_surfaces.py", A + "integrals.py", A + "optimizers.py", A + "gradients.py", U + "misc.py", U + "simrunners.py"],
     [("compute, partition, domain, map, surface, integrate, minimize", A)],
     "property-based end-to-end testing with known answers and metamorphic relations", "Exact answers by construction; hard-to-sample zonotopes are skipped.")
prop("C27", "The Gurobi back end poses the documented programs",
     "When Gurobi can be imported and is selected, each linear and quadratic program is posed to it once with the documented objective, constraints, bounds and continuous variables, and its solution is returned as a column. "
     "A status other than optimal raises an exception, and the scipy back end is used only when asked for.",
     ["inputs", "fault_sequences"], "all programs with at most 8 variables and 12 constraints, all solver statuses", "Gurobi is not installed, so tests never run this path.",
     [U + "qp_solver.py"], [("_gurobi_* functions, QPSolver", U + "qp_solver.py")],
     "property-based testing with a recording stand-in for gurobipy", "The stand-in records the program as polynomials; Gurobi's own solution process is not examined.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "hook_needed": None}
            if p["observe"]:
                a["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    man = {"version": 1, "setup_cmd": "/opt/venv/bin/python tools/setup.py", "checks": [], "not_applicable": [],
           "notes": "No hooks in /repo: every check observes the public interface of the working tree. Replay a saved case: check.py ID --replay FILE."}
    for p in P:
        man["checks"].append({"property": p["id"], "quick_cmd": "/opt/venv/bin/python check.py " + p["id"],
                              "thorough_cmd": "/opt/venv/bin/python check.py " + p["id"] + " --thorough",
                              "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
