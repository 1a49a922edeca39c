"""Writes properties.jsonl and MANIFEST.json from the table below.
Run by hand after editing; not part of any check."""
import json
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "robuststats/models/"
E = "robuststats/estimation/"
U = "robuststats/utils/"

# id, title, statement, over, quantifier text, why tests cannot, files, mechanism, technique
P = []


def prop(pid, title, statement, over, text, why, files, mechanism, tech, note):
    P.append(dict(pid=pid, title=title, statement=statement, over=over,
                  text=text, why=why, files=files, mechanism=mechanism,
                  tech=tech, note=note))


prop("C01", "Complex and real representations are faithful to each other",
     "Converting complex vectors, sample matrices and covariances (one or a stack) to their real representation and back returns the original values, and the real representation is what it claims to be: real parts then imaginary parts, and half of the block matrix, so that products, quadratic forms, log-determinants and Hermitian symmetry carry over. Input that is already of the target kind is returned with its values unchanged, and shapes that cannot be converted (wrong number of axes, non-square, odd real dimension) are refused. The predicates for square, Hermitian and symmetric matrices answer by the values, at the tolerance asked for.",
     ["inputs"], "every dimension, batch size, dtype, memory layout, scale and conditioning of the array",
     "Tests convert a handful of fixed-size random arrays and check shapes and one round trip; they do not cover batches, layouts, odd dimensions or the algebraic relations.",
     [M+"mappings.py"], "array and covariance mappings between C^p and R^2p, with shape guards",
     "property-based testing: round trip, block-matrix oracle, algebraic homomorphism",
     "Generated arrays over dimension, batch, dtype, layout and scale; oracle is an independent block construction.")
prop("C02", "Circular complex normal: density, entropy and cdf follow the law",
     "The log-density, density, entropy and cumulative probabilities of the complex multivariate normal are those of the circular law with that mean and covariance, as real numbers, whether parameters are passed per call or frozen, and for one point or a batch. Affine transformations of the data change the density by exactly the Jacobian. With real parameters the results are those of the ordinary real normal law, and the documented default parameters are usable.",
     ["inputs", "configurations"], "every dimension, mean, Hermitian covariance, evaluation point(s) and calling convention (frozen or not, default or explicit parameters)",
     "Tests evaluate the functions at one fixed model and check the shape or type of the result; none compares a value with the law.",
     [M+"probability.py", M+"mappings.py"], "delegation to SciPy's real law through the real representation",
     "property-based testing: closed-form density oracle, differential frozen/unfrozen, metamorphic Jacobian",
     "Density and entropy checked against closed forms, cdf against products of one-dimensional laws.")
prop("C03", "Complex Student-t: density follows the law, frozen or not",
     "The log-density and density of the complex multivariate Student-t law with given location, shape matrix and degrees of freedom are those obtained from the real Student-t law on the real representation, as real numbers, whether parameters are passed per call or frozen, for one point or a batch. The density is invariant under a common phase, follows affine changes of variables by the Jacobian, decreases with the Mahalanobis distance, and tends to the complex normal as the degrees of freedom grow. With real parameters it is the ordinary real Student-t law.",
     ["inputs", "configurations"], "every dimension, location, Hermitian shape, degrees of freedom, evaluation point(s) and calling convention",
     "Tests build one model and check that a value comes out of the frozen log-density; the unfrozen functions are not compared with anything.",
     [M+"probability.py", M+"mappings.py"], "delegation to SciPy's real Student-t law through the real representation",
     "property-based testing: closed-form density oracle, differential frozen/unfrozen, metamorphic relations",
     "Density checked against the closed form over df 0.3..1e6.")
prop("C04", "Random draws have the requested shape, law and reproducibility",
     "Drawing from the complex normal or Student-t law gives one row of dimension p per requested sample, complex exactly when a parameter is complex. The same seed gives the same draws, in the per-call and frozen forms alike, and every source of randomness goes on where it stopped, whatever is drawn from the others in between. The draws follow the law: location, covariance, vanishing pseudo-covariance, and the distribution of the Mahalanobis distance.",
     ["inputs", "configurations", "histories"], "every dimension, size, location, covariance, degrees of freedom, seed, calling convention and history of draws",
     "Tests check shapes of a few draws from one seed; the law of the draws, in particular circularity, is never examined.",
     [M+"probability.py", M+"mappings.py"], "draws in the real representation mapped back to complex",
     "property-based testing: statistical oracle (KS and moments at false-alarm < 1e-9), seeded differential",
     "Statistical tests are at thresholds with false-alarm probability below 1e-9 per case, and the seeds are fixed by the case.")
prop("C05", "Matrix functions of Hermitian matrices satisfy their defining identities",
     "Square root, inverse square root, logarithm, exponential and real powers of a Hermitian positive definite (for the exponential, Hermitian) matrix are the Hermitian matrix functions of those names: they satisfy the defining identities, agree with an independent eigen-decomposition and with general-purpose matrix functions, commute with unitary changes of basis, and invert each other. The differentiable variant returns the same values, and its gradient is the derivative.",
     ["inputs"], "every dimension, real or complex, conditioning, scale, exponent and backend",
     "No test exercises these functions directly.",
     [U+"linalg.py", U+"backend.py"], "spectral operator on the eigen-decomposition",
     "property-based testing: algebraic identities, differential against SciPy, finite differences",
     "Conditioning up to 1e8 with tolerance scaled by condition number.")
prop("C06", "Vectorisation, half-vectorisation and structured builders are exact",
     "Vectorising stacks columns and is undone exactly by its inverse; half-vectorising keeps the lower triangle column by column and, for symmetric and complex Hermitian matrices, is undone exactly by its inverse. The Toeplitz builder has entries given by powers of the coefficient by lag with the conjugate on the other side, in the requested type. The Hermitian part, conjugate transpose, and their stacked versions agree with the definition slice by slice.",
     ["inputs"], "every size, dtype, stack size and content of the matrix, and every complex coefficient",
     "No test exercises these functions except Toeplitz as a fixture.",
     [U+"linalg.py"], "index arithmetic on Fortran-ordered triangles",
     "property-based testing: round trip, entrywise oracle", "Exact (bit-for-bit) comparisons.")
prop("C07", "The Tyler cost is the angular likelihood and its gradient is right",
     "The real and complex Tyler costs equal p times the sum of the log quadratic forms plus n times the log-determinant, as real numbers, in both the plain and the differentiable computation. They do not change under rescaling of the shape matrix, rescaling samples only adds a constant, invertible transformation of data and shape together only adds the log-Jacobian, and the automatic gradient is the derivative of the cost. Data and matrices of incompatible sizes are refused.",
     ["inputs"], "every data set, shape matrix, scaling, transformation, dimension and backend",
     "Tests check on one example that the cost runs and one scale invariance; values, complex data and gradients are not settled.",
     [M+"cost.py", U+"linalg.py", E+"covariance.py"], "quadratic forms through the inverse square root, backend switch",
     "property-based testing: closed form oracle, invariances, finite-difference gradient", "")
prop("C08", "Hermitian positive definite manifold is the affine-invariant geometry",
     "On Hermitian positive definite matrices the inner product, norm, distance, exponential, logarithm, retraction, transport, gradient and Hessian conversions are those of the affine-invariant metric, for one matrix and for stacks: the logarithm inverts the exponential, its norm is the distance, distance is a metric invariant under congruence and inversion, transport is an isometry, the retraction agrees with the exponential to second order, and converted gradients represent the derivative. Random points are positive definite and generic (neither diagonal, real nor multiples of the identity, and without common eigenvalues or eigenvectors in a stack), random tangent vectors are Hermitian of unit norm, and the dimension is the number of real degrees of freedom.",
     ["inputs"], "every size, stack size, points, tangent vectors, conditioning and step length",
     "Tests check on random points that the outputs are Hermitian and positive definite; metric identities and stacks are not examined.",
     [M+"manifolds.py", U+"linalg.py"], "closed-form affine-invariant operations on single matrices and stacks",
     "property-based testing: geometric identities, independent scipy oracle, finite differences", "")
prop("C09", "Unit-determinant manifold stays on its determinant-one surface",
     "On unit-determinant Hermitian positive definite matrices, every operation that returns a point returns one with determinant one, every operation that returns a tangent vector returns a Hermitian one whose scaled trace vanishes, projection is an orthogonal projection, and random points are generic. Exponential, logarithm, distance and inner product are those of the ambient affine-invariant geometry, transport is an isometry, and converted gradients represent the derivative along the surface. All of this holds for one matrix and for stacks.",
     ["inputs"], "every size, stack size, points, tangent vectors and step length",
     "Tests look at random points of one size only.",
     [M+"manifolds.py"], "projection and determinant normalisation on top of the ambient geometry",
     "property-based testing: invariants, orthogonality, finite differences", "")
prop("C10", "Strictly positive vectors: log-geometry identities hold per column",
     "On strictly positive vectors the exponential, logarithm, distance, inner product, norm and transport are those of the logarithmic geometry, column by column: results stay positive, the logarithm inverts the exponential, its norm is the distance, and transport is an isometry. Converted gradients represent the derivative, the converted Hessian is the covariant second derivative, and the retraction agrees with the exponential to second order. Random points are positive and random tangent vectors have unit norm.",
     ["inputs"], "every length, number of columns, scale, points, tangent vectors",
     "Tests do not exercise this manifold.",
     [M+"manifolds.py"], "elementwise formulas",
     "property-based testing: geometric identities in log coordinates, finite differences", "")
prop("C11", "Weighted product and Kronecker manifolds have one consistent metric",
     "On weighted products the inner product is the weighted sum of the factors', and distance, norm, gradient and Hessian conversion, and random tangent vectors are consistent with it. The Kronecker elliptical manifold carries the Fisher metric of the elliptical model restricted to Kronecker structured matrices with unit determinant left factor, and its converted gradient represents the derivative in that metric. Points reached by exponential or retraction remain valid.",
     ["inputs", "configurations"], "every pair of factor sizes, weights, elliptical coefficient, points and tangent vectors",
     "Tests check types and shapes of one instance.",
     [M+"manifolds.py"], "weights applied to factor operations; extra trace term in the Kronecker metric",
     "property-based testing: identities, Fisher-metric oracle on the Kronecker product, finite differences", "")
prop("C12", "Complex empirical covariance and inherited services are the complex ones",
     "The complex empirical covariance is the average outer product (around the sample mean or zero as configured), Hermitian, positive semidefinite, equivariant under linear maps, and conjugated when data are conjugated. The fitted estimator exposes location, covariance and (pseudo-)inverse consistent with that, and its services do the complex computation: Mahalanobis distances, the Gaussian log-likelihood score, and error norms (Frobenius and spectral, scaled, squared) that are zero exactly at equality.",
     ["inputs", "configurations"], "every complex data set, centring option, precision storage option, comparison matrix and norm option",
     "Tests only use the function as an initial value; none of the inherited services is called on complex data.",
     [E+"base.py", M+"mappings.py"], "complex overrides of the scikit-learn empirical covariance",
     "property-based testing: direct formula oracle, equivariance", "")
prop("C13", "Tyler estimates solve Tyler's equation and are affine equivariant",
     "At convergence the Tyler estimate, real or complex, is a Hermitian positive definite solution of Tyler's fixed-point equation, up to the tolerance asked for. It does not depend on the scale of individual samples, on their order or phase, and follows invertible linear transformations of the data up to scale; without normalisation the fixed-point iteration is exactly the documented one from the documented or given start.",
     ["inputs", "configurations"], "every data set in general position, texture, transformation, initial point, tolerance and iteration limit",
     "Tests fit one or two seeds and check closeness to the truth within a loose bound or only shapes.",
     [E+"covariance.py"], "fixed-point iteration with inverse square root whitening",
     "property-based testing: fixed-point residual, metamorphic equivariance, reference iteration", "")
prop("C14", "Shape normalisations do what they say and nothing else",
     "With trace normalisation the shape estimate has trace p, with determinant normalisation determinant one, with element normalisation a unit top-left entry, and with none it is left as the iteration produced it; an unknown name behaves as none. Estimates under different normalisations are proportional, for both estimation methods, real and complex data. The normalising factor itself scales linearly with the matrix and is one for the identity.",
     ["inputs", "configurations"], "every data set, matrix, normalisation, method, real or complex",
     "Tests compute the three functions for one matrix and check one fit per normalisation.",
     [E+"covariance.py"], "normalisation function applied to the final iterate",
     "property-based testing: constraint oracle, proportionality", "")
prop("C15", "Both Tyler methods find the same shape",
     "The natural-gradient Tyler estimate, real or complex, minimises the same Tyler cost as the fixed-point method: both agree up to scale, the reported final value is minus the cost at the returned matrix for samples normalised to unit length, and no other shape matrix has a lower cost. The result is Hermitian positive definite, follows the given starting point without depending on it, and respects the normalisation.",
     ["inputs", "configurations"], "every data set in general position with a unique minimiser, starting point and normalisation",
     "Tests check one seed with a loose distance to the true matrix.",
     [E+"covariance.py", M+"cost.py", M+"mappings.py"], "steepest descent on the manifold of positive definite matrices with automatic gradient",
     "property-based testing: differential between methods, optimality against competitors", "")
prop("C16", "Student-t estimate maximises the likelihood that score reports",
     "The centred Student-t estimator, real or complex, converges to the maximiser of the Student-t likelihood with the given degrees of freedom that its own score reports: no other matrix scores higher on the training data, and each extra iteration does not lower the score. The estimate is Hermitian positive definite, follows invertible linear transformations of the data exactly, tends to the sample covariance as degrees of freedom grow, and the score is the sum of the log-densities.",
     ["inputs", "configurations"], "every data set, degrees of freedom, starting point, transformation, real or complex",
     "Tests fit one seed per class and check closeness to the true matrix within a loose bound.",
     [E+"covariance.py", M+"probability.py"], "fixed-point iteration with Student-t weights; score through the law",
     "property-based testing: likelihood oracle, monotonicity, equivariance, reference iteration", "")
prop("C17", "Huber estimate solves Huber's equation and resists outliers",
     "At convergence the Huber estimate, real or complex, is Hermitian positive definite and solves the documented Huber equation: unit weight up to the threshold and inversely proportional weight beyond, with threshold at the requested quantile of the Gaussian law and scaling that makes the estimator consistent for Gaussian data. With all data deemed uncorrupted it tends to the sample covariance, it follows invertible linear maps, and replacing a few samples with arbitrarily large ones changes it by a bounded amount. The weight function itself is the documented one and refuses non-positive thresholds or negative scaling.",
     ["inputs", "configurations"], "every data set, quantile, contamination, starting point, real or complex",
     "Tests run the estimator for one seed with an assertion that only the size is right, two of them fail.",
     [E+"covariance.py"], "fixed-point iteration with Huber weights",
     "property-based testing: equation residual, reference iteration, contamination", "")
prop("C18", "Iterative estimators report truthfully and obey their controls",
     "Every iterative estimator stops as soon as the relative change is at most the tolerance, never exceeds the iteration limit, and reports the number of iterations done and the last relative change. Running with limit n and continuing from the result gives what a single longer run gives, and a run started at a fixed point stays there. The estimator classes return the same result as the underlying procedure with the same options, and tighter tolerance never gives a larger reported change.",
     ["inputs", "histories", "configurations"], "every data set, tolerance, iteration limit, initial point, for each iterative estimator",
     "Tests check that the count does not exceed the limit for one run.",
     [E+"covariance.py", E+"structured.py"], "while loop on delta and iteration",
     "property-based testing: split-run metamorphic relation, reference trace", "")
prop("C19", "Estimators honour the scikit-learn parameter and refit protocol",
     "Constructor parameters are readable and settable by name, cloning gives an unfitted estimator with the same parameters, and copying or pickling a fitted one preserves behaviour. A parameter set after construction takes effect at the next fit exactly as if given at construction, on copies too, and never affects the original. Fitting again gives the same result as fitting a fresh estimator, and calls return the estimator itself or the fitted covariance as documented.",
     ["histories", "configurations"], "every sequence of construct, set parameter, clone, deep copy, pickle, fit, refit and transform operations on every estimator",
     "Tests construct and fit once.",
     [E+"covariance.py", E+"base.py", E+"structured.py", "robuststats/online/estimation.py"], "scikit-learn base class conventions; method closure built at construction",
     "stateful property-based testing against a fresh-estimator model", "")
prop("C20", "Batch transformers equal per-trial estimation, serial or parallel",
     "Estimating covariances or features for a stack of trials gives, trial by trial and in order, exactly what the given estimator gives on that trial alone, for any number of parallel jobs, complex or real or integer data, and any extra fit options. The stack is not modified and neither fitting the transformer nor earlier trials affect later ones.",
     ["inputs", "configurations", "schedules"], "every stack of trials, estimator, number of jobs and extra fit options",
     "Tests compare shapes, and one fixed stack for one estimator.",
     [E+"base.py"], "serial loop or joblib workers with deep copies",
     "property-based testing: differential batch versus single, serial versus parallel", "")
prop("C21", "Feature arrays behave as growing lists of aligned points",
     "A feature array behaves like a list of aligned tuples of points: after any sequence of appends its length, shapes, types, indexing, slicing, export and vectorisation show exactly the appended points in order, with indexing by an integer keeping a batch axis. Appends of data with wrong component count, shape, number of axes, length or type are refused and leave the array as it was. Later changes to the caller's arrays do not alter the stored points.",
     ["histories", "inputs"], "every sequence of appends (single points, batches, other feature arrays), reads and rejected operations, beyond the preallocated capacity",
     "Tests append a few batches and compare one export.",
     [E+"base.py"], "preallocated buffers with a length counter",
     "stateful model-based testing against a list", "")
prop("C22", "Kronecker robust estimation decreases its cost to a stationary point",
     "The Kronecker structured Tyler estimation returns Hermitian positive definite factors of the requested sizes; iterating never increases the Tyler cost of their Kronecker product on the data, and at convergence neither factor can be improved. The estimate does not depend on the scale of individual samples and follows Kronecker structured transformations of the data. The estimator's covariance is the Kronecker product of its two factors and the reported change is that of the last iteration.",
     ["inputs", "configurations"], "every complex or real data set, factor sizes, tolerance and iteration limit",
     "Tests check shapes and iteration count for one seed.",
     [E+"structured.py", M+"cost.py"], "block majorisation-minimisation",
     "property-based testing: monotone cost, stationarity, equivariance", "")
prop("C23", "Kronecker Student-t estimate maximises the structured likelihood",
     "The cost used is minus the Student-t log-likelihood of the Kronecker structured model, its gradient is the derivative of that cost for every location, and the fitted factors are Hermitian positive definite, with unit determinant on the left, and at a point where the likelihood is stationary. Fitting never ends with a lower likelihood than its starting point. Scoring data evaluates the log-likelihood of those data under the fitted model, without refitting.",
     ["inputs", "configurations"], "every complex data set, factor sizes, degrees of freedom, location and starting point",
     "Tests check types and shapes for one seed.",
     [E+"structured.py", M+"manifolds.py", M+"probability.py"], "conjugate gradient on the Kronecker manifold",
     "property-based testing: finite-difference gradient, stationarity, likelihood oracle", "")
prop("C24", "Online estimation follows the stochastic gradient recursion exactly",
     "Processing a sample matrix performs one retraction step per sample, in order, against the supplied Riemannian gradient, with the step size of the chosen schedule (the learning rate divided by the step number, or constant) counted from the start of the fit, so that the result equals the reference recursion and feeding samples one by one through the update call. Refitting starts afresh; an uninitialised estimator reports the error and stays usable. The stored covariance always corresponds to the current estimate.",
     ["inputs", "histories"], "every stream of samples, manifold, gradient, step schedule, initial point, and sequence of fits and updates",
     "Tests import the class without running it.",
     ["robuststats/online/estimation.py"], "retraction steps against the supplied gradient",
     "stateful property-based testing against a reference recursion", "")
prop("C25", "Data generators produce what they are named for",
     "Generated covariances are random symmetric or Hermitian positive definite of the requested size, with unit determinant when asked; generated frames have orthonormal columns of the requested shape. Textures are positive with unit mean and the stated law (a gamma law of variance 1/nu, a log-normal law of the given log-variance), and samples are one column per draw with the stated covariance, circular when complex, compounded by exactly the given textures. Generators follow the global seed and refuse covariances of the wrong number type.",
     ["inputs", "configurations"], "every dimension, sample count, seed, covariance, texture parameters and option",
     "Tests use generators only as fixtures.",
     [U+"generation_data.py", U+"linalg.py"], "NumPy global generator with eigen-decomposition square roots",
     "property-based testing: structural invariants, exact seeded reconstruction, statistical oracle", "")
prop("C26", "Temporary seeding is exact and leaves the global generator untouched",
     "Inside a temporary seed block random numbers are those of that seed; on leaving, by any route including an exception or nested blocks, the global generator continues exactly as if the block had not happened.",
     ["histories"], "every nesting, interleaving with outer draws, seed, and exit route",
     "No test covers it.",
     [U+"montecarlo.py"], "save and restore of the generator state in a context manager",
     "stateful property-based testing against independent generators", "")
prop("C27", "Invalid requests are refused, valid ones accepted",
     "Data containing missing or infinite values, empty or wrongly shaped sample matrices, non-positive degrees of freedom, Huber fractions outside (0, 1], unknown estimation methods and factor sizes that do not match the dimension are refused with an error by every estimator they apply to, and a refused fit leaves an earlier fit's results in place. The checking helpers accept exactly the values, types and signs they are told to accept.",
     ["inputs"], "every position and kind of invalid value in the data, and every estimator",
     "Tests cover a few error branches of the mappings only.",
     [E+"covariance.py", E+"base.py", E+"structured.py", U+"checking.py"], "validation in fit and constructor",
     "property-based testing: error injection, predicate oracle", "")
prop("C28", "Estimation is pure: inputs intact, deterministic, verbosity-neutral",
     "No estimator, cost, law, manifold operation or transformer modifies the arrays passed to it. The result depends only on the values: it is the same for any memory layout, on repeated calls, whatever the global random state (up to the solver's tolerance where its starting point is drawn at random), and with progress display on or off.",
     ["inputs", "configurations", "histories"], "every public operation, data set, memory layout (including read-only), verbosity and global random state",
     "Tests never compare inputs before and after, nor runs under different display options.",
     [E+"covariance.py", E+"structured.py", E+"base.py", M+"manifolds.py", M+"probability.py", M+"cost.py", U+"linalg.py"], "functional style; display branches inside the loops",
     "property-based testing: before/after snapshots and differential over layout, state and verbosity", "")

prop("C29", "Optimisation on the manifolds reaches the minimiser",
     "Steepest descent, conjugate gradients and trust regions run on the manifolds of positive definite, unit-determinant and Kronecker-structured matrices, positive vectors and their weighted products, from any starting point, never return a higher cost than they started from and reach the minimiser. On the sum of the log-determinant and trace costs of given data matrices, it is the mean of the data (scaled to determinant one on the unit-determinant manifold).",
     ["inputs", "histories"], "every manifold, size, number of matrices, weight, data set of moderate condition, starting point and solver",
     "Tests check the manifold operations one at a time, at well-conditioned points, and never iterate them.",
     [M+"manifolds.py"], "cooperation of gradient and Hessian conversion, retraction, transport and metric along an optimisation",
     "property-based testing against closed-form minimisers", "")
prop("C30", "Displays show what they were given",
     "A printed matrix has one line per row, holds every entry in the requested format and in its place, has aligned columns, and leaves the matrix as it was. A progress display passes the items through unchanged, reports to the logger it was given (and to no other place), shows nothing before the first step, and shows counts and percentages that agree with the steps done and never decrease.",
     ["inputs", "histories"], "every matrix (including missing and infinite entries), format, sequence of progress steps and logger",
     "Tests never look at what is displayed.",
     [U+"verbose.py"], "matprint and logging_tqdm",
     "property-based testing: parsing the display back, invariants over the history of messages", "")

prop("C31", "The number type and the container of values do not matter",
     "Laws, estimators, costs, matrix functions and manifold operations give the same result for the same values, whether they come as small or large integers, in single or double precision, in another byte order or, where array-likes are accepted, as (nested) lists and tuples. Nothing overflows, is truncated or is refused because of the type of the numbers.",
     ["inputs", "configurations"], "every operation, set of values, and combination of number types and containers of its arguments",
     "Tests only use arrays of doubles.",
     [E+"covariance.py", E+"structured.py", E+"base.py", M+"manifolds.py", M+"probability.py", M+"mappings.py", M+"cost.py", U+"linalg.py", "robuststats/online/estimation.py"], "conversions at the entry of each operation, and dtype of the arrays allocated in the loops",
     "property-based testing: differential against the same values as doubles", "")

prop("C32", "Estimators agree where their models coincide",
     "Complex estimates are the real ones of circular real data, and real data give the same estimate as complex numbers; conjugate, rephased, repeated, shuffled or transposed data give the conjugate, same, same, same or exchanged estimate. Student and Huber estimates tend to Tyler's shape as their parameter tends to zero. With a factor of size one, structured estimators are the unstructured ones.",
     ["inputs", "configurations"], "every data set in general position, estimator (function or class), parameter and number of iterations",
     "Tests check one estimator at a time, against a true covariance within wide statistical tolerances.",
     [E+"covariance.py", E+"structured.py", E+"base.py"], "parallel real, complex and structured versions of the same iterations",
     "property-based testing: metamorphic and differential relations between estimators", "")

prop("C33", "Objects can be copied, pickled and used by several threads",
     "Laws, manifolds, functions and transformers shared by threads, and estimators of each thread, give in every interleaving the results they give alone. Copies, deep copies and pickled objects behave as the original, used before or not, and neither changes the other (deep copies, for feature arrays). Transformers give the same result with joblib's threads as serially.",
     ["schedules", "inputs", "histories"], "every interleaving of the threads' lines, sequence of operations, data set and chain of copies",
     "Tests are single-threaded and never copy a manifold, law or feature array.",
     [E+"base.py", E+"covariance.py", E+"structured.py", M+"manifolds.py", M+"probability.py", M+"mappings.py", U+"linalg.py", "robuststats/online/estimation.py"], "objects hold parameters only: no cache, workspace or last argument is kept between lines",
     "property-based testing: generated schedules under a seeded line-level scheduler, differential against serial execution", "")


def main(claimed):
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({
                "id": p["pid"], "title": p["title"],
                "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"],
                            "mechanism": [{
                                "name": p["mechanism"],
                                "where": ", ".join(p["files"])}]}},
                ensure_ascii=False) + "\n")
    na = [{"property": p["pid"], "reason": "check not built yet"}
          for p in P if p["pid"] not in claimed]
    man = {"version": 1,
           "setup_cmd": "/opt/venv/bin/python -c 'import sys; sys.path.insert(0, \".\"); import vf.run'",
           "checks": [{
               "property": p["pid"],
               "quick_cmd": "python3 check.py %s --tier quick" % p["pid"],
               "thorough_cmd": "python3 check.py %s --tier thorough" % p["pid"],
               "technique": p["tech"],
               "level": "exploration",
               "level_note": ("Generated-input search with Hypothesis against "
                              "an explicit oracle, no exhaustiveness claimed. "
                              + p["note"]).strip() +
               " Trusts NumPy, SciPy, Hypothesis and the reference formulas "
               "in vf/props/%s.py." % p["pid"].lower()}
               for p in P if p["pid"] in claimed],
           "not_applicable": na,
           "notes": "python3 check.py <id> re-executes itself under /opt/venv/bin/python (the interpreter the project is installed in) and imports robuststats from /repo. python3 replay.py <replay file> re-runs one saved case. See DESIGN.md."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    built = {fn[:-3].upper() for fn in
             os.listdir(os.path.join(HERE, "vf", "props"))
             if fn.startswith("c") and fn.endswith(".py")}
    main(built)
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        n = len([s for s in p["statement"].replace("e.g.", "").split(". ") if s])
        assert n <= 3, (p["pid"], n)
