#!/usr/bin/env python
"""Regenerates properties.jsonl and MANIFEST.json from the table below."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = "src/opinf/"
PROPS = []


def prop(id, title, statement, over, qtext, why, files, mech, observe,
         state=None):
    PROPS.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext),
        why_tests_cant=why,
        anchors=dict(
            files=[P + f for f in files],
            state=state or [],
            mechanism=[dict(name=n, where=P + w) for n, w in mech],
            observe_at=observe, hook_needed=None)))


prop("C01", "Undoing a preprocessing transformation returns the original data",
     "For every trained data transformation (shifting, scaling, shift-and-"
     "scale with any option, multi-variable, pipelines and nestings of them), "
     "inverse-transforming transformed data gives back the original data up "
     "to rounding, for one snapshot or many, for training data or new data, "
     "in place or not. When only some rows are given together with their "
     "locations (slice or index array, in any order), the same rows of the "
     "original data are recovered. Fitting returns the same numbers as "
     "transforming after fitting.",
     ["inputs", "configurations", "histories"],
     "every transformer class and option combination, every state array of "
     "compatible shape/dtype/layout, every subset of locations, after any "
     "history of refits, saves and loads",
     "tests try a few option combinations on one random matrix each; the "
     "claim is over all option combinations x data shapes x location sets x "
     "refit histories",
     ["pre/_base.py", "pre/_shiftscale.py", "pre/_multi.py"],
     [("affine transform and its inverse", "pre/_shiftscale.py"),
      ("slicing of states/locations", "pre/_multi.py")],
     ["return values of fit_transform/transform/inverse_transform"],
     [dict(name="mean_, scale_, shift_", meaning="learned affine map",
           where=P + "pre/_shiftscale.py")])

prop("C02", "Learned normalizations have the documented statistics",
     "After fitting, the transformed training data have the documented "
     "statistics (zero row means when centering; zero mean and unit standard "
     "deviation, range [0,1] or [-1,1], unit maximum magnitude, or unit "
     "maximum column norm according to the scaling, per row or over the whole "
     "array), and the reported mean/scale/shift equal the documented "
     "formulas applied to the training data. Any further data are mapped by "
     "exactly that learned affine map, whatever else was transformed in "
     "between, and refitting forgets the earlier data. The standalone shift "
     "and scale functions follow their documented formulas, learned or given.",
     ["inputs", "configurations", "histories"],
     "all scalings x centering x byrow x training data (one or many rows, "
     "large offsets, mixed magnitudes) x later data and refits",
     "tests check a few statistics on one random array; offsets, single "
     "rows, interleaved use and refits are not explored",
     ["pre/_shiftscale.py"],
     [("learned statistics", "pre/_shiftscale.py")],
     ["mean_, scale_, shift_ and transformed arrays"])

prop("C03", "Transformed time derivatives are derivatives of transformed data",
     "For every trained transformation, transforming time derivatives yields "
     "the time derivative of the transformed states: only the linear part of "
     "the map is applied, so it is linear in its argument, zero maps to zero, "
     "and it matches differences of transformed states. Derivative arrays of "
     "the wrong state dimension are rejected with a ValueError.",
     ["inputs", "configurations"],
     "all transformer classes, options, pipelines and multi-variable "
     "combinations, all derivative arrays",
     "tests use a finite-difference check with loose tolerance on a few "
     "configurations; exact linearity over all configurations is not checked",
     ["pre/_base.py", "pre/_shiftscale.py", "pre/_multi.py"],
     [("transform_ddts", "pre/_shiftscale.py"),
      ("chained transform_ddts", "pre/_multi.py")],
     ["return values of transform_ddts/transform"])

prop("C04", "Lifting is inverted by unlifting and obeys the chain rule",
     "Unlifting lifted states returns the original states, and the lifted "
     "states are the documented functions of the originals (1, powers and "
     "reciprocals in the documented order). Lifted time derivatives equal "
     "the chain rule applied to the states and their derivatives. Both hold "
     "for one- and two-dimensional data and any admissible set of orders.",
     ["inputs", "configurations"],
     "all admissible order lists (positive, negative, fractional, zero, "
     "repeated, unordered) and all admissible states and derivatives",
     "tests use three hand-picked order lists on one random array",
     ["lift/_base.py", "lift/_polynomial.py"],
     [("polynomial lifting map and derivative", "lift/_polynomial.py")],
     ["return values of lift/unlift/lift_ddts"])

prop("C05", "Caller data are never modified unless inplace is requested",
     "No public operation modifies the arrays (or lists of arrays) passed by "
     "the caller, except the transformation methods when called with "
     "inplace=True, which then return the very array they were given. "
     "Without inplace, transformation results share no memory with the "
     "argument, so later changes to either do not affect the other.",
     ["inputs", "histories", "configurations"],
     "all public functions and methods over all workloads of this suite, "
     "every array argument (C/Fortran order, views, integer arrays)",
     "tests compare outputs, and hardly ever compare the inputs before and "
     "after a call",
     ["pre/_shiftscale.py", "pre/_multi.py", "basis/_base.py",
      "models/mono/_base.py", "roms/_base.py", "lstsq/_base.py",
      "ddt/_base.py"],
     [("inplace handling", "pre/_shiftscale.py"),
      ("copy-before-encode", "roms/_base.py")],
     ["bytes of every array argument before and after each public call"])

prop("C06", "Multi-variable transformers and bases act block by block",
     "A multi-variable transformer or basis acts on each variable's block "
     "of rows exactly as the corresponding single-variable object would, and "
     "stacks the results in variable order, for fitting, transforming, "
     "inverse transforming (including at selected locations), compressing and "
     "decompressing. Splitting a state into variables and stacking variables "
     "into a state are mutually inverse. A pipeline equals applying its "
     "stages one after the other.",
     ["inputs", "configurations", "histories"],
     "all mixtures of component objects, any number of variables with "
     "different dimensions, any locations, refits",
     "tests use two or three fixed mixtures",
     ["pre/_multi.py", "basis/_multi.py"],
     [("split/stack and per-variable dispatch", "pre/_multi.py"),
      ("block-diagonal compress/decompress", "basis/_multi.py")],
     ["results of the composite versus results of separately fitted parts"])

prop("C07", "Basis compression and projection satisfy projection algebra",
     "For every trained linear or POD basis with orthonormal (or "
     "weight-orthonormal) columns, compressing a decompressed latent state "
     "returns it, projecting twice equals projecting once, the projection "
     "residual is orthogonal to the basis in the weighted inner product, and "
     "the reported relative projection error is the residual norm over the "
     "state norm. Compression is linear in the state, acts column by column "
     "(a vector gives the same as the one-column matrix), and decompression "
     "at selected locations returns those rows of the full decompression.",
     ["inputs", "configurations", "histories"],
     "all basis classes, weights (none, diagonal, full), sizes including one "
     "row or one column, all states, all location sets, changed dimensions",
     "tests compare against the same one-line formula on one random basis",
     ["basis/_base.py", "basis/_linear.py", "basis/_pod.py",
      "basis/_multi.py"],
     [("compress/decompress", "basis/_linear.py"),
      ("project/projection_error", "basis/_base.py")],
     ["return values of compress/decompress/project/projection_error"])

prop("C08", "POD yields the optimal orthonormal basis of the training data",
     "A fitted POD basis has orthonormal columns (in the chosen weighted "
     "inner product) spanning the dominant left singular subspace, so the "
     "squared projection error of the training data equals the sum of "
     "squared discarded singular values. The reported singular values are "
     "those of the (weighted) data, and cumulative and residual energies are "
     "the corresponding ratios. Every way of computing it (dense SVD, "
     "method of snapshots by either name, precomputed SVD) gives the same "
     "singular values and subspace, and row-aligned right vectors.",
     ["inputs", "configurations"],
     "all snapshot matrices (tall, wide, rank-deficient, one column), "
     "weights, solver modes and retained-vector limits",
     "tests run one well-conditioned random matrix per mode and compare with "
     "the same SVD call",
     ["basis/_pod.py"],
     [("method_of_snapshots and fit", "basis/_pod.py")],
     ["entries, leftvecs, svdvals, rightvecs and energies"])

prop("C09", "POD dimension criteria pick the smallest sufficient dimension",
     "Choosing the reduced dimension by a criterion (cumulative energy, "
     "residual energy, singular-value threshold, projection error) selects "
     "the smallest dimension meeting the documented inequality, and an "
     "explicit number selects exactly that number of leading vectors. "
     "Changing the dimension later, up or down within the retained vectors, "
     "gives the same basis as fitting with it from the start.",
     ["inputs", "histories", "configurations"],
     "all spectra (ties, zeros, steep decay), thresholds including exact "
     "ties, sequences of dimension changes and refits",
     "tests try one spectrum and a few thresholds",
     ["basis/_pod.py"],
     [("dimension selection", "basis/_pod.py")],
     ["reduced_state_dimension and entries after each step"],
     [dict(name="reduced state dimension", meaning="leading vectors in use",
           where=P + "basis/_pod.py")])

prop("C10", "Time-derivative estimates are exact, aligned and linear",
     "Each finite difference scheme differentiates polynomials up to its "
     "documented order exactly (up to rounding), on uniform or nonuniform "
     "time grids as documented, and interpolatory estimates equal the "
     "interpolant's derivative. The returned states and inputs are exactly "
     "the columns at whose times the derivatives are estimated, and the "
     "estimate is linear in the data and independent of its memory layout or "
     "integer type.",
     ["inputs", "configurations"],
     "all schemes and orders, all grids (any start, step, length at least "
     "the minimum), polynomial data, one- or two-dimensional inputs, with or "
     "without inputs",
     "tests check accuracy on one smooth function with loose tolerances",
     ["ddt/_base.py", "ddt/_finite_difference.py", "ddt/_interpolation.py"],
     [("difference stencils", "ddt/_finite_difference.py"),
      ("interpolant derivative", "ddt/_interpolation.py")],
     ["return values of estimate and the ddt functions"])

prop("C11", "Least-squares solvers return the minimizer of their objective",
     "Each least-squares solver returns the operator matrix minimizing its "
     "documented objective for the given data: ordinary, truncated-SVD, "
     "scalar or per-row L2 regularization, full or per-row Tikhonov "
     "regularization, and total least squares. The normal equations of the "
     "objective hold at the solution, no perturbation lowers the objective, "
     "and rows are solved independently of each other.",
     ["inputs", "configurations"],
     "all data sizes (over/under-determined, one row, one column), "
     "conditioning, regularizers (zero, scalar, vectors, matrices), options",
     "tests compare one random problem with the same library call",
     ["lstsq/_base.py", "lstsq/_tikhonov.py", "lstsq/_tsvd.py",
      "lstsq/_total.py"],
     [("solve", "lstsq/_tikhonov.py"), ("solve", "lstsq/_total.py"),
      ("solve", "lstsq/_tsvd.py")],
     ["return value of solve versus the objective at the recorded data"])

prop("C12", "Reused and copied solvers behave like fresh ones",
     "After any sequence of fitting to new data, changing the regularizer or "
     "options, and solving, a solver returns exactly what a newly created "
     "solver with the current settings and data would return, and after a "
     "reset it is untrained again. Fitting a copy or changing its settings "
     "never influences the original, nor the reverse.",
     ["histories", "configurations"],
     "all interleavings of fit, setting regularization/options, solve, "
     "metrics, reset and copy on all solver classes",
     "tests call fit and solve once or twice per object",
     ["lstsq/_base.py", "lstsq/_tikhonov.py", "lstsq/_tsvd.py"],
     [("cached factorizations", "lstsq/_tikhonov.py"),
      ("copy", "lstsq/_base.py")],
     ["solve results after each step of the history"],
     [dict(name="cached factorization",
           meaning="SVD of the data matrix reused across solves",
           where=P + "lstsq/_tikhonov.py")])

prop("C13", "Solver diagnostics equal their definitions",
     "Residuals, misfits, regularized residuals, data condition numbers, "
     "regularized condition numbers and posterior means/precisions reported "
     "by a least-squares solver equal their documented definitions for the "
     "data and regularization in force. They stay so after regularization "
     "or data change.",
     ["inputs", "histories", "configurations"],
     "all solver classes, data shapes, regularizers and histories",
     "tests check shapes or one value",
     ["lstsq/_base.py", "lstsq/_tikhonov.py", "lstsq/_tsvd.py",
      "lstsq/_total.py"],
     [("residual, cond, regcond, posterior", "lstsq/_tikhonov.py")],
     ["return values of the diagnostic methods"])

prop("C14", "Operators, data blocks and full Kronecker forms agree",
     "Evaluating an operator on states and inputs equals its matrix times "
     "the data block it builds for the same states and inputs, and equals "
     "the full Kronecker-product form of the operator. Evaluating a batch "
     "equals evaluating each column, one-dimensional shortcuts included, and "
     "the number of columns announced for the data block is its row count. "
     "Compressing and expanding quadratic, cubic and quartic entries are "
     "mutually consistent and evaluate identically. Operators compare "
     "equal when they have the same type and entries and only then.",
     ["inputs", "configurations"],
     "all operator types, state dimension at least 1, any number of inputs, "
     "single states and batches, dense or sparse entries",
     "tests check a handful of dimensions with one random draw each",
     ["operators/_base.py", "operators/_nonparametric.py",
      "operators/_polynomial_operator.py"],
     [("apply/datablock", "operators/_nonparametric.py"),
      ("ckron, compress/expand entries", "operators/_nonparametric.py")],
     ["return values of apply/datablock and the static helpers"])

prop("C15", "Reported Jacobians are the derivatives of the evaluation",
     "For every operator and model, the Jacobian at a state is the "
     "derivative of the evaluated right-hand side with respect to the state, "
     "for the same input and parameter. A model's Jacobian is the sum of its "
     "operators' Jacobians.",
     ["inputs", "configurations"],
     "all operator types and combinations, dimensions, states, inputs, "
     "parameters",
     "tests use finite differences with loose tolerance at single points",
     ["operators/_nonparametric.py", "operators/_polynomial_operator.py",
      "operators/_affine.py", "operators/_interpolate.py",
      "models/mono/_base.py", "models/mono/_nonparametric.py",
      "models/mono/_parametric.py"],
     [("jacobian", "operators/_nonparametric.py"),
      ("sum of operator Jacobians", "models/mono/_base.py")],
     ["return values of jacobian versus exact polynomial differences"])

prop("C16", "Galerkin projection commutes with evaluation",
     "For every operator or model and every trial and test basis, the "
     "projected operator evaluated at a reduced state equals the left-"
     "projected evaluation of the original at the lifted state, including "
     "the inverse of the basis Gram matrix when the bases are not "
     "biorthonormal. The original operator is unchanged by the projection.",
     ["inputs", "configurations"],
     "all operator types, model structures, orthonormal and general bases, "
     "Galerkin and Petrov-Galerkin",
     "tests check one random basis per operator and mostly shapes",
     ["operators/_base.py", "operators/_nonparametric.py",
      "operators/_affine.py", "operators/_interpolate.py",
      "models/mono/_base.py"],
     [("galerkin", "operators/_base.py")],
     ["apply/rhs of the projected object"])

prop("C17", "Parametric operators evaluate to the right operator",
     "Evaluating an affine-parametric operator at a parameter gives the sum "
     "of its coefficient functions times its matrices; evaluating an "
     "interpolatory operator at a training parameter gives that parameter's "
     "matrix and elsewhere the interpolant of the entries, after any "
     "reordering of construction. Applying at a parameter equals evaluating "
     "and then applying, the data block times the stacked entries "
     "reproduces the evaluation at every training parameter, and operators "
     "assembled from stacked entries are the inverse of stacking.",
     ["inputs", "configurations", "histories"],
     "all underlying operator types, coefficient functions, parameter "
     "dimensions, training sets and evaluation points",
     "tests use fixed small examples",
     ["operators/_affine.py", "operators/_interpolate.py"],
     [("evaluate", "operators/_affine.py"),
      ("evaluate", "operators/_interpolate.py")],
     ["entries of evaluate(mu), apply, datablock"])

prop("C18", "Learning recovers the operators and solves the stated regression",
     "A model's right-hand side is the sum of its operators, and its data "
     "matrix stacks the operators' data blocks in order. Fitting minimizes "
     "the residual between given derivatives (or next states) minus the "
     "contribution of already-known operators and the operators being "
     "learned, leaves known operators untouched, and thus recovers exactly "
     "the operators that generated the data when these determine them. This "
     "holds for nonparametric, affine-parametric and interpolatory models, "
     "continuous, discrete and steady.",
     ["inputs", "configurations", "histories"],
     "all operator mixtures and orders (with inputs, known and unknown "
     "operators), solvers, model kinds and data",
     "tests check shapes and a few regression scripts",
     ["models/mono/_base.py", "models/mono/_nonparametric.py",
      "models/mono/_parametric.py"],
     [("data matrix assembly and extraction",
       "models/mono/_nonparametric.py"),
      ("per-parameter assembly", "models/mono/_parametric.py")],
     ["operator entries after fit, rhs values"])

prop("C19", "Predictions solve the learned model's equations",
     "A discrete model's prediction starts at the initial state and every "
     "later state is the model applied to the previous state and input, for "
     "the requested number of steps. A continuous model's prediction starts "
     "at the initial state, is reported at the requested times, and follows "
     "the model's differential equation to integration tolerance with the "
     "inputs interpreted as documented (function of time or values on the "
     "grid). Parametric predictions equal predictions of the model "
     "evaluated at that parameter.",
     ["inputs", "configurations", "histories"],
     "all model structures, initial states, time grids, input forms and "
     "integrator options",
     "tests check shapes and one analytic case",
     ["models/mono/_nonparametric.py", "models/mono/_parametric.py"],
     [("predict", "models/mono/_nonparametric.py")],
     ["arrays returned by predict"])

prop("C20", "Refitting or copying a model forgets or shares nothing",
     "A model fitted, refitted to other data or other settings gives the "
     "same operators as a new model fitted once to the last data. A copy has "
     "the same operators, solver settings and behaviour as the original, and "
     "later changes to either leave the other unchanged. The same holds for the refitting of transformers and bases and the copies of bases and operators.",
     ["histories", "configurations"],
     "all sequences of fit, refit (other dimensions or inputs), predict, "
     "refit with changed regularization, copy, on all model kinds",
     "tests fit each object once or twice with the same shapes",
     ["models/mono/_base.py", "models/mono/_nonparametric.py",
      "models/mono/_parametric.py", "operators/_base.py"],
     [("reset of operators on fit", "models/mono/_nonparametric.py"),
      ("copy", "models/mono/_base.py")],
     ["entries and predictions after each step"])

prop("C21", "A reduced-order model is the composition of its stages",
     "Encoding states with a reduced-order model equals lifting, "
     "transforming and compressing them in that order, decoding undoes these "
     "in reverse (also at selected locations), and projecting is decoding "
     "after encoding. Encoding derivatives is consistent with encoding "
     "states. Fitting equals fitting the stages on the training data (over "
     "all trajectories together) and then the model on encoded data, and "
     "predicting equals encode, model prediction, decode.",
     ["inputs", "configurations", "histories"],
     "all present/absent combinations of lifter, transformer, basis, "
     "derivative estimator; one or several trajectories; with inputs; "
     "parametric or not; options to skip fitting stages",
     "tests check a few combinations for shapes",
     ["roms/_base.py", "roms/_nonparametric.py", "roms/_parametric.py"],
     [("encode/decode/project", "roms/_base.py"),
      ("fit/predict", "roms/_nonparametric.py")],
     ["arrays and operators versus a hand-made composition"])

prop("C22", "Regularization search returns the best stable candidate",
     "A regularization search ends with the model fitted with the candidate "
     "regularization whose training error, as documented, is smallest among "
     "all candidates tried that give stable predictions (optionally refined "
     "by local optimization, never ending worse than the best grid point). "
     "Candidates whose prediction fails, is incomplete or exceeds the "
     "stability bound are never chosen. The result does not depend on "
     "earlier searches with the same object.",
     ["inputs", "histories", "configurations"],
     "all grids, trajectories, inputs, test cases, stability margins, "
     "parametric or not, repeated searches",
     "tests run a single tiny grid and check that it finishes",
     ["roms/_base.py", "roms/_nonparametric.py", "roms/_parametric.py",
      "utils/_gridsearch.py"],
     [("search", "utils/_gridsearch.py"),
      ("training error and stability check", "roms/_base.py")],
     ["chosen regularizer and the recorded errors of all candidates"])

prop("C23", "Bayesian models carry the correct posterior",
     "The posterior of a Bayesian reduced-order model has the regularized "
     "least-squares solution as its mean and, row by row, the documented "
     "covariance for the noise and data in force. Draws have the operator-"
     "matrix shape, follow exactly the mean and covariance (for fixed random "
     "numbers), survive saving and loading, and predictions from draws use "
     "the drawn operators.",
     ["inputs", "configurations", "histories"],
     "all data, regularizers, state dimensions (including one), constructor "
     "forms of the covariances, save/load histories",
     "tests check shapes of draws",
     ["roms/_bayes.py", "lstsq/_tikhonov.py"],
     [("posterior", "roms/_bayes.py"), ("posterior", "lstsq/_tikhonov.py")],
     ["means, covariances and draws"])

prop("C24", "Saving and loading reproduces an equivalent object",
     "Every object that can be saved (transformers, pipelines and multi-"
     "variable composites, bases, operators, models, solvers, posteriors) is "
     "reproduced by loading the file: same settings, same learned "
     "quantities, the same results on every input, and the same results when "
     "trained again. This holds whether or not it was trained, whatever was "
     "done to it before saving, through paths or open file handles, and "
     "saving changes nothing in the object saved. (A model's solver and a "
     "POD basis's svdsolver are not part of what load() restores; callables "
     "such as affine coefficients are passed to load() again.)",
     ["inputs", "configurations", "histories"],
     "all saveable classes x configurations (one-row data, scalar or vector "
     "settings, names, weights, sparse entries, untrained) x histories",
     "tests save and load one or two instances per class",
     ["utils/_hdf5.py", "pre/_shiftscale.py", "pre/_multi.py",
      "basis/_linear.py", "basis/_pod.py", "basis/_multi.py",
      "operators/_base.py", "operators/_affine.py",
      "operators/_interpolate.py", "models/mono/_nonparametric.py",
      "models/mono/_parametric.py", "lstsq/_base.py",
      "lstsq/_tikhonov.py", "lstsq/_tsvd.py", "roms/_bayes.py"],
     [("save/load", "utils/_hdf5.py")],
     ["settings and outputs of the loaded object"])

prop("C25", "Saved files are never overwritten or misread silently",
     "Saving to an existing file without overwrite raises an error and "
     "leaves the file's bytes unchanged; with overwrite the new object "
     "replaces all old content. Loading a missing file, an unreadable or "
     "non-HDF5 file, or a file lacking required content raises an error "
     "instead of returning an object: FileNotFoundError for a missing file, "
     "OSError or LoadfileFormatError for an unreadable one, "
     "LoadfileFormatError for missing content. Failed loads leave the file "
     "unchanged. Files opened by path are closed whatever happens in "
     "between, and handles given by the caller stay open.",
     ["fault_sequences", "histories", "configurations"],
     "all saveable classes, existing/missing/corrupt/truncated files, "
     "exceptions raised while the file is open, open handles or paths",
     "tests check one class for existing files and one for missing files",
     ["utils/_hdf5.py", "errors.py"],
     [("save and load handles", "utils/_hdf5.py")],
     ["file bytes, raised errors, handle state"])

prop("C26", "Reported errors equal their norm definitions",
     "Absolute and relative state errors, Frobenius and Lp-in-time errors "
     "returned by the post-processing functions equal their documented norm "
     "definitions (with time weights where documented), for one- and "
     "two-dimensional data. Relative errors are the absolute ones divided by "
     "the norm of the truth, or the documented normalization.",
     ["inputs", "configurations"],
     "all shapes, norm orders, time grids, data scales and layouts",
     "tests compare a few cases with the same formulas",
     ["post/_errors.py"],
     [("error functions", "post/_errors.py")],
     ["returned absolute and relative errors"])

prop("C27", "Timing blocks bound and report time and restore the environment",
     "A timing block records the elapsed wall time of its body, and a body "
     "exceeding its time limit is interrupted with a timeout error while a "
     "faster one completes undisturbed. Afterwards no alarm remains pending, "
     "standard output is as before, and an exception raised in the body "
     "surfaces to the caller. Nested code in later blocks is unaffected by "
     "earlier ones.",
     ["schedules", "histories", "configurations"],
     "all sequences of blocks with or without limits, with bodies that "
     "finish, raise, or overrun",
     "tests run two or three blocks in isolation",
     ["utils/_timer.py"],
     [("context manager", "utils/_timer.py")],
     ["elapsed, pending alarms, stdout and raised exceptions"])

prop("C28", "Reprojected data recover the intrusive reduced operators",
     "Re-projected trajectories start at the projected initial state and "
     "each reported state derivative (or next state) is the projected "
     "evaluation of the full model at the lifted reduced state. Learning "
     "from re-projected data therefore gives the Galerkin-projected "
     "operators of the full model, for discrete and continuous full models, "
     "with or without inputs.",
     ["inputs", "configurations"],
     "all polynomial full-order models, bases, initial states, inputs",
     "the repository's tests of re-projection are disabled",
     ["utils/_reprojection.py"],
     [("reprojection loops", "utils/_reprojection.py")],
     ["returned states and derivatives; operators learned from them"])

prop("C29", "Inconsistent inputs are rejected instead of used",
     "Data whose dimensions do not match (state dimension, number of "
     "snapshots, number of inputs, locations, number of trajectories or "
     "parameters, regularizer shape) and untrained objects are rejected "
     "with an exception instead of being used. A rejected setting does not "
     "replace the previous one, and after any rejected call the object still "
     "gives the same results for valid data as if the call had not been "
     "made (or, for a rejected fit, accepts valid data like a fresh object). "
     "Inputs required by the model's structure may not be omitted; "
     "superfluous ones do not change any result.",
     ["inputs", "configurations", "histories"],
     "all public classes, all mismatched dimension choices, before and "
     "after training",
     "tests check one mismatch per message",
     ["pre/_base.py", "basis/_linear.py", "basis/_pod.py", "lstsq/_base.py",
      "lstsq/_tikhonov.py", "models/mono/_base.py",
      "models/mono/_nonparametric.py", "models/mono/_parametric.py",
      "operators/_base.py", "roms/_base.py", "utils/_requires.py",
      "ddt/_base.py", "ddt/_finite_difference.py", "post/_errors.py"],
     [("requires and shape checks", "utils/_requires.py")],
     ["raised exceptions and state of the object afterwards"])

prop("C30", "Objects compare equal exactly when they are interchangeable",
     "Wherever a class of the package defines equality (shift/scale and "
     "multi-variable transformers made of them, linear, POD and "
     "multi-variable bases, nonparametric, polynomial and interpolatory "
     "operators, models of these, operator posteriors), an object equals "
     "itself, a twin built from the same description, its copies and what "
     "is loaded after saving it, and an object that differs in one defining "
     "quantity (a single entry of an array, an option, a dimension, the "
     "number or order of its parts, a training parameter, the "
     "interpolator, trained or not) is not equal. == and != agree, do not "
     "depend on the order of the operands, and give False instead of "
     "failing for anything else. Models with the same operators in another "
     "order are equal.",
     ["inputs", "configurations", "histories"],
     "every class with an equality, every single change of a defining "
     "quantity, both operand orders",
     "tests compare one or two pairs of objects per class, in one order",
     ["pre/_shiftscale.py", "pre/_multi.py", "basis/_linear.py",
      "basis/_multi.py", "operators/_base.py",
      "operators/_polynomial_operator.py", "operators/_interpolate.py",
      "models/mono/_base.py", "roms/_bayes.py"],
     [("operator equality", "operators/_base.py"),
      ("model equality", "models/mono/_base.py")],
     ["results of == and !="])

prop("C31", "Verification methods accept consistent components and reject broken ones",
     "verify() of a trained transformer, basis, lifting map, derivative "
     "estimator, least-squares solver, operator or parametric operator "
     "returns without an exception for the classes of the package and for "
     "every consistent user-defined class on the templates, and raises "
     "VerificationError if the component breaks the contract of its "
     "template: output shapes, agreement of transform and inverse, of "
     "compress and decompress, of lift and unlift (also at selected "
     "locations), the in-place conventions, time derivatives and Jacobians "
     "beyond the tolerance, Galerkin projections, copies and saved files "
     "that differ, wrong dimension attributes. Faults of single members of "
     "multi-variable objects are found. Verification changes neither the "
     "component (also if it fails half way) nor files in the working "
     "directory, and the errors an estimator reports are the true relative "
     "errors of its estimates. verify() of untrained transformers and bases "
     "raises AttributeError.",
     ["inputs", "configurations"],
     "every contract violation of a user-defined component, every shipped "
     "class, every location subset drawn at random",
     "tests run verify() on consistent shipped classes only",
     ["pre/_base.py", "pre/_multi.py", "basis/_base.py", "basis/_multi.py",
      "lift/_base.py", "ddt/_base.py", "ddt/_interpolation.py",
      "lstsq/_base.py", "operators/_base.py"],
     [("operator verification", "operators/_base.py"),
      ("transformer verification", "pre/_base.py")],
     ["VerificationError raised by verify()"])

prop("C32", "Plots show the data they are documented to show",
     "The plotting functions and methods of the basis module (singular "
     "value decay, cumulative energy, residual energy, projection error, "
     "energy overview, basis vectors) draw the documented quantity of their "
     "data against its index (normalized or squared as requested, up to the "
     "documented right limit), mark every requested threshold by its level "
     "and by the rank that belongs to it and return that rank, hand "
     "style options on to the artists, use and return the axes given and "
     "leave other axes alone; convergence plots of verify() show the "
     "errors of the estimator. Plotting changes neither the object nor its "
     "data.",
     ["inputs", "histories"],
     "every spectrum, threshold list, option set, dimension history",
     "tests only check that the functions do not raise",
     ["basis/_pod.py", "basis/_linear.py", "ddt/_base.py", "ddt/_finite_difference.py"],
     [("plots of singular values and energies", "basis/_pod.py")],
     ["artists of the axes; returned ranks"])

prop("C33", "Names, classification and descriptions tell the truth",
     "The classification functions for operators and models (has_inputs, "
     "is_parametric, is_nonparametric, is_opinf, is_uncalibrated, is_affine, "
     "is_interpolated, is_continuous, is_discrete, is_interpolatory) answer "
     "according to what the object is and in which state it is, for shipped, "
     "user-defined and foreign objects; the conversions from nonparametric "
     "operator classes return the matching affine or interpolatory class "
     "and raise TypeError for other classes. A model lists its operators in "
     "the given order, resolves abbreviations, returns through c_, A_, H_, "
     "G_, B_ and N_ the first operator of that kind or None, reports the "
     "dimensions of the operators, rejects invalid operator lists and "
     "dimensions, and keeps its state when it does. Deprecated class names "
     "warn with DeprecationWarning naming the replacement and give the same "
     "results as the replacement. str() and repr() succeed for every object "
     "in every state, change nothing, and report the true class names, "
     "dimensions, structure, nested components and diagnostics.",
     ["inputs", "histories", "configurations"],
     "every class in every state, any sequence of operator assignments",
     "tests check single objects in one state and call str() without "
     "looking at the result",
     ["operators/_base.py", "operators/_affine.py", "operators/_interpolate.py",
      "models/_utils.py", "models/mono/_base.py",
      "models/mono/_nonparametric.py", "models/mono/_parametric.py",
      "utils/_repr.py"],
     [("operator classification", "operators/_base.py"),
      ("model classification", "models/_utils.py"),
      ("deprecated names", "operators/_interpolate.py")],
     ["return values; warnings; strings"])

# id -> technique (claimed checks only)
REF = "runtime monitoring: reference-model oracle over generated executions"
HIS = "runtime monitoring: history driver with fresh-object reference oracle"
TECH = {
    "C05": "runtime monitoring: purity monitors hooked onto the public API",
    "C12": HIS, "C20": HIS, "C24": HIS,
    "C25": "runtime monitoring: fault injection with file-state oracle",
    "C27": "runtime monitoring: schedule driver with environment oracle",
    "C29": "runtime monitoring: fault injection with rejection oracle",
    "C31": "runtime monitoring: fault injection with rejection oracle",
}
NA = {}


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    checks = []
    na = []
    for p in PROPS:
        i = p["id"]
        if i in NA:
            na.append(dict(property=i, reason=NA[i]))
            continue
        if not os.path.exists(os.path.join(HERE, "checks", i.lower() + ".py")):
            na.append(dict(property=i, reason="check under construction"))
            continue
        cmd = f"/opt/venv/bin/python run_check.py {i}"
        checks.append(dict(
            property=i, quick_cmd=cmd + " --tier quick",
            thorough_cmd=cmd + " --tier thorough",
            technique=TECH.get(i, REF), level="exploration",
            level_note="Held on the executions driven (counts in the "
            "evidence file); nothing is claimed about inputs or histories "
            "not generated. Trusts NumPy/SciPy/h5py and the reference "
            "oracles in /verif/checks."))
    man = dict(version=1,
               setup_cmd="/opt/venv/bin/python -c \"import numpy, scipy, h5py\"",
               checks=checks, not_applicable=na,
               notes="Pure-Python library without threads or native code: "
               "compiler sanitizers and race detectors have nothing to "
               "observe; all checks are monitors with reference-model "
               "oracles over generated executions. No hooks in /repo.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
    print(len(checks), "claimed;", len(na), "not")


main()
