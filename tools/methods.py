"""For DESIGN.md: what is specified and how it is decided, the oracle, and why
that reaches what the tests cannot."""
METHODS = {
"K01": ("`execute` of both ordinary-kriging classes runs on symbolic data. Weights λ are obtained by kriging the unit vectors; goals: Σλ = 1, Γλ + μ = γ, σ² = λ·γ + μ, and prediction = λ·z for arbitrary z. Near targets check that only coincident points are treated as such.",
        "the ordinary-kriging equations, written in the harness with Euclidean distances of the harness's own.",
        "tests compare a handful of predictions with stored numbers; here geometry, values and variogram are symbolic."),
"K02": ("As K01 with drift terms: the drift rows of the system must hold for λ with drift values computed by the harness (linear, logarithmic with wells, functions as uninterpreted functions, specified arrays, external grids).",
        "the universal-kriging equations with multipliers eliminated by solving, the drift values from their documentation.",
        "every drift kind, combination, style and backend against one specification, instead of six stored results."),
"K03": ("All data points are targets; goals: prediction equals the datum and variance zero for exact values, the nugget-carrying equations with exact values off.",
        "the datum itself; kriging equations with γ(0) on the right-hand side.",
        "every nugget, position of the datum in the request, window and drift, not one grid node."),
"K04": ("The same symbolic request goes to every backend; results are compared entry by entry, the compiled one through the translated .pyx sources.",
        "the vectorized backend (itself decided by K01, K02).",
        "differential over all inputs of the bound, including coincident points, wells on targets, windows and masks."),
"K05": ("Grid, masked and point requests of the same symbolic coordinates on one object; orientation (row = y, column = x, layer = z), masks, shapes and mask identity are goals.",
        "the points request, cell by cell.",
        "non-square grids, every mask and unordered axes; a transposed mask or axis only shows there."),
"K06": ("cKDTree by contract; window results are compared with a whole-system kriging of exactly the k nearest points, for every possible set of nearest points.",
        "an object built from the selected points (or the equations for them).",
        "all subsets, backends, geographic chords, different windows in sequence on one object."),
"K07": ("Objects with symbolic scalings and angles against objects without anisotropy on coordinates transformed by the harness; rigid motions and shifts of all coordinates.",
        "the documented rotation and stretch, written in the harness; cos and sin of symbolic angles constrained by identities.",
        "any angle and ratio around every axis; tests use one angle per class."),
"K08": ("Distances as arccos/arctan2 terms against the haversine relation; kriging and windows with them; longitudes shifted by full turns.",
        "the haversine formula and chord identities, in the harness.",
        "poles, antimeridian, whole turns, coincident points."),
"K09": ("The variogram functions and the classes' use of them on symbolic distances and parameters.",
        "the documented formulas.",
        "every distance including exactly the range and zero, array shapes, integer input."),
"K10": ("The compiled models inside the compiled kriging against Python ones and against the formulas; memory accesses are checked (symbolically by bounds-checked views, in replays by guard pages and a bounds-checked build).",
        "K09's formulas; the loop backend.",
        "parameter-dependent deviations and out-of-range accesses the tests' one grid does not see."),
"K11": ("Lists, dictionaries with psill or sill, and custom models produce the same object and predictions; wrong keys and counts raise.",
        "the object built from the list form.",
        "all parameter values and all key subsets, constructor and update."),
"K12": ("Lags and semivariances of symbolic data against a harness histogram: the path condition fixes the order of all distances and their bins.",
        "equal-width bins over [min, max] of pair distances, mean distance and half mean squared difference per non-empty bin.",
        "each assignment of pairs to bins; edges; geographic distances."),
"K13": ("`least_squares` is replaced by its contract and records its arguments: bounds non-empty, start feasible, residuals equal weight·(model − experiment) at arbitrary parameters, weights positive, summing to one, non-increasing and logistic with the documented centre.",
        "documented misfit, bounds and weighting.",
        "feasibility for every experimental variogram, not for two data sets."),
"K14": ("Sequences of updates (models, single and several anisotropy parameters, fits) on one object against a fresh object with the last settings; attributes, statistics and predictions compared.",
        "a fresh object.",
        "leaks of earlier settings need particular histories (anisotropy and wells, same setting twice)."),
"K15": ("Residuals, standard deviations and Q1, Q2, cR of the constructor and of updates; repeated locations at every position, with and without nugget and pseudo-inverse.",
        "sequential kriging equations on the preceding data, written in the harness.",
        "symbolic data sets; skipped data; averaging of repeats."),
"K16": ("Arguments are compared with copies after construction and execution; caller arrays are overwritten between; requests repeated after others; points alone, reordered and repeated.",
        "the first result; the untouched copies.",
        "aliasing shows only for particular array types, shapes and sequences."),
"K17": ("The same symbolic numbers in lists, tuples, views, columns, scalars; whole numbers as integers.",
        "the float-array object.",
        "each argument of each class in each container."),
"K18": ("Writer and reader run on an in-memory file whose numbers are symbolic texts; grids written and read back are compared, headers parsed by the documented format.",
        "the written grid up to the written precision; the asc header conventions.",
        "values at the edge of the field width, both styles, uneven spacing, masks, NaN."),
"K19": ("As K18 for zmap grids: line wrapping, no-data, coordinate-system text, foreign line lengths.",
        "the written grid up to the written precision.",
        "column heights around multiples of five, sign and magnitude classes."),
"K20": ("External drift through kriging: the drift rows must hold for bilinear values computed by the harness; the interpolation itself on every cell, edge and node.",
        "the bilinear formula; objects with `specified` drift of those values.",
        "every cell and edge of the grid; swapped weights cancel on symmetric test grids."),
"K21": ("Every attribute and result of the object inside the wrapper against a directly constructed one with the same settings.",
        "the kriging classes.",
        "each parameter with a non-default symbolic value; second fits."),
"K22": ("Regression is an uninterpreted function of covariates and training targets; prediction must be that plus kriging of the residuals; all settings forwarded.",
        "the kriging classes on the residuals.",
        "any regression model, second fits, windows, backends, score."),
"K23": ("Class probabilities are symbolic compositions; the predicted label must maximise log probability plus kriged log residual; ilr transformation and inverse on symbolic compositions.",
        "log-ratio kriging per class, basis-independent.",
        "zeros, label types, several orders of classes, settings of every coordinate."),
"K24": ("Invalid requests raise at construction, update or execution, valid ones do not; names are explored over every string constant of the sources.",
        "the documentation's lists of valid values.",
        "each bad value in each class and style; masks and shapes around the valid ones."),
"K25": ("The translated compiled backend with bounds-checked buffers, uninitialised memory tracking and LAPACK contracts that may report failure at any solve.",
        "no access outside a buffer, no unset value read, the expected number of results, errors raised when a solve fails.",
        "buffer ends depend on sizes, masks and windows; overruns rarely crash a test."),
"K26": ("Duplicated data with pseudo-inverse against the object with averaged data; nothing else changes with regular systems.",
        "the object with one averaged datum per location.",
        "every grouping of duplicates, window and backend."),
"K27": ("Stand-in covariance models with arbitrary variogram functions and anisotropy against explicit settings; sequences of settings.",
        "the same settings given explicitly.",
        "gstools is not installed here, so the tests skip all of this."),
"K28": ("z ↦ a·z + b·w + c on predictions; variances without the values; scaled variograms scale variances.",
        "linearity itself.",
        "any data values and factors; clipping or data-dependent variances."),
}
