"""Writes /verif/properties.jsonl (kept as code so that the file stays well-formed)."""
import json, os
S="src/pykrige/"
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None):
    assert len(title)<=80,(id,len(title))
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=[S+f for f in files],state=state or [],mechanism=[dict(name=n,where=S+w) for n,w in mech],observe_at=observe,hook_needed=None))
    P.append(d)

prop("K01","Ordinary kriging returns the best linear unbiased estimate and its variance",
"For any data locations, data values and variogram for which the kriging system is solvable, 2D and 3D ordinary kriging return, at every requested point, a weighted sum of the data values whose weights sum to one and satisfy the ordinary-kriging equations for the variogram and the distances in use, together with the kriging variance of exactly those weights. This holds for every backend and for point-list, grid and masked requests, with and without anisotropy.",
["inputs","configurations"],"all coordinates, values, variograms (as arbitrary functions of distance), anisotropy settings, prediction points; each backend and request style",
"The tests compare a handful of fixed data sets against stored answers; the claim is over all real coordinates, values and variograms and over every backend/style combination.",
["ok.py","ok3d.py","lib/cok.pyx","lib/variogram_models.pyx"],
[("2D kriging matrix","ok.py:OrdinaryKriging._get_kriging_matrix"),("2D solvers","ok.py:OrdinaryKriging._exec_vector/_exec_loop"),("3D solvers","ok3d.py:OrdinaryKriging3D._exec_vector/_exec_loop"),("Cython solver","lib/cok.pyx:_c_exec_loop")],
["values and variances returned by execute()"])

prop("K02","Universal kriging honours every drift term it was given",
"For any solvable problem, 2D and 3D universal kriging return a weighted sum of the data values whose weights sum to one, reproduce exactly every configured drift term (regional linear, point logarithmic, external grid, user-specified values, user functions, alone or combined) at the prediction point, and satisfy the universal-kriging equations; the returned variance is the kriging variance of those weights. Consequently data that are a linear combination of the drift terms are reproduced exactly everywhere.",
["inputs","configurations"],"all coordinates, values, variograms, drift values/functions, well positions and strengths; every drift combination, both backends, 2D and 3D",
"Tests pin a few drift configurations on one small data set, and no test uses specified drift with the loop backend or a point-log well under an evaluation point there.",
["uk.py","uk3d.py"],
[("2D matrix with drifts","uk.py:UniversalKriging._get_kriging_matrix"),("2D right-hand sides","uk.py:UniversalKriging._exec_vector/_exec_loop"),("3D matrix and right-hand sides","uk3d.py:UniversalKriging3D._get_kriging_matrix/_exec_vector/_exec_loop")],
["values and variances returned by execute()"])

prop("K03","Predictions at data locations are exact, or nugget-filtered when asked",
"With exact values requested (the default), the prediction at a data location equals the datum and its variance is zero, whatever the nugget, for every kriging class, backend, drift configuration and moving window. With exact values switched off, the kriging equations keep the full nugget at coincident points, and with a zero nugget both settings agree.",
["inputs","configurations"],"all data sets, variograms including nuggets, prediction points at and near data locations (closer or further than the coincidence tolerance), all classes and backends",
"Tests check exactness for one data set per class; the claim quantifies over all data, all coincidence patterns and distances around the tolerance.",
["ok.py","uk.py","ok3d.py","uk3d.py","lib/cok.pyx"],
[("coincidence handling","ok.py:_exec_vector/_exec_loop/_exec_loop_moving_window"),("coincidence handling","uk.py, ok3d.py, uk3d.py:_exec_*"),("check_b_vect","lib/cok.pyx:check_b_vect")],
["values and variances returned by execute() at data coordinates"])

prop("K04","All backends return the same predictions and variances",
"For one kriging object and one request, every supported backend (vectorized, loop, compiled; also in moving-window mode) returns the same values and variances at every unmasked point, for every supported option: exact values on or off, pseudo-inverse on or off, every drift type, geographic or Euclidean coordinates. Prediction points coinciding with data points or wells are no exception.",
["inputs","configurations"],"all data, requests, options; pairs of backends",
"Backend-agreement tests use random data without masks, coincidences or specified drift; equality must hold for all inputs and options.",
["ok.py","ok3d.py","uk.py","uk3d.py","lib/cok.pyx","lib/variogram_models.pyx"],
[("vectorized/loop pairs","ok.py, ok3d.py, uk.py, uk3d.py:_exec_vector/_exec_loop"),("Cython loops","lib/cok.pyx:_c_exec_loop, _c_exec_loop_moving_window")],
["values and variances returned by execute() with different backend="])

prop("K05","Grid, masked and point-list requests agree, with documented orientation",
"Entry [row, column] of a 2D grid result belongs to (xpoints[column], ypoints[row]), and entry [k, i, j] of a 3D result to (xpoints[j], ypoints[i], zpoints[k]); each equals what a point-list request at those coordinates returns. A masked request returns the same numbers at unmasked cells and a masked array that hides exactly the masked cells; masks given transposed are accepted and reoriented, and masks of any other shape are rejected.",
["inputs","configurations"],"all grids (square and non-square), all masks, all data; all classes, backends",
"Tests use one mask on one grid; orientation and mask handling must hold for every mask and shape.",
["ok.py","uk.py","ok3d.py","uk3d.py"],
[("grid expansion, mask handling, reshape","ok.py:OrdinaryKriging.execute"),("same","uk.py:UniversalKriging.execute"),("same","ok3d.py:OrdinaryKriging3D.execute"),("same","uk3d.py:UniversalKriging3D.execute")],
["shape, mask and entries returned by execute()"])

prop("K06","A moving window uses exactly the nearest data points",
"Kriging with a moving window of k points gives, at each prediction point, exactly the result of ordinary kriging on only the k data points nearest to it (in the anisotropic or great-circle distance in use), and using all data points gives the global result. Window sizes that cannot be served (below two, or more than the number of data points) raise an error and never produce numbers.",
["inputs","configurations"],"all data sets, prediction points, window sizes; 2D loop and compiled backends, 3D, Euclidean and geographic coordinates",
"Tests only cover one window size on one data set; neighbour selection depends on all relative distances.",
["ok.py","ok3d.py","lib/cok.pyx"],
[("neighbour query","ok.py:OrdinaryKriging.execute"),("window solve","ok.py:_exec_loop_moving_window"),("3D window","ok3d.py:execute/_exec_loop_moving_window"),("compiled window","lib/cok.pyx:_c_exec_loop_moving_window")],
["values and variances returned by execute(n_closest_points=k)"])

prop("K07","Anisotropy rotates and stretches data and prediction points alike",
"The distance the kriging system uses between any two points is the Euclidean length of their difference after rotating the coordinate system by the given angle(s) (counter-clockwise in 2D; x, then y, then z axis in 3D) and stretching the documented axes by the given scaling(s), about the centre of the data. The same transformation applies to data, prediction points and point-drift wells; unit scaling leaves all distances unchanged for every angle, and so results do not depend on a common shift of all coordinates.",
["inputs","configurations"],"all coordinates, angles, scalings, in 2D and 3D; all classes",
"Tests check fixed angles on fixed points; the claim is an identity over all angles and points.",
["core.py","ok.py","uk.py","ok3d.py","uk3d.py"],
[("rotation and stretching","core.py:_adjust_for_anisotropy"),("centres and use for data","ok.py, uk.py, ok3d.py, uk3d.py:__init__"),("use for prediction points","ok.py, uk.py, ok3d.py, uk3d.py:execute")],
["adjusted coordinates; predictions for shifted/rotated data"])

prop("K08","Geographic kriging measures true great-circle distances",
"With geographic coordinates every distance used (variogram, kriging matrix, right-hand side, moving-window selection, cross-validation) is the great-circle angle in degrees between the points: symmetric, zero for equal points, between 0 and 180, equal to the spherical-geometry value, and unchanged when a longitude is shifted by 360 degrees. Chord lengths on the unit sphere convert to the same angle, and anisotropy settings are ignored (a scaling with a warning).",
["inputs","configurations"],"all longitude/latitude pairs, data sets and requests",
"Tests check a few fixed pairs; identities over all angles cannot be sampled.",
["core.py","ok.py"],
[("great-circle formula","core.py:great_circle_distance"),("chord conversion","core.py:euclid3_to_great_circle"),("use in kriging","ok.py:OrdinaryKriging._get_kriging_matrix/execute"),("use in variogram estimation and statistics","core.py:_initialize_variogram_model/_krige")],
["returned distances; predictions with coordinates_type='geographic'"])

prop("K09","Variogram models follow their documented formulas",
"The linear, power, Gaussian, exponential, spherical and hole-effect variogram models return, for every distance and parameter set, the documented closed form with partial sill, practical range and nugget in their documented roles, elementwise and independent of array shape. In particular the value at zero distance is the nugget, the spherical model equals the sill at and beyond its range, and sill-type models never leave the documented limits.",
["inputs"],"all distances >= 0 and all admissible parameters",
"Tests evaluate each formula at a handful of distances.",
["variogram_models.py"],
[("the six models","variogram_models.py")],["values returned by the model functions"])

prop("K10","Compiled variogram models equal the Python ones and stay in bounds",
"For every model available to the compiled backend the compiled variogram returns, for every distance and parameter set, the same value as the Python model of that name, fills exactly the requested entries and never reads or writes outside its arrays. A model without a compiled version is refused rather than replaced by another one.",
["inputs","configurations"],"all distances, parameters and array lengths up to the bound; every model name",
"Tests compare backends on one data set per model; piecewise boundaries and exponents need all values.",
["lib/variogram_models.pyx","lib/cok.pyx","variogram_models.py"],
[("compiled models","lib/variogram_models.pyx"),("name lookup","lib/variogram_models.pyx:get_variogram_model")],["predictions with backend='C'"])

prop("K11","All ways of giving variogram parameters mean the same model",
"A parameter dictionary, with sill or partial sill, and a parameter list (whose sill is the full sill) that describe the same model produce identical kriging objects, and the sill approached by the model is the given full sill. Missing keys, wrong lengths, wrong container types and unknown models raise an error instead of being reinterpreted; custom-model parameters reach the user's function unchanged.",
["inputs","configurations"],"all parameter values, every model, every container form and every subset of keys",
"Tests try a few numeric examples and a few missing-key cases.",
["core.py","ok.py"],
[("parameter normalisation","core.py:_make_variogram_parameter_list"),("length checks","core.py:_initialize_variogram_model")],["variogram parameters and variogram values of the object"])

prop("K12","The experimental variogram bins every pair of data points exactly once",
"The experimental semivariogram puts every unordered pair of data points into exactly one of the requested number of equal-width lag bins spanning smallest to largest pair distance, reports for each non-empty bin the mean distance and the mean of half the squared value difference, omits empty bins and keeps lags ascending. It does so for Euclidean coordinates of any dimension and for geographic coordinates.",
["inputs","configurations"],"all data sets up to the bound, all numbers of lags up to the bound",
"Tests look at one data set; bin-edge behaviour (pairs exactly on an edge, ties, the largest distance) needs all distance patterns.",
["core.py"],
[("binning","core.py:_initialize_variogram_model")],["lags and semivariance attributes"])

prop("K13","Automatic fitting minimises the documented misfit within legal bounds",
"When no parameters are given, the fit starts from a feasible point inside non-empty bounds for every usable experimental variogram, minimises the (optionally short-lag-weighted) differences between model and experimental semivariances, and the fitted parameters respect the bounds: non-negative slope, scale, partial sill and nugget, exponent strictly between 0 and 2, range at most the longest lag. Weights are positive, sum to one and never increase with lag.",
["inputs","configurations"],"all experimental variograms up to the bound, every model, weighting on and off",
"Tests fit two data sets and compare numbers.",
["core.py"],
[("fit","core.py:_calculate_variogram_model"),("residuals and weights","core.py:_variogram_residuals")],["variogram_model_parameters after construction without parameters"])

prop("K14","Updating the variogram equals building a new object",
"After any sequence of variogram updates the kriging object behaves exactly like one freshly constructed with the same data, drift settings and the last variogram and anisotropy settings: same lags, semivariances, parameters, adjusted coordinates, predictions and variances. No earlier setting leaks through.",
["histories","inputs","configurations"],"all sequences of updates up to the bound, all settings, all data; all four classes",
"Tests update once and compare attributes; state carried over from earlier settings only shows for particular histories (e.g. anisotropy with point drift).",
["ok.py","uk.py","ok3d.py","uk3d.py"],
[("update","ok.py:OrdinaryKriging.update_variogram_model"),("update","uk.py:UniversalKriging.update_variogram_model"),("update","ok3d.py:OrdinaryKriging3D.update_variogram_model"),("update","uk3d.py:UniversalKriging3D.update_variogram_model")],
["attributes and execute() after update_variogram_model()"])

prop("K15","Fit statistics are the sequential cross-validation residuals",
"The reported residuals compare each datum after the first with the ordinary-kriging estimate from the data before it, in order: residual, kriging standard deviation and their ratio, skipping data whose estimation variance is zero. Q1 is the absolute mean of the ratios, Q2 the mean of their squares and cR is Q2 times the geometric mean of the estimation variances, and printing or fetching them changes nothing.",
["inputs","configurations"],"all data sets and variograms up to the bound, all classes, Euclidean and geographic",
"Tests check the statistics for one data set against stored numbers.",
["core.py","ok.py","uk.py","ok3d.py","uk3d.py"],
[("sequential kriging","core.py:_krige/_find_statistics"),("Q1, Q2, cR","core.py:calcQ1/calcQ2/calc_cR")],["delta, sigma, epsilon, get_statistics()"])

prop("K16","Calls never modify their inputs and repeat identically",
"Constructing a kriging object and executing it leave every array passed in unchanged, and later changes to those arrays do not affect the object. Executing the same request again, after any other requests, returns the same result, and a point's prediction does not depend on which other points are requested with it or in which order.",
["inputs","histories","configurations"],"all data and requests; sequences of requests; all classes and backends",
"Tests execute once on fresh arrays; aliasing and cross-point contamination show only for particular call patterns.",
["ok.py","uk.py","ok3d.py","uk3d.py","core.py"],
[("defensive copies","ok.py, uk.py, ok3d.py, uk3d.py:__init__/execute"),("coordinate adjustment","core.py:_adjust_for_anisotropy")],["caller's arrays; repeated execute()"])

prop("K17","Input containers and number types do not change results",
"Coordinates and values given as lists, tuples, integer arrays, float arrays or column vectors with the same numbers produce the same object and the same predictions, for the data as well as for the requested points and the drift inputs. A single requested point or a single row or column of grid points is no exception.",
["inputs","configurations"],"all numbers; every container form for data and requests; all classes",
"Tests always pass float arrays of length greater than one.",
["ok.py","uk.py","ok3d.py","uk3d.py","core.py"],
[("input normalisation","ok.py, uk.py, ok3d.py, uk3d.py:__init__/execute"),("coordinate adjustment","core.py:_adjust_for_anisotropy")],["result of construction and execute()"])

prop("K18","ASCII grid files written are read back as the same grid",
"Writing a grid to an ASCII grid file and reading it back returns the same number of rows and columns, every value at the same x-y position to the written precision, the same cell coordinates and cell size, and the same no-data value, for both header styles; masked cells come back as the no-data value. Files whose header contradicts their body, and grids that cannot be represented (such as unevenly spaced ones), are rejected.",
["inputs"],"all grid values, origins, spacings and sizes up to the bound, both styles, all masks",
"The test writes one grid; orientation, header precision and column separation depend on the values written.",
["kriging_tools.py"],
[("writer","kriging_tools.py:write_asc_grid"),("reader","kriging_tools.py:read_asc_grid")],["arrays returned by reading a written file"])

prop("K19","ZMAP grid files written are read back as the same grid",
"Writing a grid to a ZMAP file and reading it back returns the same number of rows and columns, every value at the same x-y position to the written precision, the same coordinates and cell sizes, the same no-data value and the same coordinate-system text. Masked or not-a-number cells come back as the no-data value, and unevenly spaced grids are rejected.",
["inputs"],"all grid values, origins, spacings, sizes up to the bound (including more rows than fit on one line), all masks",
"The test writes one grid; line wrapping, number formats by magnitude and coordinate reconstruction depend on the values and sizes.",
["kriging_tools.py"],
[("writer","kriging_tools.py:write_zmap_grid"),("reader","kriging_tools.py:read_zmap_grid")],["arrays returned by reading a written file"])

prop("K20","External drift values are bilinear interpolation of the drift grid",
"The drift value used at any location inside the external drift grid is the bilinear interpolation of the four surrounding grid values (linear on a cell edge, the grid value itself on a node), taken at the original, unrotated coordinates, for data and prediction points alike. Locations outside the grid raise an error; a drift grid given transposed is reoriented, and any other shape mismatch is rejected.",
["inputs","configurations"],"all grid values and ascending, possibly uneven, grid coordinates up to the bound; all locations",
"Tests evaluate a few points on one even grid.",
["uk.py"],
[("interpolation","uk.py:UniversalKriging._calculate_data_point_zscalars"),("shape checks","uk.py:UniversalKriging.__init__")],["predictions with external drift; extracted scalars"])

prop("K21","The scikit-learn wrapper is the kriging class it names",
"Fitting the scikit-learn style wrapper and predicting gives exactly the result of constructing the named kriging class with the same settings and evaluating it at the same points, for all four methods, with every option passed to the parameter it documents. Wrong point dimensions, unknown methods and predicting before fitting raise errors, and constructor arguments are stored unmodified so that models can be cloned.",
["inputs","configurations"],"all settings, data and points; four methods",
"Tests only check that grid search runs.",
["compat.py"],
[("forwarding","compat.py:Krige.fit/predict/execute")],["Krige.predict / Krige.execute"])

prop("K22","Regression kriging adds the kriged residual to the regression",
"The prediction is the regression model's prediction at the new covariates plus the kriging prediction, at the new coordinates, of the training residuals (target minus fitted regression). The regression is fitted on the given covariates and targets only, so with exact kriging the training targets are reproduced at the training points for any regression model.",
["inputs","configurations"],"all regression models (as arbitrary functions), data, kriging settings",
"The tests check that scores exceed a threshold.",
["rk.py","compat.py"],
[("fit/predict","rk.py:RegressionKriging.fit/predict/krige_residual")],["RegressionKriging.predict"])

prop("K23","Classification kriging kriges log-ratio residuals and returns the best class",
"Class probabilities are mapped to log-ratio coordinates by an invertible isometric transform: transforming any strictly positive composition there and back returns it, the inverse always yields positive parts summing to one, and the zero vector maps to the uniform composition. Every setting given to the classifier reaches each coordinate's kriging model; the predicted class is the label of a class whose predicted probability, corrected by the kriged log-ratio difference between observed and predicted classes at the training points, is largest, for any label set; fitting again forgets the first fit; no argument is modified.",
["inputs","configurations"],"all compositions up to the bound on parts, all classifiers (as arbitrary probability functions), all label sets",
"Tests check scores for one label set.",
["ck.py"],
[("transforms","ck.py:closure/ilr_transformation/inverse_ilr_transformation"),("fit/predict","ck.py:ClassificationKriging")],["ClassificationKriging.predict, transform functions"])

prop("K24","Invalid requests are rejected, valid ones are not",
"Unknown variogram models, request styles, backends, coordinate types or pseudo-inverse types, missing masks, mismatched point lists, missing or mismatched drift inputs and non-boolean exactness flags raise an error; none is silently replaced by a default. Every documented valid combination is accepted.",
["inputs","configurations"],"all combinations of option values and array sizes up to the bound; all classes",
"Tests exercise some error branches once.",
["ok.py","uk.py","ok3d.py","uk3d.py"],
[("validation","ok.py, uk.py, ok3d.py, uk3d.py:__init__/execute")],["exceptions raised by constructors and execute()"])

prop("K25","The compiled backend stays inside its buffers",
"For every data set, request, mask and window size accepted, the compiled backend reads and writes only inside the arrays it was given or allocated, passes consistent dimensions to the linear-algebra routines, and leaves masked points untouched at zero. A failed linear solve is reported as an error, never as numbers.",
["inputs","configurations"],"all sizes up to the bound, all masks, window sizes and options",
"Out-of-bounds accesses of code compiled without bounds checks usually go unnoticed in tests.",
["lib/cok.pyx","lib/variogram_models.pyx","ok.py"],
[("compiled loops","lib/cok.pyx:_c_exec_loop/_c_exec_loop_moving_window/check_b_vect"),("caller","ok.py:OrdinaryKriging.execute")],["memory accesses; results with backend='C'"])

prop("K26","Pseudo-inverse kriging averages redundant data and changes nothing else",
"With the pseudo-inverse enabled, a solvable kriging problem gives the same result as without it, for either algorithm choice. Data points duplicated at one location (without nugget) act as one point carrying their average value.",
["inputs","configurations"],"all data sets up to the bound, duplicated points, all classes and backends",
"One numeric test per class with one duplicated layout.",
["ok.py","uk.py","ok3d.py","uk3d.py","core.py","lib/cok.pyx"],
[("choice of inverse","core.py:P_INV and ok.py, uk.py, ok3d.py, uk3d.py:_exec_*"),("compiled choice","lib/cok.pyx:_c_exec_loop")],["execute() with pseudo_inv=True"])

prop("K27","External covariance models bring their own variogram and anisotropy",
"When a covariance-model object is given in place of a model name, the kriging object uses that object's variogram function and its anisotropy ratios and angles, ignoring separately given ones, at construction as well as at update. Models of the wrong dimension, or geographic models with unsupported coordinates, are rejected.",
["inputs","configurations"],"all model attributes (as symbolic values) and variogram functions; all classes; construction and update",
"Tests use two fixed GSTools models.",
["ok.py","uk.py","ok3d.py","uk3d.py","compat_gstools.py"],
[("model adoption","ok.py, uk.py, ok3d.py, uk3d.py:__init__/update_variogram_model"),("validation","compat_gstools.py:validate_gstools")],["attributes and execute() of the object"])

prop("K28","Predictions are linear in the data values, variances independent of them",
"With a fixed variogram, predictions respond linearly to the data values: scaling and shifting all values scales and shifts every prediction, and predictions for a sum of two value sets are the sum of the predictions; variances do not depend on the values at all. Multiplying the variogram by a positive factor leaves predictions unchanged and multiplies variances by that factor.",
["inputs","configurations"],"all data, values, factors, variograms; all classes, backends and drift settings",
"Metamorphic relations over all values are not tested at all.",
["ok.py","uk.py","ok3d.py","uk3d.py","lib/cok.pyx"],
[("solvers","ok.py, uk.py, ok3d.py, uk3d.py:_exec_*"),("compiled","lib/cok.pyx")],["execute() for related data sets"])

if __name__=="__main__":
    with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
        for p in P: f.write(json.dumps(p)+"\n")
    print(len(P))
