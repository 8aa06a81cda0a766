COMMON = " Real arithmetic; contracts assumed for numpy/scipy (listed in the evidence); the oracle runs replay counterexamples and are not counted."
NOTES["P01"] = "All T, n, m, masks, parameter values and constant/per-step mixes: _last_dims, _filter_predict, _filter_correct, _filter under contract, KalmanFilter.filter over them." + COMMON
NOTES["P02"] = "Standard, Cholesky, additive, general and square root unscented filters: discharged for all T, n, m, masks and parameters (a masked step equals the prediction; arbitrary other values under the mask change nothing, by induction over the recursions; online update). Bierman and square root unscented filters: bounded oracle only." + COMMON
NOTES["P03"] = "As P01 plus _smooth_update and _smooth; all T, n, m, masks and parameter values." + COMMON
NOTES["P04"] = "KalmanFilter.loglikelihood equals the sum of Gaussian log densities over the unmasked steps, for all T, n, m, masks and parameter values." + COMMON
NOTES["P07"] = "KalmanFilter.filter_update for every combination of passed/omitted, constant/per-step parameters and masks equals one step of the batch recursion, and omitted time-varying parameters are refused; the additive, the general and the square root unscented filter likewise for arbitrary functions (uninterpreted), constant or per step; square root unscented filter: bounded oracle only." + COMMON
NOTES["P16"] = "Every write to an argument or attribute on any path of filter, smooth, loglikelihood, filter_update of the standard, Cholesky, additive, general and square root unscented filters is refuted (frame conditions); sampling of all six classes writes nothing; other estimators and EM: bounded oracle only." + COMMON
NOTES["P18"] = "Standard, Cholesky and the three unscented filters: masked/plain arrays, lists of rows, one-dimensional sequences and single scalars, for all T, n, m; other estimators: bounded oracle only." + COMMON
NOTES["P19"] = "Standard, Cholesky and the three unscented filters: filter of a prefix equals the prefix (induction over the recursions), last smoothed = last filtered; other estimators: bounded oracle only." + COMMON
NOTES["P21"] = "Standard and Cholesky filters: for every subset of the parameters repeated over time filter, smooth and loglikelihood equal those of the constant model, and sample draws the same states and observations (Bierman sample included); the other methods of the Bierman filter: bounded oracle only." + COMMON
NOTES["P14"] = "Default dimensions and default values for every combination of given and missing parameters (standard, Cholesky, Bierman, additive, general and square root unscented classes: dimensions; standard, Cholesky and the three unscented: filtering with the defaults equals filtering with them written out)." + COMMON
NOTES["P15"] = "sample of all six classes: the values returned are, for every T and all parameters (functions uninterpreted), the model's recursion over independent named draws of the model's distributions (initial state, transition noise, observation noise in their stated roles and covariances); that numpy's generator draws from the named distribution is assumed." + COMMON
NOTES["P05"] = "KalmanFilter.em, one iteration from arbitrary parameters with an arbitrary selection: every closed form of _em (all T, n, m, masks, mixes of constant and per-step parameters); the Cholesky filter under P08, the Bierman filter: bounded oracle only." + COMMON
for _p in "P09 P17 P22".split():
    LEVEL[_p] = "exploration"
    NOTES[_p] = "Bounded stand-in (labelled bounded, nothing counted as proved): the real code against independent references on generated models up to 5 dimensions and 10 time steps."
NOTES["P06"] = "KalmanFilter.em and CholeskyKalmanFilter.em: for an arbitrary number of iterations, every selection given to the call, 'all', the default and none, the parameters are the n_iter-fold iterate of one EM step (the functions of a step enter as opaque functions of their arguments; what they compute is P05/P08), unselected ones keep their value; a selection given to the constructor: one iteration. Bierman filter: bounded oracle only." + COMMON
NOTES["P08"] = "Cholesky _filter_predict, _filter_correct, _filter, _reconstruct_covariances under contract (every factor F satisfies F F' = the covariance of the model); filter, smooth, loglikelihood, filter_update and one EM iteration equal the formulas the standard filter is proved against, all T, n, m, masks, constant Q/R, other parameters constant or per step." + COMMON
NOTES["P20"] = "Standard and Cholesky filters: every returned covariance is proved equal to an expression that is symmetric and a sum of congruences of the given positive semi-definite matrices (Joseph form and the smoothing difference as obligations; the closure of positive semi-definiteness under congruence, sum and inverse is the lemma file lean/Psd.lean); shapes for all T, n, m; floating point rounding and the other estimators: bounded oracle only." + COMMON
NOTES["P13"] = "cholupdate (its index loops under stated invariants: sum of squares preserved, positive pivots), qr, points2moments, moments2points, _unscented_transform, _unscented_correct, unscented_filter_predict, unscented_filter_correct, _additive_unscented_filter, _additive_unscented_smoother and _reconstruct_covariances of sqrt/unscented.py under contract: filter, smooth and filter_update equal the formulas P10 proves of the additive unscented filter, for all functions, T, n, m, masks and covariances (precondition: the covariances stay positive definite)." + COMMON
UNS = "points2moments, moments2points, unscented_transform, unscented_correct, augmented_points, augmented_unscented_filter_points, unscented_filter_predict, unscented_filter_correct and the %s filter and smoother loops under contract; "
NOTES["P10"] = UNS % "additive" + "AdditiveUnscentedKalmanFilter.filter and .smooth over them for arbitrary (uninterpreted) functions, constant or per step, all T, n, m, masks and covariances." + COMMON
NOTES["P11"] = UNS % "augmented" + "UnscentedKalmanFilter.filter and .smooth over them for arbitrary (uninterpreted) functions of state and noise, constant or per step, all T, n, m, masks and covariances." + COMMON
NOTES["P12"] = "Weights, weighted mean and covariance of moments2points for all n and symbolic alpha, beta, kappa; the three unscented filters and smoothers on affine functions with additive noise equal the linear filter and smoother by induction over the recursions (all T, n, m, masks; functions constant or per step)." + COMMON
