"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                     observe_at=observe, hook_needed=None)))
STD, UN = "pykalman/standard.py", "pykalman/unscented.py"
CH, BI, SU = "pykalman/sqrt/cholesky.py", "pykalman/sqrt/bierman.py", "pykalman/sqrt/unscented.py"
SK = "pykalman/utils/_sklearn.py"

prop("P01", "Filtering returns the exact posterior of a linear-Gaussian model",
 "For every linear-Gaussian model and observation sequence, the standard filter's output at each time step is the mean and covariance of the state given the observations up to and including that step: the initial distribution (at step 0) or the propagated previous estimate (A m + b, A P A' + Q), conditioned on the step's observation. Each parameter may be constant or given per time step, and then the entry for the right step is used: transition entry t-1 leads from step t-1 to t, observation entry t belongs to step t.",
 ["inputs"], "all dimensions n, p, all lengths T, all parameter values with positive definite covariances, each parameter constant or time-varying, all observations, all masks",
 "the tests compare one 501-step robot series (constant matrices, time-varying offset only) with stored numbers; no other dimension, length, or time-varying matrix or covariance is run",
 [STD], [("_filter_predict", STD), ("_filter_correct", STD), ("_filter", STD), ("_last_dims", STD), ("KalmanFilter.filter", STD)], ["KalmanFilter.filter"],
 [("filtered/predicted means and covariances", "per-time-step posterior and prior moments", STD)])
prop("P02", "A time step with any masked component is treated as unobserved, everywhere",
 "If any component of an observation is masked, that whole time step is missing: filtering passes the prediction through unchanged, it contributes nothing to the log-likelihood or to any EM statistic, and an online update with a masked or absent observation equals a pure prediction. Values stored under a mask, and unmasked companions in the same step, never influence any result, in the standard, both square root and the three unscented estimators alike.",
 ["inputs"], "all mask patterns (none, partial, whole rows, first, last, all steps), all values hidden under masks, all models and dimensions",
 "the tests contain masks only at step 0 of two series, always whole rows; partial masks, later gaps and the hidden values are never varied",
 [STD, UN, CH, BI, SU], [("np.any(np.ma.getmask(observation)) guards", STD), ("unscented_correct", UN), ("_filter_correct", CH), ("_filter_correct", BI), ("_unscented_correct", SU), ("decorrelate_observations", BI)],
 ["filter", "smooth", "em", "loglikelihood", "filter_update"])
prop("P03", "Smoothing returns the exact posterior given all observations",
 "For every linear-Gaussian model and observation sequence the standard smoother's output is the mean and covariance of each state given all observations: at the last step it equals the filtered estimate, and before that it is the filtered estimate corrected by the gain P A' (predicted covariance)^-1 applied to the difference between the next smoothed and the next predicted moments. Each step uses the transition parameters that lead from it to the next step.",
 ["inputs"], "all dimensions, lengths T >= 1, constant or time-varying parameters, all masks",
 "the tests compare smoothed means (not covariances) of one series with stored numbers",
 [STD], [("_smooth_update", STD), ("_smooth", STD), ("KalmanFilter.smooth", STD)], ["KalmanFilter.smooth"])
prop("P04", "The log-likelihood is that of the observations under the model",
 "The log-likelihood of a sequence is the sum, over the time steps that are observed, of the log density of the observation under a normal distribution with mean C m + d and covariance C P C' + R, where m, P are the moments of the state predicted from the earlier observations. Constant and per-time-step parameters, including the observation covariance, are honoured.",
 ["inputs"], "all models, dimensions, lengths, masks, constant or time-varying parameters",
 "one stored series and one two-point example are compared",
 [STD, SK], [("_loglikelihoods", STD), ("log_multivariate_normal_density", SK), ("KalmanFilter.loglikelihood", STD)], ["KalmanFilter.loglikelihood"])
prop("P05", "Every EM parameter update is the maximiser of the expected log-likelihood",
 "Each EM iteration re-estimates a selected parameter as the exact maximiser of the expected complete-data log-likelihood under the smoothed distribution computed with the parameters before the iteration: the closed forms of the documentation for A, b, Q, C, d, R, the initial mean and the initial covariance, with observation sums taken over the observed steps only and divided by their number. Within one iteration the updates run in the order C, R, A, Q, initial mean, initial covariance, b, d, each using the values already updated before it and the old values of the rest.",
 ["inputs", "histories"], "all smoothed statistics, dimensions, lengths T >= 2, masks with at least one observed step, parameters constant or time-varying before the update, any number of iterations",
 "one series checks a five-iteration likelihood trace for two parameters and that it grows for all eight; a wrong term that still raises the likelihood there goes unseen",
 [STD], [("_em", STD), ("_em_observation_matrix ... _em_observation_offset", STD), ("_smooth_pair", STD), ("KalmanFilter.em", STD)], ["KalmanFilter.em"])
prop("P06", "EM changes exactly the selected parameters, for exactly n_iter iterations",
 "EM re-estimates exactly the parameters selected by the call's variable list, or if none is given by the constructor's list, or by default the two noise covariances and the initial mean and covariance ('all' selects all eight); every other parameter keeps its value. It performs exactly the requested number of iterations and returns the estimator itself, for the standard and the two square root linear filters.",
 ["inputs", "configurations", "histories"], "all 256 subsets of the eight parameters, 'all' and the default, given in the call or the constructor, all iteration counts",
 "the tests use two of the 256 subsets and never check that unselected parameters stay",
 [STD, CH, BI], [("KalmanFilter.em / given dictionary", STD), ("_em", STD), ("CholeskyKalmanFilter.em", CH), ("BiermanKalmanFilter.em", BI)], ["em", "constructor attributes after em"])
prop("P07", "One online update equals one step of batch filtering",
 "For the standard filter and the three unscented filters, updating the filtered estimate of step t with the observation of step t+1 gives exactly the estimate that batch filtering of the whole sequence gives at step t+1, with the same array shapes. Every parameter passed to the update overrides the estimator's; a parameter left out that is time-varying in the estimator is refused with ValueError (AssertionError for function sequences) instead of being guessed.",
 ["inputs", "histories"], "all models, estimates, observations (masked, partially masked, None) and all subsets of overridden parameters",
 "the tests replay one series per class with either all or none of the parameters overridden",
 [STD, UN, SU], [("KalmanFilter.filter_update", STD), ("UnscentedKalmanFilter.filter_update", UN), ("AdditiveUnscentedKalmanFilter.filter_update", UN), ("_arg_or_default", STD)], ["filter_update", "filter"])
prop("P08", "The Cholesky filter is interchangeable with the standard filter",
 "For every model with constant positive definite covariances (the other parameters constant or per time step) the Cholesky square root filter returns the same filtered and smoothed moments, log-likelihood, online update and EM estimates as the standard filter, with the same shapes.",
 ["inputs", "histories"], "all dimensions, lengths, parameters, masks; real arithmetic (floating point rounding is not modelled)",
 "equality is only tested against one stored series, n=5, p=2",
 [CH, STD], [("_filter_predict (QR)", CH), ("_filter_correct (QR)", CH), ("_filter", CH), ("_reconstruct_covariances", CH), ("CholeskyKalmanFilter", CH)], ["CholeskyKalmanFilter.*"])
prop("P09", "The Bierman filter is interchangeable with the standard filter",
 "For every model with constant positive definite covariances (the other parameters constant or per time step, integer or floating point) the UDU' square root filter returns the same filtered and smoothed moments, log-likelihood, online update and EM estimates as the standard filter, with the same shapes.",
 ["inputs", "histories"], "all dimensions, lengths, parameters, masks, correlated observation noise; real arithmetic",
 "equality is only tested against one stored series with diagonal observation noise",
 [BI, STD], [("udu", BI), ("decorrelate_observations", BI), ("_filter_correct_single", BI), ("_filter_correct", BI), ("_filter", BI), ("BiermanKalmanFilter", BI)], ["BiermanKalmanFilter.*"])
prop("P10", "The additive unscented filter and smoother compute the unscented transform",
 "For every transition and observation function, the additive-noise unscented filter predicts with the weighted mean and weighted covariance of the transformed sigma points plus the noise covariance, redraws sigma points from the prediction, and corrects with the gain (cross covariance)(observation covariance)^-1; its smoother applies the corresponding backward correction. Functions given per time step are applied at their own step.",
 ["inputs", "programs"], "all user functions, dimensions, lengths, masks, positive definite covariances",
 "the tests run one linear example of four steps with n=2, p=1 and a single function",
 [UN], [("unscented_transform", UN), ("points2moments", UN), ("unscented_filter_predict", UN), ("unscented_filter_correct", UN), ("additive_unscented_filter", UN), ("additive_unscented_smoother", UN)], ["AdditiveUnscentedKalmanFilter.filter", "AdditiveUnscentedKalmanFilter.smooth"])
prop("P11", "The general unscented filter and smoother use the augmented state",
 "For every transition and observation function of state and noise, the general unscented filter draws sigma points from the joint distribution of state, transition noise and observation noise (block diagonal covariance), passes each point's own state and noise parts through the functions, and corrects the predicted moments with the gain (cross covariance)(observation covariance)^-1; its smoother does the same with state and transition noise. Functions given per time step are applied at their own step.",
 ["inputs", "programs"], "all user functions of state and noise, dimensions, lengths, masks",
 "the tests run one linear example of four steps with additive use of the noise",
 [UN], [("augmented_points", UN), ("augmented_unscented_filter_points", UN), ("augmented_unscented_filter", UN), ("augmented_unscented_smoother", UN)], ["UnscentedKalmanFilter.filter", "UnscentedKalmanFilter.smooth"])
prop("P12", "Sigma points reproduce the distribution they are drawn from",
 "For every mean, positive definite covariance and spread parameters, the 2n+1 sigma points have mean weights that sum to one, weighted mean equal to the mean and weighted covariance equal to the covariance (up to the documented beta/alpha correction of the centre weight, whose deviation is zero). Consequently, on models whose functions are affine with additive noise, the general and the additive unscented filters and smoothers give the same results as the exact linear filter and smoother.",
 ["inputs"], "all dimensions (including n > 3, where the centre weight is negative), means, covariances, alpha, beta, kappa; all affine models, lengths and masks",
 "one n=2 example against numbers of an external implementation",
 [UN, SU], [("moments2points", UN), ("points2moments", UN), ("moments2points", SU)], ["moments2points", "UnscentedKalmanFilter", "AdditiveUnscentedKalmanFilter"])
prop("P13", "The square root unscented filter equals the additive unscented filter",
 "For every model on which the covariances stay positive definite, the square root additive unscented filter returns the same filtered and smoothed moments and the same online update as the additive unscented filter, with the same shapes, including correlated noise, several observation dimensions and more than three state dimensions.",
 ["inputs", "programs"], "all functions, dimensions, covariances, lengths, masks; real arithmetic",
 "one n=2, p=1 example with diagonal noise",
 [SU, UN], [("points2moments (QR)", SU), ("_unscented_correct", SU), ("_additive_unscented_filter", SU), ("_additive_unscented_smoother", SU), ("cholupdate", SU)], ["sqrt.AdditiveUnscentedKalmanFilter.filter/smooth/filter_update"])
prop("P14", "Missing parameters get neutral defaults of consistent dimensions",
 "The state and observation dimensions are those implied by the given parameters (or the explicit sizes, or one if nothing is given), and parameters whose shapes contradict each other are refused with ValueError at construction. Parameters left out act as identity matrices, zero offsets and zero mean of those dimensions (identity functions plus noise for the unscented filters), and a given parameter always takes precedence over its default.",
 ["inputs", "configurations"], "all subsets of given parameters, all shapes consistent or not, every estimator class",
 "the tests try five parameter subsets and never an inconsistent one",
 [STD, UN, SK], [("_determine_dimensionality", STD), ("_initialize_parameters", STD), ("_initialize_parameters / _default_parameters", UN), ("preprocess_arguments", SK)], ["constructors", "filter/sample with defaults"])
prop("P15", "Sampling draws from the model",
 "A sampled trajectory starts at the given initial state or at a draw from the initial distribution; each later state is the transition of the previous state plus a fresh draw with that step's transition covariance (or through the noise argument of a general unscented model), and each observation is the observation of the state at the same step plus a fresh draw with that step's observation covariance. All draws come from the generator of the call, else of the estimator: an integer seed gives the same trajectory every time, and an invalid seed is refused with ValueError.",
 ["inputs", "histories"], "all models with constant or time-varying parameters, lengths, seeds, initial states",
 "the tests only check output shapes",
 [STD, UN, SK], [("KalmanFilter.sample", STD), ("UnscentedKalmanFilter.sample", UN), ("AdditiveUnscentedKalmanFilter.sample", UN), ("check_random_state", SK)], ["sample"])
prop("P16", "Inference never modifies its inputs or the estimator",
 "Filtering, smoothing, online updates, sampling and log-likelihood evaluation leave the observations (values and mask), all arrays passed in and every attribute of the estimator unchanged, and EM leaves everything but the estimator's eight parameters unchanged and never writes into the arrays it was given. Hence repeating a call gives the same result.",
 ["inputs", "histories"], "all calls and call sequences on every estimator class, with observations and parameters of any dtype and mask",
 "no test looks at an argument after a call",
 [STD, UN, CH, BI, SU], [("local copies and fresh result arrays", STD), ("udu / np.triu copy", BI), ("cholupdate copies", SU), ("moments2points np.tile", UN)], ["all public methods"])
prop("P17", "The square root building blocks reconstruct their matrices",
 "For every positive definite matrix the UDU' factorisation has a unit upper triangular U with U D U' equal to the matrix; the rank-one Cholesky update returns an upper triangular factor of A'A + w x x' (for each row of x in turn, either sign of w, as long as the result is positive definite), the QR helper returns a square upper triangular R with R'R = A'A, and the scalar-observation update returns the factors of the conditioned covariance and the gain. None of them modifies its arguments.",
 ["inputs"], "all dimensions, positive definite matrices (integer or floating point), vectors, weights of either sign",
 "one 3x3 example per helper",
 [SU, BI], [("cholupdate", SU), ("qr", SU), ("udu", BI), ("_filter_correct_single", BI)], ["pykalman.sqrt.unscented.cholupdate/qr", "pykalman.sqrt.bierman.udu"])
prop("P18", "Observations are read as one row per time step",
 "An array of shape [time steps, observation dimension] is used as it stands, including a single time step of several dimensions; a one-dimensional sequence is read as that many scalar observations, and masks stay attached to their entries. This holds for every estimator and for list, array and masked-array input.",
 ["inputs"], "all shapes, containers, masks, dimensions and lengths",
 "the tests pass 2-d arrays of many rows, and one masked vector",
 [STD, UN], [("_parse_observations", STD), ("UnscentedMixin._parse_observations", UN)], ["filter", "smooth", "em", "loglikelihood"])
prop("P19", "Estimates are causal and smoothing ends at the filter",
 "The filtered estimate at a step depends only on observations and parameters up to that step: filtering a prefix of the sequence gives the prefix of the results. The smoothed estimate at the last step equals the filtered one, for every estimator class.",
 ["inputs", "histories"], "all sequences and all prefixes, every estimator class, masks included",
 "no test filters a prefix or compares the two ends",
 [STD, UN, CH, BI, SU], [("_filter", STD), ("_smooth", STD), ("additive/augmented_unscented_filter/smoother", UN)], ["filter", "smooth"])
prop("P20", "Covariances are symmetric, and data never increase uncertainty",
 "All filtered, smoothed and online covariances of the linear filters are symmetric positive semidefinite; an observed step's filtered covariance is bounded above (in the positive semidefinite order) by the predicted one, and a smoothed covariance by the filtered one.",
 ["inputs"], "all models with positive definite noise, dimensions, lengths, masks",
 "tests never look at symmetry, definiteness or ordering",
 [STD, CH, BI], [("_filter_correct", STD), ("_smooth_update", STD), ("_reconstruct_covariances", CH)], ["filter", "smooth", "filter_update"])
prop("P21", "A constant parameter and its repetition over time are the same model",
 "Giving a parameter once or repeating the same value for every time step makes no difference to filtering, smoothing, sampling (with the same seed) or the log-likelihood of the standard filter, nor for the matrices and offsets of the square root filters.",
 ["inputs", "configurations"], "all subsets of parameters repeated, all models, lengths and masks",
 "only the transition offset is ever time-varying in the tests",
 [STD, CH, BI], [("_last_dims", STD), ("_filter", STD), ("_smooth", STD), ("_loglikelihoods", STD), ("decorrelate_observations", BI)], ["filter", "smooth", "sample", "loglikelihood"])
prop("P22", "EM never lowers the log-likelihood",
 "For every model with constant parameters and positive definite covariances, every data set and every selection of parameters, one EM iteration gives a log-likelihood at least as high as before, as long as the re-estimated covariances stay positive definite.",
 ["inputs", "histories"], "all models, data with masks, subsets of parameters, iteration counts",
 "one series and two parameter selections, first five iterations",
 [STD], [("_em", STD), ("KalmanFilter.em", STD)], ["KalmanFilter.em", "KalmanFilter.loglikelihood"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P))
