TRUST = (' Trusts openturns/numpy/scipy/statsmodels/scikit-learn primitives and the reference model in /verif/mc; bounded: '
         'nothing is claimed outside the enumerated space.')
STAT = (' Simulated curves are compared with their exact sampling law at 7 standard deviations with fixed seeds, '
        'so the comparison is deterministic.')

prop('C01', 'Censoring splits the observations exactly once, at the thresholds',
     'Filtering the data with a noise and a saturation threshold puts every observation in exactly one class: signals at or '
     'below the noise threshold are noise, signals at or above the saturation threshold are saturated, and all others are kept '
     'with their own defect and signal, in the original order. An absent threshold censors nothing, any finite threshold '
     '(zero and negative included) is honoured, and the caller\'s data are not modified.',
     ['inputs', 'configurations'], 'every signal vector, threshold pair, input dimension and container type',
     'the tests filter a few real data sets with thresholds that never coincide with a signal; ties, zero or negative '
     'thresholds, empty classes and several inputs are never reached',
     ['_math_tools.py', '_pod.py', '_univariate_linear_model_analysis.py'],
     [('DataHandling.filterCensoredData', '_math_tools.py')],
     ['otpod.DataHandling.filterCensoredData', 'UnivariateLinearModelAnalysis.getResiduals'],
     'exhaustive over signal vectors built on the threshold-relevant alphabet.' + TRUST)

prop('C02', 'Filtered techniques see the uncensored data only',
     'For the techniques that do not model censoring (quantile regression, polynomial chaos, kriging and both adaptive '
     'techniques), building the POD with a noise and/or saturation threshold gives the same curves, detection sizes, validation '
     'criteria and default defect sizes as building it on the data set from which the censored observations were removed. '
     'A threshold outside the range of the signals changes nothing, whatever its value.',
     ['inputs', 'configurations'], 'every data set, threshold placement (between, on and outside the signals), technique',
     'each test uses one data set and compares with stored numbers, so a technique that keeps some censored observation '
     'or reuses the unfiltered sample in one place is invisible',
     ['_pod.py', '_quantile_regression_pod.py', '_polynomial_chaos_pod.py', '_kriging_pod.py', '_adaptive_signal_pod.py',
      '_adaptive_hitmiss_pod.py', '_math_tools.py'],
     [('POD._run', '_pod.py'), ('DataHandling.filterCensoredData', '_math_tools.py')],
     ['getPODModel', 'getPODCLModel', 'computeDetectionSize', 'getR2', 'getQ2', 'getDefectSizes'],
     'two runs of the real code with the same seed (thresholds / pre-filtered data) compared on every observation.' + TRUST)

prop('C03', 'The linear analysis reports the least squares and Tobit estimates',
     'Without censored data the linear analysis reports the ordinary least squares intercept, slope and residual standard '
     'error (two degrees of freedom removed), their confidence intervals, R2 and residuals of signals against defects. With '
     'a threshold it also reports the maximum likelihood estimates of the censored model. The printed and the saved results '
     'show those same values.',
     ['inputs', 'configurations'], 'every data set (any order, duplicated defects), censoring and Box Cox configuration',
     'the tests compare a few stored estimates of one data set; unsorted or duplicated defects, ties with a threshold and '
     'most configurations are never run',
     ['_univariate_linear_model_analysis.py', '_math_tools.py'],
     [('UnivariateLinearModelAnalysis._run', '_univariate_linear_model_analysis.py'),
      ('computeLinearParametersCensored', '_math_tools.py'), ('computeR2', '_math_tools.py')],
     ['getIntercept', 'getSlope', 'getStandardError', 'getR2', 'getResiduals', 'getResults', 'saveResults'],
     'all sign patterns of the error vector for 8-10 observations against closed-form OLS and a Newton Tobit fit.' + TRUST)

prop('C04', 'The residual hypothesis tests report the right p-values',
     'The p-values reported by the linear analysis are those of the documented tests applied to the residuals it reports: '
     'zero mean (Student), Breusch-Pagan and Harrison-McCabe (homoskedasticity), Durbin-Watson (autocorrelation), and '
     'Anderson-Darling, Cramer-von Mises and Kolmogorov-Smirnov (fit of the residual law), for the uncensored and for the '
     'censored model. Every p-value lies in [0, 1]. The warning that some tests failed is reported (printed, saved and logged) exactly when one of '
     'these p-values is below 0.05, with the advice on the Box Cox transformation or another technique that fits the configuration.',
     ['inputs', 'configurations'], 'every data set, censoring, Box Cox and residual law configuration',
     'the tests hold stored p-values of one data set: a wrong sign, tail, degree of freedom or sample passes wherever it '
     'does not move that number',
     ['_univariate_linear_model_analysis.py', '_math_tools.py'],
     [('computeZeroMeanTest', '_math_tools.py'), ('computeBreuschPaganTest', '_math_tools.py'),
      ('computeHarrisonMcCabeTest', '_math_tools.py'), ('computeDurbinWatsonTest', '_math_tools.py')],
     ['getZeroMeanPValue', 'getBreuschPaganPValue', 'getHarrisonMcCabePValue', 'getDurbinWatsonPValue',
      'getAndersonDarlingPValue', 'getCramerVonMisesPValue', 'getKolmogorovPValue'],
     'same data sets as C03; independent implementations of the tests.' + STAT + TRUST)

prop('C05', 'One Box Cox transformation for signals, thresholds and detection',
     'When the Box Cox transformation is on, the same parameter, the one given as a float or else the maximum likelihood '
     'estimate, and the same shift are applied to the signals, to the censoring thresholds in use and to the detection '
     'threshold, and that parameter is the one reported. The POD with a given parameter therefore equals the POD without '
     'transformation on data, thresholds and detection transformed beforehand.',
     ['inputs', 'configurations'], 'every technique, parameter (0 and negative included), sign of the signals, censoring',
     'the tests run Box Cox with its estimated parameter on positive signals and stored results only; given parameters, shifts '
     'and the combination with censoring are not compared with anything',
     ['_pod.py', '_univariate_linear_model_analysis.py', '_univariate_linear_model_pod.py', '_quantile_regression_pod.py',
      '_math_tools.py', '_adaptive_signal_pod.py'],
     [('POD._run', '_pod.py'), ('computeBoxCox', '_math_tools.py')],
     ['getBoxCoxParameter', 'getPODModel', 'getPODCLModel', 'computeDetectionSize'],
     'relational check between two runs of the real code plus an independent likelihood maximiser.' + TRUST)

prop('C06', 'Binomial POD: fraction of residuals detected, exact confidence bound',
     'Without hypothesis on the residuals, the POD at defect size a is the fraction of residuals which, added to the '
     'linear prediction at a, exceed the detection threshold, and the curve at confidence level c is the exact lower '
     'one-sided binomial (Clopper-Pearson) bound for that count at that level.',
     ['inputs', 'configurations'], 'every data set, detection threshold, defect size, confidence level',
     'two stored curves of one data set; most (N, n) counts and the extreme counts 0 and N are not reached or pinned to a '
     'wrong value',
     ['_univariate_linear_model_pod.py'],
     [('PODbinomialModel', '_univariate_linear_model_pod.py'), ('PODbinomialModelCl', '_univariate_linear_model_pod.py')],
     ['getPODModel', 'getPODCLModel'],
     'every detected count reached for every N in the bound; two genuine defects pinned by the repository tests are listed '
     'as known findings by (N, n).' + TRUST)

prop('C07', 'Gaussian linear POD and the law of its confidence curve',
     'With Gaussian residuals the POD at defect size a is the normal probability that a new observation at a exceeds the '
     'detection threshold, with the fitted line as mean and the prediction variance (residual variance plus that of the fitted '
     'line) as variance. The curve at confidence level c is the (1-c) quantile, over simulated regression estimates following '
     'their sampling law (inverse chi-square variance, normal coefficients given it), of the normal probability that line plus '
     'residual exceeds the threshold; with censored data the maximum likelihood estimates replace the least squares ones.',
     ['inputs', 'configurations'], 'every data set, censoring, Box Cox, defect size and confidence level',
     'stored curves of one data set with a tolerance that hides errors in the sampling law',
     ['_univariate_linear_model_pod.py'],
     [('UnivariateLinearModelPOD.run / _computeLinearModel', '_univariate_linear_model_pod.py')],
     ['getPODModel', 'getPODCLModel'],
     'exact POD for every error sign pattern; 40000-simulation confidence curves against the exact law.' + STAT + TRUST)

prop('C08', 'Bootstrap linear POD: right curve for each resample of the data',
     'With another residual law the POD at defect size a is the probability that the fitted line plus a residual of the '
     'law fitted on the reported residuals exceeds the detection threshold. The curve at confidence level c is the (1-c) '
     'quantile, over resamples with replacement of the (defect, signal) pairs of the whole data set, of the POD refitted on each '
     'resample.',
     ['inputs', 'configurations'], 'every data set, residual law, censoring, Box Cox, every possible resample',
     'one stored curve; the set of resamples cannot be covered by one seed',
     ['_univariate_linear_model_pod.py'],
     [('UnivariateLinearModelPOD.run (bootstrap branch)', '_univariate_linear_model_pod.py')],
     ['getPODModel', 'getPODCLModel'],
     'all 6^6 resamples enumerated to obtain the exact law of the confidence curve.' + STAT + TRUST)

prop('C09', 'A POD built from a linear analysis equals the POD built from its data',
     'A linear POD constructed from an existing linear analysis gives the same curves and detection sizes as the one '
     'constructed from the data, thresholds and transformation of that analysis, and leaves the analysis unchanged. '
     'Contradictory or incomplete constructor arguments are refused.',
     ['inputs', 'configurations'], 'every data set, censoring, Box Cox, residual law and detection threshold',
     'the tests only check that such a POD can be run on one configuration',
     ['_univariate_linear_model_pod.py', '_univariate_linear_model_analysis.py'],
     [('UnivariateLinearModelPOD.__init__', '_univariate_linear_model_pod.py')],
     ['getPODModel', 'getPODCLModel', 'computeDetectionSize', 'getResults'],
     'relational: two constructions of the real code, same seed.' + TRUST)

prop('C10', 'Quantile regression POD interpolates the regression quantiles',
     'For each quantile level q of the list, the defect size returned is where the (1-q) regression quantile of the signals '
     'reaches the detection threshold, and the POD interpolates these points in the order of the levels. The curve at confidence '
     'level c is the quantile over resamples of the data of the defect sizes refitted on each resample, and the '
     'pseudo R2 reported for a level is the one of its regression.',
     ['inputs', 'configurations'], 'every data set, list of levels, censoring, Box Cox, every possible resample',
     'one stored curve with the default levels',
     ['_quantile_regression_pod.py'],
     [('QuantileRegressionPOD.run', '_quantile_regression_pod.py'), ('QuantileRegressionPOD.getR2', '_quantile_regression_pod.py')],
     ['getPODModel', 'getPODCLModel', 'getR2', 'computeDetectionSize'],
     'all 6^6 resamples enumerated for the exact law.' + STAT + TRUST)

prop('C11', 'Polynomial chaos POD follows the fitted chaos and its uncertainty',
     'The chaos is the least squares polynomial of the requested degree on the selected terms, with the R2 and leave-one-out Q2 '
     'reported, under the default uniform law on the data range or the given one. The POD at defect size a is the probability, '
     'over the other inputs, the coefficient law and the residual, that the prediction exceeds the detection threshold, and '
     'the curve at level c its (1-c) quantile over coefficient draws; a chaos result given by the user is used as is.',
     ['inputs', 'configurations'], 'every data set, number of inputs, degree, projection, input law, censoring, Box Cox',
     'stored curves of one data set per dimension',
     ['_polynomial_chaos_pod.py'],
     [('PolynomialChaosPOD.run', '_polynomial_chaos_pod.py'), ('_computePOD / _PODaggr', '_polynomial_chaos_pod.py')],
     ['getPODModel', 'getPODCLModel', 'getR2', 'getQ2', 'getPolynomialChaosResult', 'getCoefficientDistribution'],
     'explicit least squares, explicit leave-one-out refits, exact binomial laws.' + STAT + TRUST)

prop('C12', 'Kriging POD follows the kriging prediction and its uncertainty',
     'The kriging POD is built on the Gaussian process conditioned on the kept data with the chosen trend and covariance, and '
     'its Q2 is the leave-one-out one. The POD at defect size a is the probability, over the other inputs (following the given '
     'law, dependence included) and the conditional process, that the signal exceeds the detection threshold; the curve at level c is the (1-c) quantile over simulated '
     'processes of the proportion of inputs detected; between defect sizes curves are linear; a given kriging result is used as is.',
     ['inputs', 'configurations'], 'every data set, number of inputs, trend, covariance, input law, censoring, Box Cox',
     'one stored curve with a wide tolerance',
     ['_kriging_pod.py', '_kriging_tools.py'],
     [('KrigingPOD.run', '_kriging_pod.py'), ('KrigingBase._computePODSamplePerDefect', '_kriging_tools.py'),
      ('KrigingBase._computeLOO', '_kriging_tools.py')],
     ['getPODModel', 'getPODCLModel', 'getQ2', 'getKrigingResult', 'setKrigingResult'],
     'explicit universal kriging and leave-one-out where the covariance is well conditioned, exact laws elsewhere.' + STAT + TRUST)

prop('C13', 'Adaptive signal POD: exact enrichment, consistent final model',
     'An adaptive signal POD keeps the (uncensored) initial design in order and appends exactly the requested number of distinct '
     'candidate points, each one computed once with the physical model and reported, with its signal, in the original scale. Each '
     'added point minimizes the enrichment criterion over the remaining candidates, the covariance parameters are estimated again '
     'when the leave-one-out Q2 falls below 0.95, and the final kriging, Q2, POD and confidence curves are those of the enriched '
     'design.',
     ['inputs', 'configurations', 'histories'], 'every initial design, number of points, Box Cox, censoring, input law, trend',
     'two notebooks and stored detection sizes with a wide tolerance; the content of the design is never checked',
     ['_adaptive_signal_pod.py', '_kriging_tools.py'],
     [('AdaptiveSignalPOD.run', '_adaptive_signal_pod.py'), ('AdaptiveSignalPOD.getOutputDOE', '_adaptive_signal_pod.py')],
     ['getInputDOE', 'getOutputDOE', 'getKrigingResult', 'getQ2', 'getPODModel', 'getPODCLModel', 'calls of the physical model'],
     'explicit kriging and criterion, exact laws of the curves.' + STAT + TRUST)

prop('C14', 'Adaptive hit-miss POD: exact enrichment, calibrated classifier',
     'An adaptive hit-miss POD keeps the initial design in order, codes a signal as a hit exactly when it is strictly above the '
     'detection threshold, and adds exactly the requested number of candidate points with the hit or miss of the physical model, '
     'taken from the band of uncertain probabilities. The reported classifier is the one fitted on the final design corrected by the '
     'reported confusion matrix, itself averaged over the classifiers of all iterations; the POD is its mean over the other inputs and '
     'the curve at confidence level c its (1-c) quantile.',
     ['inputs', 'configurations', 'histories'], 'every initial design, number of points, classifier, band, input law',
     'one design with a 50% tolerance on the confusion matrix and 10% on the detection sizes',
     ['_adaptive_hitmiss_pod.py'],
     [('AdaptiveHitMissPOD.run', '_adaptive_hitmiss_pod.py'), ('AdaptiveHitMissPOD._computePOD', '_adaptive_hitmiss_pod.py')],
     ['getInputDOE', 'getOutputDOE', 'getClassifier', 'getConfusionMatrix', 'getPODModel', 'getPODCLModel'],
     'the classifiers of every iteration are refitted from the reported design.' + STAT + TRUST)

prop('C15', 'Curves are probabilities and the confidence level is honoured',
     'For every technique, the POD and the POD at any confidence level are finite and lie in [0, 1] at every defect size they are '
     'defined on, from detection thresholds that detect nothing to thresholds that detect everything. At a given defect '
     'size the POD at confidence level never grows with the confidence level, and distinct confidence levels are told apart '
     '(the level is used as given, not rounded) as finely as the simulated law allows.',
     ['inputs', 'configurations'], 'every technique, data set, threshold, defect size and confidence level',
     'the tests read detection sizes at one confidence level; an ordering over all levels or a range over all defect sizes '
     'needs every pair of levels',
     ['_univariate_linear_model_pod.py', '_quantile_regression_pod.py', '_polynomial_chaos_pod.py', '_kriging_tools.py',
      '_adaptive_signal_pod.py', '_adaptive_hitmiss_pod.py'],
     [('getPODCLModel', '_kriging_tools.py'), ('getPODCLModel', '_univariate_linear_model_pod.py')],
     ['getPODModel', 'getPODCLModel'],
     'a chain of 61-127 confidence levels is walked at each defect size of each run.' + TRUST)

prop('C16', 'A detection size is where the curve crosses the level, or is refused',
     'For every technique, computeDetectionSize(p, c) returns a defect size inside the interval of the curve where the POD '
     'equals p (crosses p, for a step curve) and, with a confidence level, a second one where the POD at that confidence '
     'level equals p; the first does not depend on c. It is refused exactly when p is outside the values of a curve at the two '
     'ends of the interval (for quantile regression, when the regression at that level does not reach the threshold there), '
     'whatever the level, including the values at the ends. The labels are the levels in percent (a90, a90/95).',
     ['inputs', 'configurations'], 'every technique, data set, probability level and confidence level',
     'the tests ask for one or two levels on one data set; labels, ends of the interval and refusals need all of them',
     ['_pod.py', '_quantile_regression_pod.py', '_polynomial_chaos_pod.py', '_kriging_tools.py', '_adaptive_hitmiss_pod.py',
      '_univariate_linear_model_pod.py'],
     [('POD._computeDetectionSize', '_pod.py'), ('QuantileRegressionPOD.computeDetectionSize', '_quantile_regression_pod.py')],
     ['computeDetectionSize'],
     'up to 99 levels x 4 confidence settings on each of 186 (465) runs, each answer checked against the curve.' + TRUST)

prop('C17', 'A setting is accepted as given or refused without effect',
     'Every setter of every class either stores the value, so that the getter returns it (defect sizes and quantiles sorted) '
     'and nothing else changes (choosing a classifier type resets its parameters), or raises the documented error and leaves the whole '
     'configuration as it was; whatever was set, refused or run before. Sequences given by the caller are neither modified nor '
     'shared. Defect sizes are accepted exactly inside the range of the design. Constructions from inconsistent data (sizes, '
     'dimensions, mixed arguments, unsuitable POD) are refused.',
     ['histories', 'configurations'], 'every sequence of setter calls, valid or not, before and after a run',
     'the tests set a few valid values once; a refused value that half applies, or a setter that resets another one, only '
     'shows in a sequence',
     ['_pod.py', '_quantile_regression_pod.py', '_polynomial_chaos_pod.py', '_kriging_tools.py', '_adaptive_signal_pod.py',
      '_adaptive_hitmiss_pod.py', '_sobol_indices.py', '_pli_pod.py', '_pod_summary.py', '_univariate_linear_model_pod.py'],
     [('setDefectSizes', '_kriging_tools.py'), ('setQuantile', '_quantile_regression_pod.py'), ('setMethodActive', '_pod_summary.py')],
     ['every setter and getter'],
     'all pairs (triples) of setter calls against a reference configuration.' + TRUST)

prop('C18', 'Results depend on data, settings and seed, not on the rest of the history',
     'What an object reports is a function of the data given at construction, the settings at its last run and the random seed: '
     'repeating a run, reading results, drawing figures, saving files, changing settings without running again, running other objects '
     'of the class or overwriting the caller\'s own arrays never changes it; it equals what a fresh object with these settings '
     'reports. Settings changed after a run act at the next run only. Curves and designs already obtained keep their values. Before any '
     'run no result is given. The results of the linear analysis are unaffected by anything done with them.',
     ['histories'], 'every sequence of runs, queries, drawings, setting changes and interleaved objects',
     'each test makes one run on a new object; leaked state only shows in particular sequences',
     ['_pod.py', '_univariate_linear_model_pod.py', '_univariate_linear_model_analysis.py', '_quantile_regression_pod.py',
      '_polynomial_chaos_pod.py', '_kriging_pod.py', '_kriging_tools.py', '_adaptive_signal_pod.py', '_adaptive_hitmiss_pod.py'],
     [('KrigingBase.getPODCLModel', '_kriging_tools.py'), ('PolynomialChaosPOD.run', '_polynomial_chaos_pod.py')],
     ['every result getter', 'getPODModel', 'getPODCLModel', 'computeDetectionSize'],
     'all words over the operations up to the depth, on the real objects; a fresh object is the oracle, so a bug that affects fresh and '
     'old objects alike belongs to the other checks.' + TRUST)

prop('C19', 'The POD summary runs the active methods and reports exactly their results',
     'A POD summary runs each activated technique (and no other; kriging only above dimension 1) on its own data, detection threshold, '
     'censoring thresholds, Box-Cox choice and sizes, each being the technique a user would build by hand. Its tables and its saved '
     'file contain exactly one row per active technique with its detection sizes (-1 when refused) and validation results, under the '
     'right labels, next to the linear analysis of the data. drawGraphs writes exactly one file per figure in the given directory and '
     'format and returns them. Access to a technique not activated or not run is refused. All this holds after any sequence of '
     'activations and runs.',
     ['configurations', 'histories'], 'every subset of methods, configuration, level and sequence of activations',
     'the tests activate everything on one data set; 64 subsets x configurations and sequences are not sampled',
     ['_pod_summary.py'],
     [('PODSummary.run', '_pod_summary.py'), ('PODSummary._buildPrintResults', '_pod_summary.py'), ('PODSummary.drawGraphs', '_pod_summary.py')],
     ['getResults', 'saveResults', 'drawGraphs', 'get*POD'],
     'the sub-techniques are checked against stand-alone ones with the same seed, the tables against the sub-techniques.' + TRUST)

prop('C20', "Sobol' indices are those of the POD seen as a function of the parameters",
     "SobolIndices evaluates, on a pick-freeze design of the chosen size drawn from the law of the parameters (all inputs but the "
     'defect), the probability that the metamodel with its uncertainty exceeds the detection threshold (Box-Cox transformed if need be) '
     "at each defect size, drops exactly the defect sizes where it is constant, and returns the indices of the chosen estimator per "
     'remaining size and aggregated, for chaos, kriging and adaptive kriging PODs. The figures show these indices at these sizes. Reading, '
     'drawing or analysing another time changes nothing; a new setting acts at the next run. PODs without metamodel and fewer than '
     'two parameters are refused.',
     ['inputs', 'configurations', 'histories'], 'every POD, law, defect sizes, design size, estimator and history',
     'the tests compare indices of one example with pinned values to one or two decimals',
     ['_sobol_indices.py'],
     [('SobolIndices.run', '_sobol_indices.py'), ('PODaggrChaos._exec_sample', '_sobol_indices.py'), ('PODaggrKriging._exec', '_sobol_indices.py')],
     ['getSensitivityResult', 'getDefectSizes', 'draw*Indices', 'arguments given to the openturns estimator'],
     'the design and the outputs handed to the openturns estimator are recorded and compared with explicit polynomial chaos and kriging '
     'formulas.' + STAT + TRUST)

prop('C22', 'Perturbed laws of the PLI are the closest ones with the requested moment',
     'For every Normal or Uniform parameter, wherever its support lies and whatever its scale, the perturbed density shown by '
     'the PLI is a probability density with the same support whose mean (PLIMean) or variance (PLIVariance, mean unchanged) is '
     'the requested one, namely the exponential tilting of the original density, which minimizes the Kullback-Leibler '
     'divergence. The other parameters keep their law, a null perturbation gives the original density, the deltas applied are '
     'those documented (direct or scaled, shared or per parameter), and a moment that no law on the support can have is refused.',
     ['inputs', 'configurations'], 'every interval or Normal law, every perturbation size, every parameter position',
     'the repository has no test of the PLI (one notebook shows them for one law); offset or scaled intervals and '
     'perturbations near zero or near the end of the support are never reached',
     ['_pli.py'], [('PLIMeanBase', '_pli.py'), ('PLIVarianceBase', '_pli.py')],
     ['PLIMeanBase.drawMarginal1DPDF', 'getDeltaSample', 'getOriginalDelta'],
     'drawn densities against an independent exponential tilting by Gauss-Legendre quadrature.' + TRUST)

prop('C21', 'PLI report the perturbed detection probability, its index and its interval',
     'For every delta, parameter and defect size, the PLI reports the probability re-estimated from the Monte Carlo points '
     'that satisfy the event (threshold included only for the non strict operators), weighted by perturbed over original '
     'density; the index is its relative change, counted against the smaller of the two probabilities; the confidence interval '
     'is the Normal one of the delta method at any level. On a POD, the points are drawn from the law of the parameters and '
     'evaluated with the metamodel at that defect size, and indices exist exactly for the sizes with a probability strictly '
     'between 0.001 and 0.999 (NaN and refusal otherwise, and before a run). Figures show those values.',
     ['inputs', 'configurations', 'histories'], 'every law, event, delta list, scaling, POD, defect size list and order of calls',
     'the repository has no test of the PLI (one notebook); ties with the threshold, 2-D or integer deltas, changes of sizes '
     'between runs and probabilities at the limits are never reached',
     ['_pli.py', '_pli_pod.py'], [('PLI', '_pli.py'), ('PLIBase', '_pli_pod.py')],
     ['PLIMean/PLIVariance.getIndices', 'getPLIObject', 'drawIndices', 'drawContourIndices', 'computeConfidenceInterval'],
     'recomputed from the recorded Monte Carlo history with reference densities.' + TRUST)

prop('C23', 'Figures show the results they are about, inside the axes',
     'drawPOD shows, over the requested range (refused outside the defect sizes of the run for the sampled techniques), the POD '
     'and the POD at the confidence level of the object at the requested number of points, with the probability level and the '
     'detection sizes that computeDetectionSize gives, and refuses the levels it refuses. The figures of the linear analysis '
     '(data, line, residuals, histogram, QQ plot), of quantile regression, of the chaos model, of the validation and of the Box '
     'Cox likelihood show exactly the data used and the fitted, leave-one-out or likelihood values, for the requested '
     '(un)censored model, every observation lying inside the axes. A file is written if and only if a name is given.',
     ['inputs', 'configurations'], 'every technique, transformation, censoring, level, range, mesh size and sign of the signals',
     'the tests never look at a figure; a wrong curve, level, model or axis in a drawing is invisible to them',
     ['_pod.py', '_univariate_linear_model_analysis.py', '_univariate_linear_model_pod.py', '_quantile_regression_pod.py',
      '_polynomial_chaos_pod.py', '_kriging_tools.py', '_adaptive_hitmiss_pod.py'],
     [('POD._drawPOD', '_pod.py'), ('UnivariateLinearModelAnalysis.drawResiduals', '_univariate_linear_model_analysis.py')],
     ['drawPOD', 'drawValidationGraph', 'drawLinearModel', 'drawResiduals', 'drawResidualsQQplot', 'drawResidualsDistribution',
      'drawPolynomialChaosModel', 'drawBoxCoxLikelihood'],
     'artists of the real matplotlib figures read back and compared with the getters and reference values.' + TRUST)

prop('C24', 'Verbosity, progress bars and graphs never change the results and tell the truth',
     'For every technique and for the summary, the results of a verbose run are those of the quiet run with the same seed; a quiet '
     'run writes nothing. Each announced loop prints one progress bar whose percentages increase, match the iterations done and end '
     'once at 100% Done, whatever the number of iterations; printed R2 and Q2 are those of the getters. Graphs of the adaptive '
     'techniques (for probability levels the intermediate curves reach) leave the added points and the results as without graphs (up '
     'to the Monte Carlo error of the resampled curve for hit miss), and write one figure per iteration in the given directory, '
     'created if needed and otherwise kept, and no file elsewhere.',
     ['inputs', 'configurations'], 'every technique, setting, number of iterations, refresh count, level and directory',
     'the tests never compare a verbose run with a quiet one nor read the output, and run loops of one or two sizes',
     ['_progress_bar.py', '_pod.py', '_adaptive_signal_pod.py', '_adaptive_hitmiss_pod.py', '_pod_summary.py'],
     [('updateProgress', '_progress_bar.py'), ('AdaptiveHitMissPOD.run', '_adaptive_hitmiss_pod.py')],
     ['setVerbose', 'updateProgress', 'setGraphActive', 'run'],
     'two to three seeded runs of the real code compared, captured output parsed.' + TRUST)
