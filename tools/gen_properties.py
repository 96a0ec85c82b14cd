#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one line per property).  Run: python3 tools/gen_properties.py"""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe or [], hook_needed=None))
    assert len(title) <= 80, title
    P.append(d)

MS = "mizarlabs/model/model_selection.py"
BS = "mizarlabs/model/bootstrapping.py"
PL = "mizarlabs/model/pipeline.py"
BG = "mizarlabs/model/sequentially_bootstrapped_bagging_classifier.py"
LB = "mizarlabs/transformers/targets/labeling.py"
TS = "mizarlabs/transformers/targets/trend_scanning.py"
BZ = "mizarlabs/transformers/trading/bet_sizing.py"
SW = "mizarlabs/transformers/sample_weights/__init__.py"
AU = "mizarlabs/transformers/sampling/average_uniqueness.py"
DS = "mizarlabs/transformers/sampling/down_sampling.py"
RZ = "mizarlabs/transformers/features/rolling_z_score.py"
CU = "mizarlabs/transformers/features/custom.py"
F1 = "mizarlabs/transformers/microstructural_features/first_generation.py"
F2 = "mizarlabs/transformers/microstructural_features/second_generation.py"
VP = "mizarlabs/transformers/microstructural_features/vpin.py"
MA = "mizarlabs/transformers/technical/moving_average.py"
VO = "mizarlabs/transformers/technical/volume.py"
RS = "mizarlabs/transformers/technical/rsi.py"
MR = "mizarlabs/transformers/technical/mean_reversion.py"
MC = "mizarlabs/transformers/technical/macd.py"
FA = "mizarlabs/transformers/technical/factory.py"
SA = "mizarlabs/structural_breaks/sadf.py"
SD = "mizarlabs/structural_breaks/sdfc.py"
CS = "mizarlabs/structural_breaks/cusum_chu_stinchcome_white.py"

prop("C01", "Purged, embargoed CV never leaks a test label into training",
 "In every split produced by the combinatorial purged cross-validation, no training sample's interval from prediction time to evaluation time overlaps the interval of any test sample, and no training sample is predicted within the embargo period after the evaluation time of any earlier test sample. This holds for every non-decreasing sequence of prediction times, every set of evaluation times not before them, every number of groups and test groups, and every embargo.",
 ["inputs", "configurations"], "all sample times, group counts, test-group counts and embargo lengths",
 "The tests fix one hourly index with a constant label horizon; leaks need irregular or long label horizons and non-adjacent test groups, which no test has.",
 [MS], [("purge of samples before a test block", "purge"), ("embargo after a test block", "embargo"), ("train set assembly", "CombPurgedKFoldCV._compute_train_set")],
 ["indices yielded by CombPurgedKFoldCV.split"])
prop("C02", "CV splits are complete, disjoint, and drop only what purging requires",
 "The splits enumerate every choice of test groups exactly once, the groups being contiguous, in order, and equal in size up to one sample. In each split the test set is exactly the union of its groups, train and test are disjoint and free of duplicates, and a non-test sample is missing from the training set only if its label interval overlaps a test sample's or falls within the embargo after one.",
 ["inputs", "configurations"], "all sample times, group counts, test-group counts and embargo lengths",
 "Tests compare a few fixed splits; whether anything is dropped needlessly or a combination is skipped depends on every time ordering and every (groups, test groups) pair.",
 [MS], [("group bounds", "CombPurgedKFoldCV._test_fold_bounds"), ("test set", "CombPurgedKFoldCV._compute_test_set"), ("train set", "CombPurgedKFoldCV._compute_train_set")])
prop("C03", "Backtest paths are complete and purely out of sample",
 "Combinatorial cross-validation with N groups and k test groups returns exactly C(N-1,k-1) backtest paths; each path covers every sample exactly once, carrying that sample's own label data. Every prediction and probability in a path was produced, for that very sample, by a model whose training rows and labels are one split's training set, and each (split, test group) prediction is used in exactly one path.",
 ["inputs", "configurations", "schedules"], "all sample times, (N,k), model outputs and random shuffles",
 "No test calls the path construction at all with more than one test group; the random shuffle makes each run different.",
 [MS], [("path assembly", "combinatorial_cross_validation_paths"), ("path count", "compute_back_test_paths")])
prop("C04", "Triple barrier: the event ends at the first barrier touched",
 "For every bar whose vertical barrier lies within the data, the event end time is the time of the first bar, from the bar itself and strictly before the vertical barrier, whose side-adjusted return exceeds the profit-taking width or is below minus the stop-loss width, and the vertical barrier's time if there is none. The widths are the factors times the bar's volatility (or times one when volatility adjustment is off) and a factor of zero disables that barrier. A bar whose vertical barrier lies beyond the data gets an end time only if a horizontal barrier is touched within the data, and never a wrong one.",
 ["inputs", "configurations"], "all price paths, sides, factors and expirations",
 "Tests use synthetic one-spike paths; which barrier is first depends on every ordering of every bar's return against both barriers.",
 [LB], [("barrier search", "get_horizontal_barriers_hit"), ("barriers", "triple_barrier_labeling"), ("first touch", "TripleBarrierMethodLabeling._transform")],
 ["event_end_time column of TripleBarrierMethodLabeling.transform"])
prop("C05", "Triple barrier: return and label describe the realised move",
 "For every labelled event the return is the relative price change from the event bar to the bar at its end time, multiplied by the side when meta-labelling. Without meta-labelling the label is the sign of the return; with it the label is 1 for a positive, 0 for a negative and missing for a zero return; with expiration labels on, events that touched no horizontal barrier get label 0 and other labels are unchanged. Bars without a volatility estimate get no end time, return or label.",
 ["inputs", "configurations"], "all price paths, sides, factors and option combinations",
 "Tests check the label of a few synthetic paths; the relation must hold for each event of each path in each option combination.",
 [LB], [("labels", "get_labels"), ("blanking", "TripleBarrierMethodLabeling._transform")])
prop("C06", "Daily volatility uses exactly the return to the bar a day earlier",
 "The daily volatility at a bar is the exponentially weighted standard deviation (with the given span) of the returns, over the bars up to and including it, of each bar's price against the last bar strictly more than one day earlier; bars without such an earlier bar have no estimate. It depends on no later bar.",
 ["inputs"], "all price series and all increasing bar times",
 "Tests only use it indirectly on one regular index.",
 [LB], [("volatility", "get_daily_vol")])
prop("C07", "CUSUM filter selects exactly the bars where the reset drift crosses",
 "The CUSUM filter selects, in order, exactly the bars at which the accumulated positive or negative drift since the last reset of that side, floored/capped at zero, exceeds the threshold in absolute value, the crossing side being reset to zero after each selection. Selection of a bar never depends on later bars.",
 ["inputs", "histories"], "all value series and thresholds",
 "One example series is tested; reset logic depends on the whole history of crossings of both sides.",
 [DS], [("filter", "CUSUMFilter.transform")])
prop("C08", "Trend scanning picks the most significant forward trend",
 "For every requested bar with a full look-forward window, the trend end is the horizon, among those from the minimum length upward in steps and shorter than the window, whose OLS slope has the largest absolute t-value; the reported t-value is that one, the return is the price change from the bar to the trend end, and the label is the t-value's sign. Bars without a full window get no end, t-value, return or label. The result depends only on the given series and settings, not on earlier calls.",
 ["inputs", "configurations", "histories"], "all series, event subsets, window/min-length/step settings and call sequences",
 "Tests check only monotone trends with step 1 and one call per object.",
 [TS], [("scan", "_trend_scan_each_index"), ("best horizon", "_get_t_val_and_event_end_time_index_at_index"), ("output", "TrendScannerLabeling._transform")])
prop("C09", "Indicator matrix marks exactly the bars each label spans",
 "The indicator matrix has one row per distinct time among the label starts, label ends and the bars between the first start and the last end, in time order, and one column per label in the given order. An entry is one exactly when the row's time lies between the label's start and end inclusive, and zero otherwise; missing starts or ends are rejected.",
 ["inputs"], "all sets of label start/end times and bar times, in any overlap pattern",
 "One fixed example is tested; overlaps, shared endpoints, ends between bars and full spans are not.",
 [BS], [("matrix", "get_ind_matrix")])
prop("C10", "Average uniqueness is the mean inverse concurrency over a label's life",
 "The average uniqueness of each label equals the mean, over the bars of its life, of one divided by the number of labels alive at that bar; it is in (0,1], equals one exactly for labels that never overlap another, and is returned in the order of the input.",
 ["inputs"], "all sets of label start/end times",
 "Two fixed examples are tested.",
 [BS, AU], [("uniqueness", "calc_average_uniqueness"), ("transformer", "AverageUniqueness.transform")])
prop("C11", "Sequential bootstrap draws in proportion to current average uniqueness",
 "Every draw of the sequential bootstrap uses selection probabilities proportional to each sample's average uniqueness given all samples drawn so far (refreshed only every configured number of draws), the first draws being uniform. It returns exactly the requested number of sample indices, as many as there are samples by default, being the indices chosen by the random source in order.",
 ["inputs", "schedules", "configurations"], "all indicator matrices, sequences of random choices, lengths and refresh intervals",
 "A single seeded run is tested; incremental probability updates must be right after every possible sequence of draws.",
 [BS], [("bootstrap", "seq_bootstrap"), ("incremental update", "_calc_update_avg_unique")])
prop("C12", "Return-based sample weights attribute each move among concurrent labels",
 "The weight of each label equals the absolute value of the sum, over the bars of its life, of the bar's log return divided by the number of labels alive at that bar (the first bar has no return and adds nothing).",
 ["inputs"], "all price series and label start/end times",
 "Tests check non-negativity on fixed data.",
 [SW, BS], [("weights", "SampleWeightsByReturns._calculate_weights")])
prop("C13", "Time-decay weights decay linearly in cumulative uniqueness",
 "Time-decay weights are a linear function of the cumulative average uniqueness in time order: the newest label has weight one and, for a non-negative decay parameter, the extrapolated weight at zero cumulative uniqueness equals that parameter (one meaning no decay); for a parameter between minus one and zero that fraction of the cumulative uniqueness, the oldest, gets weight zero. Weights are never negative and never decrease with time; parameters above one are rejected.",
 ["inputs", "configurations"], "all label start/end times and decay parameters",
 "Tests use one data set and few parameters.",
 [SW], [("decay", "SampleWeightsByTimeDecay.transform")])
prop("C14", "Bet size is the confidence-scaled predicted side, in [0,1]",
 "The bet size equals the absolute value of the prediction (times the side when meta-labelling) times 2*Phi(z)-1 with z=(p-1/K)/sqrt(p(1-p)) for probability p and K classes; it lies in [0,1], is zero at p=1/K, and grows with p from there. A side outside {-1,0,1} is rejected when meta-labelling.",
 ["inputs", "configurations"], "all probabilities, predictions, sides and class counts",
 "Tests compare a handful of probabilities.",
 [BZ], [("formula", "BetSizingFromProbabilities._transform")])
prop("C15", "Averaged bet size is the mean over exactly the open bets",
 "The active-average bet size is reported at exactly the distinct times at which a bet opens or closes, in order; at each it is the mean of the signed sizes of the bets opened at or before that time and not closed at or before it, bets without a closing time staying open, and zero if none is open.",
 ["inputs", "histories"], "all bet opening/closing times (missing included) and sizes",
 "Tests use fixed overlapping bets.",
 [BZ], [("averaging", "avg_active_signals"), ("kernel", "_get_avg_active_signals")])
prop("C16", "Discretised bet size is the nearest step, capped to one",
 "Discretising returns for each signal the nearest multiple of the step size, up to rounding to three decimals, capped to [-1,1]; it keeps order and sign, and the bet sizing transformer applies it after averaging and before taking the absolute value. Step sizes outside (0,1) are rejected.",
 ["inputs", "configurations"], "all signals and step sizes",
 "Tests sample a grid of signals and a few steps.",
 [BZ], [("rounding", "discretise_signal"), ("use", "BetSizingFromProbabilities._transform")])
prop("C17", "Feature alignment never looks ahead and never drops data",
 "After alignment every feature frame (of complete features) has exactly the leading frame's times, and the row at a time is the configured aggregate (mean, min or max) of that feature's rows since the last leading time that received data, up to and including this time; if there are none the previous aligned row is repeated, and before the first there is none. No aligned row depends on data later than its time, and the leading frame is unchanged.",
 ["inputs", "configurations"], "all leading and feature time grids, values and aggregates",
 "Tests use two fixed grids.",
 [PL], [("alignment", "StrategySignalPipeline._align_on")])
prop("C18", "Side and size follow the models' outputs row by row",
 "The side at each time is the primary model's prediction for the features at that time. The size is the primary model's largest class probability, or with a meta-labelling model its probability of class one, or with a bet sizer the bet sizer applied to the predicted class and its probability (and side when meta-labelling) of the deciding model; rows without complete features of every model used have no signal.",
 ["inputs", "configurations"], "all model outputs, missing-feature patterns and option combinations",
 "Tests compare one configuration at a time on fixed data.",
 [PL], [("predict", "StrategySignalPipeline.predict"), ("probabilities", "StrategySignalPipeline.predict_proba"), ("side and size", "StrategySignalPipeline.get_side_and_size")])
prop("C19", "Training data sets pair each target with its own time's features",
 "The primary data set contains exactly the times with a target and complete features, each row pairing that time's features with that time's target. The meta-labelling data set contains exactly the times where both models' features and the target are complete, its features being that time's meta-features plus, as configured, the primary model's prediction and probabilities for that time, and its target being one if the primary prediction equals the target and zero otherwise.",
 ["inputs", "configurations"], "all missing-value patterns, targets and model outputs",
 "Tests use one missing-value pattern.",
 [PL], [("primary", "StrategySignalPipeline.create_dataset_primary"), ("meta", "StrategySignalPipeline.create_dataset_metalabeling")])
prop("C20", "Positions carry the right barriers and invalid signals are flagged",
 "Each position row carries the signal's side and size of its time together with stop loss and profit taking equal to the given factors times the volatility estimate at that time (or the bare factors when not volatility adjusted) and the configured expiration. The strategy is marked valid exactly when all sizes lie in [0,1] and all sides in [-1,1]; duplicated input times are rejected, and the caller's data is never modified.",
 ["inputs", "configurations", "histories"], "all signals, prices, factors, options and repeated calls",
 "One test of constant barriers exists; there is none on validity or on repeated calls.",
 [PL], [("bars", "StrategyTrader.create_strategy_bars"), ("validity", "StrategyTrader._check_signal_has_valid_output"), ("positions", "StrategyTrader.create_position")])
prop("C21", "The closing model decides which positions are closed",
 "When a closing model is configured, the positions to close are exactly what that model answers for the given data, an answer outside all, long, short or nothing being rejected; without one nothing is closed.",
 ["inputs", "configurations"], "all closing-model answers",
 "No test configures a closing model.",
 [PL], [("close decision", "StrategySignalPipeline.determine_positions_to_close")])
prop("C22", "Moving-average crossovers are signalled exactly when they happen",
 "The signal is 1 at exactly the bars where the fast average is above the slow one after being at or below it the bar before, -1 at exactly the bars where it is below after being at or above, and 0 elsewhere; with filling on, the last crossover's value is held until the next and is 0 before the first. The predictor's class probabilities are one-hot on the predicted class.",
 ["inputs", "configurations"], "all price series and window pairs",
 "Tests use series with clean crossovers; ties and warm-up edges are not reached.",
 [MA], [("crossover", "MovingAverageCrossOver.transform"), ("probabilities", "MovingAverageCrossOverPredictor.predict_proba")])
prop("C23", "VPIN is the windowed order imbalance, in [0,1] after warm-up",
 "At each bar with a full window VPIN is the sum of absolute buy-sell volume differences over the window divided by the sum of total volume; after the warm-up a window without volume gives zero, values are never missing, and they lie in [0,1] when total volume is buy plus sell volume.",
 ["inputs", "configurations"], "all volume series and windows",
 "Tests sample random volumes; zero-volume patterns across the warm-up boundary are fixed.",
 [VP], [("vpin", "VPIN.transform")])
prop("C24", "Roll, Parkinson and spread estimators equal their definitions",
 "At each bar the Roll measure, Roll impact, Parkinson volatility, Corwin-Schultz spread and Becker-Parkinson volatility equal their published formulas on the bars of the window ending there, and are missing before a full window; negative alpha or sigma are set to zero.",
 ["inputs", "configurations"], "all price/volume series and windows",
 "Tests check shapes, signs or a few values.",
 [F1], [("estimators", "RollMeasure, RollImpact, ParkinsonVolatility, CorwinSchultzSpread, BeckersParkinsonVolatility")])
prop("C25", "Price-impact estimators equal their definitions",
 "At each bar the Kyle, Amihud and Hasbrouck lambdas equal the mean over the window ending there of the absolute price change per base volume, the absolute log price change per quote volume, and the absolute log price change per square root of quote volume, and are missing before a full window.",
 ["inputs", "configurations"], "all price/volume series and windows",
 "Tests compare against constant-growth series.",
 [F2], [("estimators", "KyleLambda, AmihudLambda, HasbrouckLambda")])
prop("C26", "Rolling and exponential features equal their definitions, without look-ahead",
 "The rolling z-score, the ratio of the local maximum to the close, the (normalised) difference of exponential averages and the buy-sell imbalance equal at each bar their defining expression over that bar and earlier ones, row for row with the input (a window without spread has no z-score), and never change when later bars change.",
 ["inputs", "configurations"], "all input series and windows",
 "Tests check shape or a single value.",
 [RZ, CU, MA, VO], [("features", "RollingZScoreTransformer, LocalMaxToCloseRatio, ExponentialWeightedMovingAverageDifference, BuySellImbalance")])
prop("C27", "OLS estimates and the Chow-type Dickey-Fuller statistic are exact",
 "The regression kernel returns the least-squares coefficients and their covariance (residual sum of squares over the degrees of freedom times the inverse Gram matrix) for every full-rank design. The Chow-type statistic at each candidate break is the t-value of the coefficient of the differenced series on the lagged series switched on from that break, one value per admissible bar in order.",
 ["inputs"], "all full-rank designs and series within the bound",
 "Tests check that a statistic exceeds a number on simulated series.",
 [SD], [("kernel", "get_beta_and_beta_var"), ("statistic", "get_dfc_array, SupremumDickeyFullerChowStatTest.run")])
prop("C28", "SADF is the supremum of (penalised) ADF statistics over all starts",
 "At each end bar the statistic is the largest, over all start points leaving at least the minimum length, of the t-value of the tested coefficient in the chosen specification, taken in absolute value and divided by the sample length (the distance between the positions of its first and last bars) to the power phi for sub/super-martingale specifications. The regressors are those of the specification (lagged differences, lagged level, constant, trend terms), aligned bar by bar, and each value depends only on bars up to its own.",
 ["inputs", "configurations"], "all series, specifications, lags, minimum lengths and phi",
 "Tests check peak locations on a simulated bubble.",
 [SA, SD], [("outer loop", "_sadf_outer_loop"), ("inner loop", "_get_sadf_at_t"), ("design", "_get_X_y")])
prop("C29", "Chu-Stinchcombe-White statistic and critical value match the supremum",
 "At each bar by which the series has moved, the statistic is the largest, over all earlier bars, of the signed (or absolute, two-sided) difference of levels divided by the scaled volatility estimate of differences up to that bar, and the critical value is sqrt(4.6+log of the distance to the bar attaining it).",
 ["inputs", "configurations"], "all series and sidedness settings",
 "Tests check that rejection happens on simulated series.",
 [CS], [("statistic", "get_test_statistics_array")])
prop("C30", "Bagged members train on exactly their bootstrapped rows and features",
 "Every ensemble member is fitted on exactly the rows drawn for it by sequential bootstrap (as per-row multiplicities times the given sample weight when weights are supported, as repeated rows otherwise), with the labels of those rows and the features drawn for it; the number of rows and features is as configured, and drawn rows and features are those reported. The draws use the uniqueness of exactly the rows of the training set.",
 ["inputs", "configurations", "schedules"], "all sample weights, draws, size settings and base-model kinds",
 "Tests check scores of seeded runs.",
 [BG], [("member construction", "_parallel_build_estimators"), ("draws", "_generate_bagging_indices"), ("sizes", "SequentiallyBootstrappedBaseBagging._fit")])
prop("C31", "Out-of-bag estimates use only members that never saw the row",
 "The out-of-bag decision for each row is the normalised sum of the outputs of exactly those members whose bootstrap did not contain it, and, when every row has such a member, the out-of-bag score is the accuracy of its most likely class.",
 ["inputs", "schedules"], "all draws and member outputs",
 "Tests compare one seeded run's score.",
 [BG], [("oob", "SequentiallyBootstrappedBaggingClassifier._set_oob_score")])
prop("C32", "Rule-based strategies predict what their rule says, with matching probabilities",
 "The mean-reversion, RSI-confirmation and bar-arrival-RSI strategies predict at every bar exactly what their documented rule gives for the indicator values at that bar and before, one prediction per input row, being neutral where an indicator is missing (bars at distinct times, in order). Their class probabilities are one-hot on the predicted class.",
 ["inputs", "configurations"], "all indicator and price series and thresholds",
 "Their tests cannot even construct the strategies with the installed indicator library.",
 [MR, RS], [("rules", "MeanReversionStrategy.predict, RSIConfirmation.predict, BarArrivalRSIStrategy.predict")])
prop("C33", "Indicator factory passes the right columns and settings",
 "A transformer created by the indicator factory calls the named indicator with the mapped columns in the indicator's own argument order and exactly the given settings, and returns its outputs as columns in order, one row per input row; unknown settings, mappings or missing columns are rejected.",
 ["inputs", "configurations"], "all indicators of the library and column mappings",
 "The factory's tests need a signature format the installed library no longer prints.",
 [FA, MC], [("mapping", "TAFactory._check_and_set_args"), ("signature", "TAFactory.get_args_kwargs"), ("call", "TAFactory.create_transformer")])

PRICEBARS = [F1, F2, VP, RZ, CU, MA, VO, RS, MR, MC, FA, SA, CS, DS, LB]
prop("C34", "MACD crossovers are signalled exactly when the histogram changes sign",
 "The MACD transformer gives the indicator library exactly the configured column and its three periods, and reports at every bar half the change of the histogram's sign since the bar before (one and minus one at full crossings), missing where either bar's histogram is; a fast period longer than the slow one is rejected.",
 ["inputs", "configurations"], "all histograms, missing patterns, columns and periods",
 "Its test compares one random series with a second computation of the same form; zero histograms and missing values never occur.",
 [MC, FA], [("rule", "MACDHistogramCrossOver.transform")])
prop("C35", "Feature unions and pipelines keep rows, columns and weights together",
 "A feature union returns one row per input row under the same label, and the transformers' columns side by side in their order, each fitted once on all rows and the target, in either way of fitting; its later outputs use only what was fitted. A pipeline fits its steps in order, hands the model the rows that went through all of them, their targets and the sample weights however given, and predicts through the same fitted steps. The identity transformer changes nothing.",
 ["inputs", "configurations"], "all data, row labels, transformers and ways of passing weights",
 "Tests use transformers that need no fitting and never pass weights through more than one route.",
 [PL, "mizarlabs/transformers/utils.py"], [("union", "MizarFeatureUnion.fit_transform, transform"), ("pipeline", "MizarPipeline.fit"), ("identity", "IdentityTransformer")])
prop("C36", "No feature, test or rule ever looks ahead or at columns it was not given",
 "For every feature transformer, structural-break test, sampling filter, volatility estimate and rule-based strategy: what it says about a bar is the same whether or not any later bars are known, and is unaffected by further columns, their values and the order of columns.",
 ["inputs", "histories"], "all bars, all truncation points, all further columns",
 "Look-ahead is invisible in a back-test that only compares outputs on complete data; tests never recompute on truncated data.",
 PRICEBARS, [("features", "transform of every transformer"), ("tests", "run of the structural-break tests"), ("rules", "predict of the strategies")])
prop("C37", "No operation modifies the data its caller passes in",
 "Fitting, transforming, labelling, weighting, bet sizing, splitting, bootstrapping, training and trading leave every frame, series, matrix and dictionary they are given exactly as it was: values, labels, columns and order.",
 ["inputs", "histories"], "all inputs of all public operations",
 "Tests look at results, hardly ever at their inputs afterwards.",
 [PL, BG, BS, MS, LB, TS, BZ, SW, AU] + PRICEBARS[:-1], [("features", "transform of every transformer"), ("pipeline", "StrategySignalPipeline, StrategyTrader"), ("ensemble", "SequentiallyBootstrappedBaseBagging._fit"), ("sizes", "BetSizingBase.transform")])
prop("C38", "Transformers, tests and rules carry nothing from one use to the next",
 "An object used before on other data answers exactly as a fresh one with the same settings, any number of times: no feature transformer, structural-break test, filter or rule keeps state between uses, between objects or in its settings.",
 ["inputs", "histories"], "all bars in all uses",
 "Every test uses a fresh object once.",
 PRICEBARS, [("features", "transform of every transformer"), ("tests", "run of the structural-break tests"), ("rules", "predict of the strategies")])
prop("C39", "The log-uniform distribution is uniform in the logarithm",
 "The distribution offered for parameter search has, for every range 0 < a < b, the support [a,b] and the distribution function log(x/a)/log(b/a); the default range is 1 to e.",
 ["inputs", "configurations"], "all ranges and values",
 "No test calls it.",
 [MS], [("distribution", "LogUniformGen._cdf, log_uniform")])
prop("C40", "Inputs and settings that cannot be used are rejected, usable ones are not",
 "A transformer, labeller, weighting or bet sizer whose input column is absent raises an error instead of answering; so do labels without an end or with repeated times, unknown events, frames that do not match the pipeline's names, and settings outside their documented range (barrier factors both negative, test groups outside 1 to N-1, negative embargo, shortest sample not below the window) - and exactly those.",
 ["inputs", "configurations"], "all absent columns, all settings in the ranges stated, any other data",
 "Tests try one bad value for a few of the checks.",
 ["mizarlabs/transformers/utils.py", MS, PL, LB, TS, AU, SW, BZ] + PRICEBARS[:-1], [("columns", "check_missing_columns"), ("splits", "CombPurgedKFoldCV.__init__"), ("frames", "StrategySignalPipeline.transform"), ("events", "TrendScannerLabeling._check_input")])
prop("C41", "Answers do not depend on the timezone the times are expressed in",
 "Labels, volatility, events, trend scans, uniqueness, weights, averaged bets, splits, aligned features, training data, positions, structural-break tests and sequential bootstraps computed on bars whose times are in a timezone equal those computed on the same instants in UTC or without a timezone, also across a change of the clocks, and every time in the answer is the same instant, given in the timezone of the input.",
 ["inputs", "configurations"], "all prices, label ends and sizes, timezones and clock changes within the bounds stated",
 "All test data is without a timezone; exchanges and users deliver times in UTC or local time.",
 [LB, TS, DS, AU, SW, BS, BZ, MS, PL, RS, SA, SD, CS, BG], [("times to nanoseconds", "convert_to_timestamp"), ("labels", "BaseLabeling.transform"), ("statistics", "SupremumDickeyFullerChowStatTest.run")])
prop("C42", "Parallel computations give the same answer under every schedule",
 "The kernels that run in parallel (barrier search, trend scanning, averaging of active bets, supremum ADF, Chow-type Dickey-Fuller and CUSUM statistics) give the answer of the loop run in order, whatever order their iterations run in and however they interleave; an ensemble has the same members, on the same rows and features, for every number of jobs and every order in which the jobs finish.",
 ["schedules", "inputs"], "all orders of iterations and batches, and interleavings of iterations that write the same cells, within the bounds stated; all prices, sizes and draws",
 "A test runs one schedule, on data so small that iterations hardly overlap, and fits with one job.",
 [LB, TS, BZ, SA, SD, CS, BG], [("barrier search", "get_horizontal_barriers_hit"), ("trend scanning", "_trend_scan_each_index"), ("active bets", "_get_avg_active_signals"), ("tests", "_sadf_outer_loop, get_dfc_array, get_test_statistics_array"), ("members", "_parallel_build_estimators")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        f.write(json.dumps(d) + "\n")
print(len(P), "properties")
