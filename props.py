"""Which monitor binaries decide which property, on which build, with how many cases."""


def P(target, cases, cfg="plain", name=None, **kw):
    return dict(target=target, cases=cases, cfg=cfg, name=name or target, **kw)


PROPS = {
    "K01": dict(phases=[P("k01", 3000, thorough=20000)],
                rule="random distance vectors (ties, zeros, grids, several scales; n from 1 to 200) and random focus/data point sets x 5 kernels x fixed/adaptive/fractional/oversized bandwidths; each case is non-trivial when at least one positive effective bandwidth was evaluated",
                require=[r"spatial:(gaussian|bisquare|boxcar)/adaptive", r"ctor:exponential/adaptive-frac", r"static:tricube/fixed", r"ctor:boxcar/adaptive>=n"]),
    "K02": dict(phases=[P("k02", 12000, thorough=60000)],
                rule="random point sets (coincident points, grids, lines, antimeridian, same parallel/meridian) x Euclidean, great-circle, Minkowski(p,theta), one-dimensional and space-time metrics; non-trivial when all distances were compared",
                require=["geo", "geo:special", "euclid", "mink1r?", "mink3r?", "mink-1r?", "onedim", "st:orth", "st:oblique"]),
    "R01": dict(phases=[P("r01", 6000, thorough=20000)],
                rule="random data sets (uniform, jittered and exact grids, clusters, lines, coincident points; Euclidean, great-circle and Minkowski metrics; 1-9 predictors with/without intercept) x 5 kernels x fixed/adaptive bandwidth x serial/threaded (1-9 threads) x hat matrix on/off; fit and predict at new, coincident and data locations compared with a QR solution of every local problem; non-trivial when the oracle was well conditioned and all coefficients were compared",
                require=["fit:serial/adaptive:boxcar", "fit:omp/fixed:tricube", "fit:omp/adaptive:gaussian", "predict:omp/adaptive:.*", "predict:serial/fixed:.*", "predict:m<n", "predict:m>n", "predict:fresh"]),
    "R02": dict(phases=[P("r02", 1500, thorough=15000)],
                rule="random data sets as for R01 with hat matrix on, all combinations of storing S and C, serial and 1-9 threads, and one data set above the 8192-point storage limit; every element of S, C, q, standard errors, traces and all seven diagnostics compared; non-trivial when all were compared",
                require=["big", "serial/store[23]", "omp/store[23]", "omp/.*/fixed", "serial/.*/adaptive", "omp/nohat/store2", "serial/nohat/store3"]),
    "R03": dict(phases=[P("r03", 4500, thorough=15000)],
                rule="synthetic criterion functions (V-shaped, skewed, oscillating, partly infeasible, random; with and without a stop request) driven through the search engine, and real searches of basic, robust and space-time GWR (CV/AICc/default, adaptive/fixed, own/default bounds, serial/threaded) whose every reported candidate is recomputed; non-trivial when at least one search completed",
                require=["real:basic/omp/cv/.*", "real:basic/serial/aic/.*/bounds", "real:robust/.*/bounds", "real:gtwr/omp/.*", "synth:3/adaptive", "synth:0/fixed"]),
    "R04": dict(phases=[P("r04", 3600, thorough=10000)],
                rule="synthetic criterion functions over 1-8 variables (random, decreasing, increasing, partly infeasible, with stop requests) driven through the engine, and real selections in basic, robust and density GWR with relevant and irrelevant predictors, every reported model recomputed; non-trivial when a selection completed",
                require=["real:basic/omp", "real:robust/serial", "real:gwdr/.*", "synth:0/full", "synth:2/full", "synth:0/stop", "unsolvable:basic/omp", "unsolvable:robust/serial", "unsolvable:gwdr/omp.*"]),
    "P01": dict(phases=[P("p01", 9900, thorough=62000)],
                rule="one scenario per library capability that has a threaded implementation (fit, predict, bandwidth/variable/lambda selection, local statistics, PCA, discriminant analysis) on random data, serial versus two random thread counts (1-9, sometimes more threads than observations); every public result compared; non-trivial when all were compared",
                require=["basic/t.*", "basic-bw-.*/t.*", "robust/t.*", "lc-predict/t.*", "gtwr-bw/t.*", "ggwr-poisson/t.*", "mgwr-auto/t.*", "gwdr/t.*", "gwss-avg/t.*", "gwss-corr/t.*", "gwda-qda/t.*", ".*/t5-9", ".*/t10\\+", "mgwr/rejected-blind", "basic/rejected-blind"]),
    "S01": dict(phases=[P("s01", 1320, cfg="asan", thorough=31000), P("s01", 132, name="memcheck", vg=True, case_timeout=300, thorough=3100)],
                rule="every library capability as serial runs repeated on one object, threaded runs, runs cancelled at a random query and run again, and hostile settings (bandwidths of 1-4 neighbours, beyond n, or vanishing; coincident points with duplicated predictors), under AddressSanitizer+UBSan+LeakSanitizer with standard library assertions and the library's own bounds checks, and smaller cases under valgrind memcheck with every result element checked for definedness; non-trivial when the run completed or was rejected by an exception",
                require=["serial-twice:.*", "omp:.*", "cancel:omp:.*", "cancel:serial:.*", "hostile0:.*", "hostile1:.*", "hostile2:.*", "hostile3:.*"]),
    "S02": dict(phases=[P("s02", 3960, cfg="tsan", thorough=62000)],
                rule="every library capability with a threaded implementation on 2-6 threads (plain, cancelled, with local models that cannot be solved, without hat matrix) with a concurrently counting progress object, under ThreadSanitizer and an OpenMP runtime whose synchronisation it can see; random delays at thread start and chunk hand-out; non-trivial when a threaded run executed",
                require=["basic:plain", "basic-bw-cv:hostile", "basic-predict:plain", "lc-bw:cancelled", "ggwr-poisson:plain", "mgwr-auto:plain", "gwdr-bw:hostile", "gwss-avg:plain", "gwda-qda:plain", "gtwr-bw:.*", "robust-bw:.*"]),
    "C01": dict(phases=[P("c01", 3960, thorough=18600)], level="fault_enumeration",
                rule="every library capability, serial and on 1-4 threads: an uninterrupted run counts the stop queries T, then runs are stopped at queries 0, 1, 2, T-2, T-1 and a random sample of the others; half of the stopped objects are run again without a stop request and compared with the uninterrupted run; non-trivial when at least one stop request was delivered",
                require=["serial:basic/first", "serial:basic-predict/last", "serial:lc-bw/early", "omp:ggwr-bw/.*", "omp:mgwr-auto/late", "serial:scalable/middle", "serial:gwpca/.*", "serial:gwss-corr/.*", "omp:gwdr-bw/.*", "serial:robust-bw/late", "serial:gtwr-lambda/.*"]),
    "H01": dict(phases=[P("h01", 13200, thorough=86800)],
                rule="every library capability after seven kinds of history (same run again, other data and settings, other threading mode, another operation, a failed run, a cancelled run on other data, other objects used in between) compared with a fresh object, serial and threaded, with and without hat matrix; non-trivial when both succeeded and every public result was compared",
                require=["other-data:basic", "other-mode:ggwr-bw", "other-operation:lc", "failed-run:robust-bw", "cancelled-other-data:mgwr", "interleaved:scalable", "same-again:gwda-lda", "other-data:gwss-avg", "other-data:gwpca", "other-data:gwdr-vars"]),
    "F01": dict(phases=[P("f01", 13200, thorough=124000)],
                rule="every library capability with local models that cannot be computed: a predictor without variation near some points, adaptive bandwidths below one neighbour, places to predict that no observation reaches, a dead predictor, missing values; serial and threaded; the monitor requires a catchable exception where no result can exist, and compares the object after reconfiguring with a fresh one; non-trivial when at least one run was observed",
                require=["reported:blind-predictor:omp:basic", "reported:tiny-adaptive:omp:gwss-avg", "reported:tiny-adaptive:omp:gwdr", "reported:far-location:omp:ggwr-predict", "reported:dead-predictor:omp:gtwr-bw", "recovered:mgwr"]),
    "I01": dict(phases=[P("i01", 13200, thorough=92400)],
                rule="every library capability run on original data and on the same data reordered, shifted, mirrored, rescaled, with the response in other units or with an added trend, with a predictor in other units; serial and 2-3 threads; all public results compared",
                require=["reorder:basic", "reorder:gwda-qda", "reorder:scalable", "reorder:mgwr", "shift:gwss-corr", "mirror:gwpca", "rescale:gwdr", "response-units:lc", "response-trend:robust", "predictor-units:gtwr", "reorder:gtwr-predict"]),
    "K03": dict(phases=[P("k03", 12000, thorough=120000)],
                rule="random histories of 15-40 operations (construct, copy, move, assign, set, change in place, change or destroy the source) on pools of weighting schemes, weights and distances, every object compared with a model after every operation; and two objects of every capability configured from the same caller-owned data, one run before and one after the caller overwrites its buffers; non-trivial when the whole history was checked",
                require=["op:copy assign", "op:move construct", "op:clone of the source distance", "op:change the source weight", "inputs:basic", "inputs:mgwr.*", "inputs:gwdr.*"]),
    "M01": dict(phases=[P("m01", 7200, thorough=40000)],
                rule="random data sets with 0-5 gross errors in the response x filtered/iterative mode x kernels x bandwidths x serial/1-9 threads, the whole scheme recomputed by the monitor; non-trivial when the reference was well conditioned and no observation was within rounding of a threshold",
                require=["filtered/omp/outliers-found", "iterative/serial/outliers-found", "iterations>5", "iterative/omp/adaptive", "filtered/serial/fixed"]),
    "M06": dict(phases=[P("m06", 3600, case_timeout=250, thorough=40000)],
                rule="random space-time data (1-4 periods, all lambdas, right and oblique angles) x kernels x bandwidths x plain fits, bandwidth searches and lambda searches, serial and threaded, every reported candidate recomputed; predictions at observations and at new places; two data sets of more than 8192 observations (hat matrix not kept); non-trivial when the reference was well conditioned",
                require=["oblique", "orthogonal", "fit/omp/fixed", "bw/omp/adaptive", "lambda/omp/fixed", "lambda/serial/fixed", "predict-new-places", "lambda-judged", "big/omp", "big/serial"]),
    "M07": dict(phases=[P("m07", 3600, case_timeout=250, thorough=40000)],
                rule="random one- to three-dimensional data with mixed fixed and adaptive kernels x plain fits and bandwidth optimisations with both criteria, serial and threaded, every reported set of bandwidths recomputed; two data sets of more than 8192 observations (hat matrix not kept); non-trivial when the final fit was compared",
                require=["fit/omp/dims3", "fit/serial/adaptive", "optimise-aic/omp/.*", "optimise-cv/serial/.*", "optimise-aic/serial/fixed", "optimum-judged", "big/omp", "big/serial"]),
    "M08": dict(phases=[P("m08", 7200, thorough=40000)],
                rule="random variables with ties and different scales x kernels x bandwidths x local averages and local correlations with and without quantiles and in both correction modes, serial and threaded; non-trivial when all statistics were compared",
                require=["quantile/omp", "quantile/serial", "first1/omp", "first0/serial", "corr/omp/adaptive:bisquare", "avg/serial/.*", "corr/serial/fixed:.*"]),
    "M09": dict(phases=[P("m09", 7200, thorough=40000)],
                rule="random variables (2-6, different scales and offsets) x kept components x kernels x bandwidths x metrics; orthonormality, eigenvalue order, projections, shares and standard deviations compared at every observation; non-trivial when all were compared",
                require=["adaptive:bisquare", "fixed:gaussian", "fixed:boxcar", "adaptive:exponential"]),
    "M10": dict(phases=[P("m10", 7200, thorough=40000)],
                rule="random labelled data (2-4 groups, names in random first-appearance order) x linear/quadratic x local or global means, covariances, priors, serial and threaded; score differences, probabilities, groups, pmax, entropy and rate compared; non-trivial when at least one observation was well conditioned",
                require=["lda/omp/cov0", "qda/omp/prior0", "qda/serial/mean0", "groups4/.*", "groups2/qda/.*"]),
    "M02": dict(phases=[P("m02", 7200, thorough=40000)],
                rule="random data, half of them with nearly collinear predictors, x lambda x adjustment x threshold x kernels x bandwidths x fit, prediction and bandwidth search, serial and threaded; non-trivial when the reference was well conditioned and all results were compared",
                require=["ridged-some", "ridged-all", "ridged-none", "ridged/predict", "collinear", "bandwidth/omp/adaptive", "bandwidth/serial/fixed", "predict/omp/fixed", "fit/serial/adaptive", "predict/serial/after-fit"]),
    "M04": dict(phases=[P("m04", 7200, thorough=40000)],
                rule="random count and binary data x kernels x bandwidths x tolerances x iteration limits x both setter orders x fit, prediction and both bandwidth searches, serial and threaded; local scoring recomputed, every reported candidate recomputed; non-trivial when the reference converged well conditioned",
                require=["fit/binomial/omp/diagnostics", "fit/poisson/serial/diagnostics", "bandwidth-aic/poisson/omp/.*", "bandwidth-cv/binomial/serial/.*", "predict/poisson/omp/fixed", "predict/binomial/serial/after-fit", "predict/poisson/omp/regression-points", "predict/binomial/serial/regression-points", "predict/poisson/serial/after-other-bandwidth", "iterations-limit", "global-judged", "fit/binomial/omp/parallel-first"]),
    "M05": dict(phases=[P("m05", 3600, thorough=40000)],
                rule="random data x bandwidths from 8 to beyond n x polynomial orders 1-6 x Gaussian/exponential x CV/AICc x fit and prediction; criterion, optimality, coefficients and diagnostics recomputed; non-trivial when neighbours were unambiguous and the reference well conditioned",
                require=["fit/cv/gaussian/all", "fit/aic/exponential/some", "predict/cv/exponential/.*", "predict/aic/gaussian/.*", "fit/cv/gaussian/many", "criterion-judged", "minimality-judged"]),
    "M03": dict(phases=[P("m03", 4800, thorough=24000)],
                rule="random data with 1-4 variables, each with its own metric, kernel, bandwidth, initialisation mode, criterion, centring and threshold x retry counts x tolerances x iteration limits x CVR/dCVR x serial/1-9 threads; the recorded log replayed step by step; non-trivial when the final results were compared or at least one selection judged",
                require=["select/omp/vars.*", "select/serial/vars.*", "fixed/omp/vars.*", "fixed/serial/vars.*", "lock-in", "golden-bounds", "stopped-by-limit", "stopped-by-criterion", "initial-selection", "init/null/aic/adaptive", "init/null/cv/fixed", "init/specified/.*", "init/initial/.*"]),
    "P02": dict(phases=[P("p02", 400, name="p02-2", mpi=2, jobs=2, thorough=6000), P("p02", 500, name="p02-3", mpi=3, jobs=2, thorough=6000), P("p02", 400, name="p02-4", mpi=4, jobs=2, thorough=4000), P("p02", 300, name="p02-7", mpi=7, jobs=1, thorough=3000)],
                rule="random data sets of 27-64 observations with even and uneven splits on 2, 3, 4 and 7 processes x single- and multi-threaded processes x fit, prediction, bandwidth selection, variable selection, multiscale fits, hostile bandwidths, data on process 0 only, second runs and serial runs afterwards, and distributed products of blocks of unequal size; non-trivial when every process compared its results",
                require=["np2/fit/mp", "np3/bandwidth/serial", "np4/variables/mp", "np7/fit/serial", "np3/multiscale/mp", "np7/product", "np2/product", "idle-process", "serial-afterwards", "again", "data-on-process-0-only", "rejected/.*", "fit/uneven", "multiscale/uneven"]),
    "T01": dict(phases=[P("t01", 13200, thorough=62000)],
                rule="one scenario per library capability on random data, serial, threaded and cancelled, with every call of the telegram object recorded and a silent twin run; non-trivial when a successful run reported something",
                require=["counted:basic/omp", "counted:basic/serial", "counted:gwss-avg/omp", "counted:gtwr-bw/.*", "shares:ggwr-bw/.*", "shares:scalable/.*", "counted:mgwr-auto/omp", "counted:gwpca/serial", "cancelled:basic", "cancelled:gwdr"]),
    "V01": dict(phases=[P("v01", 13200, thorough=62000)],
                rule="one object per library capability, configured completely, then 3-6 times broken in one or two random ways, checked, restored and checked; refused setter calls and threading modes; finally run and compared with a fresh object; non-trivial when the run was compared",
                require=["incomplete:basic:no-weight", "incomplete:gwdr:no-distance", "incomplete:mgwr:few-weightings", "incomplete:gwpca:too-many-components", "incomplete:gwda:few-groups", "incomplete:gwss:few-variable-rows", "incomplete:scalable:kernel-unsupported", "incomplete:gtwr:bandwidth-not-positive", "mode:ignored", "refused:.*"]),
    "S03": dict(phases=[P("s03", 1056, cfg="tsan", thorough=33000), P("s03", 3300, name="s03-plain", thorough=66000)],
                rule="2-4 objects (any library capabilities, or several of one kind partly on the same caller-owned data; serial or 2-3 threads; some cancelled, some run twice, constructed inside or outside their thread) released together; non-trivial when a result was compared with the run alone",
                require=["basic:serial", "mgwr-auto:serial", "gwdr-bw:serial", "scalable:serial", "ggwr-poisson:omp", "gtwr-bw:serial", "gwss-corr:omp", "gwpca:serial", "gwda-qda:serial", "same-kind", "mixed", "cancelled-beside:.*"]),
    "L01": dict(phases=[P("l01", 13200, thorough=66000)],
                rule="one scenario per library capability on random data with every message recorded, followed by the same run repeated or threaded on a new object; non-trivial when both runs succeeded and their logs were compared",
                require=["basic-bw-cv:bwlist", "basic-bw-aic:bwlist", "robust-bw:bwlist", "basic-vars:varlist", "gwdr-vars:varlist", "gtwr-lambda/omp", "basic-bw-cv/omp", "mgwr-auto/omp", "gwss-avg/again"]),
    "P03": dict(phases=[P("p03", 3300, thorough=66000)],
                rule="every library capability serially, on 1-6 OpenMP threads (process default 9) and again after a change of the number of threads or back to serial; non-trivial when the run succeeded and its threads were compared",
                require=["spread:basic", "spread:basic-bw-cv", "spread:gtwr", "spread:gwdr", "spread:mgwr", "spread:gwss-corr", "spread:gwda-qda", "spread:lc-bw", "threads:ggwr-poisson", "back-to-serial", "changed-threads", "one-thread"]),
    "A01": dict(phases=[P("a01", 13200, thorough=132000)],
                rule="20-60 random setting calls on a configured object of every library capability, all settings and data read back after each; every third case runs the object instead and reads everything back afterwards; non-trivial when settings were compared",
                require=["run", "basic/ran", "mgwr/ran", "ggwr/ran", "gwda/ran", "basic/setHasHatMatrix", "robust/setFiltered", "mgwr/setBandwidthSelectThreshold", "mgwr/setAdaptiveLower", "gwdr/setBandwidthOptimizeEps", "gtwr/setBandwidthSelectionCriterion", "gwda/setHasprior", "lc/setLambdaAdjust", "ggwr/setRegressionData", "ggwr/setHasRegressionData", "gwss/setQuantile", "gwpca/setKeepComponents", "scalable/setPolynomial"]),
    "M11": dict(phases=[P("m11", 6000, thorough=120000)],
                rule="two thirds random global Poisson and logistic models (0-3 predictors, with and without intercept, units of 1 and 100, with and without zero counts), one third the family functions on random vectors (linear predictors to -200, weights, zero weights, totals); non-trivial when the estimate exists and was compared",
                require=["fit/poisson/scaled", "fit/binomial/scaled", "family/binomial/extreme", "family/poisson/extreme", "binomial-counts"]),
    "X01": dict(phases=[P("x01", 8400, thorough=84000)],
                rule="21 equivalences between models (all weights 1, lambda 1, one period, one dimension, product of Gaussians, no outliers, no ridge, one variable, doubled observations, prediction at the data, shared searches, rotated metrics) on random data x metrics x kernels x bandwidths x serial/1-6 threads; non-trivial when both models ran and were compared",
                require=["kernel-limit", "all-weights-one", "planar-is-minkowski-2", "city-block-is-rotated-maximum", "gtwr-lambda-one", "gtwr-one-period", "gtwr-search", "gwdr-one-dimension", "gwdr-product-of-gaussians", "robust-without-outliers", "lc-without-ridge", "mgwr-one-variable", "mgwr-all-weights-one", "poisson", "binomial", "gwss-average", "gwss-correlation", "pca-all-weights-one", "duplicated", "duplicated-statistics", "predict-at-data", "search-agrees", "gwda-nothing-local", "adaptive-all-is-fixed", "omp/omp", "serial/serial"]),
}
