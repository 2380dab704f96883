import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,state=None,obs=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    if obs: d["anchors"]["observe_at"]=obs
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","Caller's data is never modified",
 "No public function and no estimator method writes into the arrays, tensors, lists, dictionaries or other containers its caller passed in (time series, datasets, targets, weights, initial barycenters, precomputed matrices, option dictionaries). After any call, successful or failing, every argument holds the values it held before.",
 ["inputs","configurations"],"every public function and estimator method, every argument, every input type that is passed through without a conversion (float64 arrays, tensors, lists, dicts), every option value",
 "A write through an alias shows only for the argument type, dtype and option combination that lets the alias survive validation; the tests compare inputs before/after almost nowhere.",
 ["tslearn/metrics","tslearn/barycenters","tslearn/clustering","tslearn/preprocessing","tslearn/piecewise","tslearn/utils","tslearn/neighbors","tslearn/svm","tslearn/shapelets","tslearn/early_classification","tslearn/matrix_profile"],
 [("copying conversions","tslearn/utils/utils.py: to_time_series, to_time_series_dataset"),("dict copies of metric_params","clustering/kmeans.py, neighbors/neighbors.py: _get_metric_params"),("explicit copies before in-place arithmetic","metrics/cycc.py, preprocessing, barycenters")])
p("C02","Hyper-parameters set by the user are preserved",
 "A constructor stores each of its parameters, unmodified, under the parameter's own name, so that get_params/clone return exactly what was passed. No method other than set_params and the constructor leaves any hyper-parameter (or the object it refers to, such as an option dictionary or initial array) changed when it returns or raises.",
 ["histories","inputs","configurations"],"every estimator, every method sequence, every exit including exceptional ones",
 "Tests use one configuration per estimator, look at get_params only after construction, and do not raise in the middle of a fit.",
 ["tslearn/neighbors/neighbors.py","tslearn/clustering","tslearn/svm/svm.py","tslearn/shapelets/shapelets.py","tslearn/piecewise/piecewise.py","tslearn/early_classification","tslearn/preprocessing","tslearn/forecasting"],
 [("verbatim assignment in __init__","every estimator class"),("temporary override with restoration","tslearn/bases/bases.py: TimeSeriesMixin._patch_attribute"),("working copies of option dicts","clustering/kmeans.py, clustering/dbscan.py, neighbors/neighbors.py")])
p("C03","Inference leaves the fitted model untouched",
 "Calling an inference method (predict, transform, inverse_transform, score, kneighbors, predict_proba, locate, early prediction, forecasting, serialization, ...) on a fitted estimator neither rebinds nor mutates any attribute of it. The answer to a query therefore never depends on which queries were made before.",
 ["histories","inputs"],"every fitted estimator, every sequence of inference calls",
 "Tests call each inference method once or twice on one fitted model; leaking state between calls needs a specific order of calls with different data.",
 ["tslearn/neighbors/neighbors.py","tslearn/clustering","tslearn/svm/svm.py","tslearn/shapelets/shapelets.py","tslearn/piecewise/piecewise.py","tslearn/early_classification/early_classification.py","tslearn/matrix_profile/matrix_profile.py","tslearn/neural_network/neural_network.py","tslearn/forecasting/_arima.py","tslearn/preprocessing"],
 [("inference methods only read fitted attributes","all estimator classes")])
p("C04","Refitting forgets earlier fits",
 "The outcome of fit depends only on the hyper-parameters and on the data passed to that call: a second fit on the same object, after any earlier fit, inference or change of hyper-parameters, gives the same model as fitting a fresh clone. No information left on the object by an earlier call is read by fit, or by inference after the new fit.",
 ["histories","configurations"],"every estimator (except documented incremental partial_fit), every earlier history of fits, queries and set_params",
 "Tests fit each object once; stale state matters only on a second fit with other data or another hyper-parameter.",
 ["tslearn/neighbors/neighbors.py","tslearn/clustering","tslearn/svm/svm.py","tslearn/shapelets/shapelets.py","tslearn/piecewise/piecewise.py","tslearn/early_classification","tslearn/matrix_profile","tslearn/neural_network","tslearn/preprocessing","tslearn/forecasting"],
 [("fit assigns every attribute before use","all estimator classes")])
p("C05","Unfitted estimators refuse inference",
 "Every inference method of every estimator that learns something in fit raises NotFittedError when fit has not been called; it never answers, and never fails by tripping over a missing internal attribute.",
 ["histories","configurations"],"every estimator, every inference method, every hyper-parameter setting",
 "Tests exercise the unfitted error for a few methods and one hyper-parameter setting each.",
 ["tslearn/neighbors/neighbors.py","tslearn/clustering","tslearn/svm/svm.py","tslearn/shapelets/shapelets.py","tslearn/piecewise/piecewise.py","tslearn/early_classification","tslearn/matrix_profile","tslearn/neural_network","tslearn/preprocessing","tslearn/forecasting"],
 [("check_is_fitted / _is_fitted guards","each inference method")])
p("C06","A fixed random_state fixes the result",
 "Every random choice of a function or estimator that takes random_state is drawn from a generator derived from that argument, which is handed on to every internal step and external routine that randomises. No result depends on the process-global random generators, the clock, hash or identity order of objects, or the completion order of parallel jobs.",
 ["inputs","schedules","configurations"],"every function/estimator with random_state, every option combination (init methods, n_init, empty-cluster handling), every hash seed and thread schedule",
 "Tests fix one seed and compare against recorded numbers on toy data; a draw from another source on a rare path (empty cluster, k-means++ init, parallel run) is not visible.",
 ["tslearn/clustering","tslearn/barycenters","tslearn/generators/generators.py","tslearn/shapelets/shapelets.py","tslearn/metrics/_gak.py","tslearn/utils/cast.py","tslearn/forecasting/_arima.py","tslearn/neural_network"],
 [("check_random_state(random_state) and forwarding","clustering/kmeans.py, clustering/kshape.py, barycenters, generators, metrics/_gak.py"),("set_random_seed before building the network","shapelets/shapelets.py"),("ordered job collection","joblib Parallel call sites")])
p("C07","A saved model keeps everything inference needs",
 "For every estimator that can be saved (to_json, to_hdf5, to_pickle), the saved form contains all hyper-parameters and every learned attribute that any inference method reads, and loading restores them under the same names; a fitted model can always be saved, and the reloaded model is recognised as fitted.",
 ["histories","configurations"],"every serializable estimator, every hyper-parameter setting (metric family, option dictionaries), every inference method after loading",
 "Tests reload a handful of estimators with default settings and call predict once.",
 ["tslearn/bases/bases.py","tslearn/hdftools/hdftools.py","tslearn/neighbors/neighbors.py","tslearn/clustering","tslearn/svm/svm.py","tslearn/shapelets/shapelets.py","tslearn/piecewise/piecewise.py","tslearn/matrix_profile/matrix_profile.py"],
 [("_get_model_params / _is_fitted / _organize_model","tslearn/bases/bases.py and overrides")])
p("C08","Optional packages stay optional",
 "Importing any public module of tslearn, and every name it advertises in __all__, works when any of the optional packages (torch, keras, h5py, pandas, cesium, stumpy, and so on) is missing; a feature that needs a missing package fails with an explanatory ImportError or ValueError, never with a NameError or AttributeError on a missing module.",
 ["configurations"],"every public module, each optional package absent",
 "The tests run in one environment with every optional package installed.",
 ["tslearn/backend/pytorch_backend.py","tslearn/metrics","tslearn/bases/bases.py","tslearn/utils/cast.py","tslearn/matrix_profile/matrix_profile.py","tslearn/shapelets","tslearn/neural_network"],
 [("guarded imports with fallback bindings","try/except ImportError blocks")])
p("C09","Both computation backends offer what the library uses",
 "Every operation that backend-generic code performs through the backend object exists, under that name and accepting those arguments, in both the NumPy and the PyTorch backend, for every code path that is reachable with that backend.",
 ["configurations","inputs"],"every public metric/barycenter function, both backends, every option value",
 "Tests run the PyTorch backend on part of the functions and options only; a missing attribute shows only when that path runs under that backend.",
 ["tslearn/backend","tslearn/metrics","tslearn/barycenters","tslearn/utils/utils.py"],
 [("NumPyBackend / PyTorchBackend attribute tables","tslearn/backend")])
p("C10","Options a caller passes reach the computation",
 "Every option accepted by a public metric, cross-distance, barycenter or estimator entry point (global_constraint, sakoe_chiba_radius, itakura_max_slope, gamma, sigma, eps, normalize, metric_params, n_jobs, verbose, weights, max_iter, tol, random_state, backend ...) is handed, unaltered in meaning and not swapped with another, to every internal computation that takes that option. No accepted option is silently dropped on some path, replaced by a default, or translated twice.",
 ["configurations","inputs"],"every public entry point, each option it accepts, every call path from it, both backends",
 "Tests cover few combinations of metric, constraint, backend and job count; an option dropped on one path returns a plausible number.",
 ["tslearn/metrics","tslearn/barycenters","tslearn/clustering","tslearn/neighbors/neighbors.py","tslearn/svm/svm.py","tslearn/preprocessing","tslearn/early_classification"],
 [("GLOBAL_CONSTRAINT_CODE translation and _compute_mask","tslearn/metrics/_masks.py"),("keyword forwarding to _cdist_generic","tslearn/metrics/utils.py"),("_get_metric_params","clustering, neighbors")])
p("C11","Alignment and iteration loops terminate",
 "Every condition-controlled loop of the library (path backtracking, length trimming, iterative refinement) makes progress toward its exit condition on every path through its body, for every cost matrix, mask and input, including infinite, masked and NaN cells.",
 ["inputs"],"all inputs of every public metric and estimator whose implementation contains a condition-controlled loop",
 "A loop that fails to progress needs a particular mask/cost configuration; tests use a few feasible ones.",
 ["tslearn/metrics/utils.py","tslearn/metrics/dtw_variants.py","tslearn/metrics/_frechet.py","tslearn/metrics/ctw.py","tslearn/utils/utils.py","tslearn/metrics/_masks.py"],
 [("decreasing indices in path extraction","tslearn/metrics/utils.py: _compute_path_generic and variants")])
p("C12","Parallel execution changes nothing but speed",
 "Concurrent units of work (joblib tasks, prange iterations) write no location another unit reads or writes, and their results are collected in submission order; with n_jobs set, the same work items with the same arguments are computed, and combined in the same order, as without it.",
 ["schedules","configurations"],"every parallel region, every thread schedule, every n_jobs",
 "Races and order-dependent sums need an unlucky schedule; tests compare n_jobs=1 and 2 on tiny data in a few functions.",
 ["tslearn/metrics/utils.py","tslearn/metrics/cysax.py","tslearn/metrics/soft_dtw_fast.py","tslearn/metrics/_gak.py","tslearn/metrics/cycc.py","tslearn/barycenters","tslearn/neighbors/neighbors.py","tslearn/preprocessing"],
 [("joblib Parallel/delayed worker functions, numba prange","whole library")])
p("C13","NaN padding never enters an elastic distance",
 "Series of different lengths are padded with NaN in a dataset; every elastic distance, kernel, alignment and barycenter (DTW, soft-DTW, Frechet, LCSS, CTW, GAK, DBA, soft-DTW barycenter, and distance functions given by the caller) computed on series taken from a dataset or given by the caller cuts that padding off before the values reach the numeric kernel. (The envelope and LB_Keogh, and the accumulated-cost helpers whose caller supplies a mask, work on the time stamps they are given.)",
 ["inputs"],"every public metric, cross-distance, barycenter and estimator that supports variable-length series, every dataset with padding",
 "Tests use equal-length series for most metric/option combinations; a missing trim appears as NaN or as a silently different distance only for padded data.",
 ["tslearn/metrics","tslearn/barycenters","tslearn/clustering","tslearn/neighbors/neighbors.py","tslearn/utils/utils.py"],
 [("to_time_series(..., remove_nans=True), _to_time_series(..., True), ts_size slicing","metrics, barycenters")])
p("C14","Inference rejects data that does not fit the model",
 "Every inference method of an estimator fitted on data with a given number of features (and, for estimators tied to equal lengths, a given length) compares the dimensions of the data it receives with the fitted ones before computing with it, and raises ValueError on a mismatch. (KNeighborsTimeSeries*.kneighbors also accepts flattened 2-D series, as documented; a query with another length is accepted wherever the metric compares series of different lengths.)",
 ["inputs","configurations"],"every estimator and inference method, every shape of query data",
 "Tests send matching data; with mismatching data the numeric code often broadcasts or truncates and returns a plausible answer.",
 ["tslearn/utils/utils.py","tslearn/clustering","tslearn/neighbors/neighbors.py","tslearn/svm/svm.py","tslearn/shapelets/shapelets.py","tslearn/piecewise/piecewise.py","tslearn/matrix_profile","tslearn/preprocessing","tslearn/early_classification","tslearn/neural_network"],
 [("check_dims(X, X_fit_dims=...)","each inference method")],[("X_fit_dims","shape of the training dataset kept by fit","self._X_fit_dims and variants")])
p("C15","Results never contain uninitialised memory",
 "Every array allocated without initialisation is completely overwritten before it is returned, stored on an estimator, or read.",
 ["inputs"],"every allocation of uninitialised memory, every input shape",
 "Uninitialised cells often happen to be zero or recent values; which cells are left over depends on divisibility of sizes and on empty groups.",
 ["tslearn/metrics/cysax.py","tslearn/metrics/cycc.py","tslearn/metrics/soft_dtw_fast.py","tslearn/early_classification/early_classification.py","tslearn/utils","tslearn/piecewise/piecewise.py","tslearn/shapelets/shapelets.py","tslearn/clustering/kshape.py"],
 [("loops/slices that overwrite numpy.empty buffers","whole library")])
p("C16","PyTorch results stay differentiable",
 "With the PyTorch backend, the distance returned by the differentiable metrics (DTW, soft-DTW and its normalised version, Frechet, GAK, the soft-DTW loss) depends on the input tensors only through operations that keep the autograd graph: no detaching, no conversion to NumPy or to Python numbers, no computation under no_grad lies on a path from an input to the returned distance.",
 ["inputs","configurations"],"each differentiable public metric, every option value, tensors that require grad",
 "Only a few metrics and options have a gradient test.",
 ["tslearn/metrics/_dtw.py","tslearn/metrics/_soft_dtw.py","tslearn/metrics/_frechet.py","tslearn/metrics/_gak.py","tslearn/metrics/dtw_variants.py","tslearn/metrics/soft_dtw_loss_pytorch.py","tslearn/metrics/utils.py","tslearn/utils/utils.py","tslearn/backend/pytorch_backend.py"],
 [("torch-only arms of the metrics","tslearn/metrics")])
p("C17","Unknown option values are rejected, advertised ones are served",
 "A string option (metric, init, global constraint, barycenter or aggregation method, ...) set to a value outside its documented set makes the call raise rather than fall back to some default behaviour. Every value inside the advertised set is dispatched to an implementation by all methods of the estimator or function that accepts it. (The backend selector `be` is documented to accept anything; values tslearn hands to an external library are judged by that library.)",
 ["configurations"],"every string-valued option of a public function or estimator, every value",
 "Tests pass valid values, and a subset of them to each method.",
 ["tslearn/clustering","tslearn/neighbors/neighbors.py","tslearn/metrics","tslearn/early_classification","tslearn/shapelets","tslearn/preprocessing","tslearn/datasets"],
 [("if/elif chains with a raising default and lookup tables","clustering/kmeans.py, clustering/utils.py, neighbors/neighbors.py, metrics/_masks.py")])
p("C18","Files and temporary directories are released and confined",
 "Every file, archive or temporary directory the library opens or creates is closed or removed on every exit path, including failing ones, and nothing outside the dataset cache directory or the temporary directory it created itself is ever deleted.",
 ["fault_sequences","inputs"],"every exit of the dataset download/caching, text, JSON, pickle and HDF5 code, every fault in between",
 "Tests do not inject download, extraction or write failures and run without network.",
 ["tslearn/datasets/cached.py","tslearn/datasets/datasets.py","tslearn/datasets/ucr_uea.py","tslearn/bases/bases.py","tslearn/hdftools/hdftools.py","tslearn/utils/utils.py"],
 [("try/finally and with blocks","datasets/datasets.py: extract_from_zip_url; hdftools; utils")])
# not claimed (numeric / runtime)
p("C30","Elastic distances are optimal alignments",
 "dtw, soft-dtw, lcss, frechet and gak return the optimum (or soft-optimum) over all admissible alignments, and the returned path is an admissible alignment whose cost is the returned distance.",
 ["inputs"],"all pairs of series, constraints and metrics","A numeric optimum over all inputs cannot be sampled.",
 ["tslearn/metrics"],[("dynamic programming kernels","tslearn/metrics")])
p("C31","Cross-distances agree with pairwise distances",
 "Each entry of a cdist_* matrix equals the corresponding pairwise function on the same two series with the same options, self-comparisons are symmetric.",
 ["inputs","configurations"],"all datasets and options","Equality of numbers over all inputs; tests sample a few.",["tslearn/metrics"],[("_cdist_generic","tslearn/metrics/utils.py")])
p("C32","Lower bounds are lower bounds",
 "LB_Keogh, SAX, 1d-SAX and PAA distances never exceed the distance they bound.",["inputs"],"all series, radii and segmentations","Numeric inequality over all inputs.",
 ["tslearn/metrics/dtw_variants.py","tslearn/metrics/cysax.py","tslearn/piecewise/piecewise.py"],[("envelope/breakpoint computation","tslearn/metrics/dtw_variants.py, tslearn/metrics/cysax.py")])
p("C33","Clustering labels agree with predict on the training set",
 "After fit, labels_ equals predict of the training data, inertia_ is the sum of the assigned (squared) distances, and the inertia never increases over an iteration.",["inputs"],"all datasets and seeds","Depends on run-time numerics.",
 ["tslearn/clustering"],[("_assign/_update","tslearn/clustering/kmeans.py")])
p("C34","Barycenter iterations reach a fixed point of their loss",
 "DBA and soft-DTW barycenter iterations never increase the weighted loss and stop at a stationary point.",["inputs"],"all datasets, weights and constraints","Numerical convergence.",
 ["tslearn/barycenters"],[("petitjean/MM/subgradient updates","tslearn/barycenters/dba.py")])
p("C35","Format conversions round-trip",
 "Converting a dataset to another library's or text format and back yields the same dataset, up to the documented restrictions.",["inputs"],"all datasets and formats","Equality of values over all datasets.",
 ["tslearn/utils/cast.py","tslearn/utils/utils.py"],[("to_*/from_* pairs","tslearn/utils/cast.py")])
p("C36","Nearest-neighbour queries are exact",
 "kneighbors returns the k training series at the smallest distance under the configured metric, in order, and predictions are the documented vote/average of those.",["inputs"],"all training sets and queries","Numeric ordering over all inputs.",
 ["tslearn/neighbors/neighbors.py"],[("kneighbors","tslearn/neighbors/neighbors.py")])
p("C37","Scalers produce the documented statistics",
 "Scaled series have the requested mean, deviation, minimum and maximum, constant and NaN-padded series included.",["inputs"],"all datasets","Numeric identity over all inputs.",
 ["tslearn/preprocessing/preprocessing.py"],[("fit/transform","tslearn/preprocessing/preprocessing.py")])
p("C38","Gradients equal the derivative of the loss",
 "soft-DTW, shapelet and SoftDTWLossPyTorch gradients equal the mathematical derivative of the returned value.",["inputs"],"all inputs and gamma","Numeric identity over all inputs.",
 ["tslearn/metrics/softdtw_variants.py","tslearn/metrics/soft_dtw_fast.py","tslearn/metrics/soft_dtw_loss_pytorch.py","tslearn/shapelets/shapelets.py"],[("backward recursions","tslearn/metrics/soft_dtw_fast.py")])
p("C39","Forecasts follow the fitted ARIMA recursion",
 "Forecasts are those of the fitted (V)ARIMA recursion, and the order selected by AutoVARIMA minimises the criterion over the explored grid.",["inputs"],"all series and orders","Numeric behaviour.",
 ["tslearn/forecasting/_arima.py"],[("predict recursion","tslearn/forecasting/_arima.py")])
with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
