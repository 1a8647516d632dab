prop("C01", "Streaming, batching and fit give the same estimate",
     """Feeding the same rows in the same order produces the same n_samples_, location_, covariance_ (and gamma_
     where present) however they are split into partial_fit calls (single rows or batches), whichever accepted
     container carries them (list, tuple, array of any memory order or dtype, DataFrame), or if given at once to fit.
     n_samples_ equals the number of rows fed (one fewer with diff=True), and an empty batch changes nothing.""",
     ["inputs", "histories", "configurations"],
     "every estimator and parameterisation, every stream of rows, every partition of it into calls, every container",
     """Tests compare one stream, one batch split and mostly default parameters; the property quantifies over all
     2**(n-1) splits, containers and burn-in positions.""",
     [BASE, "precise/_conventions.py", "precise/_state.py"] + EST,
     [("rows are folded one at a time through _update_state", BASE), ("as_rows", "precise/_conventions.py")],
     "exhaustive enumeration of call histories on the real code",
     NOTE, ["n_samples_", "location_", "covariance_"])

prop("C02", "A checkpoint taken at any point resumes exactly",
     """Saving an estimator at any point of a stream (get_state through JSON text and set_state on a new or used
     estimator with the same parameters, pickle at any protocol, copy.deepcopy) and feeding the remaining rows to the
     restored one gives the same estimate as never having stopped, including before any data, inside the burn-in and
     with diff=True; ConditionalCovariance does so through pickle and deepcopy, the keyed adapters through deepcopy.
     A snapshot is independent: continuing the original does not alter it, nor the reverse.""",
     ["crash_points", "histories", "configurations"],
     "every restart point (and pair of restart points) of every stream, every mechanism, every estimator",
     "Tests restart a few estimators at one position; the property is about every restart point.",
     [BASE, "precise/_state.py", "precise/conditional.py", "precise/keyed.py"],
     [("get_state/set_state/__getstate__/__setstate__", BASE), ("FixedUniverse / DynamicUniverse attributes", "precise/keyed.py")],
     "exhaustive enumeration of crash/restart points on the real code",
     NOTE, ["get_state", "set_state", "pickle", "copy.deepcopy"])

prop("C03", "fit and set_state erase all earlier history",
     """After fit(X) an estimator is indistinguishable, then and for any later updates, from a new one with the same
     parameters on which fit(X) was called, whatever width or amount of data it had seen before; after set_state(s) it
     is indistinguishable from a new one given s, and set_state(None) leaves it unfitted.""",
     ["histories", "configurations"],
     "every earlier history (updates, reads, failed calls, other widths, earlier fits and restores), every estimator",
     "Tests refit once after one stream; leftovers show only in particular earlier histories (burn-in, diff, width).",
     [BASE] + EST, [("fit resets _state, _prev_x and n_features_in_", BASE)],
     "exhaustive enumeration of operation words on the real code", NOTE, ["fit", "set_state", "covariance_"])

prop("C04", "Reading never changes an estimate",
     """Reading covariance_, correlation_, precision_, location_, score, mahalanobis, get_state, get_params, repr or
     pickling, any number of times at any point of a stream, leaves every later result exactly as if nothing had been
     read, and reading twice gives the same answer.
     Arrays that were returned belong to the caller: later updates do not change them and writing into them does not
     change the estimator. The same holds for the matrices, dicts and frames a keyed estimator returns.""",
     ["histories", "configurations"],
     "every interleaving of updates and reads, every estimator, streams long enough for periodic recalculation",
     "Tests read at the end of a stream; state mutated by a read shows only in later updates.",
     [BASE, "precise/keyed.py"] + EST, [("covariance_/location_ build new arrays", BASE), ("cov_array", "precise/keyed.py")],
     "exhaustive enumeration of update/read interleavings on the real code", NOTE,
     ["covariance_", "correlation_", "precision_", "location_", "score", "mahalanobis"])

prop("C05", "The caller's data is neither modified nor retained",
     """No call modifies the arrays, frames, lists, dicts, estimators used as templates or weights passed to it, and
     none keeps a reference to them: overwriting an argument after the call has no effect on any later result.
     This covers partial_fit, fit, mahalanobis, score, set_state, the keyed estimators, ConditionalCovariance,
     assessors and suggest.""",
     ["inputs", "histories"],
     "every update path with reused buffers, every estimator (with and without diff), every position in the stream",
     "Tests pass fresh arrays; aliasing shows only when the caller reuses a buffer.",
     [BASE, "precise/_conventions.py", "precise/keyed.py", "precise/conditional.py", "precise/assessment/assessors.py",
      "precise/recommend.py"] + EST[:-1],
     [("as_rows / copies on store", BASE)],
     "exhaustive enumeration of call histories over reused buffers", NOTE, ["partial_fit", "set_state", "assess"])

prop("C06", "Every estimate is a valid covariance matrix",
     """For any finite observations of ordinary magnitude, including constant, duplicated, collinear, all-zero and
     grossly outlying ones, covariance_ is finite, symmetric, of shape (n_features, n_features) and positive
     semi-definite up to rounding at every point of the stream, and location_ is finite.
     correlation_ is symmetric with entries in [-1, 1] and a unit diagonal wherever the variance is positive.
     Before any observation these attributes raise NotFittedError.""",
     ["inputs", "histories", "configurations"],
     "every observation sequence over degenerate alphabets, every deviation position in long streams, all parameters",
     "Tests check PSD on Gaussian samples; failures need degenerate rows at particular positions.",
     ["precise/_linalg.py", BASE] + EST, [("to_symmetric, make_pos_def, nearest_pos_def", "precise/_linalg.py")],
     "exhaustive enumeration of observation words on the real code", NOTE,
     ["covariance_", "correlation_", "location_"])

prop("C07", "Derived quantities agree with covariance_ and location_",
     """correlation_ is covariance_ scaled by its standard deviations; precision_ and get_precision() are its inverse
     (the pseudo-inverse when it is exactly singular); mahalanobis(X) is the squared distance of each row of X from
     location_ under that precision; and score(X) is the mean Gaussian log-density of the rows of X.
     These hold at every point of the stream, for one row or many, for any scale of the data.""",
     ["inputs", "histories", "configurations"],
     "every estimator at every prefix of every stream, all shapes of evaluation data, all scales",
     "Tests check one fitted estimator on one data set.",
     [BASE, "precise/_linalg.py"], [("cov_to_corrcoef, try_invert", "precise/_linalg.py"), ("score", BASE)],
     "exhaustive enumeration of stream prefixes against textbook formulas", NOTE,
     ["correlation_", "precision_", "mahalanobis", "score"])

prop("C10", "Misshapen input is rejected and changes nothing",
     """Data of the wrong shape (scalars, 3-d arrays, ragged or non-numeric rows, rows of a different width than those
     already seen, 1-d data to fit) makes partial_fit, fit, mahalanobis and score raise, at any point of a stream; the
     estimator is then exactly as before the call and continues as if it had not happened. The keyed estimators likewise
     reject an observation holding a value that is not a number, and are then exactly as before.""",
     ["inputs", "histories", "configurations"],
     "every malformed call (and pair of calls) at every prefix of a stream, every estimator",
     "Tests try one wrong shape on a new estimator.",
     ["precise/_conventions.py", BASE, "precise/conditional.py"],
     [("as_rows", "precise/_conventions.py"), ("_check_width", BASE)],
     "exhaustive enumeration of malformed calls over stream prefixes", NOTE, ["partial_fit", "fit", "score"])

prop("C11", "diff=True is the same estimator on first differences",
     """An estimator built with diff=True and fed levels x0, x1, ..., xn equals, at every point, the same estimator
     built with diff=False and fed x1-x0, ..., xn-x(n-1): same n_samples_ (0 and unfitted after the first level), same
     covariance_, location_ and everything derived.
     It does so across batch boundaries, empty batches, save and restore, and fit restarts the differencing.""",
     ["inputs", "histories", "configurations"],
     "every estimator with a diff parameter, every sequence of calls, every burn-in position",
     "Tests difference one series in one call for one estimator.",
     [BASE], [("use_diff branch of partial_fit", BASE)],
     "exhaustive enumeration of operation words against a differenced reference", NOTE,
     ["partial_fit", "fit", "n_samples_"], [("_prev_x", "last level seen", BASE)])

prop("C12", "Estimates follow shifts, rescaling, sign changes and relabelling",
     """Adding a constant vector to every observation moves location_ by it and leaves covariance_ unchanged;
     multiplying all observations by c multiplies location_ by c and covariance_ by c**2 (TylerCovariance, whose
     trace is fixed, is unchanged); negating some variables negates their rows and columns; and permuting the
     variables permutes them.
     Exceptions by definition: the sign rule for ShrunkCovariance's constant-correlation target, and permutations
     across blocks for the block-based families (Block, Schur, SchurLedoitWolf, SchurConditional).""",
     ["inputs", "configurations", "histories"],
     "every estimator, every stream, all shifts/scales/sign patterns/permutations, at every prefix",
     "Tests never compare two related streams.",
     ["precise/_linalg.py", BASE] + EST, [("each _update_state recursion", "precise/")],
     "exhaustive enumeration of transforms over streams, real code against itself", NOTE +
     " Scaling of GeodesicEwaCovariance is a known finding.", ["covariance_", "location_"])

prop("C08", "Estimators never influence one another",
     """Each estimator's results depend only on the calls made on it. Any number of instances (of the same or
     different classes, copies, clones, ones restored from the same saved state, ones built from the same template in
     ConditionalCovariance or a keyed estimator) may be used in any interleaving, or each from its own thread, and
     each gives exactly what it gives alone.
     Registries, assessors, suggest and covariance_features do not depend on earlier calls, and nothing alters numpy's
     or random's global state, error or warning settings.""",
     ["schedules", "histories", "configurations"],
     "every merge of the operation sequences of two or three instances; every thread schedule up to the bound",
     "Tests drive one instance at a time; shared buffers or class-level caches show only when two are interleaved.",
     [BASE, "precise/conditional.py", "precise/keyed.py", "precise/registry.py", "precise/recommend.py",
      "precise/assessment/assessors.py"] + EST[:-1],
     [("state is held per instance in _state", BASE), ("templates are cloned, not shared", "precise/keyed.py")],
     "exhaustive merges and bounded-preemption scheduling of the real code",
     NOTE + " Thread schedules: every single preemption point, two preemptions for selected pairs.",
     ["covariance_", "location_", "get_state"])

prop("C09", "An interrupted update leaves a whole number of rows absorbed",
     """If partial_fit is cut short by an exception raised anywhere inside it (KeyboardInterrupt, a numerical error,
     memory), the estimator is exactly as if the first j rows of the batch, for some j, had been absorbed and the
     others not, and it continues correctly from there. If fit is cut short, it is either as before the call or as
     fitted to the first j rows. This holds for every registered single-matrix estimator, with and without diff.""",
     ["crash_points", "histories"],
     "an exception at every point where the interpreter can deliver one, at several positions of the stream",
     "No test raises inside an update; a torn state needs a fault at a particular instruction.",
     [BASE] + EST[:-1], [("the new state is assigned once, after it is complete", BASE)],
     "fault injection at every interruption point of the real code",
     NOTE + " n_features_in_ is not compared; ConditionalCovariance and keyed estimators are outside the claim.",
     ["partial_fit", "fit", "get_state"])

prop("C13", "EmpiricalCovariance is the exact mean and covariance of all data",
     """At every point of any stream location_ is the arithmetic mean and covariance_ the population covariance
     (divisor n) of all rows seen, to rounding, whatever their order, number, scale or distance from the origin
     (offsets up to 1e8 standard deviations), with one row giving a zero matrix, for any container and numeric dtype
     and streams of any length.""",
     ["inputs", "histories"],
     "every observation word, every permutation of every row multiset, every prefix of long streams",
     "Tests compare np.cov for one sample of moderate offset.",
     ["precise/empirical.py"], [("Welford recursion", "precise/empirical.py")],
     "exhaustive enumeration of streams against exact rational arithmetic", NOTE, ["covariance_", "location_"])

prop("C14", "Ewa and Diagonal follow their documented recursions",
     """EwaCovariance: while n <= n_burn = min(250, max(5, ceil(1/r))), location_ and covariance_
     are the mean and population covariance of the rows so far; afterwards, with d = x minus the previous mean, mean
     becomes mean + r*d and covariance becomes (1-r)*cov + r*d*d'.
     DiagonalCovariance: the mean and the squared innovations about the previous mean (zero for the first row) are
     averaged with weight 1/n during the burn-in and r afterwards; off-diagonal entries are exactly zero.""",
     ["inputs", "histories", "configurations"],
     "every observation word and single deviation, across the end of the burn-in, over a grid of r and widths",
     "Tests check a few values; slips at the end of the burn-in or for one parameter show only in particular streams.",
     ["precise/ewa.py", "precise/diagonal.py", BASE],
     [("EwaCovariance._update_state", "precise/ewa.py"), ("DiagonalCovariance._update_state", "precise/diagonal.py")],
     "reference-model conformance over all operation words up to the depth", NOTE, ["covariance_", "location_"])

prop("C15", "LedoitWolf, OAS and Shrunk apply the documented shrinkage",
     """Each shrinks the EwaCovariance matrix S of the same stream (r, burn-in) and shares its location_.
     LedoitWolf: (1-a)S + a*mu*I, mu = trace(S)/p, a = min(1, r*pi/d2), d2 = ||S - mu*I||^2/p, pi the running (rate r,
     from 0, after the burn-in) mean of ||dd' - S_prev||^2/p. OAS: the same target with the OAS formula at effective
     n = max(1/r, 2), clipped to [0, 1]. Shrunk: (1-delta)S + delta*T, T keeping S's variances with every correlation
     replaced by the mean correlation, or mean variance times the identity for target='identity'.""",
     ["inputs", "histories", "configurations"],
     "every observation word and single deviation, across the end of the burn-in, over a grid of parameters and widths",
     "Tests check that shrinkage happens, not its amount at every point of every stream.",
     ["precise/ledoitwolf.py", "precise/oas.py", "precise/shrunk.py", BASE],
     [("shrinkage intensities", "precise/ledoitwolf.py"), ("OAS rho", "precise/oas.py"),
      ("constant-correlation target", "precise/shrunk.py")],
     "reference-model conformance over all operation words up to the depth", NOTE, ["covariance_", "location_"])

prop("C16", "Huber and Adaptive react to surprise as documented",
     """With maha2 the squared Mahalanobis distance of x from the current mean: HuberCovariance leaves the deviation d
     alone if maha2 <= c^2*p and otherwise multiplies it by c*sqrt(p/maha2), then makes the EWA mean and covariance
     updates with it. AdaptiveEwaCovariance tracks surprise s = 0.9*s + 0.1*maha2/p from 1 and makes the EWA update at
     rate min(max(r*s, r), max_r). Both start from the EWA burn-in.""",
     ["inputs", "histories", "configurations"],
     "every observation word and single deviation, across the end of the burn-in, over a grid of parameters and widths",
     "Tests check the direction of the effect on one stream.",
     ["precise/huber.py", "precise/adaptive.py", BASE],
     [("weights", "precise/huber.py"), ("surprise", "precise/adaptive.py")],
     "reference-model conformance over all operation words up to the depth", NOTE, ["covariance_", "location_"])

prop("C17", "Tyler, PartialMoments and Geodesic follow their documented recursions",
     """TylerCovariance: from the direction of each deviation only, the streaming Tyler fixed point with trace p, read
     as a correlation matrix; a zero deviation leaves the shape alone. PartialMomentsCovariance: the four quadrant
     co-moments sum to the running scatter of deviations from the previous mean, projected to the nearest PSD matrix.
     GeodesicEwaCovariance: the empirical covariance during the burn-in, then a step r along the affine-invariant
     geodesic towards the floored dd'. Means follow the documented 1/n-then-r or EWA recursion.""",
     ["inputs", "histories", "configurations"],
     "every observation word and single deviation, across the end of the burn-in, over a grid of parameters and widths",
     "Tests check invariances on one stream.",
     ["precise/tyler.py", "precise/partialmoments.py", "precise/geodesic.py", "precise/_linalg.py", BASE],
     [("_update_state recursions", "precise/tyler.py"), ("geodesic_step", "precise/_linalg.py")],
     "reference-model conformance over all operation words up to the depth", NOTE, ["covariance_", "location_"])

prop("C18", "FactorCovariance is a rank-k CCIPCA matrix plus a diagonal",
     """FactorCovariance(k) maintains min(k, p) principal directions by the CCIPCA recursion (burn-in k+1, rate r
     afterwards, each component seeded by the residual of the earlier ones) and covariance_ is their rank-k matrix
     plus a diagonal holding what the components do not capture of each running variance, never negative.""",
     ["inputs", "histories", "configurations"],
     "every observation word and single deviation, across the end of the burn-in, over a grid of r, k and widths",
     "Tests check rank and PSD on one stream.",
     ["precise/factor.py", BASE], [("CCIPCA update and _state_cov", "precise/factor.py")],
     "reference-model conformance over all operation words up to the depth", NOTE, ["covariance_", "location_"])

prop("C19", "DCC and ConditionalCovariance compose H = D R D",
     """DCCCovariance: H = D R D with D the square roots of the variance recursion (rate vol_r) and R the correlation
     of the running outer products (rate r) of innovations standardized by the variances just updated with them.
     ConditionalCovariance(vol, corr): each observation is standardized by the volatility forecast made before it was
     seen (zero until the volatility model has two observations or where its variance is nil), fed to corr, and H is
     corr's correlation_ between the current volatilities of vol; location_ is vol's mean. from_skater supplies the
     volatility as the standard deviation, and mean, of a skater's next forecast.""",
     ["inputs", "histories", "configurations"],
     "every observation word and single deviation over pairs of volatility and correlation models",
     "Tests check the diagonal of H once; look-ahead in the standardization changes numbers only slightly.",
     ["precise/dcc.py", "precise/conditional.py", "precise/_linalg.py"],
     [("standardize before update", "precise/conditional.py"), ("two-stage recursion", "precise/dcc.py")],
     "reference-model conformance over all operation words up to the depth", NOTE, ["covariance_", "location_"])

prop("C20", "Block and Schur estimators damp cross-block coupling as documented",
     """With contiguous near-equal blocks (array_split of the variables into n_blocks) of the EWA matrix S of the same
     stream: BlockCovariance zeroes cross-block entries; SchurCovariance multiplies them by gamma, or goes a fraction
     gamma along the geodesic from block-diagonal to S for interpolation='geodesic'; SchurLedoitWolfCovariance uses
     gamma_ = clip(1 - r*pi_cross/m2, 0, 1) estimated online (1 when there are no cross entries); and
     SchurConditionalCovariance shrinks the cross-block conditionals by its documented gamma_.
     Within-block entries and location_ are those of S; one block gives S.""",
     ["inputs", "histories", "configurations"],
     "every observation word and single deviation, across the end of the burn-in, over blocks, gammas and widths",
     "Tests check a few entries once; block boundaries for uneven widths and gamma_ over time need enumeration.",
     ["precise/block_covariance.py", "precise/schurcov.py", "precise/schur_ledoit_wolf.py",
      "precise/schur_conditional.py", "precise/_linalg.py"],
     [("block assignment and damping", "precise/schurcov.py"), ("gamma_", "precise/schur_ledoit_wolf.py")],
     "reference-model conformance over all operation words up to the depth", NOTE, ["covariance_", "gamma_"])

prop("C21", "A fixed universe is the wrapped estimator on imputed vectors",
     """A FixedUniverse keyed estimator behaves, at every point, as the wrapped estimator fed vectors in the order of
     its keys (those given, or those of the first observation), where a missing key is replaced by its last value seen
     (0 if never seen) for 'ffill', the running mean for 'mean', or 0 for 'zero'. Unknown keys are ignored, the order
     of entries in an observation does not matter, and a query for any subset of keys in any order is the matching
     submatrix.""",
     ["histories", "inputs", "configurations"],
     "every history of key subsets up to the depth, every single gap in longer streams, every query subset and order",
     "Tests drop one key once; imputation depends on the whole history of what was missing when.",
     ["precise/keyed.py"], [("FixedUniverse._vector / imputation", "precise/keyed.py")],
     "reference-model conformance over all key-set histories up to the depth", NOTE,
     ["covariance", "correlation_", "keys_"])

prop("C22", "A dynamic universe assembles its matrix by the documented rules",
     """A DynamicUniverse keeps one estimator per distinct key set observed (columns in the order of the creating
     observation), feeds each every observation containing all its keys, drops those not fed for more than
     max_staleness consecutive observations and, above max_universes, the stalest (then the shortest-lived, then the
     earliest created). An entry for a pair of names is read from the longest-lived live estimator holding both (ties:
     least stale, then earliest created); pairs held by none (evicted and
     never seen names included) get the mean of the known off-diagonals; and the
     assembled matrix is projected to the nearest PSD matrix.""",
     ["histories", "configurations"],
     "every history of key sets up to the depth, for small capacities and staleness limits",
     "Tests follow two or three key sets; eviction and precedence depend on the order of many.",
     ["precise/keyed.py", "precise/_linalg.py"], [("create / feed / evict / assemble", "precise/keyed.py")],
     "explicit-state model stepped together with the real object over all histories", NOTE,
     ["covariance", "get_cov"])

prop("C23", "All views of a keyed estimator agree",
     """For a keyed estimator at any point, covariance_, its alias covariance, get_cov, correlation_, get_corr,
     cov_array and to_frame describe one matrix, over the same names in the same order; correlations are the
     covariances scaled, with unit diagonal; a query before any data raises ValueError, and so (or KeyError) does
     asking a fixed universe for a name outside it.
     learn_one, learn_many and update are equivalent however a stream is divided, and return self; keyed(...) accepts
     an estimator class, instance or name-free default (EwaCovariance) without consuming it.""",
     ["histories", "inputs", "configurations"],
     "every key-set history up to the depth, both universes, every query and every division of the stream",
     "Tests compare one pair of views after one stream.",
     ["precise/keyed.py", "precise/__init__.py"], [("KeyedCovariance surface", "precise/keyed.py")],
     "exhaustive enumeration of histories, views cross-checked at every node", NOTE,
     ["covariance_", "get_cov", "get_corr", "to_frame"])

prop("C24", "Assessors compute their documented criteria",
     """Every assessor is the documented formula of the forecast covariance and the evaluation rows, averaged over the
     rows (invariant to their order, additive over batches), unaffected by memory layout or dtype, best at the correct
     matrix where it is a proper score, and its usability rules, defaults, repr and registry name are as
     documented.""",
     ["inputs", "configurations"],
     "every assessor over all pairs of matrices and row multisets from small alphabets",
     "Tests check signs and a ranking on one sample.",
     ["precise/assessment/assessors.py", "precise/assessment/__init__.py"],
     [("assessor functions and registry", "precise/assessment/assessors.py")],
     "exhaustive enumeration of matrices and row sets against textbook formulas", NOTE, ["assess"])

prop("C25", "suggest ranks by the documented features, tree and rules",
     """covariance_features(X) are the documented statistics of the rows (n, p, p/n, effective rank, sphericity,
     condition number, mean |correlation|, mean excess kurtosis), whatever container carries the rows. suggest(X, top)
     returns the first `top` estimator classes ordered by the class count in the leaf of the shipped decision tree that
     those (standardised) features reach, then by the heuristic rules' score, then by registry order; without a tree
     the rules alone rank. It is a function of the data only and leaves it unchanged.""",
     ["inputs"],
     "every data set of a grid of sizes, structures and tails and all small words; every node of the tree",
     "Tests check one data set per regime; most leaves, rule boundaries and ties are never visited.",
     ["precise/recommend.py", "precise/_recommender_model.py"],
     [("covariance_features, tree walk, rules", "precise/recommend.py")],
     "exhaustive enumeration of data sets and tree nodes against an independent ranking", NOTE, ["suggest", "covariance_features"])

prop("C26", "Memory and work per observation stay constant",
     """After the burn-in, the memory reachable from an estimator and the work an update performs do not grow with the
     number of observations seen, nor does process-wide memory; raw observations are not kept beyond the burn-in
     window (and the previous row with diff=True). DiagonalCovariance's state is O(p) and FactorCovariance's O(pk).
     A dynamic keyed estimator over ever-changing names never holds more than max_universes estimators.""",
     ["histories", "configurations"],
     "every prefix of long streams, every estimator with and without diff, keyed streams of ever-new key sets",
     "Tests never weigh an estimator; a forgotten buffer gives correct answers for ever.",
     [BASE, "precise/_state.py", "precise/factor.py", "precise/diagonal.py", "precise/keyed.py"] + EST[:1],
     [("burn-in buffer is dropped", "precise/_state.py"), ("eviction", "precise/keyed.py")],
     "exhaustive stepping through every prefix with memory and event accounting", NOTE, ["get_state", "partial_fit"])

prop("C27", "Parameters mean the same by every route",
     """A parameter given to the constructor (by keyword or position), to the class looked up by name, through
     set_params before any data, through get_params of another estimator, repr, sklearn's clone, copy, pickle or a keyed
     adapter gives the same estimator: same get_params, same estimates. Defaults are as documented; every parameter
     that is documented to matter does; the registry lists every estimator once, in order, and unknown names raise
     KeyError; ConditionalCovariance never modifies its templates; the old skater names raise the migration error.""",
     ["configurations"],
     "every combination of a parameter grid for every estimator, every route, streams crossing the burn-in",
     "Tests round-trip a few defaults; a route that drops a parameter shows only for non-default values.",
     [BASE, "precise/registry.py", "precise/__init__.py", "precise/skaters/__init__.py", "precise/conditional.py"] + EST,
     [("get_params/set_params/__repr__", BASE), ("registry", "precise/registry.py")],
     "exhaustive enumeration of parameter combinations and routes on the real code", NOTE,
     ["get_params", "set_params", "repr", "all_estimators"])

prop("C28", "Evaluation harnesses are out of sample and report what they measured",
     """rolling_oos evaluates every estimator on exactly the rows following each training window (the realised variance
     of its minimum-variance portfolio, annualised), and the recommender, oracle and equal weight on the same windows.
     leave_one_ensemble_out and leave_one_family_out_trained choose and train only on the other ensembles and report
     true average ranks on the held-out one; the bake-off scores every estimator and assessor on every scenario.
     Reports, leaderboards and winners order by these numbers; the exported tree is the classifier trained.""",
     ["inputs", "configurations", "histories"],
     "all small window geometries; a family of controlled worlds for the leave-one-out studies; all small score tables",
     "Tests run each study once and check the shape of its result; a look-ahead leak only improves it.",
     ["research/oos_equity.py", "research/oos.py", "research/bakeoff.py", "research/train_recommender.py"],
     [("rolling windows", "research/oos_equity.py"), ("hold-out loops and ranks", "research/oos.py"),
      ("export", "research/train_recommender.py")],
     "exhaustive enumeration of small worlds with spied draws and scores", NOTE,
     ["rolling_oos", "leave_one_ensemble_out", "leaderboard"])

prop("C29", "The Schur theory's closed forms are exact",
     """For every truth, ordered block partition and gamma: the population Schur log-likelihood, its operator (W, log
     determinant) and the score of single observations agree; gamma=1 is the Gaussian likelihood and gamma=0 that of
     the blocks. The closed-form maximizer recovers every conditional law, no other matrix scores higher, and it leaves
     the SPD cone exactly at the threshold set by the largest squared canonical correlation. The discrimination SNR,
     gamma*, the delta-method mean and variance, and the judges of the metric-power study equal their definitions.""",
     ["inputs", "configurations"],
     "every member of lattices of SPD matrices up to dimension 5, every partition, a grid of gammas",
     "Tests check one random matrix and loose tolerances; a wrong formula agrees on special cases.",
     ["research/schur_likelihood_theory.py", "research/schur_godambe.py", "research/schur_spiked.py",
      "research/schur_gamma_star.py", "research/metric_power.py"],
     [("expected_schur_loglik, closed_form_general, canonical_corr2", "research/schur_likelihood_theory.py"),
      ("schur_operator, snr", "research/schur_godambe.py"), ("snr_delta", "research/schur_spiked.py")],
     "exhaustive enumeration of matrix lattices, partitions and rivals against definitions", NOTE,
     ["expected_schur_loglik", "schur_operator", "closed_form_general", "snr", "gamma_star"])

prop("C30", "The shared matrix helpers satisfy their defining laws",
     """nearest_pos_def returns the nearest positive-definite matrix (spectral projection, nothing for a definite
     input); make_pos_def floors the spectrum and changes nothing else; is_positive_def is exact; try_invert is the
     inverse, or the pseudo-inverse when none exists, in any units; affine_shrink is its formula; cov_to_corrcoef is the correlation, 0 where a variance is 0;
     geodesic_step is the affine-invariant geodesic (its ends, reversal, congruence invariance, log-linear volume,
     sub-division), always SPD. None modifies its arguments or depends on the order of the variables.""",
     ["inputs"],
     "every small symmetric integer matrix (definite, indefinite, singular) and every pair of a lattice of SPD matrices",
     "Tests call each helper on one or two matrices.",
     ["precise/_linalg.py"], [("nearest_pos_def, make_pos_def, try_invert, geodesic_step", "precise/_linalg.py")],
     "exhaustive enumeration of small matrices against defining laws", NOTE,
     ["nearest_pos_def", "make_pos_def", "geodesic_step", "try_invert"])

prop("C31", "Synthetic studies draw their data from the truth they score against",
     """The samplers of the bake-off and the studies produce data of mean zero and exactly the truth's covariance, light
     and heavy tailed (exact for any finite design of the underlying draws). Every ensemble, at every corner of its
     draws, is a symmetric positive-definite covariance, the same for the same generator. In the bake-off every test
     row, and every training row except outliers and those before a regime change, comes from the stated truth; the
     estimates are judged on the test rows only. The power studies report, for every script of verdicts, the fraction of
     trials in which the truly better estimate (for the truth the rows were drawn from) scores higher, and the mean true
     gap. The recommender is trained on features of the training window, labelled by the best score on other rows.""",
     ["inputs", "configurations", "histories"],
     "every scenario, every ensemble at every corner of its draws, every script of verdicts up to 3-4 trials",
     "The studies have no tests that look at their draws; a sampler with the wrong covariance, or a verdict credited to the wrong "
     "estimate, still prints a plausible table.",
     ["research/bakeoff.py", "research/oos.py", "research/metric_power.py", "research/train_recommender.py"],
     [("_draw_true_cov, _sample_heavy, gen_pair", "research/bakeoff.py"), ("ENSEMBLES, _sample", "research/oos.py"),
      ("metric_power, pseudo_likelihood_power, proof_high_dim, schur_power", "research/metric_power.py"), ("train_recommender", "research/train_recommender.py")],
     "exhaustive enumeration of finite designs standing in for the generator, and of scripts of verdicts", NOTE,
     ["sample", "ensembles", "bakeoff", "metric_power", "train_recommender"])
