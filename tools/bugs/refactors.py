"""Behaviour-preserving edits: every check must stay quiet on each. (id, checks, edits)"""
R = []


def ref(id, checks, *edits):
    R.append(dict(id=id, checks=checks.split(), edits=edits))


ref("base-helper", "C01 C02 C03 C05 C08 C09 C10 C11 C26",
    ("precise/base.py", """        for x in rows:
            prev = self._prev_x
            if use_diff:
                prev = x.copy()  # the caller may reuse its buffer
                if self._prev_x is None:
                    self._prev_x = prev
                    continue
                x = x - self._prev_x
            state = self._init_state(len(x)) if self._state is None else self._state
            state = self._update_state(state, x)
            # Commit a row only once its update has succeeded.
            self.n_features_in_, self._state, self._prev_x = len(x), state, prev
        return self
""", """        i = 0
        while i < len(rows):
            self._absorb(rows[i], use_diff)
            i += 1
        return self

    def _absorb(self, row: np.ndarray, use_diff: bool) -> None:
        level = self._prev_x
        if use_diff:
            last, level = level, np.array(row)
            if last is None:
                self._prev_x = level
                return
            row = row - last
        old = self._state
        if old is None:
            old = self._init_state(row.shape[0])
        new = self._update_state(old, row)
        # Commit a row only once its update has succeeded.
        self._state, self._prev_x, self.n_features_in_ = new, level, row.shape[0]
"""))

ref("state-algebra", "C01 C02 C03 C04 C08 C09 C11 C12 C13 C14 C15 C16 C20 C26",
    ("precise/_state.py", """    count = s["n_samples"] + 1
    delta_prev = x - s["mean"]
    mean = s["mean"] + delta_prev / count
    weighted_delta = (x - mean) / count
    cov = s["cov"] * (count - 1) / count + np.outer(delta_prev, weighted_delta)
    return {"n_dim": s["n_dim"], "n_samples": count, "mean": mean, "cov": cov}""",
     """    n = s["n_samples"]
    gain = 1.0 / (n + 1)
    delta = x - s["mean"]
    cov = (1.0 - gain) * (s["cov"] + gain * delta[:, None] * delta[None, :])
    out = dict(s)
    out.update(n_samples=n + 1, cov=cov, mean=s["mean"] + gain * delta)
    return {k: out[k] for k in ("n_dim", "n_samples", "mean", "cov")}"""),
    ("precise/_state.py", """    delta = x - s["mean"]
    mean = (1 - r) * s["mean"] + r * x
    cov = (1 - r) * s["cov"] + r * np.outer(delta, delta)
    return {
        "n_dim": s["n_dim"],""", """    delta = x - s["mean"]
    cov = s["cov"] + r * (delta[:, None] * delta - s["cov"])
    mean = s["mean"] + r * delta
    return {
        "n_dim": s["n_dim"],"""))

ref("invert-solve", "C06 C07 C16 C17 C24 C28 C30",
    ("precise/_linalg.py", """    try:
        return np.linalg.inv(a)
    except np.linalg.LinAlgError:
        try:
            return np.linalg.pinv(a)""", """    identity = np.eye(len(a))
    try:
        return np.linalg.solve(a, identity)
    except np.linalg.LinAlgError:
        try:
            return np.linalg.pinv(a)"""))

ref("nearest-eigh", "C06 C12 C17 C22 C23 C30",
    ("precise/_linalg.py", """    _, s, V = np.linalg.svd(b)
    H = V.T @ np.diag(s) @ V
    a3 = to_symmetric((b + H) / 2)
    if""", """    w, V = np.linalg.eigh(b)
    a3 = to_symmetric((V * np.maximum(w, 0.0)) @ V.T)
    if"""))

ref("keyed-loops", "C05 C08 C21 C22 C23 C26",
    ("precise/keyed.py", """        for universe in self.states.values():
            if universe.keys_set.issubset(x_keys):
                universe.update(x)
            else:
                universe.staleness += 1

        for ndx in [n for n, u in self.states.items() if u.staleness > self.max_staleness]:
            del self.states[ndx]

        if x_keys not in [u.keys_set for u in self.states.values()]:
            fresh = _Universe(keys=x.keys(), factory=self._make)
            fresh.update(x)
            self._add_universe(fresh)
            if len(self.states) > self.max_universes:
                victim = sorted(
                    self.states.items(), key=lambda kv: (-kv[1].staleness, kv[1].longevity)
                )[0][0]
                del self.states[victim]
        return self
""", """        known = False
        for universe in self.states.values():
            known = known or universe.keys_set == x_keys
            if universe.keys_set <= x_keys:
                universe.update(x)
            else:
                universe.staleness += 1
        self.states = {n: u for n, u in self.states.items() if u.staleness <= self.max_staleness}

        if not known:
            fresh = _Universe(keys=list(x), factory=self._make)
            fresh.update(x)
            self._add_universe(fresh)
            self._evict()
        return self

    def _evict(self) -> None:
        if len(self.states) > self.max_universes:
            del self.states[min(self.states, key=self._keep_order)]

    def _keep_order(self, ndx: int) -> tuple:
        u = self.states[ndx]
        return (-u.staleness, u.longevity)
"""),
    ("precise/keyed.py", """        y = np.empty(len(self.keys))
        for i, k in enumerate(self.keys):
            if k in x:
                y[i] = x[k]
                self._last[i] = x[k]
            elif self.impute == "ffill":
                y[i] = self._last[i]
            elif self.impute == "mean":
                y[i] = self._est.location_[i] if self._est.n_samples_ > 0 else self._last[i]
            else:  # "zero"
                y[i] = 0.0
        self._est.partial_fit(y)
        return self
""", """        y = np.array([x[k] if k in x else self._fill(i) for i, k in enumerate(self.keys)], dtype=float)
        for i, k in enumerate(self.keys):
            if k in x:
                self._last[i] = y[i]
        self._est.partial_fit(y)
        return self

    def _fill(self, i: int) -> float:
        if self.impute not in ("ffill", "mean"):
            return 0.0
        if self.impute == "mean" and self._est.n_samples_ > 0:
            return self._est.location_[i]
        return self._last[i]
"""))

ref("factor-vector", "C01 C12 C18 C26 C09",
    ("precise/factor.py", """        V = np.array(s["V"], dtype=float)
        u = dev.copy()
        for j in range(k):
            norm = np.linalg.norm(V[j])
            if norm < 1e-12:
                V[j] = np.linalg.norm(u) * u  # seed an empty component (norm == eigenvalue of u uᵀ)
                break
            vhat = V[j] / norm
            proj = float(u @ vhat)
            V[j] = (1 - lr) * V[j] + lr * proj * u
            u = u - proj * vhat  # deflate so the next component finds the next direction
""", """        V = self._track(np.array(s["V"], dtype=float), dev, lr)
"""),
    ("precise/factor.py", """    def _state_to_cov(self, state: dict) -> np.ndarray:
        V = np""", """    @staticmethod
    def _track(V: np.ndarray, u: np.ndarray, lr: float) -> np.ndarray:
        for row in V:
            size = float(np.sqrt(row @ row))
            if size < 1e-12:
                row[:] = np.sqrt(u @ u) * u
                break
            axis = row / size
            along = float(axis @ u)
            row += lr * (along * u - row)
            u = u - along * axis
        return V

    def _state_to_cov(self, state: dict) -> np.ndarray:
        V = np"""))

ref("dcc-tyler", "C12 C17 C19 C06",
    ("precise/dcc.py", """        eps = dev / np.sqrt(np.maximum(h, 1e-12))  # standardized residual
        outer = np.outer(eps, eps)
        if n <= n_burn:
            Q = s["Q"] + (outer - s["Q"]) / n
        else:
            Q = (1 - r) * s["Q"] + r * outer
""", """        gain = r if n > n_burn else 1.0 / n
        scale = np.sqrt(np.maximum(h, 1e-12))
        Q = s["Q"] + gain * (np.outer(dev, dev) / np.outer(scale, scale) - s["Q"])
"""),
    ("precise/tyler.py", """        q = float(dev @ try_invert(C) @ dev)""", """        q = float(np.dot(dev, try_invert(C) @ dev))"""))

ref("assessors-sum", "C24 C28 C25",
    ("precise/assessment/assessors.py", """    prec = try_invert(cov)
    _, logdet = np.linalg.slogdet(prec)
    quad = np.einsum("ij,jk,ik->i", X, prec, X)
    return float(np.mean(0.5 * logdet - 0.5 * quad - 0.5 * cov.shape[0] * _LOG2PI))""",
     """    precision = try_invert(cov)
    quad = ((X @ precision) * X).sum(axis=1)
    logdet = np.linalg.slogdet(precision)[1]
    return float(0.5 * (logdet - np.mean(quad) - len(cov) * _LOG2PI))"""),
    ("precise/assessment/assessors.py", """        diffs = np.abs(X[:, :, None] - X[:, None, :])  # (n, p, p)
        return -float(np.mean(np.sum((diffs - expected[None]) ** 2, axis=(1, 2))))""",
     """        total = 0.0
        for x in X:
            gap = np.abs(np.subtract.outer(x, x)) - expected
            total += float((gap * gap).sum())
        return -total / len(X)"""))

ref("suggest-loop", "C25 C28 C08 C05",
    ("precise/recommend.py", """    x = np.asarray([features[k] for k in _MODEL.FEATURES])
    xs = (x - np.asarray(_MODEL.MEAN)) / np.asarray(_MODEL.STD)
    feat = _MODEL.FEATURE
    node = 0
    while feat[node] != -2:  # -2 marks a leaf
        node = _MODEL.LEFT[node] if xs[feat[node]] <= _MODEL.THRESHOLD[node] else _MODEL.RIGHT[node]
    counts = _MODEL.VALUE[node]
    return {cls: counts[i] for i, cls in enumerate(_MODEL.CLASSES)}
""", """    return dict(zip(_MODEL.CLASSES, _MODEL.VALUE[_leaf(features)]))


def _leaf(features: dict) -> int:
    assert _MODEL is not None
    xs = [(features[k] - m) / s for k, m, s in zip(_MODEL.FEATURES, _MODEL.MEAN, _MODEL.STD)]
    node = 0
    while True:
        f = _MODEL.FEATURE[node]
        if f == -2:
            return node
        branch = _MODEL.RIGHT if xs[f] > _MODEL.THRESHOLD[node] else _MODEL.LEFT
        node = branch[node]
"""),
    ("precise/recommend.py", """        ranked = sorted(
            all_estimators(),
            key=lambda cls: (-weights.get(cls.__name__, 0), -heuristic[cls.__name__]),
        )""", """        ranked = all_estimators()
        ranked.sort(key=lambda cls: heuristic[cls.__name__], reverse=True)
        ranked.sort(key=lambda cls: weights.get(cls.__name__, 0), reverse=True)"""))

ref("oos-helpers", "C28",
    ("research/oos.py", """        gen, heavy = ENSEMBLES[held]
        rk_rec, rk_bf = [], []
        for _ in range(trials):
            scores, rec = _trial(gen, heavy, p, n_train, n_test, rng, assessor)
            ranks = _ranks(scores)
            rk_rec.append(ranks[rec])
            rk_bf.append(ranks[bf])
        results[held] = {
            "best_fixed": bf,
            "rank_recommender": float(np.mean(rk_rec)),
            "rank_best_fixed": float(np.mean(rk_bf)),
        }
    return results


def _train""", """        results[held] = _evaluate(held, bf, p, n_train, n_test, trials, rng, assessor)
    return results


def _evaluate(held, bf, p, n_train, n_test, trials, rng, assessor):
    gen, heavy = ENSEMBLES[held]
    pairs = []
    for _ in range(trials):
        scores, rec = _trial(gen, heavy, p, n_train, n_test, rng, assessor)
        ranks = _ranks(scores)
        pairs.append((ranks[rec], ranks[bf]))
    rec_mean, fix_mean = np.mean(pairs, axis=0)
    return {"best_fixed": bf, "rank_recommender": float(rec_mean), "rank_best_fixed": float(fix_mean)}


def _train"""),
    ("research/oos.py", """    order = sorted(scores, key=lambda k: -scores[k])
    return {nm: i + 1 for i, nm in enumerate(order)}""", """    ranks = {}
    for nm in sorted(scores, key=scores.get, reverse=True):
        ranks[nm] = len(ranks) + 1
    return ranks"""),
    ("research/oos_equity.py", """    for t in range(0, T - train_len - test_len + 1, step):
        train = R[t : t + train_len]
        test = R[t + train_len : t + train_len + test_len]
        this = {}
        for E in ests:
            w = _gmv_weights(E().fit(train).covariance_)
            this[E.__name__] = float(np.mean((test @ w) ** 2))
            per_roll[E.__name__].append(this[E.__name__])
""", """    t = -step
    while t + step + train_len + test_len <= T:
        t += step
        train, test = np.split(R[t : t + train_len + test_len], [train_len])
        this = {E.__name__: _realized(test, _gmv_weights(E().fit(train).covariance_)) for E in ests}
        for name, value in this.items():
            per_roll[name].append(value)
"""),
    ("research/oos_equity.py", """def rolling_oos(""", """def _realized(test, w):
    return float(np.mean(np.square(test @ w)))


def rolling_oos("""),
    ("research/bakeoff.py", """    for name, train, test, true_cov in scs:
        for Est in all_estimators():
            cov = Est().fit(train).covariance_
            scores = {}
            for a in assessors:
                if a.usable(have_data=True, have_truth=True):
                    try:
                        scores[a.name] = float(a.score(cov, X_test=test, true_cov=true_cov))
                    except Exception:
                        scores[a.name] = -np.inf
            results[Est.__name__][name] = scores
    return results
""", """    for Est in all_estimators():
        for name, train, test, true_cov in scs:
            cov = Est().fit(train).covariance_
            results[Est.__name__][name] = {
                a.name: _judge(a, cov, test, true_cov)
                for a in assessors
                if a.usable(have_data=True, have_truth=True)
            }
    return results


def _judge(a, cov, test, true_cov):
    try:
        return float(a.score(cov, X_test=test, true_cov=true_cov))
    except Exception:
        return -np.inf
"""))

ref("theory-blocks", "C29",
    ("research/schur_godambe.py", """        T = np.zeros((len(rows), p))
        T[:, rows] = np.eye(len(rows))
        if prev:
            cWW = _sub(Sig, prev, prev)
            cKW = _sub(Sig, rows, prev)
            Gk = cKW @ np.linalg.inv(cWW)
            T[:, prev] = -gamma * Gk
            Sg = _sub(Sig, rows, rows) - gamma * cKW @ np.linalg.solve(cWW, cKW.T)
        else:
            Sg = _sub(Sig, rows, rows)
        Sg = 0.5 * (Sg + Sg.T)
        W += T.T @ np.linalg.solve(Sg, T)
        Ld += float(np.linalg.slogdet(Sg)[1])
""", """        Sg = _sub(Sig, rows, rows)
        T = np.eye(p)[rows]
        if prev:
            cKW = _sub(Sig, rows, prev)
            Gk = np.linalg.solve(_sub(Sig, prev, prev), cKW.T).T
            T[:, prev] -= gamma * Gk
            Sg = Sg - gamma * (Gk @ cKW.T)
        Sg = 0.5 * (Sg + Sg.T)
        L = np.linalg.cholesky(Sg) if np.linalg.eigvalsh(Sg).min() > 0 else None
        W += T.T @ np.linalg.solve(Sg, T)
        Ld += float(np.linalg.slogdet(Sg)[1]) if L is None else 2.0 * float(np.log(np.diag(L)).sum())
"""),
    ("research/schur_spiked.py", """    M = G @ Sig
    return (2.0 / n) * np.trace(M @ M)""", """    M = G @ Sig
    return 2.0 * float(np.sum(M * M.T)) / n"""),
    ("research/schur_gamma_star.py", """    return (n - 2) * rho2 / ((n - 2) * rho2 + (1 - rho2))""",
     """    signal, noise = (n - 2) * rho2, 1 - rho2
    return signal / (signal + noise)"""))

ref("schur-masks", "C12 C20 C08 C01 C27",
    ("precise/schurcov.py", """        block_id = np.empty(p, dtype=int)
        for bi, idx in enumerate(np.array_split(np.arange(p), nb)):
            block_id[idx] = bi
        cross = block_id[:, None] != block_id[None, :]
        if""", """        sizes = [len(part) for part in np.array_split(np.arange(p), nb)]
        block_id = np.repeat(np.arange(nb), sizes)
        cross = np.not_equal.outer(block_id, block_id)
        if"""),
    ("precise/schur_conditional.py", """            b = np.linalg.solve(Rcc_reg + 1e-10 * np.eye(pb - pa), Rck)   # robust (ridge) hedge
            S = make_pos_def(to_symmetric(Rkk - Rck.T @ b))              # conditional covariance
            bg = gamma * b
            Sg = (1.0 - gamma) * Rkk + gamma * S
            Rprev = Rg[pa:pb, pa:pb]
            Rg[ak:bk, pa:pb] = bg.T @ Rprev
            Rg[pa:pb, ak:bk] = Rg[ak:bk, pa:pb].T
            Rg[ak:bk, ak:bk] = Sg + bg.T @ Rprev @ bg
""", """            self._append(Rg, slice(pa, pb), slice(ak, bk), gamma, Rcc_reg, Rck, Rkk)
"""),
    ("precise/schur_conditional.py", """    def _state_to_cov(self, state: dict)""", """    @staticmethod
    def _append(Rg, old, new, gamma, Rcc_reg, Rck, Rkk) -> None:
        b = np.linalg.inv(Rcc_reg + 1e-10 * np.eye(len(Rcc_reg))) @ Rck   # robust (ridge) hedge
        S = make_pos_def(to_symmetric(Rkk - Rck.T @ b))                  # conditional covariance
        lead = Rg[old, old] @ (gamma * b)
        Rg[old, new] = lead
        Rg[new, old] = lead.T
        Rg[new, new] = Rkk + gamma * (S - Rkk) + gamma * b.T @ lead

    def _state_to_cov(self, state: dict)"""))

ref("conditional-loop", "C01 C02 C04 C08 C10 C19 C12",
    ("precise/conditional.py", """            m = np.array([vm.mean for vm in models])
            v = np.array([vm.variance for vm in models])
            # No scale to standardize by (yet): nothing to say about that series' correlation.
            has_scale = v > 1e-12
            eps = np.where(has_scale, (x - m) / np.sqrt(np.where(has_scale, v, 1.0)), 0.0)
            self._corr_model.partial_fit(eps)
""", """            eps = np.zeros(len(x))
            for i, vm in enumerate(models):
                v = vm.variance
                if v > 1e-12:  # else no scale to standardize by (yet)
                    eps[i] = (x[i] - vm.mean) / v**0.5
            self._corr_model.partial_fit(eps)
"""))

ref("study-helpers", "C31 C29 C28",
    ("research/oos.py", """    df = 5
    z = rng.multivariate_normal(np.zeros(len(cov)), cov * (df - 2) / df, size=n)
    return z * np.sqrt(df / rng.chisquare(df, size=(n, 1)))""", """    df, p = 5, len(cov)
    z = rng.multivariate_normal(mean=np.zeros(p), cov=(df - 2) / df * cov, size=n)
    w = rng.chisquare(df, size=n) / df
    return z / np.sqrt(w)[:, None]"""),
    ("research/bakeoff.py", """    z = rng.multivariate_normal(np.zeros(len(cov)), cov * (df - 2) / df, size=n)
    return z * np.sqrt(df / rng.chisquare(df, size=(n, 1)))""", """    z = _gaussian(cov * (df - 2) / df, n, rng)
    return np.sqrt(df / rng.chisquare(df, size=(n, 1))) * z"""),
    ("research/bakeoff.py", """    a, b = _equicorrelation(d, 0.2), _equicorrelation(d, 0.85)
    train = np.vstack([_gaussian(a, n // 2, rng), _gaussian(b, n // 2, rng)])
    scs.append(("regime_change", train, _gaussian(b, n_test, rng), b))""", """    before, after = (_equicorrelation(d, rho) for rho in (0.2, 0.85))
    halves = [_gaussian(c, n // 2, rng) for c in (before, after)]
    scs.append(("regime_change", np.concatenate(halves), _gaussian(after, n_test, rng), after))"""),
    ("research/metric_power.py", """        kl_good, kl_bad = _kl(true_cov, good), _kl(true_cov, bad)
        # Per-trial ground truth: the lower-KL matrix is genuinely better.
        a, b = (good, bad) if kl_good <= kl_bad else (bad, good)
        gap = abs(kl_good - kl_bad)
        if gap < min_gap:
            continue  # skip pairs""", """        a, b, gap = _order(true_cov, good, bad)
        if gap < min_gap:
            continue  # skip pairs"""),
    ("research/metric_power.py", """        kl_good, kl_bad = _kl(true_cov, good), _kl(true_cov, bad)
        a, b = (good, bad) if kl_good <= kl_bad else (bad, good)
        gap = abs(kl_good - kl_bad)
        if gap < min_gap:
            continue
""", """        a, b, gap = _order(true_cov, good, bad)
        if gap < min_gap:
            continue
"""),
    ("research/metric_power.py", """# ------------------------------------------------------- candidate""", """def _order(true_cov, first, second):
    d = [_kl(true_cov, first), _kl(true_cov, second)]
    pair = (first, second) if d[0] <= d[1] else (second, first)
    return *pair, abs(d[0] - d[1])


# ------------------------------------------------------- candidate"""),
    ("research/metric_power.py", """        for n in n_grid:
            X = pool[:n]
            counted[n] += 1
            for name, fn in METRICS.items():
                if fn(a, X, dirs) > fn(b, X, dirs):  # metric ranks the truly-better one higher
                    correct[name][n] += 1
""", """        for name, fn in METRICS.items():
            for n in n_grid:
                worse = fn(b, pool[:n], dirs)
                correct[name][n] += int(fn(a, pool[:n], dirs) > worse)
        for n in n_grid:
            counted[n] += 1
"""),
    ("research/train_recommender.py", """        scores = [assessor.score(E().fit(train).covariance_, X_test=test) for E in ests]
        Xf.append(_features(train))
        y.append(names[int(np.argmax(scores))])
""", """        fitted = [(E.__name__, E().fit(train)) for E in ests]
        scores = {nm: assessor.score(e.covariance_, X_test=test) for nm, e in fitted}
        Xf.append(_features(train))
        y.append(max(scores, key=scores.get))
"""))
