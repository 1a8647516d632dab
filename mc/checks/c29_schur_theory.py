"""C29: the research closed forms are what they claim to be.

Every closed form in research/ (Schur likelihood and operator, inflated maximizer, PSD-exit
threshold, discrimination SNR, optimal coupling trust, delta-method variance, the judges of the
metric-power study) is evaluated on every member of a lattice of exact SPD matrices, for every ordered
block partition and every gamma of a grid, against independent definitions: expectations are
taken over finite distributions whose covariance is the matrix exactly, maxima are compared with every
other member of the lattice, simulations are replaced by the complete enumeration of their draws.
"""
from __future__ import annotations

import importlib
import itertools
import math

import numpy as np

from mc import space as S

PROPERTY = "C29"
LEVEL = "model_checking"
GAMMAS = (0.0, 0.1, 0.35, 0.5, 0.75, 0.9, 1.0)


def lattice(p, offs=(-1, 0, 1), diags=(1, 2)):
    """Every L L' with L lower triangular, diagonal in ``diags`` and the rest in ``offs``."""
    low = [(i, j) for i in range(p) for j in range(i)]
    for dg in itertools.product(diags, repeat=p):
        for of in itertools.product(offs, repeat=len(low)):
            L = np.diag(np.array(dg, dtype=float))
            for (i, j), v in zip(low, of):
                L[i, j] = v
            yield L @ L.T


def family(p, tier):
    if p == 2:
        return list(lattice(2, (-2, -1, 0, 1, 2), (1, 2, 3)))
    if p == 3:
        return list(lattice(3))
    if p == 4:
        return [M for i, M in enumerate(lattice(4, diags=(1, 2))) if i % (11 if tier == "thorough" else 97) == 0]
    return [M for i, M in enumerate(lattice(5, diags=(1,))) if i % (911 if tier == "thorough" else 2971) == 0]


def compositions(p):
    return list(S.compositions(p))


def cases(tier):
    th = tier == "thorough"
    out = []
    for p in (2, 3, 4, 5):
        n = len(family(p, tier))
        k = 8 if n > 60 or p > 3 else 2
        if th:
            k *= 4
        for part in range(k):
            out.append({"kind": "likelihood", "p": p, "part": part, "of": k, "tier": tier, "cost": n / k * p ** 2})
            out.append({"kind": "maximizer", "p": p, "part": part, "of": k, "tier": tier, "cost": 3 * n / k * p ** 2})
            if p <= 4:
                out.append({"kind": "snr", "p": p, "part": part, "of": k, "tier": tier, "cost": n / k * p ** 2})
        out.append({"kind": "threshold", "p": p, "tier": tier, "cost": n * 4})
    out += [{"kind": "scalar"}, {"kind": "trust", "n": 6 if th else 5}, {"kind": "judges", "tier": tier, "cost": 200}]
    for p in (2, 3, 4):
        out.append({"kind": "delta", "p": p, "cost": 2000 * p})
    for seed in range(4 if th else 2):
        out.append({"kind": "power", "seed": seed, "cost": 3000})
    out.append({"kind": "mc", "cost": 3000})
    return out


def mod(name):
    return importlib.import_module("research." + name)


def run(case, rec):
    globals()["run_" + case["kind"]](case, rec)


def mine(case):
    return [M for i, M in enumerate(family(case["p"], case["tier"])) if i % case["of"] == case["part"]]


def points(T):
    """A finite distribution with mean zero and covariance exactly T (equally likely points)."""
    p = len(T)
    L = np.linalg.cholesky(T)
    return np.array([s * math.sqrt(p) * L[:, i] for i in range(p) for s in (1, -1)])


def starts(sizes):
    return list(zip(np.concatenate([[0], np.cumsum(sizes)[:-1]]).tolist(), np.cumsum(sizes).tolist()))


def conditional(C, a, b, gamma):
    """Damped regression of block [a,b) on everything before, and its damped variance."""
    if a == 0:
        return np.zeros((b - a, 0)), C[:b, :b]
    B = np.linalg.solve(C[:a, :a], C[:a, a:b]).T
    return gamma * B, C[a:b, a:b] - gamma * B @ C[:a, a:b]


def loglik_at(C, x, sizes, gamma):
    """The gamma-Schur log-likelihood of one observation, from its definition."""
    out = 0.0
    for a, b in starts(sizes):
        G, V = conditional(C, a, b, gamma)
        e = x[a:b] - G @ x[:a]
        out -= 0.5 * (math.log(np.linalg.det(V)) + e @ np.linalg.inv(V) @ e)
    return out


def near(a, b, tol=1e-8):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.all(np.abs(a - b) <= tol * max(1.0, np.abs(b).max(initial=0.0)))


# ------------------------------------------------------------------ the likelihood and its operator
def run_likelihood(case, rec):
    th, gd = mod("schur_likelihood_theory"), mod("schur_godambe")
    fam = family(case["p"], case["tier"])
    p = case["p"]
    for n, C in enumerate(mine(case)):
        T = fam[(n * 31 + 7) % len(fam)]
        keep = C.copy(), T.copy()
        X = points(T)
        for sizes, g in itertools.product(compositions(p), GAMMAS):
            rec.state()
            rec.trans(len(X))
            want = np.mean([loglik_at(C, x, sizes, g) for x in X])
            got = th.expected_schur_loglik(T, C, sizes, g)
            rec.check(near(got, want), "expected Schur log-likelihood", C=C, T=T, sizes=sizes, gamma=g, got=got, want=want)
            W, Ld = gd.schur_operator(C, sizes, g)
            logdet = sum(math.log(np.linalg.det(conditional(C, a, b, g)[1])) for a, b in starts(sizes))
            rec.check(near(Ld, logdet), "log determinant of the Schur operator", C=C, sizes=sizes, gamma=g, got=Ld, want=logdet)
            rec.check(near(W, W.T, 1e-12), "operator is not symmetric", C=C, sizes=sizes, gamma=g)
            for x in X[::2]:
                q = -0.5 * (Ld + x @ W @ x)
                rec.check(near(q, loglik_at(C, x, sizes, g)), "the operator is not the score's quadratic form", C=C, sizes=sizes, gamma=g, x=x)
            if g == 1.0:
                rec.check(near(W, np.linalg.inv(C)) and near(Ld, np.linalg.slogdet(C)[1]), "gamma=1 is not the Gaussian likelihood", C=C, sizes=sizes)
            if g == 0.0:
                D = np.zeros_like(C)
                for a, b in starts(sizes):
                    D[a:b, a:b] = np.linalg.inv(C[a:b, a:b])
                rec.check(near(W, D), "gamma=0 is not the likelihood of the blocks", C=C, sizes=sizes)
        rec.check(np.array_equal(C, keep[0]) and np.array_equal(T, keep[1]), "the arguments were changed")
        # the score is unbiased at the truth at both ends
        for sizes in compositions(p):
            for g in (0.0, 1.0):
                h = 1e-5
                for i, j in itertools.combinations_with_replacement(range(p), 2):
                    E = np.zeros((p, p))
                    E[i, j] = E[j, i] = h
                    d = (th.expected_schur_loglik(C, C + E, sizes, g) - th.expected_schur_loglik(C, C - E, sizes, g)) / (2 * h)
                    rec.check(abs(d) < 1e-3, "the score is biased at an endpoint", C=C, sizes=sizes, gamma=g, entry=[i, j], derivative=d)
                    rec.trans()
    # a candidate with an indefinite block has no likelihood
    bad = np.eye(p)
    bad[p - 1, p - 1] = -1.0
    for sizes, g in itertools.product(compositions(p), GAMMAS):
        rec.check(th.expected_schur_loglik(np.eye(p), bad, sizes, g) == -np.inf, "an indefinite candidate has a likelihood", sizes=sizes, gamma=g)
    rec.trace()
    rec.sample({"C": mine(case)[0], "partitions": compositions(p)[:4], "gammas": GAMMAS})


def run_maximizer(case, rec):
    th = mod("schur_likelihood_theory")
    p = case["p"]
    fam = family(p, case["tier"])
    rivals = fam[:: max(1, len(fam) // 30)]
    for n, T in enumerate(mine(case)):
        for sizes, g in itertools.product(compositions(p), GAMMAS[1:]):
            got = th.closed_form_general(T, sizes, g)
            rec.state()
            ok = near(got, got.T, 1e-12)
            for a, b in starts(sizes):
                if a and np.abs(np.linalg.eigvalsh(got[:a, :a])).min() < 1e-6 * np.abs(got).max():
                    rec.skip("the inflated conditioning block is singular: no regression on it")
                    continue
                G, V = conditional(got, a, b, g)
                G1, V1 = conditional(T, a, b, 1.0)
                ok = ok and near(G, G1, 1e-6) and near(V, V1, 1e-6)
                rec.trans()
            rec.check(ok, "the maximizer does not recover the conditional laws", T=T, sizes=sizes, gamma=g, got=got)
            if g == 1.0 or len(sizes) == 1:
                rec.check(near(got, T), "the maximizer is not the truth", T=T, sizes=sizes, gamma=g, got=got)
            top = -0.5 * (math.log(np.linalg.det(T)) + p)
            lam = np.linalg.eigvalsh(got)[0]
            if lam > 1e-6:
                base = th.expected_schur_loglik(T, got, sizes, g)
                rec.check(near(base, top, 1e-6), "the maximum is not the truth's own entropy", T=T, sizes=sizes, gamma=g, got=base, want=top)
                near_by = []
                if n % 4 == 0:
                    for i, j in itertools.combinations_with_replacement(range(p), 2):
                        E = np.zeros((p, p))
                        E[i, j] = E[j, i] = 0.05
                        near_by += [got + E, got - E]
                for K in rivals + near_by:
                    if np.linalg.eigvalsh(K)[0] <= 1e-9:
                        continue
                    rec.trans()
                    v = th.expected_schur_loglik(T, K, sizes, g)
                    rec.check(v <= base + 1e-9, "another matrix scores higher than the maximizer", T=T, sizes=sizes, gamma=g, K=K, gap=v - base)
                if n == 0:
                    gap = th._local_search_confirms(T, sizes, g, iters=20)
                    rec.check(gap is not None and abs(gap) <= 1e-9, "the local search beats the maximizer", T=T, sizes=sizes, gamma=g, gap=gap)
            elif lam < -1e-6:
                rec.check(not th._is_spd(got), "an indefinite maximizer passes for SPD", got=got)
                if n == 0:
                    rec.check(th._local_search_confirms(T, sizes, g, iters=5) is None, "the local search confirms an indefinite maximizer")
    rec.trace()
    rec.sample({"T": mine(case)[0], "rivals": len(rivals)})


def run_threshold(case, rec):
    th = mod("schur_likelihood_theory")
    p = case["p"]
    for T in family(p, case["tier"]):
        for p1 in range(1, p):
            w1, V1 = np.linalg.eigh(T[:p1, :p1])
            w2, V2 = np.linalg.eigh(T[p1:, p1:])
            K = (V1 / np.sqrt(w1)).T @ T[:p1, p1:] @ (V2 / np.sqrt(w2))
            want = np.zeros(p1)
            s = np.linalg.svd(K, compute_uv=False) ** 2
            want[:min(p1, len(s))] = s[:p1]
            got = th.canonical_corr2(T, p1)
            rec.state()
            rec.check(near(got, want, 1e-7), "squared canonical correlations", T=T, p1=p1, got=got, want=want)
            top = want.max()
            if top < 1e-9:
                rec.check(th._is_spd(th.closed_form_general(T, [p1, p - p1], 0.01)), "uncoupled blocks leave the cone", T=T, p1=p1)
                continue
            gmin = th._solve_spd_threshold(top)
            rec.check(0 < gmin < 1 and near(gmin ** 2 * (1 - top), (1 - gmin) * top, 1e-9), "the threshold does not solve its equation", rho2=top, got=gmin)
            for g in sorted({gmin - 0.02, gmin - 0.002, gmin + 0.002, gmin + 0.02, 0.3, 0.6, 0.95}):
                if not 0 < g <= 1 or abs(g - gmin) < 0.001:
                    continue
                rec.trans()
                M = th.closed_form_general(T, [p1, p - p1], g)
                rec.check((np.linalg.eigvalsh(M)[0] > 0) == (g > gmin), "the PSD-exit threshold is wrong", T=T, p1=p1, gamma=g, gmin=gmin)
    rs = np.linspace(0.01, 0.99, 99)
    gm = [th._solve_spd_threshold(r) for r in rs]
    rec.check(all(a < b for a, b in zip(gm, gm[1:])), "the threshold is not increasing in the coupling")
    rec.trace()
    rec.sample({"p": p, "matrices": len(family(p, case["tier"]))})


def run_scalar(case, rec):
    th = mod("schur_likelihood_theory")
    for a, b, s, g in itertools.product((0.5, 1.0, 3.0), (-1.5, -0.4, 0.0, 0.8, 2.0), (0.2, 1.0, 2.5), GAMMAS):
        T = np.array([[a, b * a], [b * a, b * b * a + s]])
        for A, C, D in itertools.product((-1.0, 0.5, 1.0, 4.0), (-1.5, 0.0, 0.7, 2.0), (0.3, 1.0, 6.0)):
            rec.state()
            rec.trans()
            got = th.schur_loglik_population(a, b, s, g, A, C, D)
            cand = np.array([[A, C], [C, D]])
            v = D - g * C * C / A
            if A <= 0 or v <= 0:
                rec.check(got == -np.inf, "a candidate outside the domain has a likelihood", args=[a, b, s, g, A, C, D], got=got)
            else:
                want = np.mean([loglik_at(cand, x, [1, 1], g) for x in points(T)])
                rec.check(near(got, want), "scalar population likelihood", args=[a, b, s, g, A, C, D], got=got, want=want)
        if g == 0.0:
            continue
        A, C, D = th.closed_form_maximizer(a, b, s, g)
        rec.check(near(A, a) and near(g * C / A, b) and near(D - g * C * C / A, s), "the scalar maximizer does not recover the law", args=[a, b, s, g], got=[A, C, D])
        rec.check(near(np.array([[A, C], [C, D]]), th.closed_form_general(T, [1, 1], g)), "scalar and general maximizers differ", args=[a, b, s, g])
        margin = A * D - C * C
        if abs(margin) > 1e-9:
            rec.check(bool(th.spd_threshold_holds(a, b, s, g)) == (margin > 0), "the scalar SPD condition", args=[a, b, s, g], margin=margin)
        else:
            rec.skip("on the boundary of the cone")
    rec.trace()


# ------------------------------------------------------------------ discrimination
def run_snr(case, rec):
    gd = mod("schur_godambe")
    p = case["p"]
    fam = family(p, case["tier"])
    for n, A in enumerate(mine(case)):
        for k, eps in ((3, None), (11, None), (5, 1e-4)):
            B, T = fam[(n * k + 5) % len(fam)], fam[(n * 13 + k) % len(fam)]
            if eps:  # two candidates that are nearly the same
                B = A + eps * B
            if np.array_equal(A, B):
                continue
            L = np.linalg.cholesky(T)
            for sizes, g in itertools.product(compositions(p), GAMMAS):
                rec.state()
                rec.trans()
                # the quadratic form of each, by polarization of the log-likelihood at unit vectors
                Q = np.zeros((p, p))
                zero = loglik_at(A, np.zeros(p), sizes, g) - loglik_at(B, np.zeros(p), sizes, g)
                f = lambda x: loglik_at(A, x, sizes, g) - loglik_at(B, x, sizes, g) - zero
                I = np.eye(p)
                for i, j in itertools.combinations_with_replacement(range(p), 2):
                    Q[i, j] = Q[j, i] = f(I[i]) if i == j else (f(I[i] + I[j]) - f(I[i]) - f(I[j])) / 2
                lam = np.linalg.eigvalsh(L.T @ Q @ L)
                mean, var = zero + lam.sum(), 2 * (lam ** 2).sum()   # of x'Qx for a Gaussian x
                if var < (1e-9 if eps is None else 1e-13):
                    rec.skip("the two candidates score alike")
                    continue
                got = gd.snr(A, B, T, sizes, g)
                rec.check(near(got, mean / math.sqrt(var), 1e-6), "discrimination SNR", A=A, B=B, T=T, sizes=sizes, gamma=g, got=got, want=mean / math.sqrt(var))
                rec.check(near(gd.snr(B, A, T, sizes, g), -got, 1e-6), "SNR is not antisymmetric", A=A, B=B, sizes=sizes, gamma=g)
    rec.trace()
    rec.sample({"A": mine(case)[0]})


def run_mc(case, rec):
    """The sampled verifications agree with what they verify."""
    gd = mod("schur_godambe")
    for p, sizes in ((4, [2, 2]), (6, [3, 3]), (6, [1, 2, 3])):
        T, A, B = gd._noise_subspace_pair(p, eps_a=0.05, eps_b=0.15, seed=3)
        for g in (0.3, 1.0):
            a, b = gd.snr(A, B, T, sizes, g), gd.snr_montecarlo(A, B, T, sizes, g, n=100000, seed=0)
            rec.state()
            rec.trans()
            rec.check(abs(a - b) < 0.02, "the simulated SNR is not the closed form's", p=p, sizes=sizes, gamma=g, got=b, want=a)
    for p in (4, 6, 9):
        for seed in range(5):
            Sig, Q, ev = gd._spiked(p, seed=seed)
            rec.state()
            rec.check(near(np.sort(np.linalg.eigvalsh(Sig)), np.sort(ev), 1e-9) and near(Q @ Q.T, np.eye(p), 1e-9), "the spiked model has another spectrum", p=p, seed=seed)
    sp = gd.structured_power_over_draws(p=12, g=3, trials=12, n_test=30, seed=0)
    rec.check(all(0 <= v <= 1 and near(v * 12, round(v * 12)) for v in sp.values()), "a power is not a fraction of the trials", got=sp)
    rec.trace()


# ------------------------------------------------------------------ coupling trust
class Every:
    """A generator whose normal() returns, over successive calls, every sign pattern."""

    def __init__(self, n):
        self.n, self.k = n, 0
        self.all = list(itertools.product((1.0, -1.0), repeat=n))

    def normal(self, loc=0.0, scale=1.0, size=None):
        k = self.k
        self.k += 1
        # calls alternate: regressors (fixed magnitudes, all signs), then noise
        pat = self.all[(k // 2) // len(self.all) % len(self.all)] if k % 2 == 0 else self.all[(k // 2) % len(self.all)]
        w = np.array(pat) * (1.0 + 0.5 * np.arange(self.n)) if k % 2 == 0 else np.array(pat)
        return loc + scale * w


def run_trust(case, rec):
    gs = mod("schur_gamma_star")
    for n in (3, 4, 5, 8, 20, 60, 1000):
        for rho2 in np.linspace(0.02, 0.98, 25):
            e = rho2 / (1 - rho2)
            for a, s in ((1.0, 1.0), (2.0, 0.5)):
                b2 = e * s / a
                var = s / (a * (n - 2))
                R = lambda g: (b2 * (1 - g) ** 2 + g * g * var) * a + s
                got = gs.gamma_star(n, rho2)
                rec.state()
                rec.trans()
                rec.check(0 < got < 1 and all(R(got) <= R(x) + 1e-12 for x in np.linspace(0, 1, 401)) and near(got, b2 / (b2 + var)),
                          "gamma* does not minimize the predictive residual", n=n, rho2=rho2, got=got, want=b2 / (b2 + var))
    for rho2 in np.linspace(0.02, 0.98, 25):
        rec.check(gs.gamma_star(2, rho2) == 0, "a regression without degrees of freedom is trusted", rho2=rho2)
    for n in (3, 4, 20, 500):
        rec.check(gs.gamma_star(n, 0.0) == 0 and near(gs.gamma_star(n, 1.0), 1.0), "gamma* without coupling, or without noise", n=n)
    for a, b in zip((3, 5, 30), (5, 30, 300)):
        rec.check(gs.gamma_star(a, 0.4) < gs.gamma_star(b, 0.4), "gamma* is not increasing in the sample")
    # the simulated residual, with the simulation replaced by all of its (sign) draws
    for n in range(2, case["n"] + 1):
        w = 1.0 + 0.5 * np.arange(n)
        for a, b, s, g in itertools.product((1.0, 2.0), (0.5, -1.2), (0.4, 1.0), (0.0, 0.4, 1.0)):
            draws = 4 ** n
            got = gs.residual_R(g, a, b, s, n, draws, Every(n))
            # over all sign patterns b_hat = b + noise.x/x.x has mean b and variance s/(x.x)
            want = (b * b * (1 - g) ** 2 + g * g * s / (a * (w @ w))) * a + s
            rec.trans(draws)
            rec.check(near(got, want, 1e-9), "the predictive residual over all draws", n=n, args=[a, b, s, g], got=got, want=want)
    rec.trace()


# ------------------------------------------------------------------ delta method
def gap_of(M, sizes, g, T, aa, ab):
    p = len(M)
    t = np.trace(M) / p * np.eye(p)
    A, B = (1 - aa) * M + aa * t, (1 - ab) * M + ab * t
    X = points(T)
    return np.mean([loglik_at(A, x, sizes, g) - loglik_at(B, x, sizes, g) for x in X])


def run_delta(case, rec):
    sp = mod("schur_spiked")
    p = case["p"]
    fam = family(p, "quick")
    for G in fam[:: max(1, len(fam) // 20)]:
        for T in fam[:: max(1, len(fam) // 12)]:
            for n in (1, 10, 60):
                want = sum(G[i, j] * (T[i, k] * T[j, l] + T[i, l] * T[j, k]) / n * G[k, l]
                           for i, j, k, l in itertools.product(range(p), repeat=4))
                rec.trans()
                rec.check(near(sp._cov_quadform(G, T, n), want, 1e-9), "variance of a linear form of the sample covariance", G=G, T=T, n=n)
    # well-conditioned truths, where the finite differences are exact enough
    for T in [M for M in fam if S.cond(M) < 40][:8]:
        for sizes in compositions(p):
            for g, (aa, ab) in itertools.product((0.3, 1.0), ((0.5, 0.05), (0.3, 0.1))):
                h = 1e-5
                F = np.zeros((p, p))
                for i, j in itertools.combinations_with_replacement(range(p), 2):
                    E = np.zeros((p, p))
                    E[i, j] = E[j, i] = h
                    d = (gap_of(T + E, sizes, g, T, aa, ab) - gap_of(T - E, sizes, g, T, aa, ab)) / (2 * h)
                    F[i, j] = F[j, i] = d if i == j else d / 2   # both entries move together
                scale = max(1e-3, np.abs(F).max())
                got = sp._grad_score_gap(T, sizes, g, T, aa, ab)
                twice = 2 * F - np.diag(np.diag(F))
                rec.state()
                rec.trans(p * (p + 1) // 2)
                right = near(got / scale, F / scale, 1e-3)
                if not right:
                    known = near(got / scale, twice / scale, 1e-3)
                    rec.check(False, "the gradient of the score gap", key="delta-gradient-doubled" if known else None, T=T, sizes=sizes, gamma=g, got=got, want=F)
                mean, sd, ratio = sp.snr_delta(p, 25, sizes, g, aa, ab, T)
                want = gap_of(T, sizes, g, T, aa, ab)
                rec.check(near(mean, want, 1e-6), "delta-method mean", T=T, sizes=sizes, gamma=g, got=mean, want=want)
                MF, MG = F @ T, got @ T
                sds = [math.sqrt(max(0.0, 2 / 25 * np.trace(M @ M))) for M in (MF, MG)]
                if abs(sd - sds[0]) > 1e-3 * max(1e-3, sds[0]):
                    known = not right and near(got / scale, twice / scale, 1e-3) and abs(sd - sds[1]) <= 1e-6 * max(1, sds[1])
                    rec.check(False, "delta-method standard deviation", key="delta-gradient-doubled" if known else None, T=T, sizes=sizes, gamma=g, got=sd, want=sds[0])
                if sd > 1e-6:
                    rec.check(near(ratio, mean / sd, 1e-9), "delta-method ratio", got=ratio, want=mean / sd)
    rec.trace()
    rec.sample({"p": p})


# ------------------------------------------------------------------ the judges
def gauss(C, X):
    return np.mean([-0.5 * (math.log(np.linalg.det(C)) + x @ np.linalg.solve(C, x)) for x in X])


def run_judges(case, rec):
    mp = mod("metric_power")
    for p in (2, 3, 4):
        fam = family(p, "quick")
        dirs = np.array([d for d in itertools.product((-1.0, 0.0, 1.0), repeat=p) if any(d)])[:13]
        dirs = dirs / np.linalg.norm(dirs, axis=1, keepdims=True)
        for n, C in enumerate(fam):
            if S.cond(C) > 900:
                rec.skip("floored by the projection")
                continue
            X = np.vstack([points(fam[(n * 17 + 3) % len(fam)]), S.stream(4, p, seed=n % 7)])
            keep = C.copy(), X.copy()
            Sx = sum(np.outer(x - X.mean(0), x - X.mean(0)) for x in X) / len(X)
            K = np.linalg.inv(C)
            w = K.sum(1) / K.sum()
            want = {
                "loglik": gauss(C, X),
                "frobenius": -math.sqrt(((C - Sx) ** 2).sum()),
                "stein": -(np.trace(K @ Sx) - math.log(np.linalg.det(K @ Sx)) - p),
                "random_proj": np.mean([[-0.5 * (math.log(d @ C @ d) + (x @ d) ** 2 / (d @ C @ d)) for d in dirs] for x in X]),
                "min_variance": -np.mean([(x @ w) ** 2 for x in X]),
                "maha_calib": -abs(np.mean([x @ K @ x for x in X]) - p),
            }
            rec.check(set(mp.METRICS) == set(want), "the judges of the study", got=list(mp.METRICS))
            for nm, v in want.items():
                got = mp.METRICS[nm](C, X, dirs)
                rec.trans()
                rec.check(near(got, v, 1e-7), "metric " + nm, C=C, got=got, want=v)
            for b in range(1, p + 2):
                v = sum(gauss(C[s:s + b, s:s + b], X[:, s:s + b]) - 0.5 * min(b, p - s) * math.log(2 * math.pi) for s in range(0, p, b))
                got = mp.block_pseudo_loglik(C, X, b)
                rec.trans()
                rec.check(near(got, v, 1e-7), "block pseudo-likelihood", C=C, block=b, got=got, want=v)
            rec.check(np.array_equal(C, keep[0]) and np.array_equal(X, keep[1]), "a judge changed its arguments")
            rec.state()
    # the report lists the judges by mean power
    for vals in itertools.permutations((0.2, 0.5, 0.9)):
        pw = {m: {10: v, 20: v / 2} for m, v in zip(("x1", "x2", "x3"), vals)}
        rows = [ln.split() for ln in mp.report(pw, 0.1, [10, 20]).splitlines() if ln.startswith("x")]
        rec.check([r[0] for r in rows] == sorted(pw, key=lambda m: -pw[m][10]) and
                  all(near([float(v) for v in r[1:]], [pw[r[0]][10], pw[r[0]][20], 0.75 * pw[r[0]][10]], 2e-3) for r in rows), "power report", rows=rows)
    rec.trace()


def run_power(case, rec):
    """Power is the fraction of trials in which the truly better estimate scores higher."""
    mp = mod("metric_power")
    seed = case["seed"]
    keep = dict(mp.METRICS)
    for trials, grid in ((1, (5,)), (7, (5, 9)), (12, (9, 5, 30))):
        seen = []
        tick = itertools.count()

        def watch(C, X, dirs):
            seen.append((np.array(C), np.array(X)))
            return float(-next(tick))

        mp.METRICS.clear()
        mp.METRICS.update({"first": watch, "second": lambda C, X, d: float(next(tick)), "tied": lambda C, X, d: 0.0})
        try:
            power, gap, g2 = mp.run(p=4, n_grid=grid, trials=trials, seed=seed, n_dirs=3, min_gap=0.0)
        finally:
            mp.METRICS.clear()
            mp.METRICS.update(keep)
        rec.state()
        rec.trans(len(seen))
        rec.check(list(power) == ["first", "second", "tied"] and list(g2) == list(grid), "the power table", got=power)
        vals = {m: set(power[m].values()) for m in power}
        rec.check(vals["tied"] == {0.0}, "a tie counts as a correct ranking", got=power)
        rec.check(sorted((vals["first"] | vals["second"])) == [0.0, 1.0], "power of a judge that always prefers the same side", got=power)
        rec.check(gap > 0 and len(seen) == 2 * trials * len(grid), "each judge ranks one pair per trial and test size", got=len(seen))
        for t in range(0, len(seen), 2):
            (a, X), (b, Y) = seen[t], seen[t + 1]
            rec.check(np.array_equal(X, Y), "the pair is judged on different test sets")
            rec.check(np.linalg.eigvalsh(a)[0] > 0 and np.linalg.eigvalsh(b)[0] > 0 and not np.array_equal(a, b), "the pair of estimates")
        rec.check([len(seen[t][1]) for t in range(0, 2 * len(grid), 2)] == list(grid), "test sizes", got=[len(s[1]) for s in seen])
    # a judge that is the full likelihood has the full likelihood's power
    a = mp.run(p=5, trials=30, n_grid=(20,), seed=seed)[0]
    b = mp.run(p=5, trials=30, n_grid=(20,), seed=seed)[0]
    rec.check(a == b, "the study is not reproducible from its seed")
    for reg in ("noisy_tail", "clean"):
        pw = mp.pseudo_likelihood_power(regime=reg, block_sizes=(2, None), p=20, bulk=20 if reg == "clean" else 8, n_test=20, trials=30, seed=seed)
        rec.state()
        rec.check(list(pw) == ["frobenius", "full_loglik", "pll_b2", "pll_b20"] and all(0 <= v <= 1 for v in pw.values()), "judges of the pseudo-likelihood study", got=pw)
        if reg == "clean":
            rec.check(pw["pll_b20"] == pw["full_loglik"], "one block is not the full likelihood", got=pw)
    pw = mp.proof_high_dim(p=12, bulk=5, k_list=(2, None), n_test=25, trials=30, seed=seed)
    rec.check(list(pw) == ["loglik", "stein", "frobenius", "proj_k2", "proj_k12"] and pw["proj_k12"] == pw["loglik"],
              "projection onto all dimensions is not the full likelihood", got=pw)
    pw = mp.schur_power(p=12, g=3, gammas=(0.0, 1.0), n_test=25, trials=30, seed=seed)
    rec.check(list(pw) == ["full", "gamma_0.0", "gamma_1.0"] and pw["gamma_1.0"] == pw["full"], "gamma=1 is not the full likelihood", got=pw)
    pj, gap = mp.projection_power(p=6, k_list=(2, 6, None), n_test=25, trials=30, seed=seed, min_gap=0.0)
    rec.check(list(pj) == [2, 6, None] and all(0 <= v <= 1 for v in pj.values()) and pj[6] == pj[None] and gap > 0, "projection study", got=pj)
    rec.check("p=6" in mp.projection_report(pj, gap, p=6), "projection report")
    rec.trace()
