"""Reference models: what each estimator is documented to compute, written from its definition.

A model consumes rows one at a time and yields (n, location, covariance, extras). The models keep
the raw rows and use the closed form wherever there is one. ``tainted`` is set when the definition
itself is numerically ill-posed on the path (inverse of a nearly singular matrix); the comparison
stops there.
"""
from __future__ import annotations

import math

import numpy as np

COND_MAX = 1e9


def burn(r):
    return int(min(250, max(5, math.ceil(1.0 / r))))


def blocks(p, nb):
    """Contiguous blocks, sizes differing by at most one, the larger ones first."""
    nb = max(1, min(nb, p))
    q, rem = divmod(p, nb)
    out, a = [], 0
    for i in range(nb):
        b = a + q + (1 if i < rem else 0)
        out.append((a, b))
        a = b
    return out


def cross_mask(p, nb):
    same = np.zeros((p, p), dtype=bool)
    for a, b in blocks(p, nb):
        same[a:b, a:b] = True
    return ~same


def population(rows):
    X = np.array(rows, dtype=np.longdouble)
    m = X.mean(axis=0)
    D = X - m
    return m.astype(float), (D.T @ D / len(X)).astype(float)


def corr_of(C):
    d = np.sqrt(np.diag(C))
    R = np.zeros_like(C)
    for i in range(len(d)):
        for j in range(len(d)):
            if d[i] > 0 and d[j] > 0:
                R[i, j] = C[i, j] / (d[i] * d[j])
    return R


def floored(C, eps=1e-8):
    """Positive definite by an eigenvalue floor at eps times the top eigenvalue (eps at most)."""
    w, V = np.linalg.eigh((C + C.T) / 2)
    top = w[-1]
    w = np.maximum(w, eps * min(1.0, top) if top > 0 else eps)
    return (V * w) @ V.T


class Model:
    def __init__(self, p, **params):
        self.p = p
        self.n = 0
        self.mean = np.zeros(p)
        self.cov = np.zeros((p, p))
        self.rows = []
        self.tainted = False
        self.atol = 0.0          # documented numerical floors of the definition
        self.xmax = 0.0
        self.par = params
        self.setup(**params)

    def setup(self):
        pass

    def push(self, x):
        x = np.asarray(x, dtype=float)
        self.n += 1
        self.xmax = max(self.xmax, float(np.abs(x).max()))
        self.step(x)

    def flat(self, C):
        """No variation beyond rounding: a floor of 1e-8 may or may not show."""
        return np.trace(C) <= 1e-18 * self.xmax ** 2

    def inverse(self, C):
        w = np.linalg.eigvalsh(C)
        if not np.isfinite(w).all() or w[0] <= 0 or w[-1] > COND_MAX * w[0]:
            self.tainted = True
            return None
        return np.linalg.inv(C)

    def location(self):
        return self.mean

    def estimate(self):
        return self.cov

    def extras(self):
        return {}


class Empirical(Model):
    def step(self, x):
        self.rows.append(x)
        self.mean, self.cov = population(self.rows)


class Burned(Model):
    """Empirical statistics of the first n_burn rows, then ``after``."""

    def setup(self, r=0.05, **kw):
        self.r = r
        self.nb = burn(r)
        self.more(**kw)

    def more(self):
        pass

    def step(self, x):
        if self.n <= self.nb:
            self.rows.append(x)
            if self.n == self.nb or self.n < self.nb:
                self.mean, self.cov = population(self.rows)
        else:
            self.after(x, x - self.mean)

    def after(self, x, d):
        r = self.r
        self.mean = self.mean + r * d
        self.cov = (1 - r) * self.cov + r * d[:, None] * d[None, :]


class Ewa(Burned):
    pass


class RunningVar(Model):
    """mean and squared innovations averaged over the first n_burn rows, then exponentially."""

    def setup(self, r=0.05):
        self.r = r
        self.nb = burn(r)
        self.sc = np.zeros((self.p, self.p))

    def step(self, x):
        d = x - self.mean if self.n > 1 else np.zeros(self.p)
        first = self.n == 1
        g = 1.0 / self.n if self.n <= self.nb else self.r
        self.mean = x.copy() if first else self.mean + g * d
        self.sc = self.sc + g * (np.outer(d, d) - self.sc)

    def estimate(self):
        return self.sc


class Diagonal(RunningVar):
    def estimate(self):
        return np.diag(np.diag(self.sc))


class PartialMoments(RunningVar):
    def estimate(self):
        self.atol = 1e-12 * np.abs(self.sc).max() + 1e-300
        return self.sc


class LedoitWolf(Burned):
    def more(self):
        self.pi = 0.0

    def after(self, x, d):
        S = np.outer(d, d)
        q = sum((S[i, j] - self.cov[i, j]) ** 2 for i in range(self.p) for j in range(self.p)) / self.p
        self.pi = (1 - self.r) * self.pi + self.r * q
        Burned.after(self, x, d)

    def estimate(self):
        p = self.p
        S = self.cov
        mu = sum(S[i, i] for i in range(p)) / p
        T = S - mu * np.eye(p)
        d2 = float((T * T).sum()) / p
        if self.pi <= 0 or d2 <= 0:
            return S
        k = min(1.0, self.r * self.pi / d2)
        return S + k * (mu * np.eye(p) - S)


class OAS(Burned):
    def estimate(self):
        p, S = self.p, self.cov
        n = max(1.0 / self.r, 2.0)
        t1 = np.trace(S)
        t2 = float((S * S).sum())
        num = (1 - 2.0 / p) * t2 + t1 * t1
        den = (n + 1 - 2.0 / p) * (t2 - t1 * t1 / p)
        rho = 1.0 if den <= 1e-15 * t2 else min(1.0, max(0.0, num / den))
        return S + rho * (t1 / p * np.eye(p) - S)


class Shrunk(Burned):
    def more(self, delta=0.1, target="constant_correlation"):
        self.delta, self.target = delta, target

    def estimate(self):
        p, S = self.p, self.cov
        if self.target == "identity":
            T = np.trace(S) / p * np.eye(p)
        else:
            R = corr_of(S)
            rbar = 0.0
            if p > 1:
                rbar = (R.sum() - np.trace(R)) / (p * (p - 1))
            d = np.sqrt(np.diag(S))
            T = rbar * np.outer(d, d)
            for i in range(p):
                T[i, i] = S[i, i]
        return (1 - self.delta) * S + self.delta * T


class Huber(Burned):
    def more(self, c=2.5):
        self.c = c

    def after(self, x, d):
        P = self.inverse(self.cov)
        if P is None:
            return
        m2 = float(d @ P @ d)
        w = 1.0 if m2 <= self.c ** 2 * self.p else self.c * math.sqrt(self.p / m2)
        Burned.after(self, x, w * d)


class Adaptive(Burned):
    def more(self, max_r=0.5):
        self.max_r = max_r
        self.s = 1.0

    def after(self, x, d):
        P = self.inverse(self.cov)
        if P is None:
            return
        self.s = 0.9 * self.s + 0.1 * float(d @ P @ d) / self.p
        r = min(max(self.r * self.s, self.r), self.max_r)
        self.mean = self.mean + r * d
        self.cov = (1 - r) * self.cov + r * np.outer(d, d)


class Tyler(Model):
    def setup(self, r=0.05):
        self.r, self.nb = r, burn(r)
        self.C = np.eye(self.p)

    def step(self, x):
        g = 1.0 / self.n if self.n <= self.nb else self.r
        d = x - self.mean if self.n > 1 else np.zeros(self.p)
        if np.any(d != 0):
            if np.abs(d).max() < 1e-12 * max(1.0, np.abs(x).max()):
                self.tainted = True   # a direction made of rounding error
                return
            P = self.inverse(self.C)
            if P is None:
                return
            u = d / np.linalg.norm(d)
            C = (1 - g) * self.C + g * self.p * np.outer(u, u) / float(u @ P @ u)
            self.C = C * self.p / np.trace(C)
        self.mean = x.copy() if self.n == 1 else self.mean + g * (x - self.mean)

    def estimate(self):
        return corr_of(self.C)


class Geodesic(Burned):
    def after(self, x, d):
        r = self.r
        A = floored(self.cov)
        B = floored(np.outer(d, d))
        wa, wb = np.linalg.eigvalsh(A), np.linalg.eigvalsh(B)
        if self.flat(self.cov) or min(wa[0], wb[0]) <= 0 or (wa[-1] / wa[0]) * (wb[-1] / wb[0]) > 1e11:
            self.tainted = True
            return
        L = np.linalg.cholesky(A)         # A = L L^T: the geodesic through any square root
        Li = np.linalg.inv(L)
        wm, Vm = np.linalg.eigh(Li @ B @ Li.T)
        H = L @ Vm
        self.cov = (H * np.maximum(wm, 0) ** r) @ H.T
        self.mean = self.mean + r * d

    def estimate(self):
        self.atol = 1e-4 * np.abs(self.cov).max() if self.n > self.nb else 0.0
        return self.cov


class Factor(Model):
    def setup(self, k=2, r=0.05):
        self.k, self.r = min(k, self.p), r
        self.lam = [0.0] * self.k
        self.dir = [np.zeros(self.p)] * self.k
        self.var = np.zeros(self.p)

    def step(self, x):
        first = self.n == 1
        d = np.zeros(self.p) if first else x - self.mean
        g = 1.0 / self.n if self.n <= self.k + 1 else self.r
        self.mean = x.copy() if first else self.mean + g * d
        self.var = self.var + g * (d * d - self.var)
        u = d.copy()
        for j in range(self.k):
            if 1e-14 < self.lam[j] < 1e-10:
                self.tainted = True
            if self.lam[j] < 1e-12:
                nu = np.linalg.norm(u)
                if 1e-14 < nu * nu < 1e-10:
                    self.tainted = True  # at the threshold below which a component is empty
                if 1e-14 < nu * nu < 1e-9 * float(d @ d):
                    self.tainted = True  # residual made of rounding error
                self.lam[j] = float(nu * nu)
                self.dir[j] = u / nu if nu > 0 else u
                break
            e = self.dir[j]
            s = float(u @ e)
            v = (1 - g) * self.lam[j] * e + g * s * u
            self.lam[j] = float(np.linalg.norm(v))
            if self.lam[j] < 1e-9 * float(d @ d) and self.lam[j] > 0:
                self.tainted = True
            self.dir[j] = v / self.lam[j] if self.lam[j] > 0 else v
            u = u - s * e

    def estimate(self):
        F = np.zeros((self.p, self.p))
        for lam, e in zip(self.lam, self.dir):
            if lam > 1e-12:
                F += lam * np.outer(e, e)
        rest = self.var - np.diag(F)
        return F + np.diag(np.where(rest > 0, rest, 0.0))


class DCC(Model):
    def setup(self, r=0.05, vol_r=None):
        self.r = r
        self.rv = r if vol_r is None else vol_r
        self.nb = burn(min(self.r, self.rv))
        self.h = np.zeros(self.p)
        self.Q = np.zeros((self.p, self.p))

    def step(self, x):
        warm = self.n <= self.nb
        gv = 1.0 / self.n if warm else self.rv
        gq = 1.0 / self.n if warm else self.r
        if self.n == 1:
            self.mean = x.copy()
            return
        d = x - self.mean
        self.mean = self.mean + gv * d
        self.h = (1 - gv) * self.h + gv * d * d
        if ((self.h > 1e-14) & (self.h < 1e-10)).any():
            self.tainted = True
        e = d / np.sqrt(np.maximum(self.h, 1e-12))
        self.Q = (1 - gq) * self.Q + gq * np.outer(e, e)

    def estimate(self):
        d = np.sqrt(np.maximum(self.h, 1e-12))
        q = 1.0 / np.sqrt(np.maximum(np.diag(self.Q), 1e-12))
        self.atol = 2e-12
        return self.Q * np.outer(q * d, q * d)


class Block(Burned):
    def more(self, n_blocks=4):
        self.nblk = n_blocks

    def estimate(self):
        C = np.where(cross_mask(self.p, self.nblk), 0.0, self.cov)
        self.atol = 2e-8 * min(1.0, np.trace(C))
        for a, b in blocks(self.p, self.nblk):
            if self.flat(C[a:b, a:b]):  # a block that has not varied is all floor
                self.atol = max(self.atol, 1.1e-8)
        return C


class Schur(Burned):
    def more(self, n_blocks=4, gamma=0.5, interpolation="linear"):
        self.nblk, self.gam, self.how = n_blocks, gamma, interpolation

    def estimate(self):
        x = cross_mask(self.p, self.nblk)
        if self.how == "geodesic":
            A = floored(np.where(x, 0.0, self.cov))
            B = floored(self.cov)
            w = np.linalg.eigvalsh(A)
            wb = np.linalg.eigvalsh(B)
            if w[-1] > 1e5 * w[0] or wb[-1] > 1e6 * wb[0]:
                return None
            L = np.linalg.cholesky(A)
            Li = np.linalg.inv(L)
            wm, Vm = np.linalg.eigh(Li @ B @ Li.T)
            H = L @ Vm
            self.atol = 1e-6 * np.abs(B).max()
            return (H * np.maximum(wm, 0) ** self.gam) @ H.T
        C = np.where(x, self.gam * self.cov, self.cov)
        return self.psd(C)

    def psd(self, C):
        top = max(np.linalg.eigvalsh(C)[-1], 0.0)
        self.atol = 1.1e-8 if self.flat(C) else 2e-8 * min(1.0, top)
        return floored(C)


class SchurLW(Schur):
    def more(self, n_blocks=4):
        self.nblk = n_blocks
        self.pi = 0.0
        self.big = 0.0

    def after(self, x, d):
        self.big = max(self.big, float(np.dot(x, x)))
        m = cross_mask(self.p, self.nblk)
        S = np.outer(d, d)
        self.pi = (1 - self.r) * self.pi + self.r * float((((S - self.cov) ** 2) * m).sum())
        Burned.after(self, x, d)

    def gamma(self):
        m = cross_mask(self.p, self.nblk)
        m2 = float(((self.cov ** 2) * m).sum())
        if m2 <= 0:
            return 1.0
        return min(1.0, max(0.0, 1.0 - self.r * self.pi / m2))

    def estimate(self):
        g = self.gamma()
        return self.psd(np.where(cross_mask(self.p, self.nblk), g * self.cov, self.cov))

    def extras(self):
        m = cross_mask(self.p, self.nblk)
        m2 = float(((self.cov ** 2) * m).sum())
        top = float((self.cov ** 2).sum())
        if 0 < m2 < 1e-25 * top or 0 < self.big and top < (1e-26 * self.big) ** 2:
            return {}  # a (cross-block) covariance made of rounding error
        return {"gamma_": self.gamma()}


class SchurConditional(Burned):
    def more(self, n_blocks=4):
        self.nblk = n_blocks

    def neff(self):
        return max(2.0, min(float(self.n), (2.0 - self.r) / self.r))

    def gamma(self):
        m = cross_mask(self.p, self.nblk)
        if not m.any():
            return 1.0
        R2 = (corr_of(self.cov) ** 2)[m]
        den = float(R2.sum())
        keep = float(np.maximum(0.0, R2 - (1.0 + R2) / self.neff()).sum())
        return min(1.0, keep / den) if den > 0 else 0.0

    def estimate(self):
        p = self.p
        R = corr_of(self.cov)
        v = np.diag(self.cov)
        if ((v > 0) & (v < 1e-10)).any():
            self.tainted = True
        n, g = self.neff(), self.gamma()
        out = np.zeros((p, p))
        for a, b in blocks(p, self.nblk):
            Rk = R[a:b, a:b]
            if a == 0:
                out[:b, :b] = Rk
                continue
            ridge = min(a / n, 0.9)
            Rc = R[:a, :a]
            Rc = (1 - ridge) * Rc + ridge * np.diag(np.diag(Rc))
            B = np.linalg.solve(Rc + 1e-10 * np.eye(a), R[:a, a:b])
            S = floored(Rk - R[:a, a:b].T @ B)
            G = g * B
            top = out[:a, :a]
            out[a:b, :a] = G.T @ top
            out[:a, a:b] = out[a:b, :a].T
            out[a:b, a:b] = (1 - g) * Rk + g * S + G.T @ top @ G
        out = floored(out)
        d = np.sqrt(np.maximum(v, 1e-12))
        self.atol = 3e-8 * float(np.max(v)) + 1e-12
        return out * np.outer(d, d)

    def extras(self):
        return {"gamma_": self.gamma()}


class SkaterVol:
    def __init__(self, f):
        self.f, self.state, self.mean, self.var = f, None, 0.0, 0.0

    def push(self, y):
        out, self.state = self.f(float(y), self.state)
        self.mean, self.var = float(out[0].mean), float(out[0].std) ** 2


class EstVol:
    def __init__(self, cfg):
        self.m = model(cfg, 1)

    def push(self, y):
        self.m.push(np.array([y]))

    @property
    def mean(self):
        return float(self.m.location()[0]) if self.m.n else 0.0

    @property
    def var(self):
        if self.m.n < 2:
            return 0.0
        v = float(self.m.estimate()[0, 0])
        if v < 1e-7 and isinstance(self.m, (Block, Schur, SchurConditional, PartialMoments)):
            self.m.tainted = True  # a numerical floor in place of a scale
        return v


class Conditional(Model):
    def setup(self, vol=None, corr=None):
        vol = vol or ["EwaCovariance", {}]
        self.vols = []
        for _ in range(self.p):
            if vol[0] == "skater":
                from mc.space import mini_skater
                self.vols.append(SkaterVol(mini_skater))
            else:
                self.vols.append(EstVol(vol))
        self.cm = model(corr or ["EwaCovariance", {}], self.p)

    def step(self, x):
        e = np.zeros(self.p)
        for i, v in enumerate(self.vols):
            var = v.var
            if 1e-14 < var < 1e-10:
                self.tainted = True
            if var > 1e-12:
                e[i] = (x[i] - v.mean) / math.sqrt(var)
        self.cm.push(e)
        for i, v in enumerate(self.vols):
            v.push(x[i])
        self.mean = np.array([v.mean for v in self.vols])

    def estimate(self):
        self.tainted = self.tainted or self.cm.tainted or any(
            isinstance(v, EstVol) and v.m.tainted for v in self.vols)
        C = self.cm.estimate()
        if C is None:
            return None
        if np.diag(C).min() < 1e-7 and isinstance(self.cm, (Block, Schur, SchurConditional, PartialMoments)):
            return None  # no variation yet: a numerical floor in place of a scale
        R = corr_of(C)
        d = np.sqrt(np.array([max(v.var, 1e-12) for v in self.vols]))
        self.atol = max(2e-12, 10 * self.cm.atol * float(d.max()) ** 2 / max(1e-3, float(np.diag(C).min())))
        return R * np.outer(d, d)


TABLE = {
    "EmpiricalCovariance": Empirical, "EwaCovariance": Ewa, "DiagonalCovariance": Diagonal,
    "LedoitWolfCovariance": LedoitWolf, "OASCovariance": OAS, "ShrunkCovariance": Shrunk,
    "HuberCovariance": Huber, "AdaptiveEwaCovariance": Adaptive, "TylerCovariance": Tyler,
    "PartialMomentsCovariance": PartialMoments, "GeodesicEwaCovariance": Geodesic,
    "FactorCovariance": Factor, "DCCCovariance": DCC, "BlockCovariance": Block,
    "SchurCovariance": Schur, "SchurLedoitWolfCovariance": SchurLW,
    "SchurConditionalCovariance": SchurConditional, "ConditionalCovariance": Conditional,
}


def model(cfg, p):
    return TABLE[cfg[0]](p, **cfg[1])
