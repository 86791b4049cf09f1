"""Independent (scipy / closed form, float64) reference for leaf densities."""
from __future__ import annotations

import numpy as np
from scipy import stats
from scipy.special import gammaln, xlog1py, xlogy

INF = np.inf


def _isint(x):
    return np.isfinite(x) & (x == np.floor(x))


def logpdf(kind: str, x, p: dict):
    """log density of ``x`` (broadcastable) under family ``kind`` with parameter arrays ``p``."""
    x = np.asarray(x, dtype=np.float64)
    with np.errstate(all="ignore"):
        if kind == "bernoulli":
            pr = p["probs"]
            return np.where(x == 1, np.log(pr), np.where(x == 0, np.log1p(-pr), -INF))
        if kind == "categorical":
            pr = p["probs"]  # (..., K)
            K = pr.shape[-1]
            ok = _isint(x) & (x >= 0) & (x < K)
            xi = np.where(ok, x, 0).astype(int)
            shape = np.broadcast_shapes(x.shape, pr.shape[:-1])
            xi = np.broadcast_to(xi, shape)
            prb = np.broadcast_to(pr, shape + (K,))
            v = np.take_along_axis(prb, xi[..., None], axis=-1)[..., 0]
            return np.where(ok, np.log(v), -INF)
        if kind == "binomial":
            n, pr = p["total_count"], p["probs"]
            ok = _isint(x) & (x >= 0) & (x <= n)
            k = np.where(ok, x, 0)
            v = gammaln(n + 1) - gammaln(k + 1) - gammaln(n - k + 1) + xlogy(k, pr) + xlog1py(n - k, -pr)
            return np.where(ok, v, -INF)
        if kind == "geometric":
            pr = p["probs"]
            ok = _isint(x) & (x >= 0)
            k = np.where(ok, x, 0)
            return np.where(ok, xlog1py(k, -pr) + np.log(pr), -INF)
        if kind == "negbin":  # number of successes (prob p) before total_count failures
            r, pr = p["total_count"], p["probs"]
            ok = _isint(x) & (x >= 0)
            k = np.where(ok, x, 0)
            v = gammaln(k + r) - gammaln(k + 1) - gammaln(r) + xlogy(k, pr) + xlog1py(r, -pr)
            return np.where(ok, v, -INF)
        if kind == "poisson":
            lam = p["rate"]
            ok = _isint(x) & (x >= 0)
            k = np.where(ok, x, 0)
            return np.where(ok, xlogy(k, lam) - lam - gammaln(k + 1), -INF)
        if kind == "hypergeometric":
            ok = _isint(x)
            return np.where(ok, stats.hypergeom.logpmf(np.where(ok, x, -1), p["N"], p["K"], p["n"]), -INF)
        if kind == "normal":
            return stats.norm.logpdf(x, p["loc"], p["scale"])
        if kind == "lognormal":
            ok = x > 0
            lx = np.log(np.where(ok, x, 1.0))
            v = stats.norm.logpdf(lx, p["loc"], p["scale"]) - lx
            return np.where(ok, v, -INF)
        if kind == "laplace":
            return -np.abs(x - p["loc"]) / p["scale"] - np.log(2 * p["scale"])
        if kind == "exponential":
            return np.where(x >= 0, np.log(p["rate"]) - p["rate"] * x, -INF)
        if kind == "gamma":
            a, b = p["concentration"], p["rate"]
            ok = x > 0
            xs = np.where(ok, x, 1.0)
            v = a * np.log(b) + (a - 1) * np.log(xs) - b * xs - gammaln(a)
            return np.where(ok, v, -INF)
        if kind == "uniform":
            ok = (x >= p["low"]) & (x <= p["high"])
            return np.where(ok, -np.log(p["high"] - p["low"]), -INF)
    raise KeyError(kind)


def cdf(kind: str, x, p: dict):
    x = np.asarray(x, dtype=np.float64)
    if kind == "normal":
        return stats.norm.cdf(x, p["loc"], p["scale"])
    if kind == "lognormal":
        with np.errstate(all="ignore"):
            return np.where(x > 0, stats.norm.cdf(np.log(np.where(x > 0, x, 1.0)), p["loc"], p["scale"]), 0.0)
    if kind == "laplace":
        return stats.laplace.cdf(x, p["loc"], p["scale"])
    if kind == "exponential":
        return stats.expon.cdf(x, scale=1.0 / p["rate"])
    if kind == "gamma":
        return stats.gamma.cdf(x, p["concentration"], scale=1.0 / p["rate"])
    if kind == "uniform":
        return stats.uniform.cdf(x, p["low"], p["high"] - p["low"])
    if kind == "poisson":
        return stats.poisson.cdf(x, p["rate"])
    if kind == "geometric":
        return stats.geom.cdf(np.floor(x) + 1, p["probs"])
    if kind == "bernoulli":
        return stats.bernoulli.cdf(x, p["probs"])
    if kind == "binomial":
        return stats.binom.cdf(x, p["total_count"], p["probs"])
    if kind == "negbin":
        return stats.nbinom.cdf(x, p["total_count"], 1 - p["probs"])
    raise KeyError(kind)


def rand_params(kind: str, rng, shape, K=None, total=None):
    """Random float32-exact parameters of the given (F, C, R) shape."""
    f32 = lambda a: np.asarray(a, dtype=np.float32).astype(np.float64)  # noqa: E731
    if kind == "bernoulli":
        return {"probs": f32(rng.uniform(0.05, 0.95, shape))}
    if kind == "categorical":
        w = rng.dirichlet(np.ones(K) * 1.5, size=shape) + 0.03
        w = f32(w / w.sum(-1, keepdims=True))
        return {"probs": w}
    if kind == "binomial":
        n = np.full(shape, float(total if total is not None else rng.integers(1, 6)))
        return {"total_count": n, "probs": f32(rng.uniform(0.05, 0.95, shape))}
    if kind == "geometric":
        return {"probs": f32(rng.uniform(0.2, 0.9, shape))}
    if kind == "negbin":
        n = np.full(shape, float(total if total is not None else rng.integers(1, 6)))
        return {"total_count": n, "probs": f32(rng.uniform(0.1, 0.7, shape))}
    if kind == "poisson":
        return {"rate": f32(rng.uniform(0.3, 5.0, shape))}
    if kind == "hypergeometric":
        N = int(rng.integers(4, 12))
        return {
            "N": np.full(shape, float(N)),
            "K": np.full(shape, float(rng.integers(1, N + 1))),
            "n": np.full(shape, float(rng.integers(1, N + 1))),
        }
    if kind in ("normal", "laplace"):
        return {"loc": f32(rng.normal(0, 1.5, shape)), "scale": f32(rng.uniform(0.4, 1.8, shape))}
    if kind == "lognormal":
        return {"loc": f32(rng.normal(0, 0.6, shape)), "scale": f32(rng.uniform(0.3, 0.9, shape))}
    if kind == "exponential":
        return {"rate": f32(rng.uniform(0.4, 3.0, shape))}
    if kind == "gamma":
        return {"concentration": f32(rng.uniform(0.7, 4.0, shape)), "rate": f32(rng.uniform(0.4, 2.5, shape))}
    if kind == "uniform":
        lo = f32(rng.uniform(-2, 0, shape))
        return {"low": lo, "high": f32(lo + rng.uniform(1.0, 3.0, shape))}
    raise KeyError(kind)


def sample_data(kind: str, rng, n, K=None, total=None):
    """Plausible in-support raw data for one variable of the family (n values)."""
    if kind == "bernoulli":
        return rng.integers(0, 2, n).astype(float)
    if kind == "categorical":
        return rng.integers(0, K, n).astype(float)
    if kind in ("binomial",):
        return rng.integers(0, int(total) + 1, n).astype(float)
    if kind in ("geometric", "negbin", "poisson"):
        return rng.poisson(2.5, n).astype(float)
    if kind in ("normal", "laplace"):
        return rng.normal(0, 2.0, n).astype(np.float32).astype(float)
    if kind in ("lognormal", "exponential", "gamma"):
        return np.exp(rng.normal(0, 0.8, n)).astype(np.float32).astype(float)
    raise KeyError(kind)


COLMAP = None  # relabelling of variables applied when leaves are built (C31)
HOOK = None  # replaces the construction of single leaves (C34)


def build(kind: str, scope, p: dict, **kw):
    """Real SPFlow leaf with these parameters."""
    if COLMAP is not None:
        scope = [int(COLMAP[int(c)]) for c in scope]
    if HOOK is not None:
        made = HOOK(kind, scope, p, kw)
        if made is not None:
            return made
    import torch
    from spflow.modules import leaves as L

    t = lambda a: torch.as_tensor(np.asarray(a), dtype=torch.get_default_dtype())  # noqa: E731
    if kind == "bernoulli":
        return L.Bernoulli(scope=scope, probs=t(p["probs"]), **kw)
    if kind == "categorical":
        return L.Categorical(scope=scope, K=p["probs"].shape[-1], probs=t(p["probs"]), **kw)
    if kind == "binomial":
        return L.Binomial(scope=scope, total_count=t(p["total_count"]), probs=t(p["probs"]), **kw)
    if kind == "geometric":
        return L.Geometric(scope=scope, probs=t(p["probs"]), **kw)
    if kind == "negbin":
        return L.NegativeBinomial(scope=scope, total_count=t(p["total_count"]), probs=t(p["probs"]), **kw)
    if kind == "poisson":
        return L.Poisson(scope=scope, rate=t(p["rate"]), **kw)
    if kind == "hypergeometric":
        return L.Hypergeometric(scope=scope, K=t(p["K"]), N=t(p["N"]), n=t(p["n"]), **kw)
    if kind == "normal":
        return L.Normal(scope=scope, loc=t(p["loc"]), scale=t(p["scale"]), **kw)
    if kind == "lognormal":
        return L.LogNormal(scope=scope, loc=t(p["loc"]), scale=t(p["scale"]), **kw)
    if kind == "laplace":
        return L.Laplace(scope=scope, loc=t(p["loc"]), scale=t(p["scale"]), **kw)
    if kind == "exponential":
        return L.Exponential(scope=scope, rate=t(p["rate"]), **kw)
    if kind == "gamma":
        return L.Gamma(scope=scope, concentration=t(p["concentration"]), rate=t(p["rate"]), **kw)
    if kind == "uniform":
        return L.Uniform(scope=scope, low=t(p["low"]), high=t(p["high"]), **kw)
    raise KeyError(kind)


def mode(kind: str, p: dict):
    """(mode, gap of its log-density to the best alternative) for scalar parameters."""
    if kind in ("normal", "laplace"):
        return float(p["loc"]), np.inf
    if kind == "lognormal":
        return float(np.exp(p["loc"] - p["scale"] ** 2)), np.inf
    if kind == "exponential":
        return 0.0, np.inf
    if kind == "gamma":
        return float(max((p["concentration"] - 1) / p["rate"], 0.0)), np.inf
    g = np.arange(0, 80.0) if kind != "categorical" else np.arange(p["probs"].shape[-1], dtype=float)
    v = np.asarray(logpdf(kind, g, p), float)
    o = np.sort(v)
    return float(g[int(v.argmax())]), float(o[-1] - o[-2]) if len(o) > 1 else np.inf
