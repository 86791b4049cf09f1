"""C09: maximum-likelihood estimation of leaves returns the weighted maximiser, per feature, channel and repetition."""
import numpy as np
import torch

from spmon import leafref as LR
from spmon import mon
from spmon.runner import Family, Skip

PID = "C09"
RULE = "distinct = distinct (family, shape, weighting, missing-value) combination whose estimate was compared with the weighted maximiser"
ASSUMPTIONS = ["bias_correction=False estimates are compared with the closed-form weighted maximiser in float64 (rtol 2e-3)",
               "Gamma uses the published closed-form (Ye-Chen) estimator, not the exact maximiser: judged by invariances and by its likelihood on large samples",
               "bias-corrected estimates must agree with the maximiser up to O(1/N)"]

KINDS = ["normal", "lognormal", "laplace", "exponential", "gamma", "poisson", "geometric", "negbin", "bernoulli", "binomial", "categorical", "histogram"]


def _leaf(ctx, kind, F, C, R, cols, K, total, edges=None):
    from spflow.meta.data.scope import Scope
    from spflow.modules import leaves as L

    if kind == "histogram":
        return L.Histogram(scope=Scope(cols), bin_edges=torch.tensor(edges, dtype=torch.float32), out_channels=C, num_repetitions=R)
    p = LR.rand_params(kind, ctx.rng, (F, C, R), K=K, total=total)
    return LR.build(kind, Scope(cols), p)


def _data(kind, rng, n, K, total, edges=None):
    if kind == "histogram":
        return rng.uniform(edges[0], edges[-1] - 1e-3, n)
    if kind in ("normal", "laplace"):
        return rng.normal(rng.normal(0, 4), rng.uniform(0.3, 5), n)
    if kind in ("lognormal", "exponential", "gamma"):
        return np.exp(rng.normal(rng.normal(0, 0.7), rng.uniform(0.3, 0.9), n))
    if kind == "poisson":
        return rng.poisson(rng.uniform(0.5, 8), n).astype(float)
    if kind in ("geometric", "negbin"):
        return rng.geometric(rng.uniform(0.15, 0.7), n).astype(float) - 1
    if kind == "bernoulli":
        return (rng.random(n) < rng.uniform(0.1, 0.9)).astype(float)
    if kind == "binomial":
        return rng.binomial(total, rng.uniform(0.1, 0.9), n).astype(float)
    return rng.choice(K, n, p=rng.dirichlet(np.ones(K) * 2)).astype(float)


def closed_form(kind, x, w, K=None, total=None, edges=None):
    """Weighted maximiser for one slot."""
    W = w.sum()
    m = (w * x).sum() / W
    if kind in ("normal", "lognormal"):
        y = np.log(x) if kind == "lognormal" else x
        m = (w * y).sum() / W
        return {"loc": m, "scale": np.sqrt((w * (y - m) ** 2).sum() / W)}
    if kind == "exponential":
        return {"rate": 1 / m}
    if kind == "poisson":
        return {"rate": m}
    if kind == "geometric":
        return {"probs": 1 / (1 + m)}
    if kind == "negbin":
        return {"probs": m / (m + total)}
    if kind == "bernoulli":
        return {"probs": m}
    if kind == "binomial":
        return {"probs": m / total}
    if kind == "categorical":
        return {"probs": np.array([(w * (x == k)).sum() for k in range(K)]) / W}
    if kind == "histogram":
        b = np.clip(np.searchsorted(edges, x, side="right") - 1, 0, len(edges) - 2)
        return {"probs": np.array([(w * (b == k)).sum() for k in range(len(edges) - 1)]) / W}
    raise KeyError(kind)


def _get(m, kind):
    ks = {"normal": ("loc", "scale"), "lognormal": ("loc", "scale"), "laplace": ("loc", "scale"), "exponential": ("rate",), "poisson": ("rate",),
          "gamma": ("concentration", "rate"), "histogram": ("probs",)}.get(kind, ("probs",))
    return {k: getattr(m, k).detach().double().numpy().copy() for k in ks}


def _weights(rng, style, n, F, C, R):
    if style == "none":
        return None
    if style == "uniform":
        return np.full((n, F, C, R), float(rng.uniform(0.01, 50)))
    if style == "shared":
        return np.broadcast_to(rng.gamma(0.7, 1.0, (n, 1, 1, 1)) + 1e-3, (n, F, C, R)).copy()
    w = rng.gamma(0.7, 1.0, (n, F, C, R)) + 1e-3
    if style == "zeros":
        w = w * (rng.random((n, F, C, R)) < 0.6)
        w[:4] += 0.5
    return w


def _setup(ctx, kinds=KINDS):
    rng = ctx.rng
    kind = kinds[int(rng.integers(len(kinds)))]
    F = 1 if kind == "histogram" else int(rng.integers(1, 4))
    C, R = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    K, total = int(rng.integers(2, 6)), int(rng.integers(1, 8))
    edges = np.cumsum(np.r_[rng.normal(0, 2), rng.uniform(0.3, 2, int(rng.integers(2, 6)))]).astype(np.float32).astype(float)
    width = F + int(rng.integers(0, 3))
    cols = [int(c) for c in rng.permutation(width)[:F]]
    n = int(rng.integers(12, 120))
    X = rng.normal(0, 1, (n, width))
    for c in cols:
        X[:, c] = _data(kind, rng, n, K, total, edges)
    X = X.astype(np.float32).astype(float)
    style = ["none", "uniform", "shared", "full", "zeros"][int(rng.integers(5))]
    w = _weights(rng, style, n, F, C, R)
    m = _leaf(ctx, kind, F, C, R, cols, K, total, edges)
    ctx.count("family:" + kind)
    ctx.count("weights:" + style)
    ctx.note(f"{kind} F={F} C={C} R={R} n={n} weights={style} cols={cols}")
    ctx.key(kind, F, C, R, style, n // 30)
    return kind, m, X, w, cols, K, total, edges


def _fit(m, X, w, bc=False, **kw):
    m.maximum_likelihood_estimation(mon.tt(X), weights=None if w is None else torch.tensor(w, dtype=torch.float32), bias_correction=bc, **kw)


def f_closed(ctx):
    kind, m, X, w, cols, K, total, edges = _setup(ctx)
    rng = ctx.rng
    F, C, R = m.out_shape.features, m.out_shape.channels, m.out_shape.repetitions
    n = X.shape[0]
    miss = rng.random() < 0.35
    Xf = X.copy()
    if miss:  # rows with a missing value in the scope are ignored; missing values elsewhere do not matter
        sel = rng.random(n) < 0.25
        sel[:6] = False
        for i in np.where(sel)[0]:
            Xf[i, cols[int(rng.integers(F))]] = np.nan
        oth = [c for c in range(X.shape[1]) if c not in cols]
        if oth:
            Xf[rng.random(n) < 0.3, oth[0]] = np.nan
        ctx.count("missing:rows dropped", int(sel.sum()))
    keep = ~np.isnan(Xf[:, cols]).any(1)
    W = np.ones((n, F, C, R)) if w is None else w
    if kind == "gamma" or (W[keep].sum(0) <= 0).any():
        raise Skip("no closed form / empty column")
    _fit(m, Xf, w, nan_strategy="ignore" if miss else None)
    got = _get(m, kind)
    for f in range(F):
        x = X[keep, cols[f]]
        for c in range(C):
            for r in range(R):
                ww = W[keep, f, c, r]
                if kind == "laplace":
                    # any weighted median maximises: compare the attained likelihood
                    b = got["scale"][f, c, r]
                    mu = got["loc"][f, c, r]
                    obj = lambda a: (ww * np.abs(x - a)).sum()  # noqa: E731
                    best = min(obj(a) for a in x)
                    ctx.check(obj(mu) <= best * (1 + 1e-4) + 1e-6, f"laplace location {mu} is not a weighted median (slot {f},{c},{r})")
                    ctx.close(b, obj(mu) / ww.sum(), f"laplace scale slot {(f, c, r)}", 2e-3, 1e-5)
                    continue
                want = closed_form(kind, x, ww, K, total, edges)
                for k, v in want.items():
                    if kind in ("bernoulli", "binomial", "geometric", "negbin"):
                        v = np.clip(v, 1e-7, 1 - 1e-7)
                    g = got[k][f, c, r]
                    ctx.close(g, v, f"{kind} estimate of {k}, slot {(f, c, r)}", 2e-3, 2e-4 if k != "scale" else 1e-4)


def f_dup(ctx):
    """Integer weights mean duplicated rows; scaling all weights or reordering rows changes nothing; zero-weight rows are irrelevant."""
    kind, m, X, w, cols, K, total, edges = _setup(ctx)
    rng = ctx.rng
    F, C, R = m.out_shape.features, m.out_shape.channels, m.out_shape.repetitions
    n = X.shape[0]
    iw = rng.integers(0, 4, n)
    iw[:5] = 2
    iw[0] += 1 - iw.sum() % 2  # an odd total: no exact tie for the weighted median
    W = np.broadcast_to(iw[:, None, None, None].astype(float), (n, F, C, R)).copy()
    tol = dict(rtol=5e-3, atol=5e-4)

    def run(X, W):
        _fit(m, X, W)
        return _get(m, kind)

    a = run(X, W)
    variants = {"duplicated rows": (np.repeat(X, iw, 0), None),
                "weights scaled": (X, W * float(rng.choice([1e-3, 0.1, 37.0, 1e3]))),
                "rows without zero weights": (X[iw > 0], W[iw > 0])}
    p = rng.permutation(n)
    variants["rows permuted"] = (X[p], W[p])
    # each slot is estimated from its own weights: scaling one slot's weights leaves every slot unchanged
    S = rng.uniform(0.05, 20, (1, F, C, R))
    variants["slots scaled separately"] = (X, W * S)
    for name, (x2, w2) in variants.items():
        b = run(x2, w2)
        for k in a:
            ctx.close(b[k], a[k], f"{kind} estimate of {k}: {name}", **tol)
        ctx.count("variant:" + name)


def f_bias(ctx):
    """The bias-corrected estimate agrees with the maximiser up to O(1/N) and is insensitive to the leaf's shape and the weights' scale."""
    kind, m, X, w, cols, K, total, edges = _setup(ctx)
    rng = ctx.rng
    n = X.shape[0]
    F, C, R = m.out_shape.features, m.out_shape.channels, m.out_shape.repetitions
    if w is not None and ((w > 0).sum(0) < 8).any():
        raise Skip("too few effective rows")
    _fit(m, X, w, bc=True)
    b = _get(m, kind)
    _fit(m, X, w, bc=False)
    a = _get(m, kind)
    for k in a:
        ctx.check(np.isfinite(b[k]).all(), f"{kind}: bias-corrected {k} is not finite")
        if kind in ("normal", "lognormal") and k == "scale":
            ctx.close(b[k], a[k] * np.sqrt(n / (n - 1)), f"{kind} bias-corrected scale", 3e-3, 1e-5)
            continue
        d = np.abs(b[k] - a[k]) / (np.abs(a[k]) + 1e-3)
        ctx.check((d <= 6.0 / n + 2e-3).all(), f"{kind}: bias correction moved {k} by {d.max():.3f} relative with n={n}")
    _fit(m, X, np.full((n, F, C, R), 1.0) if w is None else w * 13.0, bc=True)
    c = _get(m, kind)
    for k in a:
        ctx.close(c[k], b[k], f"{kind} bias-corrected {k}: weights scaled / all one", 5e-3, 5e-4)


def f_recover(ctx):
    """With much data drawn from a member of the family, the estimate reaches (at least) the likelihood of the true parameters."""
    rng = ctx.rng
    kind = ["gamma", "gamma", "normal", "laplace", "exponential", "poisson", "negbin", "binomial", "categorical"][int(rng.integers(9))]
    F, C, R = int(rng.integers(1, 3)), int(rng.integers(1, 3)), 1
    K, total = 4, 5
    true = LR.rand_params(kind, rng, (F, 1, 1), K=K, total=total)
    src = LR.build(kind, list(range(F)), true)
    n = 4000
    X = src.sample(num_samples=n).detach().double().numpy()
    m = LR.build(kind, list(range(F)), LR.rand_params(kind, rng, (F, C, R), K=K, total=total))
    _fit(m, X, None, bc=bool(rng.integers(2)))
    ctx.key("recover", kind, F, C)
    L1 = m.log_likelihood(mon.tt(X)).detach().double().numpy().mean(0)
    L0 = src.log_likelihood(mon.tt(X)).detach().double().numpy().mean(0)
    ctx.check((L1 >= L0 - 5e-3).all(), f"{kind}: mean log-likelihood after estimation {L1.min():.4f} is below that of the true parameters {L0.min():.4f}")


def f_edge(ctx):
    """Degenerate columns leave usable (finite, in-range) parameters and finite log-likelihoods of the training data."""
    rng = ctx.rng
    kinds = [k for k in KINDS if k not in ("gamma", "histogram")]
    kind = kinds[int(rng.integers(len(kinds)))]
    F, C, R = int(rng.integers(1, 3)), int(rng.integers(1, 3)), int(rng.integers(1, 3))
    K, total = 3, 4
    n = int(rng.integers(3, 30))
    m = LR.build(kind, list(range(F)), LR.rand_params(kind, rng, (F, C, R), K=K, total=total))
    v = {"bernoulli": [0, 1], "categorical": [0, 1, 2], "binomial": [0, 4, 2], "geometric": [0, 3], "negbin": [0, 5], "poisson": [0, 4],
         "normal": [0.0, 3.25, -200.0], "laplace": [0.0, 1.5], "lognormal": [1.0, 7.5], "exponential": [0.5, 80.0]}[kind]
    val = float(v[int(rng.integers(len(v)))])
    X = np.full((n, F), val)
    ctx.key("edge", kind, val, F, C, R)
    ctx.count("degenerate:" + kind)
    _fit(m, X, None, bc=bool(rng.integers(2)))
    for k, p in m.params().items():
        ctx.check(torch.isfinite(p).all() or (kind == "categorical" and not torch.isnan(p).any()), f"{kind}: parameter {k} is not finite after a constant column of {val}")
    L = m.log_likelihood(mon.tt(X)).detach()
    ctx.check(torch.isfinite(L).all(), f"{kind}: log-likelihood of the constant training column {val} is not finite ({L.min()})")


def f_fixed(ctx):
    """Families without learnable parameters are unchanged by estimation."""
    rng = ctx.rng
    kind = ["uniform", "hypergeometric"][int(rng.integers(2))]
    p = LR.rand_params(kind, rng, (2, 2, 2))
    m = LR.build(kind, [0, 1], p)
    before = {k: v.clone() for k, v in m.params().items()}
    lo = float(np.max(p["low"])) if kind == "uniform" else float(np.maximum(0, p["n"] + p["K"] - p["N"]).max())
    m.maximum_likelihood_estimation(torch.full((6, 2), lo))
    ctx.key("fixed", kind)
    for k, v in m.params().items():
        ctx.check(torch.equal(v, before[k]), f"{kind}: parameter {k} changed by estimation")


def f_nan_policy(ctx):
    """Missing values without a strategy are rejected, and a rejected request leaves the leaf unchanged."""
    kind, m, X, w, cols, K, total, edges = _setup(ctx)
    rng = ctx.rng
    before = {k: v.detach().clone() for k, v in m.state_dict().items()}
    Xn = X.copy()
    Xn[int(rng.integers(len(X))), cols[0]] = np.nan
    try:
        _fit(m, Xn, w)
        ctx.fail(f"{kind}: estimation accepted missing values without a strategy")
    except ValueError:
        ctx.count("rejected")
    for k, v in m.state_dict().items():
        ctx.check(torch.equal(v, before[k]), f"{kind}: rejected estimation changed {k}")


def f_cltree(ctx):
    """Tree leaves: conditional probability tables are the (weighted, smoothed) relative frequencies of each slot."""
    from spflow.meta.data.scope import Scope
    from spflow.modules.leaves import CLTree

    rng = ctx.rng
    F, C, R, K = int(rng.integers(2, 5)), int(rng.integers(1, 3)), int(rng.integers(1, 3)), int(rng.integers(2, 4))
    n = int(rng.integers(30, 200))
    alpha = float(rng.choice([0.01, 0.5, 2.0]))
    order = rng.permutation(F)
    parents = np.full(F, -1)
    for i in range(1, F):
        parents[order[i]] = order[int(rng.integers(i))]
    m = CLTree(scope=Scope(list(range(F))), out_channels=C, num_repetitions=R, K=K, alpha=alpha, parents=torch.tensor(parents))
    X = rng.integers(0, K, (n, F)).astype(float)
    style = ["none", "shared", "slot"][int(rng.integers(3))]
    w = np.ones((n, C, R))
    if style == "shared":
        w = np.broadcast_to(rng.gamma(1, 1, (n, 1, 1)) + 0.01, (n, C, R)).copy()
    elif style == "slot":
        w = rng.gamma(1, 1, (n, C, R)) + 0.01
    W = None if style == "none" else torch.tensor(np.broadcast_to(w[:, None], (n, F, C, R)).copy(), dtype=torch.float32)
    m.maximum_likelihood_estimation(mon.tt(X), weights=W)
    ctx.key("cltree", F, C, R, K, style)
    ctx.count("family:cltree")
    ctx.check(m.parents.tolist() == list(parents), "estimation replaced the given tree")
    T = m.log_cpt.detach().double().exp().numpy()
    wn = w * (n / w.sum(0, keepdims=True))
    x = X.astype(int)
    for i in range(F):
        p = parents[i]
        for c in range(C):
            for r in range(R):
                ww = wn[:, c, r]
                if p < 0:
                    cnt = np.array([ww[x[:, i] == k].sum() for k in range(K)]) + alpha
                    ctx.close(T[i, c, r], np.repeat((cnt / cnt.sum())[:, None], K, 1), "cltree root table", 2e-3, 2e-4)
                else:
                    cnt = np.array([[ww[(x[:, i] == a) & (x[:, p] == b)].sum() for b in range(K)] for a in range(K)]) + alpha
                    ctx.close(T[i, c, r], cnt / cnt.sum(0, keepdims=True), f"cltree table of variable {i} given {p}", 2e-3, 2e-4)


def f_narrow(ctx):
    """Single-precision fits of data whose spread is small against its mean keep their digits."""
    rng = ctx.rng
    kind = ["normal", "lognormal", "laplace", "gamma"][int(rng.integers(4))]
    n = int(rng.integers(60, 500))
    ratio = float(10 ** rng.uniform(0.5, 3))          # mean / spread
    spread = float(10 ** rng.uniform(-2, 2))
    if kind == "lognormal":                            # the logarithm is what is narrow
        ratio, spread = min(ratio, 200.0), float(rng.uniform(0.02, 0.05))
    x = rng.normal(ratio * spread, spread, n)
    x = np.abs(x) + 1e-3 * spread if kind != "lognormal" else np.exp(x)
    x = x.astype(np.float32).astype(float)
    C = int(rng.integers(1, 3))
    w = None if rng.random() < 0.4 else rng.gamma(0.7, 1.0, (n, 1, C, 1)) + 1e-3
    bc = bool(rng.random() < 0.5) and kind == "gamma" and w is None
    m = _leaf(ctx, kind, 1, C, 1, [0], 3, 3)
    X = x[:, None]
    _fit(m, X, w, bc=bc)
    got = _get(m, kind)
    ctx.count("family:" + kind)
    ctx.note(f"{kind} mean/spread={ratio:.1f} spread={spread:.3g} n={n} weighted={w is not None} bias={bc}")
    ctx.key(kind, int(np.log10(ratio) * 3), w is not None)
    for c in range(C):
        ww = (np.ones((n, 1, C, 1)) if w is None else w)[:, 0, c, 0].astype(np.float32).astype(float)
        if kind == "gamma":
            W = ww.sum()
            mx, l = (ww * x).sum() / W, np.log(x)
            theta = (ww * (x - mx) * (l - (ww * l).sum() / W)).sum() / W
            k, r = mx / theta, 1 / theta
            if bc:
                k = k - (3 * k - 2 / 3 * (k / (1 + k)) - 4 / 5 * (k / (1 + k) ** 2)) / W
                r = r * (W - 1) / W
            ctx.close(got["concentration"][0, c, 0] / k, 1.0, "gamma concentration of narrow data, relative to double precision", 0, 0.02)
            ctx.close(got["rate"][0, c, 0] / r, 1.0, "gamma rate of narrow data, relative to double precision", 0, 0.02)
            continue
        if kind == "laplace":
            mu = got["loc"][0, c, 0]
            b = (ww * np.abs(x - mu)).sum() / ww.sum()
            best = min((ww * np.abs(x - a)).sum() for a in x) / ww.sum()
            ctx.check(b <= best * 1.001, "laplace location of narrow data is not a weighted median")
            ctx.close(got["scale"][0, c, 0] / b, 1.0, "laplace scale of narrow data, relative to double precision", 0, 0.01)
            continue
        want = closed_form(kind, x, ww)
        ctx.close((got["loc"][0, c, 0] - want["loc"]) / want["scale"], 0.0, f"{kind} location of narrow data, in spreads", 0, 0.02)
        ctx.close(got["scale"][0, c, 0] / want["scale"], 1.0, f"{kind} scale of narrow data, relative to double precision", 0, 0.01)


FAMILIES = [
    Family("narrow", f_narrow, 240, 6000),
    Family("closed", f_closed, 1200, 24000),
    Family("dup", f_dup, 600, 12000),
    Family("bias", f_bias, 480, 10000),
    Family("recover", f_recover, 120, 1200),
    Family("edge", f_edge, 360, 5000),
    Family("fixed", f_fixed, 24, 120),
    Family("nan_policy", f_nan_policy, 90, 1200),
    Family("cltree", f_cltree, 240, 5000),
]
