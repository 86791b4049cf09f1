"""C08: leaf densities, samples and modes follow the named distribution family."""
import numpy as np
import torch

from spmon import leafref as LR
from spmon import mon
from spmon.runner import Family, Skip

PID = "C08"
RULE = "distinct = distinct (family, shape, parametrisation) combination whose density, sample and mode were compared with the closed form"
ASSUMPTIONS = ["scipy / closed-form float64 densities are the oracle; relative tolerance 2e-4 in float32, 1e-9 in float64",
               "an out-of-support value must give -inf or be rejected with an error; both are accepted",
               "sampling verdicts: chi-square / KS at p < 1e-10 or any impossible draw"]

DISC = ["bernoulli", "categorical", "binomial", "geometric", "negbin", "poisson", "hypergeometric"]
CONT = ["normal", "lognormal", "laplace", "exponential", "gamma", "uniform"]
OUT = {"bernoulli": [2.0, -1.0, 0.5], "categorical": [-1.0, 40.0], "binomial": [-1.0, 99.0], "geometric": [-1.0, 1.5],
       "negbin": [-2.0, 0.5], "poisson": [-1.0, 2.5], "hypergeometric": [-1.0, 99.0], "lognormal": [-0.5, 0.0],
       "exponential": [-0.25], "gamma": [-0.5], "uniform": [-50.0, 50.0]}


def _extreme(kind, rng, shape, K, total):
    """Parameters reaching far from the comfortable middle."""
    f32 = lambda a: np.asarray(a, np.float32).astype(np.float64)  # noqa: E731
    p = LR.rand_params(kind, rng, shape, K=K, total=total)
    if rng.random() < 0.5:
        return p
    if kind in ("bernoulli", "binomial", "geometric", "negbin"):
        p["probs"] = f32(np.clip(10 ** rng.uniform(-4, 0, shape), 1e-4, 0.97 if kind == "negbin" else 1 - 1e-4))
        if kind == "geometric":
            p["probs"] = f32(np.clip(p["probs"], 0.01, 0.999))
    elif kind == "categorical":
        w = rng.dirichlet(np.ones(K) * 0.3, size=shape) + 1e-5
        p["probs"] = f32(w / w.sum(-1, keepdims=True))
    elif kind == "poisson":
        p["rate"] = f32(10 ** rng.uniform(-3, 1.8, shape))
    elif kind in ("normal", "laplace"):
        p = {"loc": f32(rng.normal(0, 20, shape)), "scale": f32(10 ** rng.uniform(-2, 2, shape))}
    elif kind == "lognormal":
        p = {"loc": f32(rng.normal(0, 2, shape)), "scale": f32(10 ** rng.uniform(-1, 0.3, shape))}
    elif kind == "exponential":
        p["rate"] = f32(10 ** rng.uniform(-2, 2, shape))
    elif kind == "gamma":
        p = {"concentration": f32(10 ** rng.uniform(-0.5, 1.5, shape)), "rate": f32(10 ** rng.uniform(-1, 1, shape))}
    elif kind == "uniform":
        lo = f32(rng.normal(0, 10, shape))
        p = {"low": lo, "high": f32(lo + 10 ** rng.uniform(-1, 1.5, shape))}
    elif kind == "hypergeometric":
        N = float(rng.integers(10, 40))
        p = {"N": np.full(shape, N), "K": np.full(shape, float(rng.integers(0, int(N) + 1))),
             "n": np.full(shape, float(rng.integers(0, int(N) + 1)))}
    return p


def _per_channel_hyper(p, rng):
    """Hypergeometric parameters may differ between channels and repetitions (not between features)."""
    F, C, R = p["N"].shape
    N = rng.integers(3, 14, (1, C, R)).astype(float)
    K = np.floor(rng.uniform(0, 1, (1, C, R)) * (N + 1))
    n = np.floor(rng.uniform(0, 1, (1, C, R)) * (N + 1))
    o = np.ones((F, 1, 1))
    return {"N": o * N, "K": o * np.minimum(K, N), "n": o * np.minimum(n, N)}


def _make(ctx, kinds):
    from spflow.meta.data.scope import Scope

    rng = ctx.rng
    kind = kinds[int(rng.integers(len(kinds)))]
    F, C, R = int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    K = int(rng.integers(2, 8))
    total = int(rng.integers(1, 12))
    p = _extreme(kind, rng, (F, C, R), K, total)
    if kind == "hypergeometric" and rng.random() < 0.6:
        p = _per_channel_hyper(p, rng)
    width = F + int(rng.integers(0, 4))
    cols = [int(c) for c in rng.permutation(width)[:F]]
    style = ["probs", "logits", "setter"][int(rng.integers(3))]
    kw = {}
    if kind in ("bernoulli", "binomial", "geometric", "negbin") and style == "logits":
        t = lambda a: torch.as_tensor(np.asarray(a), dtype=torch.get_default_dtype())  # noqa: E731
        from spflow.modules import leaves as L
        cls = {"bernoulli": L.Bernoulli, "binomial": L.Binomial, "geometric": L.Geometric, "negbin": L.NegativeBinomial}[kind]
        if "total_count" in p:
            kw["total_count"] = t(p["total_count"])
        lg = np.asarray(np.log(p["probs"]) - np.log1p(-p["probs"]), np.float32).astype(float)
        p["probs"] = 1 / (1 + np.exp(-lg))
        m = cls(scope=Scope(cols), logits=t(lg), **kw)
    elif kind == "categorical" and style == "logits":
        from spflow.modules.leaves import Categorical
        lg = np.asarray(np.log(p["probs"]) + rng.normal(0, 3, (F, C, R, 1)), np.float32).astype(float)
        e = np.exp(lg - lg.max(-1, keepdims=True))
        p["probs"] = e / e.sum(-1, keepdims=True)
        m = Categorical(scope=Scope(cols), K=K, logits=torch.as_tensor(lg, dtype=torch.get_default_dtype()))
    elif style == "setter" and kind not in ("hypergeometric", "uniform"):
        p0 = LR.rand_params(kind, rng, (F, C, R), K=K, total=total)
        if "total_count" in p:
            p0["total_count"] = p["total_count"]
        m = LR.build(kind, Scope(cols), p0)
        for k, v in p.items():
            if k == "total_count":
                continue
            tv = torch.as_tensor(v, dtype=torch.get_default_dtype())
            attr = getattr(m, k)
            if isinstance(attr, torch.nn.Parameter):
                attr.data = tv
            else:
                setattr(m, k, tv)
    else:
        style = "ctor"
        m = LR.build(kind, Scope(cols), p)
    ctx.count("family:" + kind)
    ctx.count("params via:" + style)
    ctx.key(kind, F, C, R, style, width > F)
    ctx.note(f"{kind} F={F} C={C} R={R} cols={cols} width={width} {style}")
    ctx.check(m.out_shape.features == F and m.out_shape.channels == C and m.out_shape.repetitions == R,
              f"{kind}: declared shape {m.out_shape} for parameters of shape {(F, C, R)}")
    return kind, m, p, cols, width, K, total


def _values(kind, rng, p, f, n, K, total):
    if kind in ("normal", "laplace"):
        c, r = rng.integers(p["loc"].shape[1]), rng.integers(p["loc"].shape[2])
        return p["loc"][f, c, r] + p["scale"][f, c, r] * rng.normal(0, 3, n)
    if kind == "lognormal":
        return np.exp(p["loc"][f, 0, 0] + p["scale"][f, 0, 0] * rng.normal(0, 2, n))
    if kind == "exponential":
        return rng.exponential(2, n) / p["rate"][f, 0, 0]
    if kind == "gamma":
        return np.maximum(rng.gamma(p["concentration"][f, 0, 0], 2.0, n) / p["rate"][f, 0, 0], 1e-3)
    if kind == "poisson":
        return rng.poisson(p["rate"][f, 0, 0], n).astype(float) + rng.integers(0, 4, n)
    if kind in ("geometric", "negbin"):
        return rng.integers(0, 40, n).astype(float)
    return LR.sample_data(kind, rng, n, K=K, total=total)


def f_density(ctx):
    rng = ctx.rng
    dbl = rng.random() < 0.3
    if dbl:
        torch.set_default_dtype(torch.float64)
    kind, m, p, cols, width, K, total = _make(ctx, DISC + CONT)
    F, C, R = len(cols), m.out_shape.channels, m.out_shape.repetitions
    if kind == "categorical":
        p = {"probs": p["probs"] / p["probs"].sum(-1, keepdims=True)}
    n = 40
    X = rng.normal(0, 5, (n, width))  # columns outside the scope hold arbitrary values, also NaN
    X[rng.random((n, width)) < 0.2] = np.nan
    for f, c in enumerate(cols):
        if kind == "hypergeometric":
            lo = np.maximum(0, p["n"] + p["K"] - p["N"]).max()
            hi = np.minimum(p["n"], p["K"]).min()
            if hi < lo:
                raise Skip("no value is in the support of all channels")
            X[:, c] = rng.integers(lo, hi + 1, n)
        elif kind == "uniform":
            lo, hi = p["low"][f].min(), p["high"][f].max()
            X[:, c] = lo + (hi - lo) * rng.uniform(-0.3, 1.3, n)
        else:
            X[:, c] = _values(kind, rng, p, f, n, K, total)
    if not dbl:
        X = X.astype(np.float32).astype(float)
    T = torch.as_tensor(X, dtype=torch.get_default_dtype())
    miss = rng.random((n, F)) < 0.15
    Tm = T.clone()
    for f, c in enumerate(cols):
        Tm[torch.as_tensor(miss[:, f]), c] = float("nan")
    got = m.log_likelihood(Tm).detach().double().numpy()
    want = np.stack([LR.logpdf(kind, X[:, c][:, None, None], {k: v[f] for k, v in p.items()}) for f, c in enumerate(cols)], 1)
    want = np.where(miss[:, :, None, None], 0.0, want)
    # cancellation-aware tolerance: relative to the size of the quantities entering the density
    big = 1.0 + np.where(np.isfinite(want), np.abs(want), 0.0)
    if kind in ("normal", "lognormal", "laplace"):
        xv = X[:, cols]
        z = np.log(np.maximum(xv, 1e-30)) if kind == "lognormal" else xv
        with np.errstate(all="ignore"):
            rel = (np.abs(z)[:, :, None, None] + np.abs(p["loc"])[None]) / p["scale"][None]
            dev = np.abs(z[:, :, None, None] - p["loc"][None]) / p["scale"][None]
        big = big + (rel * (dev if kind != "laplace" else 1.0))
    elif kind in ("poisson", "negbin", "gamma", "binomial", "hypergeometric", "geometric"):
        big = big + 40.0
        if kind == "poisson":
            big = big + p["rate"][None] + np.abs(X[:, cols])[:, :, None, None] * 5
        if kind == "gamma":
            big = big + (p["concentration"] * 4 + 0)[None] + (p["rate"][None] * np.abs(X[:, cols])[:, :, None, None])
    elif kind == "uniform":
        big = big + ((np.abs(p["low"]) + np.abs(p["high"])) / (p["high"] - p["low"]))[None]
    eps = 1e-9 if dbl else 3e-6
    if dbl and kind in ("hypergeometric", "binomial"):
        eps = 1e-8
    same = np.isneginf(got) & np.isneginf(want)
    with np.errstate(invalid="ignore"):
        ok = same | (np.abs(got - want) <= eps * big * (1 if dbl else 3) + (1e-9 if dbl else 2e-5))
    ctx.count("values_compared", got.size)
    ctx.count("verdicts")
    if got.shape != want.shape or not ok.all():
        if got.shape != want.shape:
            ctx.fail(f"{kind}: log-likelihood shape {got.shape} expected {want.shape}")
        i = tuple(int(v) for v in np.argwhere(~ok)[0])
        ctx.fail(f"{kind}: log-density wrong at {i}: x={X[i[0], cols[i[1]]]!r} got {got[i]!r} expected {want[i]!r}"
                 + (" (missing value must contribute 0)" if miss[i[0], i[1]] else ""))


def f_outside(ctx):
    """Values outside the support never get a positive density, and never poison other rows."""
    rng = ctx.rng
    kind, m, p, cols, width, K, total = _make(ctx, list(OUT))
    F = len(cols)
    X = np.full((1, width), np.nan)
    bad = OUT[kind][int(rng.integers(len(OUT[kind])))]
    if kind == "categorical" and bad > 0:
        bad = float(K)
    if kind == "binomial" and bad > 0:
        bad = float(np.max(p["total_count"]) + 1)
    if kind == "hypergeometric" and bad > 0:
        bad = float(np.minimum(p["n"], p["K"]).max() + 1)
    elif kind == "hypergeometric":
        least = np.maximum(p["n"] + p["K"] - p["N"], 0).min()
        if least > 0 and ctx.idx % 3:
            bad = float(rng.integers(0, int(least)))
    if kind == "uniform":
        bad = float(p["high"].max() + 0.5) if bad > 0 else float(p["low"].min() - 0.5)
    f = int(rng.integers(F))
    X[0, cols[f]] = bad
    try:
        got = m.log_likelihood(torch.as_tensor(X, dtype=torch.float32)).detach().double().numpy()
    except ValueError:
        ctx.count("rejected with ValueError")
        ctx.count("verdicts")
        return
    ctx.count("scored")
    v = got[0, f]
    ctx.check(not (v > -80).any() and not np.isnan(v).any(), f"{kind}: value {bad} outside the support got log-density {v.max()!r}")
    o = [i for i in range(F) if i != f]
    ctx.check((got[0, o] == 0).all(), f"{kind}: missing features next to an out-of-support value did not contribute 0")


def f_normalised(ctx):
    """The leaf's own density sums / integrates to one (independent of any reference formula)."""
    rng = ctx.rng
    kind = (DISC + CONT)[int(rng.integers(len(DISC + CONT)))]
    C, R = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    p = LR.rand_params(kind, rng, (1, C, R), K=int(rng.integers(2, 7)), total=int(rng.integers(1, 9)))
    m = LR.build(kind, [0], p)
    ctx.key("norm", kind, C, R)
    ctx.count("family:" + kind)
    if kind in DISC:
        hi = {"bernoulli": 1, "categorical": p["probs"].shape[-1] - 1 if kind == "categorical" else None}.get(kind)
        if kind == "binomial":
            hi = int(p["total_count"].max())
        lo = 0
        if kind == "hypergeometric":
            lo = int(np.maximum(0, p["n"] + p["K"] - p["N"]).max())
            hi = int(np.minimum(p["n"], p["K"]).min())
        x = np.arange(lo, (hi if hi is not None else 400) + 1.0)
        L = m.log_likelihood(mon.tt(x[:, None])).detach().double().numpy()[:, 0]
        tot = np.exp(L).sum(0)
    else:
        torch.set_default_dtype(torch.float64)
        m = LR.build(kind, [0], p)
        g = {"normal": (-25, 25), "laplace": (-45, 45), "lognormal": (-12, 9), "exponential": (-14, 5.5), "gamma": (-14, 5)}.get(kind)
        if kind == "uniform":
            for c in range(C):
                for r in range(R):
                    lo, hi = p["low"][0, c, r], p["high"][0, c, r]
                    mm = LR.build(kind, [0], {k: v[:, c:c + 1, r:r + 1] for k, v in p.items()})
                    x = np.linspace(lo, hi, 2003)[1:-1]
                    e = np.exp(mm.log_likelihood(torch.tensor(x[:, None])).detach().numpy()[:, 0, 0, 0])
                    ctx.close(e.mean() * (hi - lo), 1.0, f"{kind}: integral of the density", 1e-6, 1e-6)
            return
        u = np.linspace(g[0], g[1], 60001)
        x = np.exp(u) if kind in ("lognormal", "exponential", "gamma") else u
        jac = x if kind in ("lognormal", "exponential", "gamma") else 1.0
        e = np.exp(m.log_likelihood(torch.tensor(x[:, None])).detach().numpy()[:, 0])
        tot = np.trapezoid(e * np.reshape(jac * np.ones_like(u), (-1, 1, 1)), u, axis=0)
    ctx.close(tot, np.ones((C, R)), f"{kind}: total mass", 1e-3, 2e-3 if kind in ("gamma", "exponential") else 5e-4)


def _slot_samples(m, n, width, chan, rep, mpe=False, data=None):
    from spflow.utils.sampling_context import SamplingContext
    from spflow.utils.cache import Cache

    d = torch.full((n, width), float("nan")) if data is None else data
    F = m.out_shape.features
    sc = SamplingContext(channel_index=torch.as_tensor(np.broadcast_to(chan, (n, F)).copy(), dtype=torch.long),
                         mask=torch.ones((n, F), dtype=torch.bool),
                         repetition_index=torch.as_tensor(np.broadcast_to(rep, (n,)).copy(), dtype=torch.long), is_mpe=mpe)
    return m._sample(data=d, sampling_ctx=sc, cache=Cache())


def f_sample(ctx):
    """Draws of every (feature, channel, repetition) follow that slot's family member."""
    rng = ctx.rng
    kind, m, p, cols, width, K, total = _make(ctx, DISC + CONT)
    F, C, R = len(cols), m.out_shape.channels, m.out_shape.repetitions
    slots = [(c, r) for c in range(C) for r in range(R)]
    per = 2500 if ctx.tier == "quick" else 12000
    n = per * len(slots)
    who = rng.permutation(np.repeat(np.arange(len(slots)), per))
    cs = np.array([s[0] for s in slots])[who]
    rs = np.array([s[1] for s in slots])[who]
    if m.in_shape is not None and F == width and sorted(cols) == list(range(F)) or True:
        D = _slot_samples(m, n, width, cs[:, None], rs)
    S = D.detach().double().numpy()
    oth = [c for c in range(width) if c not in cols]
    ctx.check(np.isnan(S[:, oth]).all(), f"{kind}: sampling wrote into columns outside the scope")
    ctx.check(np.isfinite(S[:, cols]).all(), f"{kind}: sampling left missing or infinite values")
    for si, (c, r) in enumerate(slots):
        for f in range(F):
            s = S[who == si, cols[f]]
            q = {k: v[f, c, r] for k, v in p.items()}
            what = f"{kind} sample (feature {f}, channel {c}, repetition {r}, {({k: np.round(v, 4).tolist() for k, v in q.items()})})"
            if kind in DISC:
                top = int(max(s.max(), {"categorical": K - 1, "bernoulli": 1}.get(kind, 60)))
                x = np.arange(0, top + 1.0)
                ctx.check(((s >= 0) & (s == np.floor(s))).all(), what + ": value outside the support")
                pr = np.exp(LR.logpdf(kind, x, q))
                cnt = np.bincount(s.astype(int), minlength=top + 1)
                # torch's geometric / negative binomial samplers map a uniform draw of exactly 0 to an absurd value (2**-24)
                mon.chi2_cells(ctx, cnt, pr, what, allow=2 if kind in ("geometric", "negbin") else 0)
            else:
                u = LR.cdf(kind, s, q)
                mon.ks_check(ctx, u, np.array([0.0, 1.0]), np.array([0.0, 1.0]), what, slack=1e-3)
    # joint: features are drawn independently of each other
    if F >= 2:
        a, b = S[who == 0, cols[0]], S[who == 0, cols[1]]
        if a.std() > 0 and b.std() > 0:
            ra, rb = a.argsort().argsort(), b.argsort().argsort()
            rho = np.corrcoef(ra + rng.uniform(0, 1, len(a)) * 0, rb)[0, 1]
            if len(np.unique(a)) > 20 and len(np.unique(b)) > 20:
                ctx.check(abs(rho) < 7.5 / np.sqrt(len(a)), f"{kind}: features of one draw are correlated ({rho:.3f})")


def f_mode(ctx):
    """MPE of a leaf slot maximises that slot's density."""
    rng = ctx.rng
    kind, m, p, cols, width, K, total = _make(ctx, DISC + CONT)
    F, C, R = len(cols), m.out_shape.channels, m.out_shape.repetitions
    slots = [(c, r) for c in range(C) for r in range(R)]
    cs = np.array([s[0] for s in slots])
    rs = np.array([s[1] for s in slots])
    S = _slot_samples(m, len(slots), width, cs[:, None], rs, mpe=True).detach().double().numpy()
    for i, (c, r) in enumerate(slots):
        for f in range(F):
            q = {k: v[f, c, r] for k, v in p.items()}
            x = S[i, cols[f]]
            ctx.check(np.isfinite(x), f"{kind}: mode is not a finite value ({x}) for {q}")
            if kind == "uniform":
                ctx.check(q["low"] <= x <= q["high"], f"{kind}: mode {x} outside the support {q}")
                continue
            if kind in DISC:
                g = np.arange(0, max(120.0, float(q.get("rate", 0)) * 3 + 30)) if kind != "categorical" else np.arange(K * 1.0)
                best = LR.logpdf(kind, g, q).max()
                got = float(LR.logpdf(kind, x, q))
                ctx.check(got >= best - 2e-4 * (1 + abs(best)), f"{kind}: completion {x} has log-density {got}, the mode reaches {best} ({q})")
            else:
                w, _ = LR.mode(kind, q)
                ctx.check(abs(x - w) <= 1e-4 * (1 + abs(w)), f"{kind}: mode {x}, expected {w} ({q})")


def f_hist(ctx):
    """Histogram leaf: piecewise-constant density, samples and mode."""
    from spflow.meta.data.scope import Scope
    from spflow.modules.leaves import Histogram

    rng = ctx.rng
    C, R, B = int(rng.integers(1, 4)), int(rng.integers(1, 3)), int(rng.integers(1, 8))
    edges = np.cumsum(np.r_[rng.normal(0, 3), rng.uniform(0.2, 3.0, B)]).astype(np.float32).astype(float)
    pr = rng.dirichlet(np.ones(B) * 1.5, (1, C, R)).astype(np.float32) + np.float32(1e-3)
    pr = pr / pr.sum(-1, keepdims=True)
    col, width = int(rng.integers(0, 3)), 3
    mode = int(rng.integers(3))
    kw = dict(scope=Scope([col]), bin_edges=torch.tensor(edges, dtype=torch.float32))
    if mode == 0:
        m = Histogram(probs=torch.tensor(pr), **kw)
    elif mode == 1:
        lg = np.log(pr) + rng.normal(0, 2, (1, C, R, 1)).astype(np.float32)
        m = Histogram(logits=torch.tensor(lg, dtype=torch.float32), **kw)
    else:
        m = Histogram(out_channels=C, num_repetitions=R, **kw)
        m.probs = torch.tensor(pr)
    ctx.key("hist", C, R, B, mode)
    ctx.count("family:histogram")
    pr = pr.astype(float)
    w = np.diff(edges)
    x = np.r_[rng.uniform(edges[0], edges[-1], 30), edges[:-1], (edges[:-1] + edges[1:]) / 2]
    X = np.full((len(x) + 3, width), np.nan)
    X[:len(x), col] = x
    X[len(x), col], X[len(x) + 1, col] = edges[0] - 0.5, edges[-1] + 0.5
    got = m.log_likelihood(mon.tt(X)).detach().double().numpy()
    x32 = mon.tt(X)[:len(x), col].double().numpy()
    i = np.clip(np.searchsorted(edges, x32, side="right") - 1, 0, B - 1)
    want = np.log(pr[:, :, :, :] / w)[0][:, :, i].transpose(2, 0, 1)[:, None]
    ctx.close(got[:len(x)], want, "histogram log-density", 1e-4, 1e-4)
    ctx.check((got[len(x):len(x) + 2] == -np.inf).all(), "histogram: value outside all bins has a density")
    ctx.check((got[-1] == 0).all(), "histogram: missing value does not contribute 0")
    per = 3000 if ctx.tier == "quick" else 20000
    cs = np.repeat(np.arange(C), R)
    rs = np.tile(np.arange(R), C)
    who = rng.permutation(np.repeat(np.arange(C * R), per))
    S = _slot_samples(m, len(who), width, cs[who][:, None], rs[who]).double().detach().numpy()[:, col]
    ctx.check(((S >= edges[0] - 1e-5) & (S <= edges[-1] + 1e-5)).all(), "histogram: sample outside the bins")
    for k in range(C * R):
        cdf = np.r_[0, np.cumsum(pr[0, cs[k], rs[k]])]
        mon.ks_check(ctx, S[who == k], edges, cdf / cdf[-1], f"histogram sample channel {cs[k]} rep {rs[k]}")
    M = _slot_samples(m, C * R, width, cs[:, None], rs, mpe=True).double().detach().numpy()[:, col]
    for k in range(C * R):
        q = pr[0, cs[k], rs[k]]
        b = int(np.clip(np.searchsorted(edges, M[k], side="right") - 1, 0, B - 1))
        dens = q / w
        ctx.check(edges[0] <= M[k] <= edges[-1] and dens[b] >= dens.max() - 1e-4 * dens.max(),
                  f"histogram: mode {M[k]} lies in bin {b} of density {dens[b]:.5f}, the densest bin has {dens.max():.5f}",
                  mech="histogram-mode-by-mass")


def f_pwl(ctx):
    """Piecewise-linear leaf: density integrates to one, is interpolated between its own knots, and is sampled faithfully."""
    from spflow.meta.data.scope import Scope
    from spflow.modules.leaves import PiecewiseLinear
    from spflow.utils.domain import Domain

    rng = ctx.rng
    F, C, R = int(rng.integers(1, 4)), int(rng.integers(1, 3)), int(rng.integers(1, 3))
    n = 160
    disc = rng.random(F) < 0.5
    doms, cols = [], []
    for f in range(F):
        if disc[f]:
            k = int(rng.integers(2, 6))
            vals = np.arange(k)
            if rng.random() < 0.3:  # any increasing list of values may be a domain
                vals = np.cumsum(rng.integers(1, 4, k)) - 2
                doms.append(Domain.discrete_bins([int(v) for v in vals]))
            else:
                vals = vals + int(rng.choice([0, 0, 1, 3]))
                doms.append(Domain.discrete_range(int(vals[0]), int(vals[-1])))
            cols.append(vals[rng.choice(k, n, p=rng.dirichlet(np.ones(k) * 3))].astype(float))
        else:
            x = rng.normal(rng.normal(0, 2), rng.uniform(0.5, 2), n)
            doms.append(Domain.continuous_range(float(x.min()), float(x.max())))
            cols.append(x)
    T = torch.tensor(np.stack(cols, 1), dtype=torch.float32)
    m = PiecewiseLinear(scope=Scope(list(range(F))), out_channels=C, num_repetitions=R, alpha=float(rng.choice([0.0, 0.5])))
    m.initialize(T, doms)
    ctx.key("pwl", F, C, R, tuple(disc))
    ctx.count("family:piecewise")
    for f in range(F):
        for c in range(C):
            for r in range(R):
                xs = m.xs[r][c][f][0].double().numpy()
                ys = m.ys[r][c][f][0].double().numpy()
                ctx.check((np.diff(xs) > 0).all() if not disc[f] else True, "piecewise linear: knots are not increasing")
                q = np.unique(np.r_[rng.uniform(xs[0], xs[-1], 40), xs[1:-1]]).astype(np.float32).astype(float)
                X = np.full((len(q), F), np.nan)
                X[:, f] = q
                L = m.log_likelihood(mon.tt(X)).detach().double().numpy()[:, 0, f, c, r]
                want = np.log(np.interp(q, xs, ys) + 1e-10)
                hi = want > np.log(1e-4)
                ctx.close(L[hi], want[hi], "piecewise linear log-density", 2e-3, 2e-3)
                if disc[f]:
                    X = np.full((len(doms[f].values), F), np.nan)
                    X[:, f] = doms[f].values
                    P = np.exp(m.log_likelihood(mon.tt(X)).detach().double().numpy()[:, 0, f, c, r])
                    ctx.close(P.sum(), 1.0, f"piecewise linear over {doms[f].values}: total mass", 2e-3, 2e-3)
                    if C == 1 and m.alpha == 0:
                        freq = (cols[f][:, None] == np.array(doms[f].values)).mean(0)
                        ctx.close(P, freq, f"piecewise linear over {doms[f].values}: relative frequencies", 2e-3, 2e-3)
                else:
                    ctx.close(np.trapezoid(ys, xs), 1.0, "piecewise linear: total mass", 2e-3, 2e-3)
    from spflow.utils.sampling_context import SamplingContext
    from spflow.utils.cache import Cache

    N = 4000
    for c in range(C):
        for r in range(R):
            sc = SamplingContext(channel_index=torch.full((N, F), c), mask=torch.ones((N, F), dtype=torch.bool),
                                 repetition_index=torch.full((N,), r), is_mpe=False)
            S = m._sample(data=torch.full((N, F), float("nan")), sampling_ctx=sc, cache=Cache()).double().numpy()
            for f in range(F):
                xs = m.xs[r][c][f][0].double().numpy()
                ys = m.ys[r][c][f][0].double().numpy()
                if disc[f]:
                    vals = xs[1:-1]
                    cnt = np.array([(S[:, f] == v).sum() for v in vals])
                    ctx.check(cnt.sum() == N, "piecewise linear (discrete): sample outside the domain values")
                    mon.chi2_cells(ctx, cnt, ys[1:-1] / ys[1:-1].sum(), f"piecewise linear sample f={f} c={c} r={r}")
                else:
                    # the leaf samples by linear interpolation of its cdf at the knots
                    ctx.check(((S[:, f] >= xs[0] - 1e-3) & (S[:, f] <= xs[-1] + 1e-3)).all(), "piecewise linear: sample outside the support")
                    g = np.linspace(xs[0], xs[-1], 4001)
                    y = np.interp(g, xs, ys)
                    cd = np.r_[0, np.cumsum((y[1:] + y[:-1]) / 2 * np.diff(g))]
                    gap = max(np.diff(np.interp(xs, g, cd / cd[-1])))
                    mon.ks_check(ctx, S[:, f], g, cd / cd[-1], f"piecewise linear sample f={f} c={c} r={r}", slack=0.13 * gap + 2e-3)


def f_conditional(ctx):
    """Leaves with parameters computed from evidence columns: density, samples and mode use each row's own parameters."""
    from spflow.meta.data.scope import Scope
    from spflow.modules import leaves as L

    rng = ctx.rng
    kind = ["normal", "bernoulli", "categorical", "poisson", "exponential", "laplace"][int(rng.integers(6))]
    F, E, C, R = int(rng.integers(1, 4)), int(rng.integers(1, 3)), int(rng.integers(1, 3)), int(rng.integers(1, 3))
    K = 3
    perm = [int(c) for c in rng.permutation(F + E)]
    q, e = perm[:F], perm[F:]
    W = torch.tensor(rng.normal(0, 0.4, (E, F * C * R * (K if kind == "categorical" else 1))), dtype=torch.float32)

    def base(ev):
        o = ev @ W
        return o.reshape(ev.shape[0], F, C, R, K) if kind == "categorical" else o.reshape(ev.shape[0], F, C, R)

    def pfn(ev):
        o = base(ev)
        if kind in ("normal", "laplace"):
            return {"loc": o, "scale": torch.exp(0.3 * o)}
        if kind in ("bernoulli", "categorical"):
            return {"logits": o}
        return {"rate": torch.exp(o)}

    cls = {"normal": L.Normal, "bernoulli": L.Bernoulli, "categorical": L.Categorical, "poisson": L.Poisson,
           "exponential": L.Exponential, "laplace": L.Laplace}[kind]
    kw = {"K": K} if kind == "categorical" else {}
    m = cls(scope=Scope(q, e), out_channels=C, num_repetitions=R, parameter_fn=pfn, **kw)
    ctx.key("cond", kind, F, E, C, R)
    ctx.count("family:conditional " + kind)
    rows = 3
    ev = rng.normal(0, 1, (rows, E)).astype(np.float32)

    def ref(ev):
        o = base(torch.tensor(ev)).double().numpy()
        if kind in ("normal", "laplace"):
            return {"loc": o, "scale": np.exp(0.3 * o)}
        if kind == "bernoulli":
            return {"probs": 1 / (1 + np.exp(-o))}
        if kind == "categorical":
            z = np.exp(o - o.max(-1, keepdims=True))
            return {"probs": z / z.sum(-1, keepdims=True)}
        return {"rate": np.exp(o)}

    P = ref(ev)
    n = 20
    idx = rng.integers(0, rows, n)
    X = np.zeros((n, F + E))
    X[:, e] = ev[idx]
    for f in q:
        X[:, f] = LR.sample_data(kind, rng, n, K=K, total=2)
    T = mon.tt(X)
    X = T.double().numpy()
    miss = rng.random((n, F)) < 0.2
    for j, f in enumerate(q):
        T[torch.as_tensor(miss[:, j]), f] = float("nan")
    try:
        got = m.log_likelihood(T).detach().double().numpy()
    except Exception as ex:  # noqa: BLE001
        ctx.fail(f"conditional {kind} leaf: log_likelihood raised {type(ex).__name__}: {ex}")
    want = LR.logpdf(kind, X[:, q][:, :, None, None], {k: v[idx] for k, v in P.items()})
    want = np.where(miss[:, :, None, None], 0, want)
    ctx.close(got, want, f"conditional {kind} log-density", 2e-4, 2e-4)
    per = 2500
    owner = rng.permutation(np.repeat(np.arange(rows), per))
    D = np.full((len(owner), F + E), np.nan)
    D[:, e] = ev[owner]
    c, r = int(rng.integers(C)), int(rng.integers(R))
    S = _cond_slot(m, D, c, r, F)
    ctx.check(np.array_equal(S[:, e], D[:, e].astype(np.float32)), "conditional leaf: evidence columns changed by sampling")
    for row in range(rows):
        for j, f in enumerate(q):
            s = S[owner == row, f].astype(float)
            pp = {k: v[row, j, c, r] for k, v in P.items()}
            what = f"conditional {kind} sample (row {row}, feature {j})"
            if kind in DISC:
                x = np.arange(0, max(40, s.max() + 1)) if kind == "poisson" else np.arange(0, 2 if kind == "bernoulli" else K)
                mon.chi2_cells(ctx, np.bincount(s.astype(int), minlength=len(x))[:len(x)], np.exp(LR.logpdf(kind, x, pp)), what)
            else:
                mon.ks_check(ctx, LR.cdf(kind, s, pp), np.array([0.0, 1.0]), np.array([0.0, 1.0]), what)
    Dm = np.full((rows, F + E), np.nan)
    Dm[:, e] = ev
    M = _cond_slot(m, Dm, c, r, F, mpe=True)
    for row in range(rows):
        for j, f in enumerate(q):
            pp = {k: v[row, j, c, r] for k, v in P.items()}
            if kind in DISC:
                g = np.arange(0, 60.0) if kind != "categorical" else np.arange(K * 1.0)
                lp = LR.logpdf(kind, g, pp)
                ctx.check(float(LR.logpdf(kind, float(M[row, f]), pp)) >= lp.max() - 2e-4, f"conditional {kind}: mode {M[row, f]} is not the most probable value ({pp})")
            else:
                ctx.close(float(M[row, f]), LR.mode(kind, pp)[0], f"conditional {kind} mode", 1e-4, 1e-4)


def _cond_slot(m, D, c, r, F, mpe=False):
    from spflow.utils.sampling_context import SamplingContext
    from spflow.utils.cache import Cache

    n = D.shape[0]
    sc = SamplingContext(channel_index=torch.full((n, F), c), mask=torch.ones((n, F), dtype=torch.bool),
                         repetition_index=torch.full((n,), r), is_mpe=mpe)
    return m._sample(data=torch.tensor(D, dtype=torch.float32), sampling_ctx=sc, cache=Cache()).detach().numpy()


def f_default(ctx):
    """Leaves created without parameters are valid members of the family: finite parameters, proper density, usable samples."""
    from spflow.meta.data.scope import Scope
    from spflow.modules import leaves as L

    rng = ctx.rng
    F, C, R = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    cls, kw = [(L.Bernoulli, {}), (L.Categorical, {"K": 4}), (L.Binomial, {"total_count": torch.tensor(5.0)}), (L.Geometric, {}),
               (L.NegativeBinomial, {"total_count": torch.tensor(3.0)}), (L.Poisson, {}), (L.Normal, {}), (L.LogNormal, {}),
               (L.Laplace, {}), (L.Exponential, {}), (L.Gamma, {})][int(rng.integers(11))]
    m = cls(scope=Scope(list(range(F))), out_channels=C, num_repetitions=R, **kw)
    ctx.key("default", cls.__name__, F, C, R)
    ctx.count("family:default " + cls.__name__)
    ctx.check((m.out_shape.features, m.out_shape.channels, m.out_shape.repetitions) == (F, C, R), f"{cls.__name__}: shape {m.out_shape}")
    for k, v in m.params().items():
        ctx.check(torch.isfinite(v).all(), f"{cls.__name__}: default parameter {k} is not finite")
        ctx.check(tuple(v.shape[:3]) == (F, C, R), f"{cls.__name__}: parameter {k} has shape {tuple(v.shape)} expected {(F, C, R)}")
    S = _slot_samples(m, 64, F, rng.integers(0, C, (64, F)), rng.integers(0, R, 64))
    lls = m.log_likelihood(S)
    ctx.check(tuple(lls.shape) == (64, F, C, R), f"{cls.__name__}: log-likelihood shape {tuple(lls.shape)}")
    ctx.check(not torch.isnan(lls).any(), f"{cls.__name__}: NaN log-density at its own samples")


FAMILIES = [
    Family("density", f_density, 1260, 24000),
    Family("outside", f_outside, 360, 6000),
    Family("normalised", f_normalised, 210, 3000),
    Family("sample", f_sample, 390, 3000),
    Family("mode", f_mode, 390, 8000),
    Family("hist", f_hist, 120, 1600),
    Family("pwl", f_pwl, 48, 600),
    Family("conditional", f_conditional, 120, 1600),
    Family("default", f_default, 180, 2400),
]
