"""C29: continuous mixtures: the returned circuit is the trained mixture."""
import contextlib

import numpy as np

from spmon import circ, mon
from spmon.runner import Family, Skip
from spmon.checks import common

PID = "C29"
RULE = "distinct = leaf family x structure x latent dimension x points x batch configuration"
ASSUMPTIONS = ["training is deterministic given the seeds (checked by running twice)",
               "gradients are compared with central differences of the returned circuit's own likelihood in float64"]

KINDS = ["bernoulli", "categorical", "normal", "tree-bernoulli", "tree-categorical"]


def data(rng, kind, n, d, K, missing=0.0):
    h = rng.integers(0, 3, n)
    if kind == "normal":
        X = rng.normal(0, 1, (n, d)) + (h - 1)[:, None] * rng.uniform(0.5, 2, d)
    else:
        k = 2 if kind.endswith("bernoulli") else K
        T = rng.dirichlet(np.ones(k) * 0.7, size=(3, d))
        X = np.array([[rng.choice(k, p=T[h[i], j]) for j in range(d)] for i in range(n)], dtype=float)
        X[0], X[1] = 0, k - 1
    if missing:
        X[rng.random(X.shape) < missing] = np.nan
    return X


def learn(kind, X, K, seed, **kw):
    import torch
    from spflow.zoo.cms import learn_continuous_mixture_cltree, learn_continuous_mixture_factorized

    torch.manual_seed(seed)
    fn = learn_continuous_mixture_cltree if kind.startswith("tree-") else learn_continuous_mixture_factorized
    leaf = kind.split("-")[-1]
    if leaf == "categorical":
        kw["num_cats"] = K
    if "val_data" in kw:
        kw["val_data"] = torch.as_tensor(kw["val_data"])
    return fn(torch.as_tensor(X), leaf=leaf, seed=seed, **kw)


def score(m, X):
    import torch

    with torch.no_grad():
        r = m.log_likelihood(torch.as_tensor(X))
    assert tuple(r.shape[1:]) == (1, 1, 1), f"a continuous mixture has shape {tuple(r.shape)}"
    return float(r.mean())


@contextlib.contextmanager
def hooked(make):
    """Replace torch.optim.Adam (looked up by the trainers when called) by ``make(index)``."""
    import torch

    old, made = torch.optim.Adam, []

    class Rec(old):
        def __init__(self, params, *a, **k):
            super().__init__(params, *a, **k)
            self.which, self.n = len(made), 0
            made.append(self)

        def step(self, closure=None):
            i = self.n
            self.n += 1
            return make(self, i, super().step)

    torch.optim.Adam = Rec
    try:
        yield made
    finally:
        torch.optim.Adam = old


def conf(ctx, trees=True):
    rng = ctx.rng
    kind = KINDS[ctx.idx % len(KINDS)]
    K = int(rng.integers(2, 4))
    d, n = int(rng.integers(2, 5)), int(rng.integers(24, 60))
    lat, pts = int(rng.integers(1, 4)), int(rng.choice([1, 3, 6, 8]))
    miss = 0.25 if not kind.startswith("tree-") and rng.random() < 0.5 else 0.0
    ctx.note(f"{kind} K={K} d={d} n={n} latent={lat} points={pts} missing={miss}")
    return kind, K, d, n, lat, pts, miss


def f_grad(ctx):
    """The gradient handed to the optimiser is that of the returned circuit's mean negative log-likelihood."""
    import torch

    rng = ctx.rng
    kind, K, d, n, lat, pts, miss = conf(ctx)
    X = data(rng, kind, n, d, K, miss)
    seed = int(rng.integers(10000))
    lo = rng.random() < 0.4
    minib = bool(rng.random() < 0.4)
    bs = int(rng.integers(5, n)) if minib else n
    import spflow.zoo.cms.continuous_mixtures as cm

    if lo:
        from spflow.zoo.cms import LatentOptimizationConfig

        cfg = LatentOptimizationConfig(num_points=pts, num_epochs=1, batch_size=bs, seed=seed, patience=0)
    real, fixed = getattr(cm, "rqmc_sobol_normal", None), {}
    if real is None:
        raise Skip("the trainers do not look their points up here")

    def points(**k):  # the same integration points at every call
        key = (k.get("num_points"), k.get("latent_dim"))
        if key not in fixed:
            fixed[key] = real(**{**k, "seed": 7})
        return fixed[key]

    target = 1 if lo else 0
    dirs, grads = {}, []

    def run(eps):
        grads.clear()

        def step(opt, i, real_step):
            ps = [p for g in opt.param_groups for p in g["params"]]
            if opt.which != target:
                return None  # untrained decoder
            g = [p.grad.detach().clone() for p in ps]
            if i == 0:
                opt.base = [p.detach().clone() for p in ps]
                if not dirs:
                    r = np.random.default_rng(seed)
                    dirs[0] = [torch.as_tensor(r.normal(0, 1, tuple(p.shape)), dtype=p.dtype) for p in ps]
            grads.append(g)
            with torch.no_grad():  # every batch is evaluated at the initial parameters; the last step moves to base + eps * dir
                last = len(grads) == -(-n // bs)
                for p, b, v in zip(ps, opt.base, dirs[0]):
                    p.copy_(b + eps * v if last else b)

        with hooked(step) as made:
            m = learn(kind, X, K, seed, latent_dim=lat, num_points_train=pts, num_epochs=1, batch_size=n if lo else bs, patience=0,
                      dtype=torch.float64, **({"lo": cfg} if lo else {}))
        if not made or not fixed:
            raise Skip("the trainers do not look up optimiser and points here")
        return score(m, X)

    cm.rqmc_sobol_normal = points
    try:
        h = 1e-5
        fp, fm, f0 = run(h), run(-h), run(0.0)
        nb = -(-n // bs)
        ctx.check(len(grads) == nb, f"{len(grads)} optimiser steps for {n} rows in batches of {bs}")
        sizes = [bs] * (n // bs) + ([n % bs] if n % bs else [])
        tot = [sum(s * g[i] for s, g in zip(sizes, grads)) / n for i in range(len(grads[0]))]
    finally:
        cm.rqmc_sobol_normal = real
    want = -(fp - fm) / (2 * h)
    got = float(sum((g * v).sum() for g, v in zip(tot, dirs[0])))
    scale = float(sum((g * v).abs().sum() for g, v in zip(tot, dirs[0]))) + 1e-3
    second = abs(fp + fm - 2 * f0) / h
    ctx.check(abs(got - want) <= 1e-4 * scale + 0.5 * second, f"{kind} lo={lo} batches={nb}: directional derivative of the training loss {got:.9g}, "
              f"of the returned circuit's mean negative log-likelihood {want:.9g}")
    ctx.count("gradients")
    ctx.count("steps", len(grads))
    ctx.key("grad", kind, lat, pts, lo, nb, miss > 0)


def f_best(ctx):
    """Returned circuit = the best-scoring epoch up to early stopping."""
    rng = ctx.rng
    kind, K, d, n, lat, pts, miss = conf(ctx)
    X = data(rng, kind, n, d, K, miss).astype(np.float32)
    seed = int(rng.integers(10000))
    val = data(rng, kind, 25, d, K, 0.0).astype(np.float32) if rng.random() < 0.6 else None
    E = int(rng.integers(3, 7))
    pat = int(rng.integers(0, 4)) if val is not None else int(rng.integers(1, 4))
    kw = dict(latent_dim=lat, num_points_train=pts, batch_size=int(rng.choice([8, 16, n])), lr=float(rng.choice([0.003, 0.05, 0.3])))
    if rng.random() < 0.5:
        kw["num_points_eval"] = int(rng.choice([4, 16]))
    V = X if val is None else val
    states = [score(learn(kind, X, K, seed, num_epochs=e, patience=0, **kw), V) for e in range(1, E + 1)]
    if not np.all(np.isfinite(states)):
        raise Skip("diverged")
    best, bad, stop = -np.inf, 0, E
    tie = False
    for e, s in enumerate(states):
        tie |= np.isfinite(best) and abs(s - best) < 2e-6 * (1 + abs(s))
        if s > best:
            best, bad = s, 0
        else:
            bad += 1
            if pat and bad >= pat:
                stop = e + 1
                break
    if tie:
        raise Skip("two epochs score alike")
    m = learn(kind, X, K, seed, num_epochs=E, patience=pat, **kw, **({"val_data": val} if val is not None else {}))
    got = score(m, V)
    ctx.note(f"epochs={E} patience={pat} val={val is not None} states={np.round(states, 4).tolist()}")
    ctx.check(abs(got - best) <= 2e-5 * (1 + abs(best)), f"{kind}: epochs score {np.round(states, 5).tolist()} (patience {pat}, stop after {stop}), "
              f"the returned circuit scores {got:.6f} instead of {best:.6f}")
    ctx.count("trainings", E + 1)
    again = learn(kind, X, K, seed, num_epochs=E, patience=pat, **kw, **({"val_data": val} if val is not None else {}))
    ctx.check(score(again, V) == got, "the same seeds gave another circuit")
    ctx.key("best", kind, lat, pts, E, pat, val is not None)


def f_latent(ctx):
    """Latent optimisation keeps its best points; more epochs never score worse."""
    from spflow.zoo.cms import LatentOptimizationConfig

    rng = ctx.rng
    kind, K, d, n, lat, pts, miss = conf(ctx)
    X = data(rng, kind, n, d, K, miss).astype(np.float32)
    val = data(rng, kind, 25, d, K, 0.0).astype(np.float32) if rng.random() < 0.5 else None
    V = X if val is None else val
    seed = int(rng.integers(10000))
    kw = dict(latent_dim=lat, num_points_train=4, num_epochs=2, batch_size=16, patience=0)
    if val is not None:
        kw["val_data"] = val
    last, lr_ = -np.inf, float(rng.choice([0.02, 0.5, 2.0]))
    bs = int(rng.choice([8, n]))
    for e in range(1, 6):
        m = learn(kind, X, K, seed, lo=LatentOptimizationConfig(num_points=pts, num_epochs=e, batch_size=bs, lr=lr_, patience=0, seed=3), **kw)
        s = score(m, V)
        ctx.check(s >= last - 2e-6 * (1 + abs(s)), f"{kind}: latent optimisation for {e} epochs scores {s:.7f}, for {e - 1} epochs {last:.7f}")
        last = s
    off = learn(kind, X, K, seed, lo=LatentOptimizationConfig(enabled=False), **kw)
    ref = learn(kind, X, K, seed, **kw)
    ctx.check(score(off, V) == score(ref, V), "a disabled latent optimisation changed the result")
    ctx.count("trainings", 7)
    ctx.key("latent", kind, lat, pts, lr_, bs)


def f_dist(ctx):
    """The returned circuit is a distribution over the data's domain with the requested number of equal components."""
    import torch
    from spflow.modules.sums import Sum

    rng = ctx.rng
    kind, K, d, n, lat, pts, miss = conf(ctx)
    X = data(rng, kind, n, d, K, miss).astype(np.float32)
    ev = int(rng.choice([1, 2, 5, 9]))
    m = learn(kind, X, K, int(rng.integers(1000)), latent_dim=lat, num_points_train=pts, num_points_eval=ev, num_epochs=2, batch_size=16,
              lr=0.05, patience=0)
    sums = [s for s in m.modules() if isinstance(s, Sum)]
    ctx.check(len(sums) == 1 and sums[0].weights.shape[1] == ev, f"{ev} evaluation points gave sums {[tuple(s.weights.shape) for s in sums]}")
    ctx.close(sums[0].weights.detach().numpy(), np.full(tuple(sums[0].weights.shape), 1.0 / ev), "component weights", rtol=1e-5, atol=1e-7)
    ctx.check(tuple(m.scope.query) == tuple(range(d)), f"scope {m.scope.query}")
    if kind != "normal":
        k = 2 if kind.endswith("bernoulli") else K
        vs = [circ.Var("categorical", K=k) for _ in range(d)]
        mon.check_normalized(ctx, m, vs, what=kind)
        if not kind.startswith("tree-"):
            mon.check_nan_marginal(ctx, m, vs, rng, what=kind)
    else:
        import scipy.stats as st

        loc, sc = [], []
        for leafm in m.modules():
            if type(leafm).__name__ == "Normal":
                loc.append((leafm.scope.query[0], float(leafm.loc.flatten()[0]), float(leafm.scale.flatten()[0])))
        ctx.check(len(loc) == d * ev, f"{len(loc)} normal leaves for {d} variables and {ev} points")
        P = np.array([q[1:] for q in loc]).reshape(ev, d, 2)
        Q = X[:10].astype(float)
        c = np.nansum(st.norm.logpdf(Q[:, None], P[None, :, :, 0], P[None, :, :, 1]), -1)
        ctx.close(m.log_likelihood(torch.as_tensor(X[:10])).detach().numpy().ravel(), circ._lse(c, 1) - np.log(ev), "normal mixture", rtol=1e-4, atol=1e-4)
    ctx.key("dist", kind, lat, ev, d, K)


def f_points(ctx):
    import torch
    from scipy import stats
    from spflow.zoo.cms import rqmc_sobol_normal

    rng = ctx.rng
    n, d = int(rng.choice([1, 2, 4, 16, 64, 256])), int(rng.integers(1, 7))
    seed = int(rng.integers(1 << 30))
    f64 = bool(rng.random() < 0.5)
    dt = torch.float64 if f64 else torch.float32
    st0 = torch.get_rng_state()
    a = rqmc_sobol_normal(num_points=n, latent_dim=d, seed=seed, dtype=dt)
    b = rqmc_sobol_normal(num_points=n, latent_dim=d, seed=seed, dtype=dt)
    ctx.check(torch.equal(st0, torch.get_rng_state()), "seeded points moved the global random stream")
    ctx.check(torch.equal(a.z, b.z), "the same seed gave other points")
    ctx.check(tuple(a.z.shape) == (n, d) and a.z.dtype == dt and a.weights.dtype == dt, f"points {tuple(a.z.shape)} {a.z.dtype}")
    ctx.close(a.weights.numpy(), np.full(n, 1.0 / n), "weights", rtol=1e-6)
    ctx.check(bool(torch.isfinite(a.z).all()), "infinite points")
    c = rqmc_sobol_normal(num_points=n, latent_dim=d, seed=seed + 1, dtype=dt)
    ctx.check(not torch.equal(a.z, c.z), "another seed gave the same points")
    u = stats.norm.cdf(a.z.numpy().astype(float))
    tol = 3e-6
    for j in range(d):  # shifted Sobol points: one point per cell of width 1/n, all at the same offset
        off = np.mod(u[:, j] * n, 1.0) / n
        off = np.minimum(np.abs(off - off[0]), 1 / n - np.abs(off - off[0]))
        clipped = (u[:, j] < 5e-6) | (u[:, j] > 1 - 5e-6)
        if clipped[0]:
            continue
        ctx.check(np.all((off <= tol) | clipped), f"dimension {j}: offsets differ by {off.max():.3g}")
        cell = np.floor(np.mod(u[:, j] - u[0, j] + 0.5 / n, 1.0) * n).astype(int)
        ctx.check(len(set(cell[~clipped].tolist())) == (~clipped).sum(), f"dimension {j}: several of {n} points in one cell of width 1/{n}")
    if n >= 64 and d >= 2:
        i, j = rng.choice(d, 2, replace=False)
        cc = np.corrcoef(a.z[:, i].numpy(), a.z[:, j].numpy())[0, 1]
        ctx.check(abs(cc) < 0.5, f"dimensions {i} and {j} are correlated: {cc:.3f}")
    if n >= 2 and d >= 2:
        ctx.check(not torch.equal(a.z[:, 0], a.z[:, 1]), "two dimensions coincide")
    ctx.count("points", n * d)
    ctx.key("pts", n, d, f64)


def f_reject(ctx):
    from spflow.zoo.cms import rqmc_sobol_normal

    rng = ctx.rng
    kind = KINDS[ctx.idx % len(KINDS)]
    K = 3
    X = data(rng, kind, 12, 3, K).astype(np.float32)
    ok = dict(latent_dim=1, num_points_train=2, num_epochs=1, batch_size=8)

    def refuses(what, **k):
        kw = dict(ok)
        XX = k.pop("X", X)
        KK = k.pop("K", K)
        kw.update(k)
        try:
            learn(kind, XX, KK, 0, **kw)
        except Exception:
            ctx.count("refused")
            return
        ctx.fail(f"{kind}: {what} was accepted")

    learn(kind, X, K, 0, **ok)
    if not kind.startswith("tree-"):
        for k_, v in [("latent_dim", 0), ("num_points_train", 0), ("num_epochs", 0), ("batch_size", 0), ("lr", 0.0), ("lr", -1.0), ("patience", -1),
                      ("num_points_eval", 0)]:
            refuses(f"{k_}={v}", **{k_: v})
    refuses("one-dimensional data", X=X[0])
    if kind != "normal":
        bad = X.copy()
        bad[3, 1] = 0.5
        refuses("a fractional value", X=bad)
        bad = X.copy()
        bad[3, 1] = -1
        refuses("a negative value", X=bad)
        bad = X.copy()
        bad[3, 1] = 2 if kind.endswith("bernoulli") else K
        refuses("a value outside the domain", X=bad)
    if kind.startswith("tree-"):
        bad = X.copy()
        bad[3, 1] = np.nan
        refuses("incomplete data", X=bad)
    for k_ in (dict(num_points=0, latent_dim=1), dict(num_points=3, latent_dim=0), dict(num_points=3, latent_dim=1, eps=0.0), dict(num_points=3, latent_dim=1, eps=0.5)):
        try:
            rqmc_sobol_normal(**k_)
        except Exception:
            continue
        ctx.fail(f"points {k_} were accepted")
    ctx.key("reject", kind)


FAMILIES = [
    Family("grad", f_grad, 50, 800),
    Family("best", f_best, 20, 250),
    Family("latent", f_latent, 10, 100),
    Family("dist", f_dist, 30, 300),
    Family("points", f_points, 60, 600),
    Family("reject", f_reject, 5, 10),
]
