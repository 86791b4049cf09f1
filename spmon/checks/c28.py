"""C28: log-likelihood of interval evidence is the log-probability mass of the box."""
import numpy as np

from spmon import circ, leafref as lr, mon, zoo
from spmon.runner import Family, Skip
from spmon.checks import common

PID = "C28"
RULE = "distinct = leaf family x shape x bound pattern, circuit signature, or architecture configuration"
ASSUMPTIONS = ["masses are compared in probability (float32: 4e-6 absolute plus 1e-3 relative; float64: 1e-11 plus 1e-6)",
               "an impossible interval may be reported as -inf or as the documented floor 1e-40"]

CONT = ["normal", "laplace", "exponential", "gamma", "lognormal", "uniform"]
DISC = ["bernoulli", "categorical"]
OK = CONT + DISC
NO = ["poisson", "geometric", "binomial", "negbin"]
NAN, INF = np.nan, np.inf


def mass(kind, lo, hi, p):
    """P(lo <= X <= hi) of a univariate leaf, NaN = unbounded."""
    lo = np.where(np.isnan(lo), -INF, lo)
    hi = np.where(np.isnan(hi), INF, hi)
    if kind in DISC:
        w = p["probs"] if kind == "categorical" else np.stack([1 - p["probs"], p["probs"]], -1)
        k = np.arange(w.shape[-1])
        return (w * ((k >= lo[..., None]) & (k <= hi[..., None]))).sum(-1)
    if kind == "uniform":
        a, b = np.maximum(lo, p["low"]), np.minimum(hi, p["high"])
        return np.clip(b - a, 0, None) / (p["high"] - p["low"])
    f = (lambda x: lr.cdf(kind, np.clip(x, -1e30, 1e30), p))
    sgn = lr.cdf(kind, lo, p) > 0.5
    with np.errstate(all="ignore"):
        up = sf(kind, lo, p) - sf(kind, hi, p)
    return np.clip(np.where(sgn, up, f(hi) - f(lo)), 0, 1)


def sf(kind, x, p):
    from scipy import stats

    if kind == "normal":
        return stats.norm.sf(x, p["loc"], p["scale"])
    if kind == "laplace":
        return stats.laplace.sf(x, p["loc"], p["scale"])
    if kind == "exponential":
        return stats.expon.sf(x, scale=1.0 / p["rate"])
    if kind == "gamma":
        return stats.gamma.sf(x, p["concentration"], scale=1.0 / p["rate"])
    if kind == "lognormal":
        return np.where(x > 0, stats.norm.sf(np.log(np.where(x > 0, x, 1.0)), p["loc"], p["scale"]), 1.0)
    raise KeyError(kind)


def params(kind, rng, shape, K=None):
    if kind == "uniform":
        lo = rng.uniform(-2, 1, shape).astype(np.float32).astype(float)
        return {"low": lo, "high": lo + rng.integers(1, 5, shape) * 0.5}
    return lr.rand_params(kind, rng, shape, K=K)


def bounds(rng, kind, n, K=2):
    """Intervals of every character: open ends, atoms, edges, below/above the support, points, narrow and wide."""
    if kind in DISC:
        pts = np.concatenate([np.arange(-2, K + 2), np.arange(-2, K + 2) + 0.5, np.arange(0, K) + 0.25])
    elif kind in ("exponential", "gamma", "lognormal"):
        pts = np.concatenate([[-3.0, -1e-3, 0.0, 0.0, 1e-3], np.exp(rng.normal(0, 1, 12))])
    else:
        pts = rng.normal(0, 2.0, 14)
    lo, hi = rng.choice(pts, n), rng.choice(pts, n)
    lo, hi = np.minimum(lo, hi), np.maximum(lo, hi)
    lo, hi = lo.astype(np.float32).astype(float), hi.astype(np.float32).astype(float)
    u = rng.random(n)
    lo[u < 0.22] = NAN
    lo[(u > 0.22) & (u < 0.32)] = -INF
    u = rng.random(n)
    hi[u < 0.22] = NAN
    hi[(u > 0.22) & (u < 0.32)] = INF
    same = rng.random(n) < 0.08
    fin = same & np.isfinite(lo)
    hi[fin] = lo[fin]
    return lo, hi


def li(m, lo, hi):
    import torch
    from spflow.meta.data.interval_evidence import IntervalEvidence
    from spflow.utils.range_inference import log_likelihood_interval

    dt = torch.get_default_dtype()
    a, b = torch.as_tensor(lo, dtype=dt), torch.as_tensor(hi, dtype=dt)
    with torch.no_grad():
        r = log_likelihood_interval(m, a, b)
        r2 = m.log_likelihood(IntervalEvidence(low=a, high=b))
    assert torch.equal(r, r2), "log_likelihood_interval and log_likelihood(IntervalEvidence) differ"
    return r.numpy().astype(np.float64)


def cmp(ctx, got, logwant, what, f64, tail=True):
    want = np.exp(logwant)
    ctx.check(got.shape == want.shape, f"{what}: shape {got.shape} for {want.shape}")
    ctx.check(not np.isnan(got).any(), f"{what}: interval log-likelihood is NaN")
    p = np.exp(got)
    at, rt = (1e-11, 1e-6) if f64 else (4e-6, 1e-3)
    bad = np.abs(p - want) > at + rt * want
    ctx.count("masses_compared", got.size)
    if bad.any():
        i = tuple(np.argwhere(bad)[0])
        ctx.fail(f"{what}: entry {i} has mass {p[i]:.9g}, the box holds {want[i]:.9g} ({bad.sum()}/{bad.size} differ)")


class Prec:
    def __init__(self, f64):
        self.f64 = f64

    def __enter__(self):
        import torch

        self.old = torch.get_default_dtype()
        torch.set_default_dtype(torch.float64 if self.f64 else torch.float32)

    def __exit__(self, *a):
        import torch

        torch.set_default_dtype(self.old)


def f_leaf(ctx):
    rng = ctx.rng
    kind = OK[ctx.idx % len(OK)]
    F, C, R = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 3))
    K = int(rng.integers(2, 5)) if kind == "categorical" else 2
    p = params(kind, rng, (F, C, R), K=K)
    extra = int(rng.integers(0, 3))
    cols = sorted(rng.choice(F + extra, F, replace=False).tolist())
    f64 = rng.random() < 0.5
    with Prec(f64):
        m = lr.build(kind, cols, p)
        n = 24
        lo, hi = rng.normal(0, 1, (n, F + extra)), None
        hi = lo + 1.0
        for c in cols:
            lo[:, c], hi[:, c] = bounds(rng, kind, n, K)
        ctx.note(f"{kind} cols={cols} of {F + extra} C={C} R={R} f64={f64} params={ {k: np.round(v, 4).tolist() for k, v in p.items()} }")
        pp = {k: v[None] for k, v in p.items()}
        want = mass(kind, np.broadcast_to(lo[:, cols][:, :, None, None], (n, F, C, R)),
                    np.broadcast_to(hi[:, cols][:, :, None, None], (n, F, C, R)), pp)
        with np.errstate(all="ignore"):
            lw = np.log(want)
        a0, b0 = lo.copy(), hi.copy()
        got = li(m, lo, hi)
        cmp(ctx, got, lw, f"{kind} leaf", f64)
        ctx.check(np.array_equal(a0, lo, equal_nan=True) and np.array_equal(b0, hi, equal_nan=True), "bounds were modified")
        # no bounds at all: certain
        e = np.full((2, F + extra), NAN)
        cmp(ctx, li(m, e, e), np.zeros((2, F, C, R)), f"{kind} leaf without bounds", f64)
        i = int(rng.integers(n))
        cmp(ctx, li(m, lo[i:i + 1], hi[i:i + 1]), lw[i:i + 1], f"{kind} leaf, row {i} alone", f64)
    ctx.key("leaf", kind, F, C, R, len(cols) < F + extra, f64)


def interval_ref(node, vs, lo, hi):
    memo = {}
    for q in node.walk():
        if q.op == "leaf":
            c = list(q.p["cols"])
            prm = {k: v[None] for k, v in q.p["params"].items()}
            sh = (len(lo), q.F, q.C, q.R)
            with np.errstate(all="ignore"):
                memo[id(q)] = np.log(mass(q.p["kind"], np.broadcast_to(lo[:, c][:, :, None, None], sh),
                                          np.broadcast_to(hi[:, c][:, :, None, None], sh), prm))
    return node.ref(lo, memo)


def f_circuit(ctx):
    rng = ctx.rng
    fam = [k for k in OK if k != "uniform"]
    if rng.random() < 0.3:
        fam = DISC
    f64 = rng.random() < 0.6
    with Prec(f64):
        mk = circ.random_multi if rng.random() < 0.35 else circ.random_circuit
        kw = dict(sampleable=False) if mk is circ.random_multi else dict(C=int(rng.integers(1, 4)))
        node, vs = mk(rng, families=fam, n=int(rng.integers(2, 7)), **kw)
        ctx.note(f"{vs} f64={f64} {node.describe()[:400]}")
        ctx.key("c", node.sig())
        m = node.build()
        n, D = 20, len(vs)
        lo, hi = np.empty((n, D)), np.empty((n, D))
        for j, v in enumerate(vs):
            lo[:, j], hi[:, j] = bounds(rng, v.kind, n, v.K or 2)
            free = rng.random(n) < 0.3
            lo[free, j] = hi[free, j] = NAN
        want = interval_ref(node, vs, lo, hi)
        got = li(m, lo, hi)
        cmp(ctx, got, want, "circuit", f64)
        ctx.check(got.shape[:3] == (n, m.out_shape.features, m.out_shape.channels), f"shape {got.shape} vs {m.out_shape}")
        # partition of one variable's range into cells: the masses add up
        j = int(rng.integers(D))
        v = vs[j]
        cuts = [0.5 + k for k in range((v.K or 2) - 1)] if v.kind in DISC else sorted(np.abs(rng.normal(0, 1.5, 3)).tolist())
        edges = [NAN] + cuts + [NAN]
        i = int(rng.integers(n))
        rows_lo, rows_hi = np.repeat(lo[i:i + 1], len(edges) - 1, 0), np.repeat(hi[i:i + 1], len(edges) - 1, 0)
        rows_lo[:, j], rows_hi[:, j] = edges[:-1], edges[1:]
        whole_lo, whole_hi = lo[i:i + 1].copy(), hi[i:i + 1].copy()
        whole_lo[:, j] = whole_hi[:, j] = NAN
        a, b = np.exp(li(m, rows_lo, rows_hi)).sum(0), np.exp(li(m, whole_lo, whole_hi))[0]
        fs = [f for f, sc in enumerate(node.feats) if j in sc]
        a, b = a[fs], b[fs]
        ctx.check(np.all(np.abs(a - b) <= 1e-5 + 2e-3 * b), f"cells of variable {j} hold {a.ravel()[:4]}, their union {b.ravel()[:4]}")
        ctx.count("partitions")


ARCH = ["rat", "einet", "convpc", "naive_bayes", "learn_spn", "cms", "hclt", "cltree", "cnet", "prometheus"]


def f_zoo(ctx):
    rng = ctx.rng
    name = ARCH[ctx.idx % len(ARCH)]
    z = common.model(ctx, name)
    size = 1
    for v in z.vs:
        size *= len(v.domain)
    if size > 5000:
        raise Skip("large domain")
    D = mon.domain(z.vs)
    n, d = 12, len(z.vs)
    lo, hi = np.empty((n, d)), np.empty((n, d))
    for j, v in enumerate(z.vs):
        lo[:, j], hi[:, j] = bounds(rng, "categorical", n, len(v.domain))
    try:
        got = li(z.m, lo, hi)
    except Exception as e:  # no answer for trees, tables and count leaves: allowed as long as it is loud
        supported = all(v.kind in DISC for v in z.vs) and name in ("rat", "einet", "convpc", "naive_bayes", "learn_spn", "prometheus")
        ctx.check(not supported, f"{name} of Bernoulli/categorical leaves refused interval evidence: {type(e).__name__}: {e}")
        ctx.count("refused:" + name)
        return
    ctx.count("answered:" + name)
    L = mon.ll(z.m, D).astype(np.float64)
    inside = ((D[None] >= np.where(np.isnan(lo), -INF, lo)[:, None]) & (D[None] <= np.where(np.isnan(hi), INF, hi)[:, None])).all(-1)
    want = np.einsum("nd,dfcr->nfcr", inside.astype(float), np.exp(L))
    with np.errstate(all="ignore"):
        cmp(ctx, got, np.log(want), f"{name}: box against enumeration", False)


def f_mixture(ctx):
    """One-variable mixtures: the mass is the integral of the density the model itself reports."""
    from scipy import integrate

    rng = ctx.rng
    kind = CONT[ctx.idx % len(CONT)]
    import torch
    from spflow.modules.sums import Sum

    with Prec(True):
        C = int(rng.integers(1, 5))
        p = params(kind, rng, (1, C, 1))
        if kind == "gamma":
            p["concentration"] = p["concentration"] + 1.0
        leaf = lr.build(kind, [0], p)
        w = rng.dirichlet(np.ones(C), size=(1, 1, 1)).reshape(1, C, 1, 1)
        m = Sum(inputs=leaf, weights=torch.as_tensor(w))
        lo = 0.0 if kind in ("exponential", "gamma", "lognormal") else -3.0
        a = lo + float(rng.uniform(0, 2))
        b = a + float(rng.choice([0.02, 0.5, 2.0]))
        ctx.note(f"{kind} C={C} [{a},{b}]")
        pts = sorted({float(q) for k in ("low", "high", "loc") if k in p and kind in ("uniform", "laplace") for q in p[k].ravel()})
        e = [a] + [q for q in pts if a < q < b] + [b]
        g = lambda x: float(np.exp(m.log_likelihood(torch.tensor([[x]])).detach().numpy().ravel()[0]))  # noqa: E731
        q = sum(integrate.fixed_quad(np.vectorize(g), s + 1e-12, t_ - 1e-12, n=24)[0] for s, t_ in zip(e[:-1], e[1:]))
        got = float(np.exp(li(m, [[a]], [[b]])).ravel()[0])
        ctx.check(abs(got - q) <= 1e-6 + 1e-4 * q, f"mass {got:.9g} of [{a},{b}], density integrates to {q:.9g}")
        ctx.count("integrals")
        ctx.key("mix", kind, C)


def f_reject(ctx):
    import torch
    from spflow.meta.data.interval_evidence import IntervalEvidence

    rng = ctx.rng
    kind = OK[ctx.idx % len(OK)]
    F = int(rng.integers(1, 4))
    m = lr.build(kind, list(range(F)), params(kind, rng, (F, 1, 1), K=3))

    def refuses(what, fn):
        try:
            fn()
        except Exception:
            ctx.count("refused")
            return
        ctx.fail(f"{kind}: {what} was accepted")

    n = int(rng.integers(1, 5))
    lo, hi = rng.uniform(0, 1, (n, F)), rng.uniform(1, 2, (n, F))
    i, j = int(rng.integers(n)), int(rng.integers(F))
    bl, bh = lo.copy(), hi.copy()
    bl[i, j], bh[i, j] = hi[i, j], lo[i, j]
    refuses("a lower bound above its upper bound", lambda: li(m, bl, bh))
    refuses("bounds of different batch sizes", lambda: li(m, lo, np.vstack([hi, hi])))
    refuses("bounds of different widths", lambda: li(m, lo, np.hstack([hi, hi])))
    refuses("one-dimensional bounds", lambda: li(m, lo[0], hi[0]))
    refuses("three-dimensional bounds", lambda: li(m, lo[None], hi[None]))
    ok = IntervalEvidence(low=torch.as_tensor(lo), high=torch.as_tensor(hi))
    ctx.check(tuple(ok.shape) == (n, F), "evidence shape")
    k = NO[ctx.idx % len(NO)]
    bad = lr.build(k, list(range(F)), lr.rand_params(k, rng, (F, 2, 1)))
    from spflow.modules.products import Product

    for mm in (bad, Product(inputs=bad)):
        try:
            r = np.exp(li(mm, np.zeros((1, F)), np.full((1, F), 2.0)))
        except NotImplementedError:
            ctx.count("unsupported_refused")
            continue
        x = np.array([0.0, 1.0, 2.0])[:, None, None, None]
        w = np.exp(lr.logpdf(k, x, {q: v for q, v in lr_params(bad, k).items()})).sum(0)
        w = w.prod(0, keepdims=True) if mm is not bad else w
        ctx.check(np.allclose(r[0], w, rtol=1e-3, atol=1e-5), f"{k}: interval [0,2] answered {r.ravel()}, mass {w.ravel()}")
    ctx.key("reject", kind, k, F, n)


def lr_params(leaf, kind):
    d = leaf.params()
    return {k: np.asarray(v.detach(), dtype=np.float64) for k, v in d.items()}


FAMILIES = [
    Family("leaf", f_leaf, 320, 2500),
    Family("circuit", f_circuit, 220, 2500),
    Family("zoo", f_zoo, 120, 900),
    Family("mixture", f_mixture, 24, 400),
    Family("reject", f_reject, 16, 120),
]
