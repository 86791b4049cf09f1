"""C03: a missing value (NaN) means exact marginalisation, for every missing pattern, row by row."""
import numpy as np

from spmon import circ, mon
from spmon.runner import Family
from spmon.checks import common

PID = "C03"
RULE = "distinct = distinct circuit signature / zoo configuration; every case checks several random missing patterns"
ASSUMPTIONS = ["oracle: log-sum-exp of the model's own complete-data likelihoods over all completions (finite domains), "
               "quadrature (continuous); tolerance 5e-4 in the log"]


def f_ast(ctx):
    node, m, vs = common.ast(ctx, C=int(ctx.rng.integers(1, 3)))
    mon.check_nan_marginal(ctx, m, vs, ctx.rng, what="random circuit")


def f_multi(ctx):
    node, vs = circ.random_multi(ctx.rng, sampleable=False)
    ctx.note(node.describe()[:300])
    ctx.key("multi", node.sig())
    m = node.build()
    # features are independent factors: missing values of a feature's own scope integrate to one in that slot
    D = mon.domain(vs)
    L = mon.ll(m, D)
    for _ in range(4):
        x = D[ctx.rng.integers(len(D))].copy()
        miss = ctx.rng.random(len(vs)) < 0.5
        x[miss] = np.nan
        got = mon.ll(m, x[None])[0]
        for f, scope in enumerate(node.feats):
            mf = sorted(v for v in scope if miss[v])
            rest = [v for v in range(len(vs)) if v not in mf]
            ref = D[0].copy()
            ref[~miss] = x[~miss]
            sel = (D[:, rest] == ref[rest]).all(1)
            ctx.count("marginals_enumerated")
            mon._close_ll(ctx, got[f], mon.lse(L[sel][:, f], 0), f"feature {f} with missing {mf}", 5e-4)


def f_nonfinite(ctx):
    """Only NaN marks a missing value: an infinite entry is an observed value no distribution puts mass on."""
    import torch
    from spflow.meta.data.scope import Scope
    from spflow.modules.leaves import CLTree, Histogram
    from spflow.modules.products import Product
    from spmon import leafref

    rng = ctx.rng
    kinds = ["cltree", "normal", "cltree", "laplace", "uniform", "bernoulli", "categorical", "geometric", "poisson", "binomial", "exponential", "negbin", "histogram"]
    kind = kinds[ctx.idx % len(kinds)]
    n = int(rng.integers(2, 5))  # variables of the leaf
    cols = [int(c) for c in rng.permutation(n + 1)[:n]]
    K = int(rng.integers(2, 4))
    if kind == "cltree":
        par = [-1] + [int(rng.integers(0, j)) for j in range(1, n)]
        m = CLTree(scope=cols, K=K, parents=torch.tensor(par))
        dom = lambda: float(rng.integers(0, K))  # noqa: E731
    elif kind == "histogram":
        parts = [Histogram(scope=Scope([c]), bin_edges=torch.tensor([0.0, 1.0, 2.5]), probs=torch.tensor(rng.dirichlet([1, 1]).reshape(1, 1, 1, 2)).float()) for c in cols]
        m = Product(parts)
        dom = lambda: float(rng.random() * 2.4)  # noqa: E731
    else:
        p = leafref.rand_params(kind, rng, (n, 1, 1), K=K, total=4)
        m = leafref.build(kind, cols, p)
        dom = lambda: 0.0 if kind == "uniform" else float(leafref.sample_data(kind, rng, 1, K=K, total=4)[0])  # noqa: E731
    ctx.key("nonfinite", kind, n, K)
    ctx.note(f"{kind} over {cols}")
    X = np.array([[dom() for _ in range(n + 1)] for _ in range(3)])
    X[rng.random(X.shape) < 0.3] = np.nan
    bad = rng.choice([np.inf, -np.inf])
    c = int(rng.choice(cols))
    X[1, c] = bad
    if rng.random() < 0.5:
        X[1, [v for v in cols if v != c][0]] = np.nan
    try:
        with torch.no_grad():
            L = m.log_likelihood(torch.tensor(X).float()).numpy()[1].reshape(-1)
    except Exception:  # noqa: BLE001
        ctx.count("rejected")
        L = np.array([-np.inf])
    ctx.check(L.min() == -np.inf, f"{kind}: the value {bad} has log-density {L.tolist()}")
    if kind == "cltree":  # values a float computation leaves next to an integer are that integer
        X = np.array([[dom() for _ in range(n + 1)] for _ in range(6)])
        Y = X * (1 - 2e-7 * rng.integers(0, 3, X.shape))
        with torch.no_grad():
            a, b = m.log_likelihood(torch.tensor(X)).numpy(), m.log_likelihood(torch.tensor(Y)).numpy()
            Y[0, cols[0]] = np.nan
            d = m.log_likelihood(torch.tensor(Y)).numpy()
        ctx.close(b, a, "values just below the integers", 1e-6, 1e-6)
        ctx.close(d[1:], a[1:], "values just below the integers, another row missing one", 1e-6, 1e-6)


def _zoo(name, **kw):
    def f(ctx):
        z = common.model(ctx, name, **kw)
        n = 1
        for v in z.vs:
            n *= len(v.domain)
        if n > 5000:
            return _big(ctx, z)
        mon.check_nan_marginal(ctx, z.m, z.vs, ctx.rng, what=name)
    return f


def _big(ctx, z):
    """Domain too large for all completions at once: enumerate only the missing variables' completions."""
    import itertools

    rng = ctx.rng
    n = len(z.vs)
    for _ in range(4):
        k = int(rng.integers(1, min(n, 9)))
        miss = np.sort(rng.choice(n, k, replace=False))
        base = np.array([v.domain[rng.integers(len(v.domain))] for v in z.vs])
        comp = np.array(list(itertools.product(*[z.vs[i].domain for i in miss])))
        X = np.repeat(base[None], len(comp), 0)
        X[:, miss] = comp
        want = mon.lse(mon.ll(z.m, X), 0)
        base[miss] = np.nan
        ctx.count("marginals_enumerated")
        ctx.count("completions_summed", len(comp))
        mon._close_ll(ctx, mon.ll(z.m, base[None])[0], want, f"{z.name} with missing {miss.tolist()}", 8e-4)


def f_quad(ctx):
    rng = ctx.rng
    fams = ["normal", "laplace", "exponential", "gamma", "lognormal", "bernoulli"]
    node, vs = circ.random_circuit(rng, n=int(rng.integers(2, 5)), families=fams, depth=4)
    ctx.note(f"{vs} {node.describe()[:300]}")
    m = node.build()
    ctx.key("quad", node.sig())
    for _ in range(2):
        x = circ.rand_data(rng, vs, 1)[0]
        t = int(rng.integers(len(vs)))
        x[rng.random(len(vs)) < 0.3] = np.nan
        xm = x.copy()
        xm[t] = np.nan
        got = mon.ll(m, xm[None])[0, 0, 0, 0]
        v = vs[t]
        if v.domain:
            pts, w = np.array(v.domain), np.ones(len(v.domain))
        else:
            lo, hi, lg = mon.GRID[v.kind]
            u = np.linspace(lo, hi, 30001)
            pts = np.exp(u) if lg else u
            w = (u[1] - u[0]) * (pts if lg else 1.0)
        X = np.repeat(x[None], len(pts), 0)
        X[:, t] = pts
        L = mon.ll(m, X)[:, 0, 0, 0]
        mx = L.max()
        want = mx + np.log((np.exp(L - mx) * w).sum())
        ctx.count("grid_points", len(pts))
        ctx.close(got, want, f"marginal over {v.kind} variable {t}", rtol=1e-3, atol=5e-3)


def f_batch(ctx):
    """Different missing patterns in one batch must not influence one another."""
    node, vs = circ.random_circuit(ctx.rng, families=circ.DISCRETE + circ.CONTINUOUS + circ.COUNTS, n=int(ctx.rng.integers(2, 7)))
    ctx.note(node.describe()[:300])
    ctx.key("batch", node.sig())
    m = node.build()
    X = circ.rand_data(ctx.rng, vs, 25, missing=0.5)
    X[0] = np.nan
    L = mon.ll(m, X)
    ctx.close(L[0], np.zeros_like(L[0]), "log-likelihood of a fully missing row", rtol=0, atol=5e-4)
    one = np.concatenate([mon.ll(m, X[i:i + 1]) for i in range(len(X))])
    ctx.close(L, one, "row evaluated inside a batch vs alone", rtol=1e-4, atol=1e-4)
    perm = ctx.rng.permutation(len(X))
    ctx.close(mon.ll(m, X[perm]), L[perm], "permuted batch", rtol=1e-4, atol=1e-4)


FAMILIES = [
    Family("ast", f_ast, 600, 5000),
    Family("multi", f_multi, 100, 1500),
    Family("quad", f_quad, 50, 700),
    Family("batch", f_batch, 80, 1200),
    Family("nonfinite", f_nonfinite, 52, 650),
] + [Family(k, _zoo(k), q, t) for k, q, t in [
    ("masked", 80, 1200), ("by_index", 40, 600),     ("rat", 120, 900), ("einet", 140, 1500), ("convpc", 30, 300), ("hclt", 20, 200), ("cltmix", 20, 200), ("cltree", 40, 500), ("naive_bayes", 30, 300),
    ("cnet", 40, 500), ("learn_spn", 16, 150), ("prometheus", 8, 80), ("cms", 8, 60)]]
