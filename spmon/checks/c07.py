"""C07: MPE completes missing values deterministically with the most probable choice at every decision."""
import itertools

import numpy as np

from spmon import circ, leafref as lr, mon
from spmon.circ import Var, t
from spmon.runner import Family
from spmon.checks import common

PID = "C07"
RULE = "distinct = distinct circuit signature / zoo configuration / component table"
ASSUMPTIONS = ["exact optimality is demanded only where a decision by decision choice is exact: single factorised components, trees, "
               "mixtures of factorised components (component with highest posterior, then its mode); general circuits: evidence kept, "
               "in-domain, positive probability, deterministic, one-row/batch agreement"]


def _call(ctx, m):
    k = int(ctx.rng.integers(0, 3))
    ctx.count(["via:sample_with_evidence", "via:mpe", "via:sample(is_mpe)"][k])
    if k == 0:
        return lambda d: m.sample_with_evidence(d, is_mpe=True)
    if k == 1:
        return lambda d: m.mpe(data=d)
    return lambda d: m.sample(data=d, is_mpe=True)


def _batch(ctx, m, E, S, fn, what):
    """Completion of a row does not depend on the rest of the batch."""
    for i in range(min(3, len(E))):
        one = fn(mon.tt(E[i:i + 1].copy())).detach().numpy().astype(float)
        if not np.array_equal(one[0], S[i]):
            # only a tie between equally probable completions may differ
            a, b = mon.ll(m, one)[0], mon.ll(m, S[i:i + 1])[0]
            ctx.check(np.allclose(a, b, atol=1e-4), f"{what}: MPE of a row changes with the other rows of the batch")
        ctx.count("verdict_rows")


def f_ast(ctx):
    node, m, vs = common.ast(ctx, sampleable=True)
    fn = _call(ctx, m)
    E, S = mon.check_mpe_basic(ctx, m, vs, ctx.rng, what="random circuit", rows=8, fn=fn)
    _batch(ctx, m, E, S, fn, "random circuit")
    full = np.full((2, len(vs)), np.nan)
    a = fn(mon.tt(full.copy())).detach().numpy()
    b = m.mpe(num_samples=2).detach().numpy()
    ctx.check(np.array_equal(a, b), "mpe() and MPE of fully missing evidence differ")


def f_route(ctx):
    """Every mixture decision of a general circuit follows the highest posterior; free leaves take their mode."""
    rng = ctx.rng
    fams = circ.DISCRETE if rng.random() < 0.5 else circ.DISCRETE + ["normal", "laplace", "lognormal", "poisson", "geometric"]
    multi = rng.random() < 0.3
    if multi:
        node, vs = circ.random_multi(rng, families=fams)
    else:
        node, vs = circ.random_circuit(rng, families=fams, sampleable=True, n=int(rng.integers(2, 8)))
    ctx.note(f"{vs} {node.describe()[:400]}")
    ctx.key("route", node.sig())
    m = node.build()
    X = circ.rand_data(rng, vs, 12)
    X[rng.random(X.shape) < 0.5] = np.nan
    X = mon.tt(X).numpy().astype(float)
    if multi:
        from spflow.utils.cache import Cache
        import torch

        ch = rng.integers(0, node.C, (len(X), node.F))
        rp = rng.integers(0, node.R, len(X))
        cache = Cache()
        with torch.no_grad():
            m.log_likelihood(mon.tt(X), cache=cache)
        S = mon.slot_draw(m, mon.tt(X.copy()), ch, rp, is_mpe=True, cache=cache).detach().numpy().astype(float)
        W, margin = X.copy(), np.full(len(X), np.inf)
        memo = {}
        node.ref(X, memo)
        for b in range(len(X)):
            for f in range(node.F):
                node._route(b, f, int(ch[b, f]), int(rp[b]), memo, W, margin)
    else:
        S = _call(ctx, m)(mon.tt(X.copy())).detach().numpy().astype(float)
        W, margin = node.mpe(X)
    ok = margin > 2e-3
    ctx.count("rows_with_clear_decisions", int(ok.sum()))
    ctx.close(S[ok], W[ok], "MPE completion vs highest-posterior decisions", rtol=1e-4, atol=1e-4)


def _zoo(name, **kw):
    def f(ctx):
        z = common.model(ctx, name, **kw)
        size = 1
        for v in z.vs:
            size *= len(v.domain)
        if size > 5000:
            return
        fn = _call(ctx, z.m)
        E, S = mon.check_mpe_basic(ctx, z.m, z.vs, ctx.rng, what=name, rows=8, fn=fn)
        _batch(ctx, z.m, E, S, fn, name)
    return f


MODE = {
    "normal": lambda p: p["loc"], "laplace": lambda p: p["loc"], "lognormal": lambda p: np.exp(p["loc"] - p["scale"] ** 2),
    "exponential": lambda p: np.zeros_like(p["rate"]),
}


def f_leafmode(ctx):
    """Every leaf family: the completion attains the maximal density of the selected channel."""
    rng = ctx.rng
    kind = (circ.DISCRETE + circ.COUNTS + ["normal", "laplace", "lognormal", "gamma", "hypergeometric", "uniform", "exponential"])[ctx.idx % 13]
    F, C, R = int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(1, 3))
    K, tot = int(rng.integers(2, 5)), int(rng.integers(1, 6))
    prm = lr.rand_params(kind, rng, (F, C, R), K=K, total=tot)
    ctx.note(f"{kind} F={F} C={C} R={R}")
    ctx.key("leafmode", kind, F, C, R)
    m = lr.build(kind, list(range(F)), prm)
    B = 12
    ch = rng.integers(0, C, (B, F))
    rp = rng.integers(0, R, B)
    S = mon.slot_draw(m, mon.tt(np.full((B, F), np.nan)), ch, rp, is_mpe=True).detach().numpy().astype(float)
    ctx.check(np.isfinite(S).all(), f"{kind}: MPE value is not finite")
    if kind in ("normal", "laplace"):
        grid = np.linspace(-8, 8, 4001)
    elif kind == "uniform":
        grid = np.linspace(-3, 4, 701)
    elif kind in ("lognormal", "exponential", "gamma"):
        grid = np.exp(np.linspace(-8, 4, 4001))
    else:
        grid = np.arange(0, 60.0)
    for b in range(B):
        for f in range(F):
            q = {k: v[f, ch[b, f], rp[b]] for k, v in prm.items()}
            best = lr.logpdf(kind, grid, q)
            best = best[np.isfinite(best)].max()
            got = float(lr.logpdf(kind, np.array(S[b, f]), q))
            ctx.count("modes_compared")
            if kind == "gamma" and q["concentration"] <= 1.0:
                continue  # unbounded density
            if kind == "exponential":
                ctx.check(abs(S[b, f]) < 1e-6, f"exponential mode {S[b, f]}")
                continue
            ctx.check(got >= best - 1e-3, f"{kind}: MPE value {S[b, f]} has log-density {got:.4f} < attainable {best:.4f} (params {q})")


def f_mixture(ctx):
    """Mixture of factorised components: argmax posterior component, then its mode on the missing part."""
    from spflow.modules.products import Product
    from spflow.modules.sums import Sum

    rng = ctx.rng
    n, C = int(rng.integers(2, 7)), int(rng.integers(2, 6))
    kind = ["bernoulli", "categorical", "binomial", "normal", "poisson"][rng.integers(5)]
    K, tot = int(rng.integers(2, 4)), int(rng.integers(1, 4))
    prm = lr.rand_params(kind, rng, (n, C, 1), K=K, total=tot)
    w = rng.dirichlet(np.ones(C)).astype(np.float32).astype(float) + 1e-3
    w /= w.sum()
    m = Sum(inputs=Product(inputs=lr.build(kind, list(range(n)), prm)), weights=t(w.reshape(1, C, 1, 1)))
    ctx.note(f"mixture of {C} {kind} components over {n} variables")
    ctx.key("mix", kind, n, C, w.tobytes())
    B = 40
    X = np.stack([lr.sample_data(kind, rng, B, K=K, total=tot) for _ in range(n)], 1)
    X[rng.random(X.shape) < 0.5] = np.nan
    X = mon.tt(X).numpy().astype(float)
    x = X[:, :, None, None]
    lp = np.where(np.isnan(x), 0.0, lr.logpdf(kind, np.where(np.isnan(x), 1.0, x), prm)).sum(1)[:, :, 0] + np.log(w)
    top2 = np.sort(lp, 1)[:, -2:]
    S = _call(ctx, m)(mon.tt(X.copy())).detach().numpy().astype(float)
    grid = np.arange(0, 40.0) if kind != "normal" else None
    for b in range(B):
        if top2[b, 1] - top2[b, 0] < 1e-3:
            continue
        k = int(lp[b].argmax())
        ctx.count("posterior_argmax_rows")
        for i in range(n):
            if not np.isnan(X[b, i]):
                ctx.check(S[b, i] == X[b, i], "MPE changed an observed value")
                continue
            q = {kk: v[i, k, 0] for kk, v in prm.items()}
            if kind == "normal":
                ctx.check(abs(S[b, i] - q["loc"]) < 1e-4, f"row {b}: variable {i} completed with {S[b, i]}, component {k} mode is {q['loc']}")
            else:
                d = lr.logpdf(kind, grid, q)
                got = float(lr.logpdf(kind, np.array(S[b, i]), q))
                ctx.check(got >= d.max() - 1e-3, f"row {b}: variable {i}={S[b, i]} is not the mode of the most probable component {k}")


def f_tree(ctx):
    """Chow-Liu tree: exact most probable completion."""
    import torch
    from spflow.modules.leaves import CLTree

    rng = ctx.rng
    n, K = int(rng.integers(2, 7)), int(rng.integers(2, 4))
    perm = rng.permutation(n)
    par = np.full(n, -1)
    for i in range(1, n):
        par[perm[i]] = perm[rng.integers(0, i)]
    cpt = rng.dirichlet(np.ones(K), size=(n, 1, 1, K)).swapaxes(-1, -2) + 1e-6
    cpt[perm[0]] = cpt[perm[0]][..., :1]
    m = CLTree(scope=list(range(n)), out_channels=1, K=K, parents=torch.as_tensor(par), log_cpt=torch.log(mon.tt(cpt)))
    ctx.note(f"cltree n={n} K={K} parents={par.tolist()}")
    ctx.key("tree", n, K, tuple(par))
    D = np.array(list(itertools.product(range(K), repeat=n)), dtype=float)
    Li = D.astype(int)
    ref = np.zeros(len(D))
    for v in range(n):
        p = Li[:, par[v]] if par[v] >= 0 else np.zeros(len(D), int)
        ref += np.log(cpt[v][0, 0, Li[:, v], p])
    X = D[rng.choice(len(D), 20)].copy()
    X[rng.random(X.shape) < 0.6] = np.nan
    X[0] = np.nan
    S = m.sample_with_evidence(mon.tt(X.copy()), is_mpe=True).detach().numpy().astype(float)
    ix = mon.index_rows(D, S)
    ctx.check((ix >= 0).all(), "MPE outside the domain")
    for b in range(len(X)):
        o = ~np.isnan(X[b])
        ctx.check((S[b][o] == X[b][o]).all(), "MPE changed an observed value")
        best = ref[(D[:, o] == X[b, o]).all(1)].max()
        ctx.count("exact_mpe_rows")
        ctx.check(ref[ix[b]] >= best - 1e-4, f"MPE of {X[b].tolist()} has log-probability {ref[ix[b]]:.4f}, best is {best:.4f}")


def f_product(ctx):
    """One factorised component (no mixture anywhere): exact most probable completion."""
    rng = ctx.rng
    node, vs = circ.random_circuit(rng, n=int(rng.integers(2, 6)), R=1, maxC=1, ops=["leafn", "prod", "prodlist", "cat1", "eprod", "oprod", "eprod_s", "oprod_s"], sampleable=True)
    ctx.note(node.describe()[:300])
    ctx.key("product", node.sig())
    m = node.build()
    D = mon.domain(vs)
    if len(D) > 3000:
        return
    L = mon.ll(m, D)[:, 0, 0, 0]
    X = D[rng.choice(len(D), 8)].copy()
    X[rng.random(X.shape) < 0.6] = np.nan
    S = _call(ctx, m)(mon.tt(X.copy())).detach().numpy().astype(float)
    ix = mon.index_rows(D, S)
    for b in range(len(X)):
        o = ~np.isnan(X[b])
        best = L[(D[:, o] == X[b, o]).all(1)].max()
        ctx.count("exact_mpe_rows")
        ctx.check(ix[b] >= 0 and (S[b][o] == X[b][o]).all(), "MPE changed an observed value or left the domain")
        ctx.check(L[ix[b]] >= best - 1e-4, f"MPE of {X[b].tolist()} has log-probability {L[ix[b]]:.4f}, best is {best:.4f}")


FAMILIES = [
    Family("ast", f_ast, 600, 5000),
    Family("route", f_route, 600, 8000),
    Family("leafmode", f_leafmode, 65, 650),
    Family("mixture", f_mixture, 80, 1200),
    Family("tree", f_tree, 60, 800),
    Family("product", f_product, 60, 800),
] + [Family(k, _zoo(k), q, t_) for k, q, t_ in [
    ("masked", 100, 1500),     ("rat", 120, 900), ("einet", 120, 1200), ("convpc", 28, 250), ("hclt", 20, 200), ("cltmix", 20, 200), ("cltree", 40, 400), ("naive_bayes", 30, 300),
    ("cnet", 40, 400), ("learn_spn", 16, 150), ("prometheus", 8, 80), ("cms", 8, 60)]]
