"""C05: unconditional samples follow the model's distribution (goodness of fit over the complete domain)."""
import numpy as np

from spmon import circ, mon
from spmon.runner import Family
from spmon.checks import common

PID = "C05"
RULE = "distinct = distinct circuit signature / zoo configuration whose sample histogram was tested cell by cell"
ASSUMPTIONS = ["chi-square over all assignments of the finite domain (cells pooled to expectation >= 20), alarm at p < 1e-10 or on any "
               "draw of a zero-probability assignment; Kolmogorov-Smirnov for continuous marginals at p < 1e-10"]


def f_ast(ctx):
    node, m, vs = common.ast(ctx, sampleable=True)
    mon.check_samples(ctx, m, vs, what="random circuit", N=3000 if ctx.tier == "quick" else 12000)


def f_slots(ctx):
    node, vs = circ.random_multi(ctx.rng)
    ctx.note(node.describe()[:300])
    ctx.key("slots", node.sig())
    mon.check_slot_samples(ctx, node.build(), vs, ctx.rng, what="multi-output circuit", slots=4,
                           N=4000 if ctx.tier == "quick" else 16000)


def f_cont(ctx):
    """Mixed continuous/discrete circuit: every 1-d marginal and one conditional slice of the joint."""
    rng = ctx.rng
    fams = circ.CONTINUOUS + ["bernoulli", "categorical"]
    node, vs = circ.random_circuit(rng, n=int(rng.integers(1, 5)), families=fams, sampleable=True)
    ctx.note(f"{vs} {node.describe()[:300]}")
    ctx.key("cont", node.sig())
    m = node.build()
    N = 4000 if ctx.tier == "quick" else 16000
    S = m.sample(num_samples=N).detach().numpy().astype(float)
    ctx.check(S.shape == (N, len(vs)), f"sample shape {S.shape}")
    ctx.check(np.isfinite(S).all(), "samples contain missing or infinite values")
    ctx.check((mon.ll(m, S) > -np.inf).all(), "sampled a point of zero density")
    none = np.full(len(vs), np.nan)
    dv = [i for i, v in enumerate(vs) if v.domain]
    for i, v in enumerate(vs):
        if v.domain:
            X = np.repeat(none[None], len(v.domain), 0)
            X[:, i] = v.domain
            p = np.exp(mon.ll(m, X)[:, 0, 0, 0])
            ix = np.array([v.domain.index(s) for s in S[:, i]])
            mon.chi2_cells(ctx, np.bincount(ix, minlength=len(p)), p, f"marginal of variable {i}")
            continue
        x, c = mon.cond_cdf(m, vs, i, none)
        mon.ks_check(ctx, S[:, i], x, c, f"marginal of variable {i} ({v.kind})")
        if dv:  # dependence: distribution of the continuous variable inside one discrete slice
            j = dv[rng.integers(len(dv))]
            val = vs[j].domain[rng.integers(len(vs[j].domain))]
            sel = S[:, j] == val
            if sel.sum() > 200:
                row = none.copy()
                row[j] = val
                x, c = mon.cond_cdf(m, vs, i, row)
                mon.ks_check(ctx, S[sel, i], x, c, f"variable {i} within samples having variable {j}={val}")


def f_counts(ctx):
    """Unbounded count leaves: marginal histogram against the model's own mass function."""
    rng = ctx.rng
    node, vs = circ.random_circuit(rng, n=int(rng.integers(1, 4)), families=circ.COUNTS + ["binomial"], sampleable=True)
    ctx.note(f"{vs} {node.describe()[:300]}")
    ctx.key("counts", node.sig())
    m = node.build()
    S = m.sample(num_samples=4000).detach().numpy().astype(float)
    ctx.check((S >= 0).all() and (S == np.floor(S)).all(), "count samples must be non-negative integers")
    for i in range(len(vs)):
        X = np.full((300, len(vs)), np.nan)
        X[:, i] = np.arange(300) if not vs[i].domain else np.minimum(np.arange(300), len(vs[i].domain) - 1)
        p = np.exp(mon.ll(m, X)[:, 0, 0, 0])
        if vs[i].domain:
            p = p[: len(vs[i].domain)]
        ctx.check(S[:, i].max() < len(p), "sampled a count of (numerically) zero probability")
        mon.chi2_cells(ctx, np.bincount(S[:, i].astype(int), minlength=len(p)), p, f"marginal of variable {i} ({vs[i].kind})", tinyp=1e-12)


def _zoo(name, **kw):
    def f(ctx):
        z = common.model(ctx, name, **kw)
        N = 3000 if ctx.tier == "quick" else 12000
        if name in ("cltree", "cltmix", "cnet"):  # row-wise tree sampling is slow
            N = 1200 if ctx.tier == "quick" else 5000
        size = 1
        for v in z.vs:
            size *= len(v.domain)
        if size > 5000:
            return _proj(ctx, z, N)
        mon.check_samples(ctx, z.m, z.vs, what=name, N=N)
    return f


def _proj(ctx, z, N):
    """Large domain: compare random 4-variable projections with the model's own marginals."""
    import itertools

    S = z.m.sample(num_samples=N).detach().numpy().astype(float)
    n = len(z.vs)
    ctx.check(S.shape == (N, n) and not np.isnan(S).any(), f"{z.name}: sample shape {S.shape} or missing values")
    for _ in range(8):
        sub = np.sort(ctx.rng.choice(n, 4, replace=False))
        D = np.array(list(itertools.product(*[z.vs[i].domain for i in sub])))
        X = np.full((len(D), n), np.nan)
        X[:, sub] = D
        ix = mon.index_rows(D, S[:, sub])
        ctx.check((ix >= 0).all(), f"{z.name}: sampled values outside the domain")
        mon.chi2_cells(ctx, np.bincount(ix, minlength=len(D)), np.exp(mon.ll(z.m, X)[:, 0, 0, 0]), f"{z.name}: variables {sub.tolist()}")


FAMILIES = [
    Family("ast", f_ast, 600, 6000),
    Family("slots", f_slots, 400, 4000),
    Family("cont", f_cont, 150, 1200),
    Family("counts", f_counts, 50, 600),
] + [Family(k, _zoo(k), q, t) for k, q, t in [
    ("masked", 100, 1500),     ("rat", 90, 900), ("einet", 120, 1200), ("convpc", 28, 250), ("hclt", 20, 200), ("cltmix", 16, 120), ("cltree", 40, 300), ("naive_bayes", 30, 300),
    ("cnet", 40, 400), ("learn_spn", 16, 150), ("prometheus", 8, 80), ("cms", 8, 60)]]
