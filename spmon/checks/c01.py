"""C01: every built circuit is a normalised probability distribution in every output slot."""
import numpy as np

from spmon import circ, leafref as lr, mon
from spmon.runner import Family, Skip
from spmon.checks import common

PID = "C01"
RULE = ("a case counts as distinct when its circuit (operator tree with shapes) or zoo configuration differs; trivial "
        "single-leaf circuits are not counted")
ASSUMPTIONS = ["float32 evaluation; mass compared to one within 3e-4 in the log (2e-3 for quadrature)",
               "finite domains are enumerated completely, continuous ones are integrated on a fine grid"]


def f_ast(ctx):
    node, m, vs = common.ast(ctx, C=int(ctx.rng.integers(1, 3)))
    mon.check_normalized(ctx, m, vs, "random circuit")


def f_deep(ctx):
    node, m, vs = common.ast(ctx, cap=4200, n=int(ctx.rng.integers(7, 13)), families=["bernoulli"], depth=6, max_nodes=70)
    mon.check_normalized(ctx, m, vs, "deep random circuit")


def _zoo(name, **kw):
    def f(ctx):
        z = common.model(ctx, name, **kw)
        D, L = mon.check_normalized(ctx, z.m, z.vs, name)
    return f


def _conv16(ctx):
    z = common.model(ctx, "convpc")
    D = mon.domain(z.vs)
    tot = []
    L = np.concatenate([mon.ll(z.m, D[i:i + 8192]) for i in range(0, len(D), 8192)])
    ctx.count("assignments_summed", len(D))
    t = mon.lse(L, 0)
    ctx.close(t, np.zeros_like(t), "convpc: log total mass", rtol=0, atol=1e-3)


SUPPORT = {"normal": (-14, 14), "laplace": (-32, 32), "exponential": (0, 60), "gamma": (1e-9, 60), "lognormal": (1e-9, 90),
           "uniform": (-3, 4)}


def f_quad(ctx):
    """One or two continuous variables: trapezoid / Simpson integration of exp(log-likelihood)."""
    rng = ctx.rng
    n = 1 if rng.random() < 0.7 else 2
    fams = ["normal", "laplace", "exponential", "gamma", "lognormal"]
    node, vs = circ.random_circuit(rng, n=n, families=fams, C=1, depth=3)
    ctx.note(f"vars={vs} circuit={node.describe()[:300]}")
    m = node.build()
    ctx.key("quad", node.sig())
    axes, wts = [], []
    for v in vs:
        lo, hi = SUPPORT[v.kind]
        k = 40001 if n == 1 else 700
        # positive families: integrate in log space so the singularity at 0 of gamma is resolved
        if v.kind in ("exponential", "gamma", "lognormal"):
            u = np.linspace(-16, np.log(hi), k)
            x = np.exp(u)
            w = np.full(k, u[1] - u[0]) * x
        else:
            x = np.linspace(lo, hi, k)
            w = np.full(k, x[1] - x[0])
        w[0] *= 0.5
        w[-1] *= 0.5
        axes.append(x)
        wts.append(w)
    if n == 1:
        X, W = axes[0][:, None], wts[0]
    else:
        g = np.meshgrid(*axes, indexing="ij")
        X = np.stack([a.ravel() for a in g], 1)
        W = np.outer(*wts).ravel()
    L = np.concatenate([mon.ll(m, X[i:i + 65536])[:, 0, 0, 0] for i in range(0, len(X), 65536)])
    tot = float((np.exp(L) * W).sum())
    ctx.count("grid_points", len(X))
    ctx.close(tot, 1.0, "integral of the density", rtol=0, atol=4e-3 if n == 1 else 1.5e-2)


def f_counts(ctx):
    """Unbounded count variables, summed far into the tail."""
    rng = ctx.rng
    n = int(rng.integers(1, 3))
    node, vs = circ.random_circuit(rng, n=n, families=circ.COUNTS, C=1, depth=3)
    ctx.note(f"vars={vs} circuit={node.describe()[:300]}")
    ctx.key("counts", node.sig())
    m = node.build()
    K = 2000 if n == 1 else 110
    D = np.stack([g.ravel() for g in np.meshgrid(*[np.arange(K, dtype=float)] * n, indexing="ij")], 1)
    L = mon.ll(m, D)
    tot = np.exp(L[:, 0, 0, 0]).sum()
    ctx.count("assignments_summed", len(D))
    ctx.close(tot, 1.0, "mass of the first %d counts" % K, rtol=0, atol=2e-3)


def f_prodconv(ctx):
    """Stand-alone image products with any kernel and padding: the product of the outputs is a density over the declared scope."""
    import itertools

    import torch
    from spflow.modules.conv import ProdConv
    from spflow.modules.leaves import Bernoulli

    rng = ctx.rng
    side = int(rng.integers(1, 4))
    kh, kw, ph, pw = (int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(0, 3)), int(rng.integers(0, 3)))
    if side + 2 * ph < kh or side + 2 * pw < kw:
        raise Skip("kernel larger than the image")
    n, C = side * side, int(rng.integers(1, 3))
    leaf = Bernoulli(scope=list(range(n)), probs=torch.tensor(rng.uniform(0.05, 0.95, (n, C, 1)), dtype=torch.float32))
    ctx.key(side, kh, kw, ph, pw, C)
    m = ProdConv(inputs=leaf, kernel_size_h=kh, kernel_size_w=kw, padding_h=ph, padding_w=pw)
    q = sorted(m.scope.query)
    D = np.full((2 ** len(q), n), np.nan)
    D[:, q] = np.array(list(itertools.product([0.0, 1.0], repeat=len(q)))).reshape(len(D), len(q))
    L = mon.ll(m, D)
    ctx.check(L.shape[1:] == tuple(m.out_shape), "declared shape")
    tot = mon.lse(L.sum(1), 0)
    ctx.close(tot, np.zeros_like(tot), f"ProdConv side={side} kernel=({kh},{kw}) padding=({ph},{pw}): total mass over its scope", 1e-4, 1e-4)
    for f in range(L.shape[1]):
        fq = sorted(m.feature_to_scope[f, 0].query)
        E = np.full((2 ** len(fq), n), np.nan)
        if fq:
            E[:, fq] = np.array(list(itertools.product([0.0, 1.0], repeat=len(fq))))
        tot = mon.lse(mon.ll(m, E)[:, f], 0)
        ctx.close(tot, np.zeros_like(tot), f"ProdConv side={side} kernel=({kh},{kw}) padding=({ph},{pw}): mass of output {f} over its feature scope", 1e-4, 1e-4)


FAMILIES = [
    Family("ast", f_ast, 500, 4000),
    Family("deep", f_deep, 14, 200),
    Family("quad", f_quad, 28, 400),
    Family("counts", f_counts, 28, 400),
    Family("convpc", _conv16, 14, 120),
    Family("prodconv", f_prodconv, 40, 400),
] + [Family(k, _zoo(k), q, t) for k, q, t in [
    ("masked", 80, 1200), ("by_index", 40, 600),     ("rat", 120, 900), ("einet", 160, 1500), ("hclt", 16, 200), ("cltree", 30, 400), ("naive_bayes", 24, 300),
    ("cnet", 24, 300), ("learn_spn", 14, 150), ("prometheus", 8, 80), ("cms", 8, 60)]]
