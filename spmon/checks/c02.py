"""C02: log-likelihoods equal the textbook value of the circuit (independent float64 evaluation)."""
import numpy as np

from spmon import circ, leafref as lr, mon, zoo
from spmon.runner import Family
from spmon.checks import common

PID = "C02"
RULE = "distinct = distinct circuit signature (operator tree, feature/channel/repetition counts, split kinds, leaf families)"
ASSUMPTIONS = ["reference: independent numpy/scipy float64 evaluation of the generated expression DAG",
               "comparison within 3e-4 relative/absolute of float32 evaluation"]

ALL = circ.DISCRETE + circ.CONTINUOUS + circ.COUNTS


def _cmp(ctx, node, m, X, what):
    L = mon.ll(m, X)
    ctx.count("rows_compared", len(X))
    ctx.close(L, node.ref(X), what, rtol=3e-4, atol=5e-4)
    ctx.check(L.shape[:3] == (len(X), m.out_shape.features, m.out_shape.channels),
              f"{what}: output shape {L.shape} does not match the declared {m.out_shape}")


def f_disc(ctx):
    node, vs = circ.random_circuit(ctx.rng, C=int(ctx.rng.integers(1, 4)))
    ctx.note(f"{vs} {node.describe()[:400]}")
    ctx.key("d", node.sig())
    m = node.build()
    X = circ.rand_data(ctx.rng, vs, 40, missing=0.0 if ctx.rng.random() < 0.4 else float(ctx.rng.random()))
    _cmp(ctx, node, m, X, "discrete circuit")


def f_mixed(ctx):
    node, vs = circ.random_circuit(ctx.rng, families=ALL, C=int(ctx.rng.integers(1, 4)), n=int(ctx.rng.integers(2, 9)))
    ctx.note(f"{vs} {node.describe()[:400]}")
    ctx.key("m", node.sig())
    m = node.build()
    X = circ.rand_data(ctx.rng, vs, 40, missing=0.0 if ctx.rng.random() < 0.4 else float(ctx.rng.random()))
    _cmp(ctx, node, m, X, "mixed circuit")
    if ctx.rng.random() < 0.5:  # one row at a time, and the forward/probability aliases
        import torch

        x = X[:1]
        _cmp(ctx, node, m, x, "single row")
        with torch.no_grad():
            ctx.close(m(mon.tt(x)).numpy(), mon.ll(m, x), "forward alias", rtol=1e-6, atol=1e-6)
            ctx.close(m.probability(mon.tt(x)).numpy(), np.exp(node.ref(x)), "probability", rtol=2e-3, atol=1e-30 + 1e-7)


def f_multi(ctx):
    node, vs = circ.random_multi(ctx.rng, families=ALL if ctx.rng.random() < 0.5 else None, sampleable=False)
    ctx.note(f"{vs} {node.describe()[:400]}")
    ctx.key("f", node.sig())
    m = node.build()
    X = circ.rand_data(ctx.rng, vs, 30, missing=0.3 if ctx.rng.random() < 0.5 else 0.0)
    _cmp(ctx, node, m, X, "multi-output circuit")


def f_deep(ctx):
    node, vs = circ.random_circuit(ctx.rng, families=ALL, n=int(ctx.rng.integers(10, 25)), depth=9, max_nodes=120,
                                   share=0.5)
    ctx.note(f"deep {node.describe()[:400]}")
    ctx.key("deep", node.sig())
    ctx.count("circuit_nodes", len(node.walk()))
    m = node.build()
    X = circ.rand_data(ctx.rng, vs, 20, missing=0.2)
    _cmp(ctx, node, m, X, "deep circuit")


def f_wide(ctx):
    """Layers with many channels (contraction schedules depend on the channel counts)."""
    rng = ctx.rng
    ops = ["leafn", "einsum", "einsum_s", "linsum", "cat1"] if rng.random() < 0.7 else None
    node, vs = circ.random_circuit(rng, families=ALL, n=int(rng.integers(2, 5)), C=int(rng.choice([1, 2, 4, 20])), R=int(rng.integers(1, 4)), depth=2, ops=ops, maxC=30, max_nodes=14)
    ctx.note(f"{vs} {node.describe()[:400]}")
    ctx.key("w", node.sig())
    for q in node.walk():
        if q.op == "einsum" and q.kids:
            ci, cj = q.p["w"].shape[-2:]
            ctx.count("einsum:" + ("wide" if ci * cj >= 256 else "narrow") + (":left<right" if ci < cj else ":left>=right"))
    m = node.build()
    X = circ.rand_data(rng, vs, 12, missing=0.0 if rng.random() < 0.6 else 0.3)
    _cmp(ctx, node, m, X, "circuit with many channels")


def f_f64(ctx):
    """Same circuits built and evaluated in double precision: differences beyond round-off become visible."""
    import torch

    torch.set_default_dtype(torch.float64)
    node, vs = circ.random_circuit(ctx.rng, families=ALL, C=int(ctx.rng.integers(1, 3)))
    ctx.note(f"float64 {node.describe()[:400]}")
    ctx.key("64", node.sig())
    m = node.build().double()
    X = circ.rand_data(ctx.rng, vs, 30, missing=0.2)
    with torch.no_grad():
        L = m.log_likelihood(torch.as_tensor(X)).numpy()
    ctx.close(L, node.ref(X), "float64 circuit", rtol=1e-5, atol=1e-5)


def f_extreme(ctx):
    """Observations far in the tails and nearly deterministic weights: log-space evaluation must not underflow."""
    rng = ctx.rng
    node, vs = circ.random_circuit(rng, families=["normal", "laplace", "bernoulli"], n=int(rng.integers(2, 7)))
    for q in node.walk():
        if q.op == "leaf" and q.p["kind"] == "normal" and rng.random() < 0.7:
            q.p["params"]["loc"] = q.p["params"]["loc"] + rng.choice([-40.0, 0.0, 40.0], size=q.p["params"]["loc"].shape)
        if q.op == "leaf" and q.p["kind"] == "bernoulli" and rng.random() < 0.5:
            q.p["params"]["probs"] = np.float32(rng.choice([1e-6, 0.5, 1 - 1e-6], size=q.p["params"]["probs"].shape)).astype(float)
    ctx.note(f"extreme {node.describe()[:400]}")
    ctx.key("x", node.sig())
    m = node.build()
    X = circ.rand_data(rng, vs, 30)
    for i, v in enumerate(vs):
        if v.kind in ("normal", "laplace"):
            X[:, i] *= rng.choice([1.0, 10.0, 60.0])
    X = X.astype(np.float32).astype(float)
    L, W = mon.ll(m, X), node.ref(X)
    ctx.count("rows_compared", len(X))
    ctx.close(L, W, "tail observations", rtol=1e-3, atol=2e-2)
    ctx.check(np.isfinite(L).all(), "finite log-densities reported as infinite")


def f_nb(ctx):
    from spflow.zoo.naive_bayes import NaiveBayes

    rng = ctx.rng
    n, cls = int(rng.integers(2, 7)), int(rng.integers(1, 5))
    kind = ALL[rng.integers(len(ALL))]
    K = int(rng.integers(2, 5))
    tot = int(rng.integers(1, 4))
    prm = lr.rand_params(kind, rng, (n, cls, 1), K=K, total=tot)
    prior = rng.dirichlet(np.ones(cls))
    given = None if cls == 1 else list(prior)
    m = NaiveBayes([lr.build(kind, list(range(n)), prm)], num_classes=cls, class_prior=given,
                   learnable_prior=bool(cls > 1 and rng.random() < .5))
    ctx.note(f"naive bayes {kind} n={n} classes={cls}")
    ctx.key("nb", kind, n, cls)
    X = np.stack([lr.sample_data(kind, rng, 30, K=K, total=tot) for _ in range(n)], 1)
    X[rng.random(X.shape) < 0.2] = np.nan
    x = X[:, :, None, None]
    lp = np.where(np.isnan(x), 0.0, lr.logpdf(kind, np.where(np.isnan(x), 1.0, x), prm)).sum(1)[:, :, 0]
    want = mon.lse(lp + np.log(prior)[None], 1)
    got = mon.ll(m, X)
    ctx.close(got.reshape(len(X), -1)[:, 0], want, "naive Bayes likelihood", rtol=3e-4, atol=3e-4)


def f_cltree(ctx):
    """Chow-Liu tree leaf against the product of its conditional tables, and missing values by enumeration."""
    import torch
    from spflow.modules.leaves import CLTree

    rng = ctx.rng
    n, K = int(rng.integers(2, 7)), int(rng.integers(2, 4))
    C, R = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    perm = rng.permutation(n)
    par = np.full(n, -1)
    for i in range(1, n):
        par[perm[i]] = perm[rng.integers(0, i)]
    cpt = rng.dirichlet(np.ones(K), size=(n, C, R, K)).swapaxes(-1, -2) + 1e-9
    cpt[perm[0]] = cpt[perm[0]][..., :1]
    m = CLTree(scope=list(range(n)), out_channels=C, num_repetitions=R, K=K, parents=torch.as_tensor(par), log_cpt=torch.log(mon.tt(cpt)))
    ctx.note(f"cltree n={n} K={K} C={C} R={R} parents={par.tolist()}")
    ctx.key("clt", n, K, C, R, tuple(par))
    import itertools

    D = np.array(list(itertools.product(range(K), repeat=n)), dtype=float)
    Li = D.astype(int)
    ref = np.zeros((len(D), C, R))
    for v in range(n):
        p = Li[:, par[v]] if par[v] >= 0 else np.zeros(len(D), int)
        ref += np.log(cpt[v][:, :, Li[:, v], p]).transpose(2, 0, 1)
    sub = rng.choice(len(D), min(len(D), 60), replace=False)
    X = D[sub].copy()
    X[rng.random(X.shape) < 0.4] = np.nan
    X[0] = D[sub[0]]
    want = np.zeros((len(X), C, R))
    for i in range(len(X)):
        o = ~np.isnan(X[i])
        want[i] = mon.lse(ref[(D[:, o] == X[i, o]).all(1)], 0)
    got = mon.ll(m, X).sum(1)  # features of the leaf combine into the joint
    ctx.count("rows_compared", len(X))
    ctx.close(got, want, "Chow-Liu tree likelihood", rtol=3e-4, atol=3e-4)


FAMILIES = [
    Family("discrete", f_disc, 800, 6000),
    Family("mixed", f_mixed, 1200, 8000),
    Family("multi", f_multi, 500, 4000),
    Family("deep", f_deep, 80, 600),
    Family("wide", f_wide, 120, 1500),
    Family("float64", f_f64, 250, 2000),
    Family("extreme", f_extreme, 160, 1500),
    Family("naive_bayes", f_nb, 40, 600),
    Family("cltree", f_cltree, 40, 600),
]
