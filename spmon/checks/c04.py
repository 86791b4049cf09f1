"""C04: structural marginalisation equals the missing-value query on the original model."""
import itertools

import numpy as np
import torch

from spmon import circ, mon
from spmon.runner import Family
from spmon.checks import common

PID = "C04"
RULE = "distinct = distinct circuit signature / zoo configuration; each case removes several random variable subsets"
ASSUMPTIONS = ["oracle: missing-value query on the original model (itself decided by C03)",
               "element-wise / outer product layers declare structural marginalisation as unsupported and are not generated"]


def f_ast(ctx):
    node, m, vs = common.ast(ctx, ops=common.MARG_OPS, C=int(ctx.rng.integers(1, 4)))
    mon.check_structural_marginal(ctx, m, vs, ctx.rng, what="random circuit", tries=4)


def f_mixed(ctx):
    rng = ctx.rng
    node, vs = circ.random_circuit(rng, n=int(rng.integers(2, 8)), families=circ.DISCRETE + circ.CONTINUOUS + circ.COUNTS,
                                   ops=common.MARG_OPS, C=int(rng.integers(1, 4)))
    ctx.note(f"{vs} {node.describe()[:300]}")
    ctx.key("mixed", node.sig())
    X = circ.rand_data(rng, vs, 12)
    mon.check_structural_marginal(ctx, node.build(), vs, rng, X=X, what="mixed circuit", tries=4)


def f_multi(ctx):
    """Root with several features: whole features disappear, others keep their order."""
    rng = ctx.rng
    node, vs = circ.random_multi(rng, ops=common.MARG_OPS, families=circ.DISCRETE + circ.CONTINUOUS)
    ctx.note(node.describe()[:300])
    ctx.key("multi", node.sig())
    m = node.build()
    X = circ.rand_data(rng, vs, 10)
    n = len(vs)
    for _ in range(3):
        drop = sorted(int(v) for v in rng.choice(n, int(rng.integers(1, n + 1)), replace=False))
        Xn = X.copy()
        Xn[:, drop] = np.nan
        want = mon.ll(m, Xn)
        keep = [f for f, s in enumerate(node.feats) if not s <= set(drop)]
        mm = m.marginalize(drop, prune=bool(rng.random() < 0.5))
        if not keep:
            ctx.check(mm is None, "marginalising everything must leave nothing")
            continue
        ctx.check(mm is not None, f"marginalising {drop} returned nothing")
        ctx.count("structural_marginals")
        ctx.check(set(mm.scope.query) == set(range(n)) - set(drop), f"scope after marginalising {drop}: {mm.scope.query}")
        got = mon.ll(mm, X)
        if got.shape[1] == len(keep):
            mon._close_ll(ctx, got, want[:, keep], f"marginalize({drop}) of a multi-feature module", 5e-4)
        else:
            ctx.check(got.shape[1] == 1, f"marginalize({drop}): {got.shape[1]} features left, expected {len(keep)}")
            mon._close_ll(ctx, got.sum(1), want[:, keep].sum(1), f"marginalize({drop}) of a multi-feature module", 5e-4)


def f_chain(ctx):
    """Marginalising in several steps equals marginalising at once; the result is a normalised circuit."""
    rng = ctx.rng
    node, m, vs = common.ast(ctx, ops=common.MARG_OPS, n=int(rng.integers(3, 6)))
    n = len(vs)
    order = [int(v) for v in rng.permutation(n)[: n - 1]]
    X = mon.domain(vs)
    X = X[rng.choice(len(X), min(len(X), 20), replace=False)]
    cur = m
    for i, v in enumerate(order):
        cur = cur.marginalize([v], prune=bool(rng.random() < 0.6))
        ctx.check(cur is not None, f"marginalising {order[:i+1]} of {n} variables returned nothing")
        Xn = X.copy()
        Xn[:, order[: i + 1]] = np.nan
        mon._close_ll(ctx, mon.ll(cur, X), mon.ll(m, Xn), f"stepwise marginalize {order[:i+1]}", 5e-4)
        ctx.count("structural_marginals")
    once = m.marginalize(order)
    mon._close_ll(ctx, mon.ll(once, X), mon.ll(cur, X), "one-shot vs stepwise marginalisation", 5e-4)
    left = (set(range(n)) - set(order)).pop()
    Xd = np.full((len(vs[left].domain), n), np.nan)
    Xd[:, left] = vs[left].domain
    tot = mon.lse(mon.ll(once, Xd), 0)
    ctx.close(tot, np.zeros_like(tot), "marginalised circuit's total mass", rtol=0, atol=5e-4)


def f_reps(ctx):
    """Sums that keep the features of their input apart, with their own weights per feature and repetition."""
    from spflow.meta.data.scope import Scope
    from spflow.modules.leaves import Categorical
    from spflow.modules.sums import Sum
    from spflow.zoo.pic import WeightedSum

    rng = ctx.rng
    F, C, R, S = int(rng.integers(2, 6)), int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(2, 4))
    Ri = 1 if rng.random() < 0.5 else R  # an input without repetitions serves all of them
    cols = [int(c) for c in rng.permutation(F + 2)[:F]]
    leaf = Categorical(scope=Scope(cols), out_channels=C, num_repetitions=Ri, K=S, probs=torch.tensor(rng.dirichlet(np.ones(S), (F, C, Ri)), dtype=torch.float64))
    kind = ["sum", "weighted", "nested"][ctx.idx % 3]
    O = int(rng.integers(1, 4))
    W = rng.gamma(1, 1, (F, C, O, R)) + 0.05
    Wn = W / W.sum(1, keepdims=True)
    if kind == "weighted":
        m = WeightedSum(leaf, weights=torch.tensor(W))
    else:
        m = Sum(leaf, weights=torch.tensor(Wn)).double()
        if kind == "nested":
            V = rng.gamma(1, 1, (F, O, 2, R)) + 0.05
            m = Sum(m, weights=torch.tensor(V / V.sum(1, keepdims=True))).double()
    gone = [int(v) for v in rng.choice(cols, int(rng.integers(0, F)), replace=False)]
    keep = [j for j, c in enumerate(cols) if c not in gone]
    X = rng.integers(0, S, (8, F + 2)).astype(float)
    X[rng.random(X.shape) < 0.2] = np.nan
    ctx.key("reps", kind, F, C, R, Ri, len(gone))
    ctx.note(f"{kind} F={F} C={C} R={R} input R={Ri} cols={cols} gone={gone}")
    mm = m.marginalize(gone + [F + 5], prune=bool(rng.random() < 0.6))
    ctx.check(mm is not None and set(mm.scope.query) == {cols[j] for j in keep}, "scope of the marginalised sum")
    T = torch.tensor(X)
    with torch.no_grad():
        want, got = m.log_likelihood(T).numpy()[:, keep], mm.log_likelihood(T).numpy()
    ctx.check(got.shape == want.shape, f"{kind}: marginalised values of shape {got.shape}, expected {want.shape}")
    ctx.close(got, want, f"{kind}: remaining features {keep} of {F}", 1e-5, 1e-5)
    ctx.count("structural_marginals")


def f_estimated(ctx):
    """Leaves that hold an estimated density: histograms (with a probability floor) and piecewise-linear tables."""
    from spflow.meta.data.scope import Scope
    from spflow.modules.leaves import Histogram, PiecewiseLinear
    from spflow.modules.products import Product
    from spflow.utils.domain import Domain

    rng = ctx.rng
    F, C, R = int(rng.integers(2, 5)), int(rng.integers(1, 4)), int(rng.integers(1, 3))
    cols = [int(c) for c in rng.permutation(F + 1)[:F]]
    gone = [int(v) for v in rng.choice(cols, int(rng.integers(0, F)), replace=False)]
    keep = [j for j, c in enumerate(cols) if c not in gone]
    X = rng.uniform(-2, 2, (12, F + 1)).astype(np.float32)
    if ctx.idx % 2:
        k = int(rng.integers(2, 5))
        floor = float(rng.choice([1e-9, 1e-3, 5e-2]))
        leaf = lambda c: Histogram(scope=Scope([c]), bin_edges=torch.tensor(np.sort(rng.uniform(-2.2, 2.2, k + 1))).float(),  # noqa: E731
                                   probs=torch.tensor(rng.dirichlet(np.full(k, 0.3), (1, C, R))).float(), min_prob=floor)
        m = Product([leaf(c) for c in cols])
        ctx.key("estimated", "histogram", F, C, R, k, floor, len(gone))
    else:
        m = PiecewiseLinear(scope=Scope(cols), out_channels=C, num_repetitions=R, alpha=float(rng.choice([0.0, 0.5])))
        T = rng.normal(0, 1, (80, F))
        doms = []
        for f in range(F):
            if rng.random() < 0.4:
                T[:, f] = rng.integers(0, 3, 80)
                X[:, cols[f]] = rng.integers(0, 3, 12)
                doms.append(Domain.discrete_range(0, 2))
            else:
                doms.append(Domain.continuous_range(float(T[:, f].min()), float(T[:, f].max())))
        m.initialize(torch.tensor(T).float(), doms)
        ctx.key("estimated", "piecewise", F, C, R, len(gone))
    ctx.note(f"{type(m).__name__} cols={cols} gone={gone}")
    mm = m.marginalize(gone + [F + 3])
    ctx.check(mm is not None and set(mm.scope.query) == {cols[j] for j in keep}, "scope of the marginalised leaf")
    Y = X.copy()
    Y[:, gone] = np.nan
    with torch.no_grad():
        want, got = m.log_likelihood(torch.tensor(Y)).numpy(), mm.log_likelihood(torch.tensor(X)).numpy()
    if not ctx.idx % 2:
        want = want[:, :, keep]
    ctx.check(got.shape == want.shape, f"marginalised values of shape {got.shape}, expected {want.shape}")
    ctx.close(got, want, f"marginalised {type(m).__name__}", 1e-5, 1e-5)
    ctx.count("structural_marginals")


def f_unchecked(ctx):
    """Leaves built with validate_args=False score any value; what remains after marginalising scores it the same."""
    from spmon import leafref as lr
    from spflow.modules.products import Product

    rng = ctx.rng
    kinds = ["bernoulli", "normal", "laplace", "lognormal", "exponential", "poisson", "geometric", "gamma", "binomial", "negbin"]
    kind = kinds[ctx.idx % len(kinds)]
    F, C, R = int(rng.integers(2, 4)), int(rng.integers(1, 3)), int(rng.integers(1, 3))
    m = lr.build(kind, list(range(F)), lr.rand_params(kind, rng, (F, C, R)), validate_args=False)
    if rng.random() < 0.5:
        m = Product(m)
        want_keep = None
    else:
        want_keep = True
    gone = [int(v) for v in rng.choice(F, int(rng.integers(1, F)), replace=False)]
    keep = [f for f in range(F) if f not in gone]
    X = np.where(rng.random((8, F)) < 0.5, rng.integers(0, 3, (8, F)) + 0.5, rng.integers(0, 3, (8, F))).astype(np.float32)
    Y = X.copy()
    Y[:, gone] = np.nan
    ctx.note(f"{kind} F={F} C={C} R={R} gone={gone}")
    ctx.key("unchecked", kind, F, C, R, len(gone), want_keep)
    with torch.no_grad():
        want = m.log_likelihood(torch.tensor(Y)).numpy()
        mm = m.marginalize(gone)
        try:
            got = mm.log_likelihood(torch.tensor(X)).numpy()
        except ValueError as e:
            ctx.fail(f"{kind} leaf with validate_args=False: accepts {X[0].tolist()}, its marginal rejects it ({str(e)[:80]})")
    if want_keep:
        want = want[:, keep]
    ok = np.isfinite(want)
    ctx.check(got.shape == want.shape, f"marginalised values of shape {got.shape}, expected {want.shape}")
    ctx.close(got[ok], want[ok], f"{kind} leaf with validate_args=False", 1e-5, 1e-5)
    ctx.count("structural_marginals")


def _zoo(name, **kw):
    def f(ctx):
        z = common.model(ctx, name, **kw)
        mon.check_structural_marginal(ctx, z.m, z.vs, ctx.rng, what=name, tries=4)
    return f


def _bern(n, C=2, seed=0):
    from spflow.meta.data.scope import Scope
    from spflow.modules.leaves import Bernoulli

    g = torch.Generator().manual_seed(seed)
    return Bernoulli(scope=Scope(list(range(n))), probs=torch.rand(n, C, 1, generator=g) * 0.8 + 0.1)


def _probe(mech, make, drop):
    """A recorded finding: marginalize() of a layer that cannot keep its parameters."""
    def f(ctx):
        m = make()
        n = len(m.scope.query)
        X = np.array(list(itertools.product([0.0, 1.0], repeat=n)))[: 2**min(n, 6)]
        Xn = X.copy()
        Xn[:, drop] = np.nan
        want = mon.ll(m, Xn)
        try:
            got = mon.ll(m.marginalize(list(drop)), X)
        except Exception as e:  # noqa: BLE001
            ctx.check(False, f"marginalize({drop}) fails: {type(e).__name__}: {str(e)[:80]}", mech=mech)
            return
        ctx.check(got.shape == want.shape and np.abs(got - want).max() < 1e-3, f"marginalize({drop}) gives other values than the missing-value query", mech=mech)
    return f


def _einsum():
    from spflow.modules.einsum import EinsumLayer
    torch.manual_seed(0)
    return EinsumLayer(inputs=EinsumLayer(inputs=_bern(4), out_channels=2), out_channels=1)


def _linsum():
    from spflow.modules.einsum import LinsumLayer
    torch.manual_seed(0)
    return LinsumLayer(inputs=LinsumLayer(inputs=_bern(4), out_channels=2), out_channels=1)


def _cltree():
    from spflow.meta.data.scope import Scope
    from spflow.modules.leaves import CLTree
    torch.manual_seed(0)
    m = CLTree(scope=Scope([0, 1, 2]), K=2, parents=torch.tensor([-1, 0, 1]))
    m.maximum_likelihood_estimation((torch.rand(60, 3) < 0.4).float())
    return m


def _factorized():
    from spflow.modules.products import Product
    from spflow.modules.rat.factorize import Factorize
    torch.manual_seed(0)
    return Product(Factorize(inputs=[_bern(6, 1)], depth=2, num_repetitions=1))


def _convpc():
    from spflow.meta.data.scope import Scope
    from spflow.modules.leaves import Bernoulli
    from spflow.zoo.conv.conv_pc import ConvPc
    torch.manual_seed(0)
    leaf = Bernoulli(scope=Scope(list(range(4))), probs=torch.rand(4, 2, 1) * 0.8 + 0.1)
    return ConvPc(leaf=leaf, input_height=2, input_width=2, channels=2, depth=1, kernel_size=2)


FAMILIES = [
    Family("ast", f_ast, 600, 5000),
    Family("mixed", f_mixed, 400, 3000),
    Family("multi", f_multi, 250, 2000),
    Family("chain", f_chain, 80, 1200),
    Family("reps", f_reps, 80, 1500),
    Family("unchecked", f_unchecked, 40, 500),
    Family("estimated", f_estimated, 40, 600),
    Family("naive_bayes", _zoo("naive_bayes"), 30, 400),
    Family("learn_spn", _zoo("learn_spn"), 16, 150),
    Family("prometheus", _zoo("prometheus"), 8, 80),
    Family("probe_einsum", _probe("einsum-marginalize", _einsum, [0]), 1, 1, probe=True),
    Family("probe_linsum", _probe("einsum-marginalize", _linsum, [0]), 1, 1, probe=True),
    Family("probe_cltree", _probe("cltree-marginalize", _cltree, [0]), 1, 1, probe=True),
    Family("probe_factorize", _probe("factorize-marginalize", _factorized, [0, 1, 2]), 1, 1, probe=True),
    Family("probe_conv", _probe("conv-marginalize", _convpc, [1]), 1, 1, probe=True),
]
