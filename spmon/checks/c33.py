"""C33: complete architectures keep their meaning as parts of larger circuits."""
import copy

import numpy as np
import torch

from spmon import circ, leafref as lr, mon, zoo
from spmon.circ import t
from spmon.runner import Family, Skip
from spmon.checks import common

PID = "C33"
RULE = "distinct = kind of composition together with the configurations of its parts"
ASSUMPTIONS = ["the joint tables of the parts come from their own complete-row log-likelihoods (judged by C01-C03); the composition is computed from them in float64"]
NAN = np.nan
PARTS = ["rat", "einet", "naive_bayes", "convpc", "cltree", "leafs", "ast"]


class Part:
    """A model over some columns, and its table over these columns."""

    def __init__(self, m, vs, cols, name):
        self.m, self.vs, self.cols, self.name = m, vs, list(cols), name

    def logp(self, X, width):
        """Log-probability of full rows X (all columns of the table)."""
        Z = np.full((len(X), width), NAN)
        Z[:, self.cols] = X[:, self.cols]
        return mon.ll(self.m, Z)


def part(ctx, cols, vs, name=None):
    """One architecture over the given columns; vs are the variables of these columns."""
    rng = ctx.rng
    n = len(cols)
    ok = ["leafs", "ast", "naive_bayes"]
    groups = len({v.group for v in vs})
    if n >= 2:
        ok += ["rat", "einet"]
        if groups == 1 and vs[0].kind in ("bernoulli", "categorical"):
            ok.append("cltree")
    if n == 4 and groups == 1:
        ok.append("convpc")
    name = name or str(rng.choice(ok))
    C = int(rng.integers(1, 3))
    lr.COLMAP = {i: int(c) for i, c in enumerate(cols)}
    try:
        if name == "rat":
            from spflow.zoo.rat import RatSPN

            R = int(rng.integers(1, 3))
            m = RatSPN(leaf_modules=zoo.group_leaves(rng, vs, C, R), n_root_nodes=1, n_region_nodes=int(rng.integers(1, 3)), num_repetitions=R,
                       depth=1, outer_product=bool(rng.random() < 0.5))
        elif name == "einet":
            from spflow.zoo.einet import Einet

            R = int(rng.integers(1, 3))
            m = Einet(leaf_modules=zoo.group_leaves(rng, vs, C, R), num_classes=int(rng.integers(1, 3)), num_sums=int(rng.integers(1, 3)), num_leaves=C,
                      depth=1, num_repetitions=R, layer_type="einsum" if rng.random() < 0.5 else "linsum",
                      structure="top-down" if rng.random() < 0.5 else "bottom-up")
        elif name == "naive_bayes":
            from spflow.zoo.naive_bayes import NaiveBayes

            k = int(rng.integers(1, 4))
            m = NaiveBayes(zoo.group_leaves(rng, vs, k, 1), num_classes=k)
        elif name == "convpc":
            from spflow.zoo.conv import ConvPc

            m = ConvPc(leaf=zoo.group_leaves(rng, vs, C, 1)[0], input_height=2, input_width=2, channels=int(rng.integers(1, 3)), depth=1, kernel_size=2,
                       use_sum_conv=bool(rng.random() < 0.5))
        elif name == "cltree":
            from spflow.modules.leaves import CLTree

            K = len(vs[0].domain)
            m = CLTree(scope=[int(c) for c in cols], out_channels=1, K=K, alpha=0.5)
            X = np.zeros((60, max(cols) + 1))
            X[:, cols] = zoo.rand_table_data(rng, vs, 60)
            m.maximum_likelihood_estimation(t(X))
            m = zoo.joint(m)
        elif name == "leafs":
            from spflow.modules.products import Product

            m = Product(inputs=zoo.group_leaves(rng, vs, 1, 1))
        else:
            node, _ = circ.Gen(rng, vs, R=1, maxC=2, sampleable=True, max_nodes=12), None
            m = node.root(C=1, depth=3).build()
            listed = set()
            for sc in m.feature_to_scope.flatten():
                listed |= set(sc.query)
            if listed != set(m.scope.query) or tuple(m.feature_to_scope.shape) != (m.out_shape.features, m.out_shape.repetitions):
                raise Skip("generated circuit hits the recorded finding on the scope table of split layers (C14)")
    finally:
        lr.COLMAP = None
    zoo.scramble_weights(m, rng)
    ctx.count("parts:" + name)
    return Part(m, vs, cols, name)


class Mix:
    """Sum/Product/Cat tree over parts with its reference."""

    def __init__(self, op, kids, w=None, aslist=True):
        self.op, self.kids, self.w, self.aslist = op, kids, w, aslist

    @property
    def cols(self):
        return sorted(set().union(*[k.cols for k in self.kids]))

    def parts(self):
        return [p for k in self.kids for p in (k.parts() if isinstance(k, Mix) else [k])]

    def build(self):
        from spflow.modules.ops import Cat
        from spflow.modules.products import ElementwiseProduct, Product
        from spflow.modules.sums import ElementwiseSum, Sum

        ms = [k.build() if isinstance(k, Mix) else k.m for k in self.kids]
        if self.op == "sum":
            return Sum(inputs=ms if self.aslist else Cat(ms, dim=2), weights=t(self.w))
        if self.op == "esum":
            return ElementwiseSum(inputs=ms, weights=t(self.w.reshape(1, 1, 1, len(ms), 1)))
        if self.op == "eprod":
            return ElementwiseProduct(inputs=ms)
        return Product(inputs=ms if self.aslist else Cat(ms, dim=1))

    def logp(self, X, width):
        L = [k.logp(X, width).astype(float) for k in self.kids]
        if self.op in ("prod", "eprod"):
            return sum(L)
        x = np.concatenate(L, 2)
        if self.op == "esum":
            return circ._lse(x + np.log(self.w.reshape(1, 1, -1, 1)), 2)[:, :, None]
        return circ._lse(x[:, :, :, None, :] + np.log(self.w)[None], 2)

    def sig(self):
        return (self.op, self.aslist, tuple(k.sig() if isinstance(k, Mix) else (k.name, tuple(k.cols)) for k in self.kids))


def compose(ctx, cols, vs, depth, top=True):
    rng = ctx.rng
    n = len(cols)
    if not top and (depth == 0 or rng.random() < 0.45):
        return part(ctx, cols, [vs[c] for c in cols])
    if n >= 2 and rng.random() < 0.5:
        perm = [int(c) for c in rng.permutation(cols)]
        k = int(rng.integers(1, n))
        ks = [sorted(perm[:k]), sorted(perm[k:])]
        return Mix("prod" if rng.random() < 0.7 else "eprod", [compose(ctx, q, vs, depth - 1, False) for q in ks], aslist=bool(rng.random() < 0.7))
    k = int(rng.integers(2, 4))
    kids = [compose(ctx, cols, vs, depth - 1, False) for _ in range(k)]
    if rng.random() < 0.2:
        kids[1] = kids[0]
        w = None
    w = rng.gamma(1.0, 1.0, k) + 0.05
    w = w / w.sum()
    op = "sum" if rng.random() < 0.7 else "esum"
    return Mix(op, kids, w.reshape(1, k, 1, 1) if op == "sum" else w, aslist=bool(rng.random() < 0.7))


def make(ctx, hom=None):
    rng = ctx.rng
    n = int(rng.integers(2, 7))
    hom = rng.random() < 0.6 if hom is None else hom
    vs = [zoo.dvar(rng, ("bernoulli", "categorical"))] * n if hom else zoo.mixed_vars(rng, n)
    if np.prod([len(v.domain) for v in vs]) > 500:
        raise Skip("domain larger than the enumeration cap")
    g = compose(ctx, list(range(n)), vs, 2)
    ctx.note(f"{vs} {g.sig()}")
    ctx.key(g.sig())
    m = g.build()
    D = mon.domain(vs)
    return g, m, vs, D, g.logp(D, n)


def test_likelihood(ctx):
    g, m, vs, D, want = make(ctx)
    got = mon.ll(m, D)
    ctx.check(got.shape == want.shape, f"log-likelihood shape {got.shape}, expected {want.shape}")
    mon._close_ll(ctx, got, want, "log-likelihood of the composition", 3e-4)
    ctx.count("assignments_compared", len(D))
    ctx.close(mon.lse(want, 0), np.zeros((1, 1, 1)), "total mass of the composition", rtol=0, atol=1e-3)
    mon.check_nan_marginal(ctx, m, vs, ctx.rng, what="composition", D=D, L=want)
    ctx.check(set(m.scope.query) == set(range(len(vs))), f"scope {m.scope.query}")
    # every part's parameters are parameters of the composition, and all of them receive gradient
    ids = {id(p) for p in m.parameters()}
    for p in g.parts():
        ctx.check(all(id(q) in ids for q in p.m.parameters()), f"parameters of the {p.name} part are not parameters of the composition")
    row = D[ctx.rng.choice(len(D), 8)]
    m.zero_grad()
    m.log_likelihood(mon.tt(row)).sum().backward()
    for p in g.parts():
        for nm, q in p.m.named_parameters():
            ctx.check(q.grad is None or bool(torch.isfinite(q.grad).all()), f"gradient of {nm} in the {p.name} part is not finite")
            if q.requires_grad:
                ctx.count("gradients_reached" if q.grad is not None else "gradients_none")


def test_sampling(ctx):
    g, m, vs, D, want = make(ctx)
    p = np.exp(want[:, 0, 0, 0])
    mon.check_samples(ctx, m, vs, N=1500, what="composition", D=D, p=p)
    L = want
    mon.check_cond_samples(ctx, m, vs, ctx.rng, N=1500, what="composition", D=D, L=L)
    mon.check_mpe_basic(ctx, m, vs, ctx.rng, what="composition", D=D, L=L)


def test_training(ctx):
    from spflow.learn import expectation_maximization

    g, m, vs, D, want = make(ctx)
    p = np.exp(want[:, 0, 0, 0])
    X = D[ctx.rng.choice(len(D), 40, p=ctx.rng.dirichlet(np.ones(len(D)) * 0.3))]
    before = float(mon.ll(m, X).sum())
    hist = expectation_maximization(m, mon.tt(X), max_steps=4).detach().numpy()
    after = float(mon.ll(m, X).sum())
    seq = list(np.atleast_1d(hist).astype(float))
    ctx.count("em_steps", len(seq))
    ctx.check(after >= before - 0.02 * abs(before) * 0.01 - 0.05, f"EM lowered the data log-likelihood of the composition from {before} to {after}")
    L2 = mon.ll(m, D)
    ctx.close(mon.lse(L2, 0), np.zeros((1, 1, 1)), "total mass after EM", rtol=0, atol=2e-3)
    mon._close_ll(ctx, L2, g.logp(D, len(vs)) if _w(g, m) else L2, "composition after EM", 1e-3)


def _w(g, m):
    """Read trained mixture weights back into the reference."""
    ms = [m]
    stack = [(g, m)]
    from spflow.modules.ops import Cat

    while stack:
        a, b = stack.pop()
        if not isinstance(a, Mix):
            continue
        kids = b.inputs
        kids = list(kids) if not isinstance(kids, torch.nn.Module) or isinstance(kids, torch.nn.ModuleList) else [kids]
        if len(kids) == 1 and isinstance(kids[0], Cat):
            kids = list(kids[0].inputs)
        if len(kids) != len(a.kids):
            return False
        if a.op in ("sum", "esum"):
            w = b.weights.detach().numpy().astype(float)
            a.w = w.reshape(a.w.shape)
        stack += list(zip(a.kids, kids))
    return True


def probe_rat_classes(ctx):
    """A RatSPN with several root nodes as a part: drawn classes must follow the class weights."""
    from spflow.modules.leaves import Bernoulli
    from spflow.modules.products import Product
    from spflow.zoo.rat import RatSPN

    rng = ctx.rng
    leaf = Bernoulli(scope=[0, 1], out_channels=2, num_repetitions=1, probs=t(rng.uniform(0.05, 0.95, (2, 2, 1))))
    m = RatSPN(leaf_modules=[leaf], n_root_nodes=2, n_region_nodes=2, num_repetitions=1, depth=1, outer_product=True, split_mode=None)
    zoo.scramble_weights(m, rng)
    other = Bernoulli(scope=[2], out_channels=1, num_repetitions=1, probs=t(np.full((1, 1, 1), 0.5)))
    whole = Product(inputs=[m, other])
    p = np.exp(mon.ll(m, np.array([[a, b] for a in (0.0, 1.0) for b in (0.0, 1.0)]))).ravel()
    N = 20000
    torch.manual_seed(int(rng.integers(1 << 30)))
    S = whole.sample(num_samples=N).numpy()
    c = np.bincount((S[:, 0] * 2 + S[:, 1]).astype(int), minlength=4) / N
    ctx.check(np.abs(c - p).max() < 6 * 0.5 / np.sqrt(N), f"samples of a product over a RatSPN with two root nodes have frequencies {c.round(3)} instead of {p.round(3)}", mech="rat-nested-classes")


def test_differentiable(ctx):
    """Hard differentiable draws, conditional or not, through architectures nested in larger circuits."""
    from spmon.checks import c26

    g, m, vs, D, want = make(ctx, hom=True)
    if any(type(q).__name__ == "CLTree" for q in m.modules()):
        raise Skip("CLTree leaves reject differentiable sampling")
    if any(type(q).__name__ == "Einet" and q.num_classes > 1 for q in m.modules()):
        raise Skip("Einet with several classes rejects differentiable sampling")
    f = c26._sd(ctx, m, c26._tau(ctx), "composition")
    p = np.exp(want[:, 0, 0, 0])
    mon.check_samples(ctx, m, vs, N=1500, what="differentiable composition", D=D, p=p, draw=f)
    mon.check_cond_samples(ctx, m, vs, ctx.rng, N=1500, what="differentiable composition", D=D, L=want, draw=f)


FAMILIES = [
    Family("probe_rat_classes", probe_rat_classes, 3, 6, probe=True),
    Family("likelihood", test_likelihood, quick=80, thorough=2500, timeout=60),
    Family("sampling", test_sampling, quick=60, thorough=1500, timeout=90),
    Family("differentiable", test_differentiable, quick=80, thorough=2000, timeout=90),
    Family("training", test_training, quick=40, thorough=800, timeout=90),
]
