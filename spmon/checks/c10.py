"""C10: expectation maximisation performs the EM update it is named after: expected counts, weighted leaf estimates, monotone likelihood."""
import numpy as np
import torch

from spmon import circ, leafref as LR, mon, zoo
from spmon.checks import common
from spmon.checks.c09 import closed_form, _get
from spmon.runner import Family, Skip

PID = "C10"
RULE = "distinct = distinct circuit structure (or model configuration) whose EM updates were compared with independently computed expected counts"
ASSUMPTIONS = ["EM is run with bias_correction=False where the closed-form update or monotonicity is asserted",
               "expected counts below 1e-5 of a sum node's/leaf slot's mass are not compared (float32 resolution)",
               "Gamma leaves use an approximate estimator and are excluded from monotonicity"]

FAM = ["bernoulli", "categorical", "binomial", "geometric", "poisson", "normal", "exponential", "laplace", "lognormal", "negbin"]
WAX = {"sum": (1,), "esum": (3,), "einsum": (-2, -1), "linsum": (-1,), "repmix": (2,)}
H = 1e-5


def em(m, X, steps=1, **kw):
    from spflow.learn import expectation_maximization

    kw.setdefault("bias_correction", False)
    return expectation_maximization(m, mon.tt(X), max_steps=steps, **kw)


def weights_of(m):
    return m.weights.detach().double().numpy()


def f_step(ctx):
    """One step against expected counts taken by finite differences of an independent float64 evaluator."""
    rng = ctx.rng
    node, vs = circ.random_circuit(rng, n=int(rng.integers(2, 5)), families=FAM, depth=int(rng.integers(1, 4)), maxC=2, max_nodes=14,
                                   share=0.45)
    sums = [q for q in node.walk() if q.op in WAX]
    if not sums:
        raise Skip("no sum node")
    ctx.note(f"vars={vs} circuit={node.describe()[:500]}")
    X = circ.rand_data(rng, vs, int(rng.integers(15, 60))).astype(np.float32).astype(float)
    step_check(ctx, node, vs, X)


def step_check(ctx, node, vs, X):
    """One EM step of the circuit of ``node`` on ``X`` against its expected counts."""
    sums = [q for q in node.walk() if q.op in WAX]
    leaves = [q for q in node.walk() if q.op == "leaf"]
    m = node.build()
    n = len(X)
    base = node.ref(X)
    if not np.isfinite(base).all():
        raise Skip("data outside the support")
    exp = {}
    for q in sums:
        w = q.p["w"]
        c = np.zeros(w.shape)
        for i in np.ndindex(*w.shape):
            v = []
            for s in (H, -H):
                q.p["w"] = w.copy()
                q.p["w"][i] *= np.exp(s)
                v.append(node.ref(X).sum())
            c[i] = (v[0] - v[1]) / (2 * H)
        q.p["w"] = w
        exp[id(q)] = c
    lexp = {}
    for q in leaves:
        L = q.ref(X)
        E = np.zeros(L.shape)
        for i in np.ndindex(*L.shape[1:]):
            v = []
            for s in (H, -H):
                D = L.copy()
                D[(slice(None),) + i] += s
                v.append(node.ref(X, {id(q): D}).reshape(n, -1).sum(1))
            E[(slice(None),) + i] = (v[0] - v[1]) / (2 * H)
        lexp[id(q)] = np.clip(E, 0, None)
    parents = {}
    for q in node.walk():
        for k in q.kids:
            parents[id(k)] = parents.get(id(k), 0) + 1
    h = em(m, X)
    ctx.check(tuple(h.shape) == (1,), f"history shape {tuple(h.shape)}")
    ctx.close(h[0].item(), base.sum() / n, "history[0] is the average log-likelihood before the step", 1e-4, 1e-4)
    for q in sums:
        got = weights_of(q.build())
        c = np.clip(exp[id(q)], 0, None)
        tot = np.broadcast_to(c.sum(axis=WAX[q.op], keepdims=True), c.shape)
        ok = tot > 1e-3 * n
        want = np.where(ok, c / np.maximum(tot, 1e-30), got)
        ctx.count("sum updates:" + q.op)
        if parents.get(id(q), 0) > 1:
            ctx.count("sum updates:shared node")
        ctx.close(np.where(ok, got, 0), np.where(ok, want, 0), f"{q.op} weights after the EM step", 2e-3, 3e-4)
        ctx.close(got.sum(axis=WAX[q.op]), np.ones(got.sum(axis=WAX[q.op]).shape), f"{q.op} weights sum", 1e-4, 1e-4)
    for q in leaves:
        kind, v = q.p["kind"], vs[q.p["cols"][0]]
        got = _get(q.build(), kind)
        E = lexp[id(q)]
        for i in np.ndindex(*E.shape[1:]):
            w = E[(slice(None),) + i]
            if w.sum() < 1e-3 * n or kind == "laplace":
                continue
            x = X[:, q.p["cols"][i[0]]]
            want = closed_form(kind, x, w, v.K, v.total)
            if kind in ("bernoulli", "binomial", "geometric", "negbin"):
                want = {"probs": np.clip(want["probs"], 1e-7, 1 - 1e-7)}
            if "scale" in want and want["scale"] < 1e-2 * (abs(want["loc"]) + 1):
                continue  # degenerate: float32 cancellation
            if kind in ("exponential", "poisson") and not (1e-4 < want["rate"] < 1e4):
                continue
            ctx.count("leaf slots:" + kind)
            for k, t in want.items():
                ctx.close(got[k][i], t, f"{kind} {k} of leaf slot {i} after the EM step", 5e-3, 2e-3)
    ctx.key(node.sig())


def zoo_model(ctx, names):
    name = names[int(ctx.rng.integers(len(names)))]
    return common.model(ctx, name)


def axes(s):
    n = type(s).__name__
    return {"Sum": (1,), "EinsumLayer": (-2, -1), "LinsumLayer": (-1,), "RepetitionMixingLayer": (2,)}.get(n) or (s.sum_dim,)


SUMS = ("Sum", "ElementwiseSum", "SumConv", "EinsumLayer", "LinsumLayer", "RepetitionMixingLayer")


def f_zoo(ctx):
    """One step of a shipped model against the stationarity identity: expected count of a weight = d LL/d logit + w * (visits of its node)."""
    rng = ctx.rng
    z = zoo_model(ctx, ["rat", "einet", "convpc", "hclt", "naive_bayes", "rat", "einet", "convpc"])
    m = z.m
    X = circ.rand_data(rng, z.vs, int(rng.integers(20, 60))).astype(float)
    from spflow.utils.cache import Cache

    sums = [s for s in m.modules() if type(s).__name__ in SUMS and s.logits.requires_grad]
    if not sums:
        raise Skip("no learnable sums")
    c = Cache()
    for p in m.parameters():
        p.grad = None
    L = m.log_likelihood(mon.tt(X), cache=c)
    outs = {s: c.get("log_likelihood", s) for s in sums}
    for o in outs.values():
        if o is not None:
            o.retain_grad()
    L.sum().backward()
    want = {}
    for s in sums:
        if outs[s] is None or s.logits.grad is None:
            continue
        w = s.weights.detach().double().numpy()
        g = s.logits.grad.double().numpy()
        visits = outs[s].grad.double().numpy().sum(0)  # f c r
        n = type(s).__name__
        if n == "Sum":
            v = visits[:, None]
        elif n == "ElementwiseSum":
            f, cc, r = visits.shape
            v = visits.reshape(f, s.in_shape.channels, -1, 1, r)
        elif n in ("EinsumLayer",):
            v = visits[..., None, None]
        elif n == "LinsumLayer":
            v = visits[..., None]
        elif n == "RepetitionMixingLayer":
            v = visits
        else:
            side = int(round(visits.shape[0] ** 0.5))
            k = s.kernel_size if side >= s.kernel_size else 1
            vv = visits.reshape(side // k, k, side // k, k, *visits.shape[1:]).sum((0, 2))  # kh kw co r
            vv = vv.transpose(2, 0, 1, 3)[:, None]
            v = np.zeros((w.shape[0], 1) + w.shape[2:])
            v[:, :, :k, :k] = vv
        cnt = np.clip(g + w * v, 0, None)
        tot = np.broadcast_to(np.maximum(v, 0), cnt.shape)
        ok = tot > 1e-2
        want[s] = (np.where(ok, cnt / np.maximum(tot, 1e-30), 0), ok, w)
    for p in m.parameters():
        p.grad = None
    h = em(m, X)
    ctx.close(h[0].item(), L.detach().double().sum().item() / len(X), "history[0]", 1e-4, 1e-4)
    for s, (wt, ok, w0) in want.items():
        got = s.weights.detach().double().numpy()
        ctx.count("sum updates:" + type(s).__name__)
        ctx.close(np.where(ok, got, 0), wt, f"{type(s).__name__} weights after the EM step", 5e-3, 1e-3)
        ctx.close(got.sum(axis=axes(s)), np.ones_like(got.sum(axis=axes(s))), "weights sum", 1e-4, 1e-4)


def f_mono(ctx):
    rng = ctx.rng
    if rng.random() < 0.5:
        node, vs = circ.random_circuit(rng, n=int(rng.integers(2, 6)), families=FAM, depth=int(rng.integers(1, 5)), share=0.35)
        m = node.build()
        ctx.note(f"vars={vs} circuit={node.describe()[:400]}")
        ctx.key("ast", node.sig())
    else:
        z = zoo_model(ctx, ["rat", "einet", "convpc", "hclt", "naive_bayes"])
        m, vs = z.m, z.vs
    X = circ.rand_data(rng, vs, int(rng.integers(10, 150))).astype(np.float32)
    if not np.isfinite(mon.ll(m, X)).all():
        raise Skip("data outside the support")
    steps = int(rng.integers(2, 9))
    single = rng.random() < 0.5
    hist, n = [], len(X)
    Xb = X.copy()
    if single:
        for _ in range(steps):
            pre = mon.ll(m, X).reshape(n, -1).sum() / n
            h = em(m, X)
            ctx.close(h[0].item(), pre, "history reports the average log-likelihood before the update", 1e-4, 1e-4)
            hist.append(pre)
    else:
        pre = mon.ll(m, X).reshape(n, -1).sum() / n
        h = em(m, X, steps).numpy().astype(float)
        ctx.close(h[0], pre, "history[0]", 1e-4, 1e-4)
        ctx.check(1 <= len(h) <= steps, f"history has {len(h)} entries for max_steps={steps}")
        stop = [i for i in range(1, len(h)) if h[i] <= h[i - 1]]
        ctx.check(not stop or stop[0] == len(h) - 1, f"EM went on after the likelihood stopped increasing: {h}")
        ctx.check(len(h) == steps or stop, f"EM stopped early without convergence: {h}")
        hist = list(h)
    ctx.check((Xb == X).all(), "data changed")
    hist.append(mon.ll(m, X).reshape(n, -1).sum() / n)
    ctx.count("em steps", len(hist) - 1)
    nout = int(np.prod(mon.ll(m, X[:1]).shape))
    for a, b in zip(hist, hist[1:]):
        ctx.check(b >= a - 2e-4 * (1 + abs(a)) * nout, lambda: f"average log-likelihood fell from {a} to {b}: history {[round(v, 5) for v in hist]}")
    check_valid(ctx, m)


def check_valid(ctx, m):
    for s in m.modules():
        if type(s).__name__ in SUMS:
            w = s.weights.detach().double().numpy()
            ctx.check(np.isfinite(w).all() and (w >= 0).all(), f"{type(s).__name__} has invalid weights {w.ravel()[:6]}")
            t = w.sum(axis=axes(s))
            ctx.close(t, np.ones_like(t), "weights sum to one", 1e-4, 1e-4)
    for k, p in m.named_parameters():
        ctx.check(not torch.isnan(p).any(), f"parameter {k} is NaN after EM")


def f_batched(ctx):
    """Batched EM = the same single-batch updates in sequence; epoch history = average over the rows seen."""
    from spflow.learn import expectation_maximization_batched
    import copy

    rng = ctx.rng
    if rng.random() < 0.6:
        node, vs = circ.random_circuit(rng, n=int(rng.integers(2, 5)), families=FAM, depth=int(rng.integers(1, 4)), share=0.35)
        m = node.build()
        ctx.key("ast", node.sig())
    else:
        z = zoo_model(ctx, ["rat", "einet", "convpc", "naive_bayes"])
        m, vs = z.m, z.vs
    n = int(rng.integers(12, 60))
    X = circ.rand_data(rng, vs, n).astype(np.float32)
    if not np.isfinite(mon.ll(m, X)).all():
        raise Skip("data outside the support")
    m2 = copy.deepcopy(m)
    cuts = sorted(set(int(c) for c in rng.integers(5, n - 4, int(rng.integers(0, 3)))))
    if rng.random() < 0.4:  # equal batches and a smaller last one
        k = int(rng.integers(6, n))
        cuts = [c for c in range(k, n, k) if n - c >= 5]
        X = X[: (cuts[-1] + k if cuts else n)]
        n = len(X)
    bs = np.split(X, cuts)
    ep = int(rng.integers(1, 4))
    bc = bool(rng.random() < 0.3)
    if any(len(b) < 5 for b in bs):
        raise Skip("batch too small")
    style = int(rng.integers(3))
    dl = [torch.tensor(b) if style == 0 else ((torch.tensor(b),) if style == 1 else [torch.tensor(b), torch.zeros(len(b))]) for b in bs]
    if len({len(b) for b in bs[:-1]} | {len(bs[0])}) == 1 and len(bs[-1]) <= len(bs[0]) and style < 2 and rng.random() < 0.5:
        from torch.utils.data import DataLoader, TensorDataset

        dl = DataLoader(TensorDataset(torch.tensor(X)), batch_size=len(bs[0]), generator=torch.Generator())
        ctx.count("plain loader")
    else:
        dl = common.loader(dl)
    try:
        h = expectation_maximization_batched(m, dl, num_epochs=ep, bias_correction=bc)
    except ValueError:
        raise Skip("small batch made a leaf degenerate")
    ctx.check(tuple(h.shape) == (ep,), f"history shape {tuple(h.shape)} for {ep} epochs")
    want = []
    for _ in range(ep):
        tot = 0.0
        for b in bs:
            tot += em(m2, b, bias_correction=bc)[0].item() * len(b)
        want.append(tot / n)
    ctx.count("batches", len(bs) * ep)
    ctx.close(h.numpy(), want, "epoch history", 5e-4, 5e-4)
    ctx.close(mon.ll(m, X), mon.ll(m2, X), "model after batched EM vs the same updates one at a time", 5e-3, 5e-3)


def f_order(ctx):
    """Row order is irrelevant, and doubling the data set doubles every expected count (same update)."""
    import copy

    rng = ctx.rng
    node, vs = circ.random_circuit(rng, n=int(rng.integers(2, 6)), families=[f for f in FAM if f != "laplace"], depth=int(rng.integers(1, 4)), share=0.35)
    m = node.build()
    ctx.key("ast", node.sig())
    X = circ.rand_data(rng, vs, int(rng.integers(15, 60))).astype(np.float32)
    if not np.isfinite(mon.ll(m, X)).all():
        raise Skip("data outside the support")
    a, b, d = m, copy.deepcopy(m), copy.deepcopy(m)
    em(a, X)
    em(b, X[rng.permutation(len(X))])
    em(d, np.concatenate([X, X]))
    La = mon.ll(a, X)
    ctx.close(mon.ll(b, X), La, "EM step on permuted rows", 3e-3, 3e-3)
    ctx.close(mon.ll(d, X), La, "EM step on the doubled data set", 3e-3, 3e-3)


def f_dead(ctx):
    """Parts of a circuit that no row reaches, and parts that give a row probability zero, leave everything finite."""
    from spflow.learn import expectation_maximization  # noqa: F401
    from spflow.modules import leaves as Lv
    from spflow.modules.ops import Cat
    from spflow.modules.products import Product
    from spflow.modules.sums import Sum
    from spflow.modules.einsum import EinsumLayer, LinsumLayer
    from spflow.meta.data.scope import Scope

    rng = ctx.rng
    mode = ["far", "impossible"][int(rng.integers(2))]
    top = ["sum", "einsum", "linsum"][int(rng.integers(3))]
    C = int(rng.integers(1, 4))

    def leaf(v, far):
        if far and mode == "impossible":
            lo = torch.full((1, 2, 1), 50.0)
            return Lv.Uniform(Scope([v]), low=lo, high=lo + 1, support_outside=True)
        mu = torch.tensor(rng.normal(1000.0 if far else 0.0, 1, (1, 2, 1)), dtype=torch.float32)
        return Lv.Normal(Scope([v]), loc=mu, scale=torch.ones(1, 2, 1))

    def part(far):
        a, b = (Sum(inputs=leaf(v, far), out_channels=C) for v in (0, 1))
        if top == "einsum":
            return EinsumLayer(inputs=[a, b], out_channels=C)
        if top == "linsum":
            return LinsumLayer(inputs=[a, b], out_channels=C)
        return Sum(inputs=Product(inputs=[a, b]), out_channels=C)

    m = Sum(inputs=Cat([part(False), part(True)], dim=2), out_channels=1)
    X = rng.normal(0, 1.5, (int(rng.integers(10, 60)), 2)).astype(np.float32)
    hist = []
    for _ in range(3):
        h = em(m, X)
        hist.append(h[0].item())
    hist.append(float(mon.ll(m, X).mean()))
    ctx.count("dead parts:" + mode)
    ctx.key(mode, top, C)
    ctx.check(np.isfinite(hist).all(), f"log-likelihood became {hist}")
    for a, b in zip(hist, hist[1:]):
        ctx.check(b >= a - 1e-3, f"average log-likelihood fell: {hist}")
    check_valid(ctx, m)


def f_fixed(ctx):
    """What must not change does not: fixed priors, leaves without learnable parameters, the data, parameter identity."""
    rng = ctx.rng
    z = common.model(ctx, "naive_bayes") if rng.random() < 0.5 else None
    if z is not None:
        m, vs = z.m, z.vs
        X = circ.rand_data(rng, vs, 30).astype(np.float32)
        prior = None if m.num_classes == 1 else m.root_node.weights.detach().clone()
        em(m, X, 2)
        if prior is not None and not m.learnable_prior:
            ctx.close(m.root_node.weights.detach().numpy(), prior.numpy(), "fixed class prior", 1e-6, 1e-6)
            ctx.count("fixed priors")
        check_valid(ctx, m)
        return
    from spflow.modules import leaves as Lv
    from spflow.modules.products import Product
    from spflow.modules.ops import Cat
    from spflow.modules.sums import Sum
    from spflow.meta.data.scope import Scope

    def comp():
        lo = torch.tensor(rng.uniform(-3, -2, (1, 1, 1)), dtype=torch.float32)
        u = Lv.Uniform(Scope([0]), low=lo, high=lo + float(rng.uniform(5, 8)), support_outside=True)
        nrm = Lv.Normal(Scope([1]), loc=torch.tensor(rng.normal(0, 1, (1, 1, 1)), dtype=torch.float32), scale=torch.ones(1, 1, 1))
        hg = Lv.Hypergeometric(Scope([2]), K=torch.full((1, 1, 1), 5.0), N=torch.full((1, 1, 1), 10.0), n=torch.full((1, 1, 1), float(rng.integers(3, 6))))
        return Product(inputs=[u, nrm, hg]), u, hg

    (p1, u1, h1), (p2, u2, h2) = comp(), comp()
    m = Sum(inputs=Cat([p1, p2], dim=2), out_channels=1)
    X = np.stack([rng.uniform(-1.9, 1.9, 40), rng.normal(0, 1, 40), rng.integers(1, 3, 40)], 1).astype(np.float32)
    if not np.isfinite(mon.ll(m, X)).all():
        raise Skip("out of support")
    before = [(u.low.clone(), u.high.clone()) for u in (u1, u2)]
    hist = [em(m, X)[0].item() for _ in range(3)]
    for (lo, hi), u in zip(before, (u1, u2)):
        ctx.check(torch.equal(lo, u.low) and torch.equal(hi, u.high), "EM changed the bounds of a Uniform leaf")
    ctx.check(hist[1] >= hist[0] - 1e-4 and hist[2] >= hist[1] - 1e-4, f"likelihood fell {hist}")
    ctx.count("fixed leaves", 4)
    ctx.key("fixed", float(hist[0]))


def f_single(ctx):
    """One-channel stacks over a leaf layer: responsibilities are one, so a step is the plain estimate of the leaf with the caller's options."""
    from spflow.modules.conv import ProdConv, SumConv
    from spflow.modules.einsum import EinsumLayer, LinsumLayer
    from spflow.modules.leaves import Gamma, LogNormal, Normal
    from spflow.modules.ops.cat import Cat
    from spflow.modules.ops.split_by_index import SplitByIndex
    from spflow.modules.ops.split_consecutive import SplitConsecutive
    from spflow.modules.ops.split_interleaved import SplitInterleaved
    from spflow.modules.products import ElementwiseProduct, OuterProduct, Product
    from spflow.modules.rat.factorize import Factorize
    from spflow.modules.sums import ElementwiseSum, Sum
    from spflow.modules.sums.repetition_mixing_layer import RepetitionMixingLayer
    from spflow.modules.wrapper.image_wrapper import ImageWrapper
    from spflow.zoo.conv import ConvPc
    from spflow.zoo.einet import Einet
    from spflow.zoo.naive_bayes import NaiveBayes
    from spflow.zoo.rat import RatSPN

    rng = ctx.rng
    cls = [Normal, LogNormal, Normal, Gamma][int(rng.integers(4))]
    shape = (4, 1, 1)
    pos = lambda: torch.tensor(rng.uniform(0.5, 2.0, shape), dtype=torch.float32)  # noqa: E731
    par = dict(concentration=pos(), rate=pos()) if cls is Gamma else dict(loc=pos(), scale=pos())
    leaf = lambda: cls(scope=[0, 1, 2, 3], out_channels=1, num_repetitions=1, **par)  # noqa: E731
    base, ref = leaf(), leaf()
    kinds = {
        "sum": lambda m: Sum(inputs=m, out_channels=1), "esum": lambda m: ElementwiseSum(inputs=[m], out_channels=1),
        "sumconv": lambda m: SumConv(inputs=m, out_channels=1, kernel_size=int(rng.choice([1, 2]))),
        "repmix": lambda m: RepetitionMixingLayer(inputs=m, out_channels=1, num_repetitions=1), "cat": lambda m: Cat([m], dim=2),
    }
    tops = {
        "product": lambda m: Product(inputs=m), "prodconv": lambda m: Product(inputs=ProdConv(inputs=m, kernel_size_h=2, kernel_size_w=int(rng.choice([1, 2])))),
        "eprod": lambda m: Product(inputs=ElementwiseProduct(inputs=SplitConsecutive(m, num_splits=2))),
        "eprodi": lambda m: Product(inputs=ElementwiseProduct(inputs=SplitInterleaved(m, num_splits=2))),
        "eprodx": lambda m: Product(inputs=ElementwiseProduct(inputs=SplitByIndex(m, indices=[[3, 0], [1, 2]]))),
        "oprod": lambda m: Product(inputs=OuterProduct(inputs=SplitConsecutive(m, num_splits=2))),
        "einsum": lambda m: Product(inputs=EinsumLayer(inputs=m, out_channels=1)), "linsum": lambda m: Product(inputs=LinsumLayer(inputs=m, out_channels=1)),
        "factorize": lambda m: Product(inputs=Factorize(inputs=[m], depth=1, num_repetitions=1)),
        "einsum2": lambda m: EinsumLayer(inputs=[Product(inputs=m), Product(inputs=other)], out_channels=1),
        "linsum2": lambda m: LinsumLayer(inputs=[Product(inputs=other), Product(inputs=m)], out_channels=1),
        "rat": lambda m: RatSPN(leaf_modules=[m], n_root_nodes=1, n_region_nodes=1, num_repetitions=1, depth=1, outer_product=bool(rng.random() < 0.5)),
        "einet": lambda m: Einet(leaf_modules=[m], num_classes=1, num_sums=1, num_leaves=1, depth=1, num_repetitions=1,
                                 layer_type=["einsum", "linsum"][int(rng.integers(2))], structure=["top-down", "bottom-up"][int(rng.integers(2))]),
        "convpc": lambda m: ConvPc(leaf=m, input_height=2, input_width=2, channels=1, depth=1, kernel_size=2, use_sum_conv=bool(rng.random() < 0.5)),
        "nbayes": lambda m: NaiveBayes(m, num_classes=1),
        "image": lambda m: ImageWrapper(Product(inputs=m), num_channel=1, height=2, width=2),
    }
    other = cls(scope=[4, 5, 6, 7], out_channels=1, num_repetitions=1, **par)
    m, names = base, []
    for _ in range(int(rng.integers(0, 3))):
        k = sorted(kinds)[int(rng.integers(len(kinds)))]
        m = kinds[k](m)
        names.append(k)
    k = sorted(tops)[int(ctx.idx % len(tops))]
    if k in ("factorize", "rat", "einet", "convpc", "nbayes"):
        m, names = base, []
    m = tops[k](m)
    names.append(k)
    n = int(rng.integers(4, 9))
    X = torch.tensor(rng.uniform(0.5, 4.0, (n, 8 if k[-1] == "2" else 4)), dtype=torch.float32)
    bc = bool(ctx.idx // len(tops) % 2)
    ctx.key(cls.__name__, names, bc, n)
    ctx.note(f"{cls.__name__} {names} bias_correction={bc} n={n}")
    ref.maximum_likelihood_estimation(X, bias_correction=bc)
    em(m, X.reshape(n, 1, 2, 2) if k == "image" else X, bias_correction=bc)
    two = k[-1] == "2"
    if two:
        ref2 = cls(scope=[4, 5, 6, 7], out_channels=1, num_repetitions=1, **par)
        ref2.maximum_likelihood_estimation(X, bias_correction=bc)
    for a, b, key in [(base, ref, key) for key in ref.params()] + ([(other, ref2, key) for key in ref.params()] if two else []):
        ctx.close(a.params()[key].detach().numpy(), b.params()[key].detach().numpy(), f"{cls.__name__} below {names}: {key} after one EM step with bias_correction={bc} vs the plain estimate", 1e-4, 1e-5)
    ctx.count(f"stack:{k}")


FAMILIES = [
    Family("step", f_step, 200, 1500),
    Family("zoo", f_zoo, 120, 800),
    Family("mono", f_mono, 200, 1500),
    Family("batched", f_batched, 80, 500),
    Family("order", f_order, 80, 400),
    Family("dead", f_dead, 24, 150),
    Family("single", f_single, 64, 600),
    Family("fixed", f_fixed, 24, 150),
]
