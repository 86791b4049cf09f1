"""C16: the weights and parameters a module is given are the ones it uses - normalised, current, and its own."""
import copy
import io
import pickle

import numpy as np

from spmon import leafref as lr, mon, zoo
from spmon.circ import Var, t
from spmon.runner import Family, Skip

PID = "C16"
RULE = "distinct = distinct (layer type, shapes, sequence of operations applied) / (leaf family, parameter, shape)"
ASSUMPTIONS = ["reference mixture: float64 log-sum-exp over the inputs' log-likelihoods with the log-softmax of the layer's current logits "
               "(or of the weights last set), written independently per layer type"]


def lsm(a, ax):
    a = np.asarray(a, np.float64)
    m = a.max(axis=ax, keepdims=True)
    e = a - m
    return e - np.log(np.exp(e).sum(axis=ax, keepdims=True))


def lse(a, ax):
    m = a.max(axis=ax, keepdims=True)
    m = np.where(np.isfinite(m), m, 0)
    with np.errstate(divide="ignore"):
        return np.log(np.exp(a - m).sum(axis=ax)) + np.squeeze(m, ax)


class Layer:
    """One real layer with weights, its inputs, the axes its weights are normalised over, and a reference."""

    def __init__(self, kind, m, axes, ref):
        self.kind, self.m, self.axes, self.ref = kind, m, axes, ref


KINDS = ["Sum", "ElementwiseSum", "EinsumLayer", "LinsumLayer", "SumConv", "RepetitionMixingLayer"]


def make(rng, kind, weights=None):
    from spflow.modules.conv import SumConv
    from spflow.modules.einsum import EinsumLayer, LinsumLayer
    from spflow.modules.sums import ElementwiseSum, RepetitionMixingLayer, Sum

    R = int(rng.integers(1, 3))
    C, O = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    F = int(rng.integers(1, 3))

    def leafs(cols, c, r=R):
        return lr.build("bernoulli", list(cols), lr.rand_params("bernoulli", rng, (len(cols), c, r)))

    if kind == "Sum":
        inp = leafs(range(F), C)
        m = Sum(inputs=inp, out_channels=O, num_repetitions=R)
        return Layer(kind, m, (1,), lambda m, lw, x: lse(mon.ll(m.inputs, x)[:, :, :, None, :] + lw[None], 2)), F
    if kind == "ElementwiseSum":
        k = int(rng.integers(1, 4))
        ins = [leafs(range(F), C if rng.random() < 0.7 else 1) for _ in range(k)]
        m = ElementwiseSum(inputs=ins, out_channels=O, num_repetitions=R)
        ci = max(i.out_shape.channels for i in ins)

        def ref(m, lw, x):
            L = np.stack([np.broadcast_to(mon.ll(i, x), (len(x), F, ci, R)) for i in m.inputs], 3)
            out = lse(L[:, :, :, None] + lw[None], 4)
            return out.reshape(len(x), F, -1, R)

        return Layer(kind, m, (3,), ref), F
    if kind in ("EinsumLayer", "LinsumLayer"):
        a = leafs(range(F), C)
        b = leafs(range(F, 2 * F), C if kind == "LinsumLayer" else int(rng.integers(1, 4)))
        if kind == "EinsumLayer":
            m = EinsumLayer([a, b], out_channels=O, num_repetitions=R)

            def ref(m, lw, x):
                p, q = mon.ll(m.inputs[0], x), mon.ll(m.inputs[1], x)
                j = p[:, :, :, None, :] + q[:, :, None, :, :]  # b f i j r
                return lse(lse(np.moveaxis(j, 4, 2)[:, :, None] + lw[None], 5), 4)

            return Layer(kind, m, (-2, -1), ref), 2 * F
        m = LinsumLayer([a, b], out_channels=O, num_repetitions=R)
        return Layer(kind, m, (-1,), lambda m, lw, x: lse(
            np.moveaxis(mon.ll(m.inputs[0], x) + mon.ll(m.inputs[1], x), 3, 2)[:, :, None] + lw[None], 4)), 2 * F
    if kind == "SumConv":
        side = int(rng.integers(1, 4))
        K = int(rng.choice([k for k in range(1, side + 1) if side % k == 0]))
        n = side * side
        inp = leafs(range(n), C)
        m = SumConv(inp, out_channels=O, kernel_size=K, num_repetitions=R)

        def ref(m, lw, x):
            L = mon.ll(m.inputs, x)  # b f ci r
            out = np.empty((len(x), n, O, R))
            for f in range(n):
                i, j = divmod(f, side)
                w = lw[:, :, i % K, j % K, :]  # co ci r
                out[:, f] = lse(L[:, f][:, None] + w[None], 2)
            return out

        return Layer(kind, m, (1,), ref), n
    inp = leafs([0], C, R)
    m = RepetitionMixingLayer(inp, out_channels=C, num_repetitions=R)
    return Layer(kind, m, (2,), lambda m, lw, x: lse(mon.ll(m.inputs, x) + lw[None], 3)[..., None]), 1


def rweights(rng, shape, axes):
    a = rng.gamma(0.7, size=shape) + 1e-3
    a = a / a.sum(axis=axes, keepdims=True)
    a = a.astype(np.float32).astype(np.float64)
    return a / a.sum(axis=axes, keepdims=True)


def data(rng, n, rows=5):
    return rng.integers(0, 2, (rows, n)).astype(float)


def norm_log(m, axes, logits):
    a = np.asarray(logits, np.float64)
    mx = a.max(axis=axes, keepdims=True)
    return a - mx - np.log(np.exp(a - mx).sum(axis=axes, keepdims=True))


def agree(ctx, L, x, lw, what):
    import torch

    m = L.m
    w, l = m.weights.detach().numpy().astype(float), m.log_weights.detach().numpy().astype(float)
    ctx.check(not np.isnan(w).any(), f"{what}: weights hold NaN")
    ctx.close(w, np.exp(lw), f"{what}: weights", rtol=1e-3, atol=2e-6)
    ctx.close(np.exp(l), np.exp(lw), f"{what}: exp(log_weights)", rtol=1e-3, atol=2e-6)
    ctx.close(w.sum(axis=L.axes), np.ones(w.sum(axis=L.axes).shape), f"{what}: weights sum over the mixed axis", rtol=0, atol=1e-5)
    want = L.ref(m, lw, x)
    for train in (False, True):
        m.train(train)
        for grad in (False, True):
            with torch.set_grad_enabled(grad):
                got = m.log_likelihood(t(x)).detach().numpy().astype(float)
            ctx.check(got.shape == want.shape, f"{what}: log-likelihood shape {got.shape}, expected {want.shape}")
            ctx.close(got, want, f"{what}: log-likelihood ({'train' if train else 'eval'}, grad {'on' if grad else 'off'})", rtol=1e-4, atol=1e-4)
    ctx.count("evaluations", 4)


def f_setget(ctx):
    rng = ctx.rng
    kind = KINDS[ctx.idx % len(KINDS)]
    L, n = make(rng, kind)
    x = data(rng, n)
    shape = tuple(L.m.weights_shape)
    ctx.key("setget", kind, shape)
    agree(ctx, L, x, norm_log(L.m, L.axes, L.m.logits.detach().numpy()), f"{kind} as constructed")
    for _ in range(3):
        w = rweights(rng, shape, L.axes)
        L.m.weights = t(w)
        agree(ctx, L, x, np.log(w), f"{kind} after setting weights")
    if kind != "SumConv":
        for scale in (1.0, 30.0):
            z = rng.normal(size=shape) * scale
            L.m.log_weights = t(z)
            agree(ctx, L, x, norm_log(L.m, L.axes, t(z).numpy()), f"{kind} after setting log-weights (unnormalised, scale {scale})")


def f_extreme(ctx):
    """Whatever real numbers an optimiser leaves in the logits, the weights stay a distribution."""
    import torch

    rng = ctx.rng
    kind = KINDS[ctx.idx % len(KINDS)]
    L, n = make(rng, kind)
    x = data(rng, n)
    shape = tuple(L.m.weights_shape)
    ctx.key("extreme", kind, shape)
    for scale in (0.0, 50.0, 1e4, 1e30):
        z = rng.normal(size=shape) * scale
        with torch.no_grad():
            L.m.logits.copy_(t(z))
        z = L.m.logits.detach().numpy()
        agree(ctx, L, x, norm_log(L.m, L.axes, z), f"{kind} with logits of scale {scale:g}")


def f_reject(ctx):
    rng = ctx.rng
    kind = KINDS[ctx.idx % len(KINDS)]
    L, n = make(rng, kind)
    x = data(rng, n)
    m = L.m
    shape = tuple(m.weights_shape)
    w = rweights(rng, shape, L.axes)
    m.weights = t(w)
    ctx.key("reject", kind, shape)
    i = tuple(int(rng.integers(s)) for s in shape)
    mixed = int(np.prod([shape[a] for a in L.axes]))

    def at(v, ww=None):
        b = (w if ww is None else ww).copy()
        b[i] = v
        return b

    neg = w.copy()
    neg[i] = -w[i]
    bad = [("negative", neg), ("NaN", at(np.nan)), ("infinite", at(np.inf)), ("doubled", w * 2), ("halved", w * 0.5),
           ("one entry raised", at(w[i] + 0.3)), ("extra row", np.concatenate([w, w[:1]], 0)), ("extra trailing axis", w[..., None]),
           ("transposed axes", np.moveaxis(w, 0, -1) if np.moveaxis(w, 0, -1).shape != shape else w[..., None])]
    if mixed > 1:
        # non-positive but normalised along the right axes
        z = np.zeros(shape)
        idx = [slice(None)] * len(shape)
        for a in L.axes:
            idx[a] = slice(0, 1)
        z[tuple(idx)] = 1.0
        bad.append(("zero entries", z))
        y = w.copy()
        ref = [slice(None)] * len(shape)
        y = y - 0.4 / mixed
        y[tuple(idx)] = y[tuple(idx)] + 0.4
        if (y <= 0).any():
            bad.append(("negative but normalised", y))
    for wrong in range(len(shape)):
        # normalised over another axis
        if wrong in [a % len(shape) for a in L.axes]:
            continue
        y = rng.gamma(1.0, size=shape) + 0.05
        y = y / y.sum(axis=wrong, keepdims=True)
        if np.abs(y.sum(axis=L.axes) - 1).max() > 1e-3:
            bad.append((f"normalised over axis {wrong}", y))
    for name, b in bad:
        try:
            m.weights = t(b)
        except ValueError:
            ctx.count("rejected")
        else:
            ctx.fail(f"{kind}{shape}: weights with {name} accepted")
        agree(ctx, L, x, np.log(w), f"{kind} after refusing weights with {name}")
    if kind != "SumConv":
        try:
            m.log_weights = t(np.log(np.concatenate([w, w[:1]], 0)))
        except ValueError:
            ctx.count("rejected")
        else:
            ctx.fail(f"{kind}{shape}: log-weights of another shape accepted")
        agree(ctx, L, x, np.log(w), f"{kind} after refusing log-weights of another shape")


OPS = ["weights", "log_weights", "step", "inplace", "data", "replace", "state", "deepcopy", "pickle", "copy_then_change", "eval", "train", "em"]


def f_modes(ctx):
    """Operation sequences: after every one the layer mixes with its current weights."""
    import torch

    rng = ctx.rng
    kind = KINDS[ctx.idx % len(KINDS)]
    L, n = make(rng, kind)
    x = data(rng, n)
    axes = L.axes
    seq = []
    prev = None
    for _ in range(int(rng.integers(4, 12))):
        m = L.m
        op = str(rng.choice(OPS))
        shape = tuple(m.weights_shape)
        if op == "log_weights" and kind == "SumConv":
            continue
        if op == "em":
            continue
        seq.append(op)
        if op == "weights":
            m.weights = t(rweights(rng, shape, axes))
        elif op == "log_weights":
            m.log_weights = t(rng.normal(size=shape))
        elif op == "step":
            o = torch.optim.SGD(m.parameters(), lr=1.0)
            m.train()
            o.zero_grad()
            (-m.log_likelihood(t(x)).sum()).backward()
            o.step()
        elif op == "inplace":
            with torch.no_grad():
                m.logits.add_(t(rng.normal(size=shape)))
        elif op == "data":
            m.logits.data = t(rng.normal(size=shape))
        elif op == "replace":
            m.logits = torch.nn.Parameter(t(rng.normal(size=shape)))
        elif op == "state":
            sd = {k: v.clone() for k, v in m.state_dict().items()}
            sd["logits"] = t(rng.normal(size=shape))
            m.load_state_dict(sd)
        elif op == "deepcopy":
            L.m = copy.deepcopy(m)
        elif op == "pickle":
            b = io.BytesIO()
            torch.save(m, b)
            b.seek(0)
            L.m = torch.load(b, weights_only=False)
        elif op == "copy_then_change":
            before = m.logits.detach().numpy().copy()
            c = copy.deepcopy(m)
            with torch.no_grad():
                c.logits.add_(t(rng.normal(size=shape)))
            cl = Layer(kind, c, axes, L.ref)
            agree(ctx, cl, x, norm_log(c, axes, c.logits.detach().numpy()), f"{kind}: changed copy after {seq}")
            ctx.check(np.array_equal(m.logits.detach().numpy(), before), f"{kind}: changing a copy changed the original")
        elif op == "eval":
            m.eval()
        elif op == "train":
            m.train()
        m = L.m
        was = m.training
        # look in eval mode without gradients first (caches), then everywhere
        m.eval()
        lw = norm_log(m, axes, m.logits.detach().numpy())
        ctx.close(mon.ll(m, x), L.ref(m, lw, x), f"{kind} (eval) after {seq}", rtol=1e-4, atol=1e-4)
        agree(ctx, L, x, lw, f"{kind} after {seq}")
        m.train(was)
        if op == "copy_then_change":
            prev = None
    ctx.key("modes", kind, tuple(seq))
    ctx.count("operations", len(seq))


def f_own(ctx):
    """Tensors handed to constructors and setters stay the caller's: changing them later changes nothing."""
    import torch
    from spflow.modules.sums import ElementwiseSum, Sum

    rng = ctx.rng
    kind = KINDS[ctx.idx % len(KINDS)]
    L, n = make(rng, kind)
    m = L.m
    x = data(rng, n)
    shape = tuple(m.weights_shape)
    ctx.key("own", kind, shape)
    w = t(rweights(rng, shape, L.axes))
    m.weights = w
    a = mon.ll(m, x)
    w.mul_(0.1).add_(0.2)
    ctx.check(np.array_equal(mon.ll(m, x), a), f"{kind}: changing the tensor given as weights changed the module")
    if kind != "SumConv":
        z = t(rng.normal(size=shape))
        z0 = z.clone()
        m.log_weights = z
        a = mon.ll(m, x)
        m.eval()
        with torch.no_grad():
            m.logits.add_(t(rng.normal(size=shape)))
        ctx.check(torch.equal(z, z0), f"{kind}: changing the module changed the tensor given as log-weights")
        z.mul_(-3.0)
        lw = norm_log(m, L.axes, m.logits.detach().numpy())
        ctx.close(mon.ll(m, x), L.ref(m, lw, x), f"{kind}: after changing the tensor given as log-weights")
    if kind in ("Sum", "ElementwiseSum"):
        w = t(rweights(rng, shape, L.axes))
        m2 = Sum(inputs=m.inputs, weights=w) if kind == "Sum" else ElementwiseSum(inputs=list(m.inputs), weights=w)
        agree(ctx, Layer(kind, m2, L.axes, L.ref), x, np.log(w.numpy().astype(float)), f"{kind} constructed with weights")
        a = mon.ll(m2, x)
        w.fill_(0.7)
        ctx.check(np.array_equal(mon.ll(m2, x), a), f"{kind}: changing the tensor given to the constructor changed the module")
    lk = ["bernoulli", "categorical", "binomial", "geometric", "negbin", "poisson", "normal", "lognormal", "laplace", "exponential", "gamma"][int(rng.integers(11))]
    F, C, R = int(rng.integers(1, 3)), int(rng.integers(1, 3)), 1
    K, total = (3 if lk == "categorical" else None), (3 if lk in ("binomial", "negbin") else None)
    prm = lr.rand_params(lk, rng, (F, C, R), K=K, total=total)
    held = {}

    from spflow.modules import leaves as Lv

    cls = {"bernoulli": Lv.Bernoulli, "categorical": Lv.Categorical, "binomial": Lv.Binomial, "geometric": Lv.Geometric, "negbin": Lv.NegativeBinomial,
           "poisson": Lv.Poisson, "normal": Lv.Normal, "lognormal": Lv.LogNormal, "laplace": Lv.Laplace, "exponential": Lv.Exponential, "gamma": Lv.Gamma}[lk]
    held = {k: t(v) for k, v in prm.items()}
    extra = {"K": K} if K else {}
    leaf = cls(scope=list(range(F)), **held, **extra)
    twin = cls(scope=list(range(F)), **held, **extra)
    xs = lr.sample_data(lk, rng, 4 * F, K=K, total=total).reshape(4, F)
    a = mon.ll(leaf, xs)
    with torch.no_grad():
        for p in twin.parameters():
            p.add_(0.3)
    ctx.check(np.array_equal(mon.ll(leaf, xs), a), f"{lk}: training a leaf changed another leaf built from the same tensors")
    for k, v in held.items():
        if k != "total_count":
            v.mul_(0.5)
    ctx.check(np.array_equal(mon.ll(leaf, xs), a), f"{lk}: changing the caller's parameter tensors changed the leaf")
    ctx.count("ownership_checks")


def f_ownall(ctx):
    """The remaining modules that are given values (fixed-parameter, tabular, signed and weighted ones) own them too."""
    import torch
    from spflow.meta.data.scope import Scope
    from spflow.modules import leaves as Lv
    from spflow.modules.sums.signed_sum import SignedSum
    from spflow.zoo.pic.weighted_sum import WeightedSum
    from spflow.zoo.sos.signed_categorical import SignedCategorical

    rng = ctx.rng
    kinds = ("weighted", "signed", "signedcat", "cltree", "hypergeometric", "uniform", "histogram", "count")
    kind = kinds[ctx.idx % len(kinds)]
    F, C, R = int(rng.integers(1, 3)), int(rng.integers(1, 4)), int(rng.integers(1, 3))
    ctx.key("ownall", kind, F, C, R)
    setters = []  # (name, replacement tensor)
    if kind in ("weighted", "signed"):
        leaf = lr.build("normal", list(range(F)), lr.rand_params("normal", rng, (F, C, R)))
        O = int(rng.integers(1, 3))
        dt = (torch.float32, torch.float64)[int(rng.integers(2))]
        w = t(rng.uniform(0.1, 2.0, size=(F, C, O, R))).to(dt)
        held = {"weights": w}
        cls, more = (WeightedSum, {}) if kind == "weighted" else (SignedSum, {"out_channels": O, "num_repetitions": R})
        build = lambda h: cls(leaf, weights=h["weights"], **more)
        x = rng.normal(size=(4, F))
        if kind == "weighted":
            setters = [("weights", t(rng.uniform(0.1, 2.0, size=(F, C, O, R))))]
    elif kind == "signedcat":
        K = int(rng.integers(2, 5))
        held = {"weights": t(rng.normal(size=(F, C, R, K)))}
        build = lambda h: SignedCategorical(scope=Scope(list(range(F))), out_channels=C, num_repetitions=R, K=K, weights=h["weights"])
        x = rng.integers(0, K, size=(4, F)).astype(float)
    elif kind == "cltree":
        F, K = int(rng.integers(2, 5)), int(rng.integers(2, 4))
        lc = np.log(rng.dirichlet(np.ones(K), size=(F, C, R, K)).transpose(0, 1, 2, 4, 3))
        par = np.array([-1] + [int(rng.integers(0, i)) for i in range(1, F)])
        held = {"log_cpt": t(lc), "parents": torch.as_tensor(par)}
        build = lambda h: Lv.CLTree(scope=list(range(F)), out_channels=C, num_repetitions=R, K=K, parents=h["parents"], log_cpt=h["log_cpt"])
        x = rng.integers(0, K, size=(4, F)).astype(float)
        x[rng.random(x.shape) < 0.2] = np.nan
    elif kind == "hypergeometric":
        N, Kk, n = np.full((F, C, R), 9.0), np.full((F, C, R), 5.0), np.full((F, C, R), 4.0)
        held = {"K": t(Kk), "N": t(N), "n": t(n)}
        build = lambda h: Lv.Hypergeometric(scope=list(range(F)), **h)
        x = rng.integers(0, 5, size=(4, F)).astype(float)
    elif kind == "uniform":
        lo = rng.normal(size=(F, C, R))
        held = {"low": t(lo), "high": t(lo + rng.uniform(1.0, 3.0, size=(F, C, R)))}
        build = lambda h: Lv.Uniform(scope=list(range(F)), **h)
        x = rng.normal(size=(4, F))
    elif kind == "histogram":
        F = 1
        nb = int(rng.integers(2, 5))
        edges = torch.as_tensor(np.cumsum(rng.uniform(0.5, 1.5, size=nb + 1)) - 2.0, dtype=torch.float32)
        p = rng.dirichlet(np.ones(nb), size=(F, C, R))
        held = {"bin_edges": edges, "logits": t(np.log(p))}
        build = lambda h: Lv.Histogram(scope=Scope([0]), **h)
        x = rng.uniform(-1.0, 2.0, size=(4, 1))
        setters = [("logits", t(rng.normal(size=p.shape)))]
    else:
        cls = (Lv.Binomial, Lv.NegativeBinomial)[int(rng.integers(2))]
        held = {"total_count": t(np.full((F, C, R), 5.0)), "probs": t(rng.uniform(0.1, 0.9, size=(F, C, R)))}
        build = lambda h: cls(scope=list(range(F)), **h)
        x = rng.integers(0, 4, size=(4, F)).astype(float)
        setters = [("total_count", t(np.full((F, C, R), 7.0)))]

    def value(m):
        if hasattr(m, "signed_logabs_and_sign") and kind in ("signed", "signedcat"):
            a, s = m.signed_logabs_and_sign(t(x))
            return np.concatenate([a.detach().double().numpy().ravel(), s.double().numpy().ravel()])
        return mon.ll(m, x)

    def spoil(z):
        with torch.no_grad():
            z.copy_(z + 1 if not z.is_floating_point() else z * 0.5 + 0.25)

    before = {k: v.clone() for k, v in held.items()}
    m, twin = build(held), build(held)
    a = value(m)
    with torch.no_grad():
        for q in twin.parameters(recurse=False):
            q.mul_(0.5).add_(0.1)
    ctx.check(np.array_equal(value(m), a, equal_nan=True), f"{kind}: training a module changed another built from the same tensors")
    for k, v in held.items():
        ctx.check(torch.equal(v, before[k]), f"{kind}: training a module changed the tensor it was given as {k}")
    for k, v in held.items():
        spoil(v)
        ctx.check(np.array_equal(value(m), a, equal_nan=True), f"{kind}: changing the tensor given as {k} changed the module")
    for nm, v in setters:
        setattr(m, nm, v)
        a = value(m)
        want = v.clone()
        spoil(v)
        ctx.check(np.array_equal(value(m), a, equal_nan=True), f"{kind}: changing the tensor assigned to {nm} changed the module")
        ctx.close(getattr(m, nm).detach().double().numpy(), want.double().numpy(), f"{kind}: {nm} reads back what was assigned")
    if kind == "weighted":
        bad = t(rng.uniform(0.1, 1.0, size=tuple(m.weights.shape)))
        bad.view(-1)[int(rng.integers(bad.numel()))] = -0.5
        a, refused = value(m), False
        try:
            m.weights = bad
        except Exception:
            refused = True
        ctx.check(refused and np.array_equal(value(m), a), f"{kind}: a negative weight was accepted")
    ctx.count("ownership_checks")


def f_forms(ctx):
    """Short forms of the constructor's weights mean the broadcast tensor."""
    from spflow.modules.sums import Sum

    rng = ctx.rng
    F, C, O, R = 1, int(rng.integers(2, 4)), int(rng.integers(1, 4)), 1
    leaf = lr.build("bernoulli", [0], lr.rand_params("bernoulli", rng, (1, C, 1)))
    x = np.array([[0.0], [1.0]])
    w = rweights(rng, (1, C, O, 1), (1,))
    full = Sum(inputs=leaf, weights=t(w))
    base = mon.ll(full, x)
    for nm, v in (("3-D", w[..., 0]), ("2-D", w[0, ..., 0])):
        m = Sum(inputs=leaf, weights=t(v))
        ctx.check(tuple(m.out_shape) == tuple(full.out_shape), f"Sum with {nm} weights: shape {tuple(m.out_shape)}")
        ctx.close(mon.ll(m, x), base, f"Sum with {nm} weights", rtol=1e-5, atol=1e-5)
    one = w[0, :, 0, 0]
    for nm, v in (("1-D", t(one)), ("list", [float(a) for a in one])):
        m = Sum(inputs=leaf, weights=v)
        ctx.close(mon.ll(m, x), base[:, :, :1], f"Sum with {nm} weights", rtol=1e-5, atol=1e-5)
    singles = [lr.build("bernoulli", [0], lr.rand_params("bernoulli", rng, (1, 1, 1))) for _ in range(C)]
    m = Sum(inputs=singles, weights=[float(a) for a in one])
    want = lse(np.concatenate([mon.ll(s, x) for s in singles], 2) + np.log(one)[None, None, :, None], 2)
    ctx.close(mon.ll(m, x)[:, :, 0], want, "Sum over several modules with a list of weights", rtol=1e-4, atol=1e-4)
    ctx.key("forms", C, O)


SETTERS = {
    "bernoulli": ["probs", "logits"], "categorical": ["probs", "logits"], "binomial": ["probs", "logits"], "geometric": ["probs", "logits"],
    "negbin": ["probs", "logits"], "normal": ["scale"], "lognormal": ["scale"], "laplace": ["scale"], "exponential": ["rate"], "poisson": ["rate"],
    "gamma": ["concentration", "rate"],
}


def f_leafset(ctx):
    """Leaf parameter setters round trip and are what the density uses."""
    import torch

    rng = ctx.rng
    kind = sorted(SETTERS)[ctx.idx % len(SETTERS)]
    F, C, R = int(rng.integers(1, 3)), int(rng.integers(1, 4)), int(rng.integers(1, 3))
    K, total = (int(rng.integers(2, 5)) if kind == "categorical" else None), (4 if kind in ("binomial", "negbin") else None)
    a = lr.rand_params(kind, rng, (F, C, R), K=K, total=total)
    b = lr.rand_params(kind, rng, (F, C, R), K=K, total=total)
    if total:
        b["total_count"] = a["total_count"]
    leaf = lr.build(kind, list(range(F)), a)
    x = lr.sample_data(kind, rng, 6 * F, K=K, total=total).reshape(6, F)
    ctx.key("leafset", kind, F, C, R, K)
    cur = dict(a)
    for _ in range(3):
        name = SETTERS[kind][int(rng.integers(len(SETTERS[kind])))]
        if not isinstance(getattr(type(leaf), name, None), property) or getattr(type(leaf), name).fset is None:
            raise Skip(f"{kind}.{name} has no setter")
        if name == "logits":
            p = b["probs"]
            z = np.log(p) + rng.normal() if kind == "categorical" else np.log(p) - np.log1p(-p)
            leaf.logits = t(z)
            cur["probs"] = p
            name = "probs"
        else:
            setattr(leaf, name, t(b[name]))
            cur[name] = b[name]
        ctx.close(getattr(leaf, name).detach().numpy(), cur[name], f"{kind}.{name} after setting it", rtol=1e-4, atol=1e-5)
        want = mon.ll(lr.build(kind, list(range(F)), cur), x)
        ctx.close(mon.ll(leaf, x), want, f"{kind}: log-likelihood after setting {name}", rtol=1e-4, atol=1e-4)
        b = lr.rand_params(kind, rng, (F, C, R), K=K, total=total)
        if total:
            b["total_count"] = a["total_count"]
    # any real value an optimiser may leave in the raw parameters is a valid parameter
    for scale in (1.0, 3.0) + ((10.0, 60.0) if kind in ("bernoulli", "categorical") else ()):
        with torch.no_grad():
            for p in leaf.parameters():
                if p.shape == torch.Size((F, C, R)) or kind == "categorical":
                    p.copy_(t(rng.normal(size=tuple(p.shape)) * scale))
        L = mon.ll(leaf, x)
        ctx.check(not np.isnan(L).any(), f"{kind}: NaN log-likelihood with raw parameters of scale {scale}")
        full = mon.ll(leaf, np.full((1, F), np.nan))
        ctx.close(full, np.zeros_like(full), f"{kind}: missing values with raw parameters of scale {scale}", rtol=0, atol=1e-4)
        if kind in ("bernoulli", "categorical", "binomial", "geometric", "negbin"):
            p = leaf.probs.detach().numpy()
            ctx.check((p >= 0).all() and (p <= 1).all(), f"{kind}: probabilities {p.min()}..{p.max()}")
            if kind in ("bernoulli", "categorical"):
                kk = K or 2
                tot = mon.lse(np.stack([mon.ll(leaf, np.full((1, F), float(v)))[0] for v in range(kk)]), 0)
                ctx.close(tot, np.zeros_like(tot), f"{kind}: total mass with raw parameters of scale {scale}", rtol=0, atol=1e-4)


def f_proj(ctx):
    """Parameter projections stay in range and invert each other."""
    from spflow.utils.projections import proj_bounded_to_real, proj_convex_to_real, proj_real_to_bounded, proj_real_to_convex

    rng = ctx.rng
    k = int(rng.integers(2, 6))
    z = rng.normal(size=(4, k)) * float(rng.choice([1, 10, 100]))
    p = proj_real_to_convex(t(z)).numpy().astype(float)
    ctx.check((p >= 0).all() and np.allclose(p.sum(-1), 1, atol=1e-5), f"proj_real_to_convex of {z.tolist()} is {p.tolist()}")
    q = rng.dirichlet(np.ones(k), size=3)
    ctx.close(proj_real_to_convex(proj_convex_to_real(t(q))).numpy(), q, "convex -> real -> convex", rtol=1e-4, atol=1e-5)
    lb, ub = sorted(float(v) for v in rng.normal(size=2) * 5)
    ub += 0.1
    z = rng.normal(size=20) * float(rng.choice([1, 5]))
    for lo, hi in ((lb, ub), (lb, None), (None, ub), (0.0, 1.0), (0.0, None)):
        y = proj_real_to_bounded(t(z), lb=lo, ub=hi).numpy().astype(float)
        ctx.check((lo is None or (y >= lo - 1e-5).all()) and (hi is None or (y <= hi + 1e-5).all()), f"proj_real_to_bounded({lo},{hi}) leaves its range")
        ctx.check(np.all(np.diff(y[np.argsort(z)]) * (1 if lo is not None else -1) >= -1e-5), f"proj_real_to_bounded({lo},{hi}) is not monotone")
        v = (lo if lo is not None else hi - 6) + rng.uniform(0.05, 0.95, size=10) * ((hi if hi is not None else lo + 6) - (lo if lo is not None else hi - 6))
        back = proj_real_to_bounded(proj_bounded_to_real(t(v), lb=lo, ub=hi), lb=lo, ub=hi).numpy()
        ctx.close(back, v, f"bounded({lo},{hi}) -> real -> bounded", rtol=1e-3, atol=1e-3)
    ctx.key("proj", k, round(lb, 2), round(ub, 2))


FAMILIES = [
    Family("setget", f_setget, 60, 1500),
    Family("extreme", f_extreme, 48, 1200),
    Family("reject", f_reject, 60, 1500),
    Family("modes", f_modes, 120, 3000, timeout=60),
    Family("own", f_own, 90, 2000),
    Family("ownall", f_ownall, 80, 1500),
    Family("forms", f_forms, 20, 400),
    Family("leafset", f_leafset, 88, 2000),
    Family("proj", f_proj, 40, 1000),
]
