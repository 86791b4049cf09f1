"""C23: squared (signed) circuits are normalised distributions with the signed semantics they declare."""
from __future__ import annotations

import copy
import itertools
import time

import numpy as np
import torch

from spmon import mon, quad, zoo
from spmon.circ import Var
from spmon.checks.c22 import Inst, Struct as _Struct, grid
from spmon.runner import Family, Skip

PID = "C23"
RULE = "distinct = distinct (structure, families, component, shape or model) configuration"
ASSUMPTIONS = ["densities are integrated exactly over discrete variables and by composite Gauss-Legendre quadrature over at most one unbounded variable",
               "samples are judged only where the number of Metropolis steps bounds the remaining bias below 1e-3 (independence sampler, acceptance bound computed exactly)"]
TRI = ["categorical", "signedcat", "normal", "bernoulli", "uniform", "geometric", "binomial", "hypergeometric", "negbin"]


def Struct(rng, **kw):
    return _Struct(rng, fixed=True, **kw)


def value(m, X):
    """Signed value of a module tree, computed here in float64 (leaf densities are observed)."""
    from spflow.modules.ops.cat import Cat
    from spflow.modules.products import Product

    n = type(m).__name__
    if n in ("Sum", "SignedSum"):
        return np.einsum("bfir,fior->bfor", value(m.inputs, X), m.weights.detach().double().numpy())
    if isinstance(m, Product):
        return value(m.inputs, X).prod(1, keepdims=True)
    if isinstance(m, Cat):
        return np.concatenate([value(c, X) for c in m.inputs], m.dim)
    if n == "SignedCategorical":
        W = m.weights.detach().double().numpy()
        return np.stack([np.moveaxis(W[f][..., X[:, v].astype(int)], -1, 0) for f, v in enumerate(m.scope.query)], 1)
    with torch.no_grad():
        return np.exp(copy.deepcopy(m).double().log_likelihood(torch.tensor(X)).numpy())


def dtype_of(m):
    return next((q.dtype for q in itertools.chain(m.parameters(), m.buffers()) if q.is_floating_point()), torch.float64)


def judge(ctx, model, comps, X, W, what, mono=None, tol=1e-5):
    """log_likelihood == log sum_i c_i^2 (m) - log Z, and integrates to one."""
    sq = sum(v ** 2 for v in comps) * (1.0 if mono is None else mono)
    Z = np.einsum("n,nfcr->fcr", W, sq)
    if Z.min() < 1e-20:
        raise Skip("vanishing function")
    from spflow.utils.cache import Cache

    c = Cache()
    with torch.no_grad():
        L = model.log_likelihood(torch.tensor(X, dtype=dtype_of(model)), cache=c if ctx.rng.random() < 0.5 else None).double().numpy()
    ctx.check(L.shape == sq.shape, f"{what}: shape {L.shape}, expected {sq.shape}")
    ctx.check(not np.isnan(L).any(), f"{what}: NaN log-likelihood")
    want = sq / Z
    ctx.close(np.einsum("n,nfcr->fcr", W, np.exp(L)), np.ones(Z.shape), f"{what}: total probability", 10 * tol, 10 * tol)
    big = want.max()
    ctx.close(np.exp(L) / big, want / big, f"{what}: density (scaled by {big:.3g})", 10 * tol, tol)
    with np.errstate(divide="ignore"):
        hi = want > 1e-6 * big
        ctx.close(L[hi], np.log(want[hi]), f"{what}: log-density", 1e-3 if tol < 1e-4 else 2e-2, 1e-3 if tol < 1e-4 else 2e-2)
    ctx.count("densities_integrated", int(Z.size))
    ctx.count("values_compared", int(L.size))
    return L


def f_density(ctx):
    """Sums of squares of compatible signed circuits, optionally times a monotone circuit."""
    from spflow.modules.sos import SOCS
    from spflow.zoo.sos import ExpSOCS

    rng = ctx.rng
    exp = rng.random() < 0.4
    st = Struct(rng, allow=TRI if exp else None)
    C, R = (1, 1) if exp else (int(rng.integers(1, 3)), int(rng.integers(1, 3)))
    k = int(rng.integers(1, 4))
    ins = [Inst(st, rng, signed=rng.random() < 0.75, C=C, R=R) for _ in range(k)]
    if k > 1 and rng.random() < 0.2:
        ins[1] = ins[0]
    mono = Inst(st, rng, signed=False, C=1, R=1) if exp else None
    ctx.key("density", str(st.tree), tuple(st.kinds), C, R, k, exp)
    ctx.note(f"{st.tree} {st.kinds} C={C} R={R} k={k} exp={exp}")
    X, W = grid(st, ins + ([mono] if exp else []))
    V = [i.ev(X) for i in ins]
    comps = [i.m for i in ins]
    model = ExpSOCS(monotone=mono.m, components=comps) if exp else SOCS(comps)
    sd = {a: b.clone() for a, b in model.state_dict().items()}
    f32 = rng.random() < 0.25
    if f32:
        model.float()
        for i, m in zip(ins, comps):
            i.m = m
    L = judge(ctx, model, V, X, W, "ExpSOCS" if exp else "SOCS", mono=mono.ev(X) if exp else None, tol=1e-4 if f32 else 1e-6)
    ctx.check(all(torch.equal(b.to(torch.float32), model.state_dict()[a].to(torch.float32)) for a, b in sd.items()), "evaluation changed parameters")
    ctx.check(list(model.scope.query) is not None and set(model.scope.query) == set(range(st.n)), "scope")
    # rows, parameters and cache uses are independent of one another
    dt = dtype_of(model)
    p = rng.permutation(len(X))[:5]
    with torch.no_grad():
        sub = model.log_likelihood(torch.tensor(X[p], dtype=dt)).double().numpy()
    hi = L[p] > np.log(1e-5) + L.max()
    ctx.close(sub[hi], L[p][hi], "row subset", 1e-4, 1e-3)
    # after changing parameters a fresh query uses the new partition function
    qs = [q for q in model.parameters() if q.requires_grad]
    signed = [m for m in model.modules() if type(m).__name__ == "SignedSum"]
    if signed and len(V) > 0 and not f32:
        with torch.no_grad():
            m = signed[int(rng.integers(len(signed)))]
            m.weights.mul_(torch.as_tensor(rng.uniform(0.5, 2.0, tuple(m.weights.shape))))
        judge(ctx, model, [i.ev(X) for i in ins], X, W, "after editing weights", mono=mono.ev(X) if exp else None, tol=1e-6)
        ctx.count("edited")
    del qs


def f_signed(ctx):
    """Signed evaluation: log of the absolute value and the sign."""
    from spflow.modules.sos.socs import _signed_eval
    from spflow.utils.cache import Cache
    from spflow.utils.signed_semiring import logabs_of, sign_of, signed_logsumexp

    rng = ctx.rng
    st = Struct(rng)
    i = Inst(st, rng, signed=True, C=int(rng.integers(1, 4)), R=int(rng.integers(1, 3)))
    X, _ = grid(st, [i])
    X = X[rng.permutation(len(X))[:60]]
    V = i.ev(X)
    ctx.key("signed", str(st.tree), tuple(st.kinds), V.shape[1:])
    c = Cache()
    for again in range(2):
        la, sg = _signed_eval(i.m, torch.tensor(X), c)
        la, sg = la.detach().numpy(), sg.numpy()
        ctx.check(la.shape == V.shape and sg.shape == V.shape, f"signed evaluation has shape {la.shape}, expected {V.shape}")
        scale = np.abs(V).max() or 1.0
        ctx.close(np.exp(la) * sg / scale, V / scale, "sign times absolute value", 1e-6, 1e-6)
        big = np.abs(V) > 1e-5 * scale
        ctx.check(np.array_equal(sg[big], np.sign(V)[big]), "sign")
        ctx.check(np.isin(sg, (-1, 0, 1)).all(), "sign is not -1, 0 or 1")
    # the semiring itself, with zeros, cancellation and wide ranges
    shape = tuple(int(x) for x in rng.integers(1, 5, int(rng.integers(1, 4))))
    d = int(rng.integers(-len(shape), len(shape)))
    v = rng.normal(0, 1, shape) * np.exp(rng.uniform(-200, 200) + rng.normal(0, rng.choice([0.0, 1.0, 20.0]), shape))
    v[rng.random(shape) < 0.2] = 0.0
    if rng.random() < 0.3:
        v = np.concatenate([v, -v * (1 - (rng.random() < 0.5) * 10.0 ** -rng.uniform(3, 10))], d)
    t = torch.tensor(v)
    keep = bool(rng.random() < 0.5)
    la, sg = signed_logsumexp(logabs_of(t), sign_of(t), dim=d, keepdim=keep)
    s = v.sum(d, keepdims=keep)
    m = np.abs(v).max(d, keepdims=keep)
    ctx.check(tuple(la.shape) == s.shape and tuple(sg.shape) == s.shape, "signed_logsumexp: shape")
    ctx.check(not torch.isnan(la).any(), f"signed_logsumexp: NaN for {v.tolist()}")
    mm = np.where(m > 0, m, 1.0)
    ctx.close(np.exp(la.numpy() - np.log(mm)) * sg.numpy(), s / mm, "signed_logsumexp", 1e-9, 1e-11)
    z = m == 0
    ctx.check(bool(np.isneginf(la.numpy()[z]).all()) and (sg.numpy()[z] == 0).all(), "signed_logsumexp of zeros is not (-inf, 0)")
    ctx.count("values_compared", int(V.size) * 2 + int(np.size(s)))


def walk_structure(ctx, m, what):
    """Decomposable products and smooth sums, by the scopes of the parts; returns the scope."""
    from spflow.modules.ops.cat import Cat
    from spflow.modules.products import Product

    n = type(m).__name__
    if n in ("Sum", "SignedSum"):
        return walk_structure(ctx, m.inputs, what)
    if isinstance(m, Product):
        return walk_structure(ctx, m.inputs, what)
    if isinstance(m, Cat):
        parts = [walk_structure(ctx, c, what) for c in m.inputs]
        if m.dim == 1:
            u = set().union(*parts)
            ctx.check(sum(map(len, parts)) == len(u), f"{what}: product over overlapping scopes {parts}")
            return u
        ctx.check(all(p == parts[0] for p in parts), f"{what}: sum over different scopes")
        return parts[0]
    return set(m.scope.query)


def f_models(ctx):
    """The ready-made (exponentiated) sum-of-squares models, over all region graphs and input layers."""
    from spflow.zoo.sos import ExpSOSModel, SOSModel

    rng = ctx.rng
    rg = str(rng.choice(["rnd-bt", "rnd-lt", "lt", "qt", "qt-2", "qt-4"]))
    layer = str(rng.choice(["categorical", "embedding", "gaussian"], p=[0.45, 0.45, 0.1]))
    if rg.startswith("qt"):
        img = tuple(int(x) for x in [(1, 2, 2), (1, 1, 3), (2, 1, 2), (1, 3, 2), (2, 2, 1), (1, 2, 3), (3, 1, 1), (1, 1, 1), (1, 5, 1)][int(rng.integers(9))])
        nv = int(np.prod(img))
    else:
        nv = int(rng.integers(1, 7))
        img = None if rng.random() < 0.7 else (1, 1, nv)
    K = 2 if nv > 4 else int(rng.integers(2, 4))
    if layer == "gaussian" and nv > 2:
        layer = "embedding"
    kw = dict(num_input_units=int(rng.integers(1, 4)), num_sum_units=int(rng.integers(1, 4)), input_layer=layer, region_graph=rg, complex=bool(rng.random() < 0.3),
              structured_decomposable=bool(rng.random() < 0.5), seed=int(rng.integers(0, 1000)))
    if layer != "gaussian":
        kw["input_layer_kwargs"] = {"num_categories" if layer == "categorical" else "num_states": K}
    if rng.random() < 0.4:
        kw["non_monotonic_inputs"] = bool(rng.random() < 0.5)
    exp = rng.random() < 0.45
    if exp:
        kw["mono_num_input_units"], kw["mono_num_sum_units"] = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    else:
        kw["num_squares"] = int(rng.integers(1, 4))
    ctx.note(f"{'Exp' if exp else ''}SOS nv={nv} img={img} {kw}")
    ctx.key("models", exp, nv, img, str(kw))
    make = lambda: (ExpSOSModel if exp else SOSModel)(nv, img, **kw)  # noqa: E731
    torch.manual_seed(5)
    units = [kw["num_input_units"], kw["num_sum_units"]], [kw.get("mono_num_input_units"), kw.get("mono_num_sum_units")]
    try:
        model = make()
    except ValueError as e:
        # unbalanced trees multiply inputs with sums and need as many input as sum units
        if "same number of channels" in str(e) and any(a != b for a, b in units):
            ctx.count("rejected")
            raise Skip("unbalanced tree with different numbers of input and sum units") from None
        raise
    torch.manual_seed(5)
    twin = make()
    ctx.check(all(torch.equal(a, b) for a, b in zip(model.state_dict().values(), twin.state_dict().values())), "the same seeds gave different models")
    comps = model.components
    ctx.check(len(comps) == (kw.get("num_squares", 1)) * (2 if kw["complex"] else 1), f"{len(comps)} components")
    for c in comps + ([model.monotone] if exp else []):
        ctx.check(walk_structure(ctx, c, "component") == set(range(nv)), "a component does not cover all variables")
    model.double()
    with torch.no_grad():
        for m in model.modules():
            if type(m).__name__ == "Normal":
                m.loc.copy_(torch.as_tensor(rng.normal(0, 1, tuple(m.loc.shape))))
                m.scale = torch.as_tensor(rng.uniform(0.5, 1.5, tuple(m.scale.shape)))
            if type(m).__name__ in ("SignedSum", "SignedCategorical") and rng.random() < 0.7:
                m.weights.copy_(torch.as_tensor(rng.normal(0, 1, tuple(m.weights.shape))))
    if layer == "gaussian":
        x = quad.rule("normal", [{"loc": np.array([-4.0, 4.0]), "scale": np.array([0.6])}])
        xs, ws = x if nv == 1 else quad.pieces(np.linspace(-9, 9, 25))
    else:
        xs, ws = np.arange(float(K)), np.ones(K)
    X = np.array(list(itertools.product(xs, repeat=nv)))
    W = np.array([np.prod(t) for t in itertools.product(ws, repeat=nv)])
    judge(ctx, model, [value(c, X) for c in comps], X, W, f"{'ExpSOS' if exp else 'SOS'} model {rg}/{layer}", mono=value(model.monotone, X) if exp else None, tol=1e-6)


def f_build(ctx):
    """build_socs, complex pairs and absolute-weight proposals."""
    from spflow.learn.build_socs import build_abs_weight_proposal, build_complex_socs, build_socs

    rng = ctx.rng
    st = Struct(rng, signed=False)
    tpl = Inst(st, rng, signed=False, C=int(rng.integers(1, 3)), R=int(rng.integers(1, 3)))
    X, W = grid(st, [tpl])
    kw = dict(num_components=int(rng.integers(1, 4)), signed=bool(rng.random() < 0.8), noise_scale=float(rng.choice([0.0, 0.05, 0.5])), flip_prob=float(rng.choice([0.0, 0.5, 1.0])))
    seed = int(rng.integers(1000)) if rng.random() < 0.6 else None
    ctx.key("build", str(st.tree), tuple(st.kinds), str(kw), seed is None)
    ctx.note(f"{st.tree} {st.kinds} {kw} seed={seed}")
    before = {k: v.clone() for k, v in tpl.m.state_dict().items()}
    T = tpl.ev(X)
    model = build_socs(tpl.m, seed=seed, **kw)
    ctx.check(all(torch.equal(v, tpl.m.state_dict()[k]) for k, v in before.items()), "build_socs changed the template")
    own = {t.untyped_storage().data_ptr() for t in list(tpl.m.parameters()) + list(tpl.m.buffers())}
    ctx.check(not own & {t.untyped_storage().data_ptr() for t in model.parameters()}, "build_socs shares parameters with the template")
    ctx.check(len(model.components) == kw["num_components"], "number of components")
    V = [value(c, X) for c in model.components]
    judge(ctx, model, V, X, W, "build_socs", tol=1e-6)
    if not kw["signed"] or (kw["noise_scale"] == 0 and kw["flip_prob"] == 0):
        for v in V:
            ctx.close(v, T, "a component without flips and noise is the template", 1e-6, 1e-9)
    if seed is not None:
        again = build_socs(tpl.m, seed=seed, **kw)
        ctx.check(all(torch.equal(a, b) for a, b in zip(model.state_dict().values(), again.state_dict().values())), "the same seed gave different components")
    if kw["signed"] and kw["num_components"] > 1 and kw["noise_scale"] > 0 and any(type(m).__name__ == "Sum" for m in tpl.m.modules()):
        ctx.check(not np.allclose(V[0], V[1]), "components are identical")
    # proposal: the same circuit with normalised absolute weights
    comp = Inst(Struct(rng), rng, signed=True, C=1, R=1)
    cst = comp.st
    Y, WY = grid(cst, [comp])
    keep = {k: v.clone() for k, v in comp.m.state_dict().items()}
    prop = build_abs_weight_proposal(comp.m)
    ctx.check(all(torch.equal(v, comp.m.state_dict()[k]) for k, v in keep.items()), "the proposal changed its component")
    ctx.check(not any(type(m).__name__ in ("SignedSum", "SignedCategorical") for m in prop.modules()), "signed parts left in the proposal")

    def absval(m):
        n = type(m).__name__
        if n in ("Sum", "SignedSum"):
            w = np.abs(m.weights.detach().double().numpy()) + 1e-8  # all-zero weights become uniform, as documented
            return np.einsum("bfir,fior->bfor", absval(m.inputs), w / w.sum(1, keepdims=True))
        if n == "Product":
            return absval(m.inputs).prod(1, keepdims=True)
        if n == "Cat":
            return np.concatenate([absval(c) for c in m.inputs], m.dim)
        if n == "SignedCategorical":
            w = np.abs(m.weights.detach().double().numpy()) + 1e-8
            w = w / w.sum(-1, keepdims=True)
            return np.stack([np.moveaxis(w[f][..., Y[:, v].astype(int)], -1, 0) for f, v in enumerate(m.scope.query)], 1)
        return value(m, Y)
    want = absval(comp.m)
    with torch.no_grad():
        dt = [p.dtype for p in prop.parameters()]
        got = np.exp(prop.double().log_likelihood(torch.tensor(Y)).numpy())
    del dt
    ctx.close(got / want.max(), want / want.max(), "density of the absolute-weight proposal", 1e-4, 1e-5)
    # complex pairs
    a, b = (Inst(st, rng, signed=True, C=1, R=1) for _ in range(2))
    X2, W2 = grid(st, [a, b])
    judge(ctx, build_complex_socs(a.m, b.m), [a.ev(X2), b.ev(X2)], X2, W2, "complex pair", tol=1e-6)


def f_sample(ctx):
    """Samples of scalar sum-of-squares models follow the squared density."""
    from spflow.modules.sos import SOCS
    from spflow.learn.build_socs import build_abs_weight_proposal
    from spflow.utils.cache import Cache

    rng = ctx.rng
    st = Struct(rng, allow=["bernoulli", "categorical", "binomial", "hypergeometric", "signedcat"], nmax=3)
    st.kinds = [k if k in ("bernoulli", "categorical", "binomial", "signedcat") else "bernoulli" for k in st.kinds]
    k = int(rng.integers(1, 4))
    ins = [Inst(st, rng, signed=rng.random() < 0.75) for _ in range(k)]
    for i in ins:
        i.m.float()
    X, W = grid(st, ins)
    V = [i.ev(X)[:, 0, 0, 0] for i in ins]
    Z = [float((v ** 2).sum()) for v in V]
    if min(Z) < 1e-12:
        raise Skip("vanishing component")
    comps = [i.m for i in ins]
    model = SOCS(comps)
    burn, steps = int(rng.integers(5, 25)), int(rng.integers(30, 80))
    bias = 0.0
    for m, v, z in zip(comps, V, Z):
        q = np.exp(mon.ll(build_abs_weight_proposal(m), X)[:, 0, 0, 0].astype(float))
        t = v ** 2 / z
        M = np.max(t / np.maximum(q, 1e-300))
        bias = max(bias, (1 - 1 / max(M, 1.0)) ** (burn + steps))
    if bias > 1e-3:
        raise Skip("chain too short for a verdict")
    p = sum(v ** 2 for v in V) / sum(Z)
    ctx.key("sample", str(st.tree), tuple(st.kinds), k)
    ctx.note(f"{st.tree} {st.kinds} k={k} bias<{bias:.2g}")
    N = 4000
    c = Cache()
    c.extras["socs_mcmc_steps"], c.extras["socs_mcmc_burn_in"] = steps, burn
    torch.manual_seed(int(rng.integers(1 << 30)))
    S = model.sample(num_samples=N, cache=c).detach().double().numpy()
    ctx.check(S.shape == (N, st.n) and np.isfinite(S).all(), f"samples of shape {S.shape}")
    cells = {tuple(r): i for i, r in enumerate(X.tolist())}
    try:
        cnt = np.bincount([cells[tuple(r)] for r in S.tolist()], minlength=len(X))
    except KeyError as e:
        ctx.fail(f"sample {e} outside the domain")
    ctx.check(cnt[p < 1e-13].sum() <= 4000 * 2e-3, "samples of probability zero")
    # total variation with a bound that allows for the remaining bias
    tv = 0.5 * np.abs(cnt / N - p).sum()
    lim = 0.5 * np.sqrt(p * (1 - p) / N).sum() * np.sqrt(2 / np.pi) + np.sqrt(np.log(1e10) / (2 * N)) + bias
    ctx.check(tv <= lim, f"samples deviate from the squared density: total variation {tv:.4f} > {lim:.4f}; p={np.round(p, 3).tolist()} freq={np.round(cnt / N, 3).tolist()}")
    ctx.count("samples_judged", N)
    for bad in ("mpe", "evidence"):
        try:
            if bad == "mpe":
                model.mpe(torch.full((2, st.n), float("nan")))
            else:
                e = torch.full((2, st.n), float("nan"))
                e[0, 0] = 0.0
                model.sample(data=e)
        except Exception:  # noqa: BLE001
            ctx.count("rejected")
        else:
            ctx.fail(f"{bad} query answered although it is not supported")


def f_grad(ctx):
    """Derivatives of the normalised log-likelihood (maximum-likelihood training)."""
    from spflow.modules.sos import SOCS
    from spflow.zoo.sos import ExpSOCS

    rng = ctx.rng
    exp = rng.random() < 0.35
    st = Struct(rng, allow=[k for k in (TRI if exp else None or ["normal", "bernoulli", "categorical", "signedcat", "laplace", "gamma", "poisson", "exponential", "lognormal", "geometric", "negbin"]) if k != "uniform"])
    k = int(rng.integers(1, 3))
    ins = [Inst(st, rng, signed=True) for _ in range(k)]
    mono = Inst(st, rng, signed=False) if exp else None
    model = ExpSOCS(monotone=mono.m, components=[i.m for i in ins]) if exp else SOCS([i.m for i in ins])
    X, W = grid(st, ins + ([mono] if exp else []))
    sq = sum(i.ev(X)[:, 0, 0, 0] ** 2 for i in ins)
    ok = (sq > 1e-3 * sq.max()) & np.isfinite(sq)
    for m in model.modules():
        if type(m).__name__ == "Laplace":  # no derivative at the location
            d = X[:, np.asarray(m.scope.query)][:, :, None] - m.loc.detach().numpy().reshape(1, len(m.scope.query), -1)
            ok &= (np.abs(d) > 1e-3).all((1, 2))
    good = np.flatnonzero(ok)
    if not len(good) or sq.max() <= 0:
        raise Skip("vanishing function")
    x = torch.tensor(X[rng.choice(good, 4)])
    ctx.key("grad", str(st.tree), tuple(st.kinds), k, exp)
    ctx.note(f"{st.tree} {st.kinds} k={k} exp={exp}")
    f = lambda: model.log_likelihood(x).sum()  # noqa: E731
    ps = [q for q in model.parameters() if q.requires_grad]
    if not ps:
        raise Skip("no parameters")
    gs = torch.autograd.grad(f(), ps, allow_unused=True)
    # a signed node that is exactly zero has no logarithm to differentiate: derivatives only have to be finite there
    from spflow.utils.cache import Cache

    c = Cache()
    model.log_likelihood(x, cache=c)
    seen = [c.get("signed_logabs_and_sign", m) for m in model.modules() if type(m).__name__ == "SignedSum"]
    null = any(v is not None and bool(torch.isneginf(v[0]).any()) for v in seen)
    sw = {id(m.weights) for m in model.modules() if type(m).__name__ in ("SignedSum",)}
    t0 = time.monotonic()
    for q, g in sorted(zip(ps, gs), key=lambda _: rng.random()):
        g = torch.zeros_like(q) if g is None else g
        ctx.check(bool(torch.isfinite(g).all()), "derivative of the log-likelihood is not finite")
        for n in rng.choice(q.numel(), size=min(2, q.numel()), replace=False):
            if time.monotonic() - t0 > 15:
                break
            i = np.unravel_index(int(n), tuple(q.shape))
            d = []
            for h in (1e-5, 5e-6):
                old = float(q.data[i])
                q.data[i] = old + h
                up = float(f())
                q.data[i] = old - h
                dn = float(f())
                q.data[i] = old
                d.append((up - dn) / (2 * h))
            if null or (abs(old) < 1e-4 and id(q) not in sw) or abs(d[0] - d[1]) > 1e-4 * (1 + abs(d[0])):
                continue
            ctx.close(float(g[i]), d[0], "derivative of the log-likelihood", 5e-4, 1e-4)
            ctx.count("derivatives")


def _nan_model(rng):
    from spflow.meta.data.scope import Scope
    from spflow.modules.leaves import Bernoulli
    from spflow.modules.products import Product
    from spflow.modules.sums.signed_sum import SignedSum

    k = lambda: Product([Bernoulli(scope=Scope([v]), probs=torch.as_tensor(rng.uniform(0.1, 0.9, (1, 2, 1)), dtype=torch.float32)) for v in (0, 1)])  # noqa: E731
    return [SignedSum(inputs=k(), out_channels=1, weights=torch.tensor([1.0, -0.7]).reshape(1, 2, 1, 1)) for _ in range(2)]


def probe_missing(ctx):
    """Recorded finding: missing entries are not integrated out of the squared function."""
    from spflow.modules.sos import SOCS

    model = SOCS(_nan_model(np.random.default_rng(1)))
    full = np.exp(mon.ll(model, np.array(list(itertools.product([0, 1.0], repeat=2)))))[:, 0, 0, 0]
    got = np.exp(mon.ll(model, np.array([[0.0, np.nan]])))[0, 0, 0, 0]
    ctx.check(abs(got - full[:2].sum()) < 1e-4, f"probability of x0=0 with x1 missing is {got}, the sum over x1 is {full[:2].sum()}", mech="socs-missing-evidence")


def probe_marginalize(ctx):
    """Recorded finding: marginalize() squares the marginals of the components."""
    from spflow.meta.data.scope import Scope
    from spflow.modules.leaves import Bernoulli
    from spflow.modules.products import Product
    from spflow.modules.sos import SOCS
    from spflow.modules.sums import Sum

    k = lambda a, b: Product([Bernoulli(scope=Scope([v]), probs=torch.tensor([a, b]).reshape(1, 2, 1)) for v in (0, 1)])  # noqa: E731
    model = SOCS([Sum(inputs=k(0.2, 0.9), weights=torch.tensor([0.5, 0.5]).reshape(1, 2, 1, 1))])
    full = np.exp(mon.ll(model, np.array(list(itertools.product([0, 1.0], repeat=2)))))[:, 0, 0, 0]
    m = model.marginalize([1])
    got = np.exp(mon.ll(m, np.array([[0.0, 0.0]])))[0, 0, 0, 0]
    ctx.check(abs(got - full[:2].sum()) < 1e-4, f"marginalize([1]): probability of x0=0 is {got}, the sum over x1 is {full[:2].sum()}", mech="socs-marginalize")


def wide_model(rng, n, target):
    """Signed mixture of two fully factorised functions of n variables whose square integrates to about e^target."""
    from spflow.meta.data.scope import Scope
    from spflow.modules.products import Product
    from spflow.modules.sums.signed_sum import SignedSum
    from spflow.zoo.sos import SignedCategorical

    K = int(rng.integers(2, 4))
    W = rng.normal(0, 1, (n, 2, 1, K))
    for c in (0, 1):
        lz = np.log((W[:, c, 0] ** 2).sum(-1)).sum()
        W[:, c] *= np.exp((target - lz) / (2 * n))
    W = W.astype(np.float32)
    u = rng.choice([-1.0, 1.0], 2) * rng.uniform(0.3, 1.5, 2)
    u = u.astype(np.float32)
    leaf = SignedCategorical(scope=Scope(list(range(n))), out_channels=2, weights=torch.tensor(W))
    m = SignedSum(inputs=Product(leaf), out_channels=1, weights=torch.tensor(u).reshape(1, 2, 1, 1))
    return m, W.astype(float)[:, :, 0], u.astype(float), K


def _slog(terms):
    """log|.| and sign of a sum of products given as lists of factors."""
    logs = np.array([np.log(np.abs(f)).sum() for f in terms])
    sg = np.array([np.prod(np.sign(f)) for f in terms])
    top = logs.max()
    v = (sg * np.exp(logs - top)).sum()
    return top + np.log(abs(v)), np.sign(v)


def f_wide(ctx):
    """Many variables: the partition function is far outside single precision, the density is still normalised."""
    from spflow.meta.data.scope import Scope
    from spflow.modules.leaves import Categorical
    from spflow.modules.products import Product
    from spflow.modules.sos import SOCS
    from spflow.utils.inner_product import log_self_inner_product_scalar
    from spflow.modules.sums import Sum
    from spflow.zoo.sos.exp_socs import ExpSOCS

    rng = ctx.rng
    n = int(rng.integers(20, 400))
    target = float(rng.uniform(-600, 600))
    m, W, u, K = wide_model(rng, n, target)
    exp = rng.random() < 0.4
    P = rng.dirichlet(np.ones(K), n).astype(np.float32)
    P = (P / P.sum(-1, keepdims=True)).astype(np.float32)
    ctx.note(f"n={n} K={K} log Z about {target:.0f} exp={exp}")
    ctx.key("wide", n, K, round(target), exp)
    Q = P.astype(float) if exp else np.ones((n, K))
    lz, sz = _slog([np.concatenate([[u[i] * u[j]], (W[:, i] * W[:, j] * Q).sum(-1)]) for i in (0, 1) for j in (0, 1)])
    if not exp and sz > 0 and abs(lz) < 690:
        with torch.no_grad():
            ctx.close(float(log_self_inner_product_scalar(m)), lz, "log of the self inner product", 1e-5, 1e-3)
    model = ExpSOCS(monotone=Sum(inputs=Product(Categorical(scope=Scope(list(range(n))), out_channels=1, probs=torch.tensor(P).reshape(n, 1, 1, K))), weights=torch.ones(1, 1, 1, 1)), components=[m]) if exp else SOCS([m])
    if exp:
        lz2 = lz
        if abs(lz2) > 690:
            raise Skip("partition function outside double precision (recorded)")
    elif abs(lz) > 690:
        raise Skip("partition function outside double precision (recorded)")
    X = rng.integers(0, K, (5, n))
    with torch.no_grad():
        L = model.log_likelihood(torch.tensor(X, dtype=torch.float32)).double().numpy().reshape(-1)
    for x, got in zip(X, L):
        k = np.arange(n)
        lc, _ = _slog([np.concatenate([[u[i]], W[k, i, x]]) for i in (0, 1)])
        want = 2 * lc + (np.log(Q[k, x]).sum() if exp else 0.0) - lz
        ctx.close(got, want, f"log-density over {n} variables (log Z = {lz:.1f})", 1e-4, 5e-2)
        ctx.count("wide_densities")


def probe_range(ctx):
    """Recorded finding: the partition function is held in linear double precision."""
    from spflow.meta.data.scope import Scope
    from spflow.modules.leaves import Categorical
    from spflow.modules.products import Product
    from spflow.modules.sos import SOCS

    n = 1200
    m = SOCS([Product(Categorical(scope=Scope(list(range(n))), out_channels=1, probs=torch.full((n, 1, 1, 2), 0.5)))])
    got = mon.ll(m, np.zeros((1, n)))[0, 0, 0, 0]
    ctx.check(abs(got + n * np.log(2)) < 0.1, f"log-probability of one of 2^{n} equally likely states is {got}, not {-n * np.log(2)}", mech="socs-partition-range")


def f_nonneg(ctx):
    """A signed sum whose weights are a mixture's draws samples like the mixture, wherever in a circuit it stands."""
    from spflow.modules.ops.split import SplitMode
    from spflow.modules.products import ElementwiseProduct, OuterProduct, Product
    from spflow.modules.sums import Sum
    from spflow.modules.sums.signed_sum import SignedSum

    rng = ctx.rng
    n = int(rng.choice([2, 4]))
    v = zoo.dvar(rng)
    vs = [Var(v.kind, v.K, v.total)] * n
    C, O = int(rng.integers(2, 4)), int(rng.integers(2, 4))
    seed = int(rng.integers(1 << 30))
    shape = int(rng.integers(4))
    outer = bool(rng.random() < 0.7)
    mode = "consecutive" if rng.random() < 0.5 else "interleaved"

    def build(signed):
        g = np.random.default_rng(seed)
        w = lambda *s: torch.tensor(g.dirichlet(np.ones(s[1]) * 0.7, size=(s[0], s[2])).transpose(0, 2, 1)[..., None], dtype=torch.float32)
        mix = lambda x, F, ci, co, sg=signed: (SignedSum(inputs=x, out_channels=co, weights=w(F, ci, co)) if sg else Sum(inputs=x, weights=w(F, ci, co)))
        leaf = zoo.group_leaves(g, vs, C, 1)[0]
        x = mix(leaf, n, C, O)
        F, ch = n, O
        if shape >= 1:  # a product layer hands each variable its own channel
            x = (OuterProduct if outer else ElementwiseProduct)(x, num_splits=2, split_mode=getattr(SplitMode, mode)(2))
            F, ch = n // 2, (O * O if outer else O)
        if shape >= 2 and F > 1:
            x = mix(x, F, ch, O)
            ch = O
        if F > 1:
            x = Product(inputs=x)
        return mix(x, 1, ch, 1, sg=signed and shape != 3)

    m, ref = build(True), build(False)
    ctx.note(f"{v.kind} n={n} C={C} O={O} shape={shape} outer={outer} {mode}")
    ctx.key("nonneg", n, v.kind, C, O, shape, outer, mode)
    D, L = mon.table(ref, vs)
    mon.check_samples(ctx, m, vs, N=2500, what="circuit with non-negative signed sums", D=D, p=np.exp(L[:, 0, 0, 0]))
    ctx.count("sampled circuits with non-negative signed sums")


FAMILIES = [
    Family("nonneg", f_nonneg, 40, 1200, timeout=60),
    Family("density", f_density, 70, 3000, timeout=60),
    Family("signed", f_signed, 60, 3000, timeout=60),
    Family("models", f_models, 45, 1500, timeout=60),
    Family("build", f_build, 40, 1500, timeout=60),
    Family("sample", f_sample, 22, 500, timeout=90),
    Family("grad", f_grad, 35, 1500, timeout=60),
    Family("wide", f_wide, 40, 1500, timeout=60),
    Family("probe_range", probe_range, 1, 1, probe=True),
    Family("probe_missing", probe_missing, 1, 1, probe=True),
    Family("probe_marginalize", probe_marginalize, 1, 1, probe=True),
]
