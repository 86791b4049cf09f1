"""C37: changing the units of the variables changes densities by the Jacobian only - at any magnitude, in every answer."""
import copy

import numpy as np
import torch

from spmon import circ, leafref as lr, mon, zoo
from spmon.checks import common
from spmon.circ import Var
from spmon.runner import Family, Skip

PID = "C37"
RULE = "distinct = distinct (model configuration, unit factors) for which original and rescaled model were compared"
ASSUMPTIONS = ["units are powers of two, so that rescaling the data is exact in floating point", "factors keep squares of scales inside the floating-point range (2^-50..2^50 in single, 2^-400..2^400 in double precision)",
               "training is compared for factors 2^-112..2^112 (estimation), 2^-96..2^96 (EM), both in double precision, and 2^-14..2^14 (structure learning)"]
CONT = ["normal", "laplace", "exponential", "gamma", "lognormal"]
SMOOTH = ["normal", "laplace", "exponential", "lognormal"]


def rescale(m, a):
    """Copy of ``m`` whose variable v is measured in units of 1/a[v]."""
    m = copy.deepcopy(m)
    seen = set()
    with torch.no_grad():
        for q in m.modules():
            n = type(q).__name__
            if n not in ("Normal", "Laplace", "Exponential", "Gamma", "LogNormal", "Uniform") or id(q) in seen:
                continue
            seen.add(id(q))
            d = next(q.parameters()).dtype if list(q.parameters()) else torch.get_default_dtype()
            f = torch.tensor([float(a[v]) for v in q.scope.query], dtype=d).reshape(-1, 1, 1)
            if n in ("Normal", "Laplace"):
                q.loc.data = q.loc.data * f
                q.scale = q.scale * f
            elif n in ("Exponential", "Gamma"):
                q.rate = q.rate / f
            elif n == "LogNormal":
                q.loc.data = q.loc.data + f.log()
    return m


def factors(rng, vs, big, same=False, double=False):
    """Powers of two for the continuous variables, 1 for the others."""
    e = big * (8 if double else 1)
    one = float(2.0 ** rng.integers(-e, e + 1))
    mode = rng.random()
    out = []
    for v in vs:
        if v.kind not in CONT:
            out.append(1.0)
        elif same:
            out.append(one)
        elif mode < 0.35:
            out.append(float(2.0 ** e))
        elif mode < 0.7:
            out.append(float(2.0 ** -e))
        else:
            out.append(float(2.0 ** rng.integers(-e, e + 1)))
    return np.array(out)


def variables(rng, n):
    r = rng.random()
    if r < 0.4:
        k = SMOOTH[rng.integers(len(SMOOTH))]
        return [Var(k) for _ in range(n)]
    pool = CONT + (["bernoulli", "categorical"] if r > 0.7 else [])
    out = []
    for _ in range(n):
        k = pool[rng.integers(len(pool))]
        out.append(Var(k, K=2 if k == "categorical" else None))
    return out


def architecture(ctx, classes=None, n=None):
    """RAT-SPN, Einet, ConvPC, naive Bayes over variables with units."""
    from spflow.zoo.conv import ConvPc
    from spflow.zoo.einet import Einet
    from spflow.zoo.naive_bayes import NaiveBayes
    from spflow.zoo.rat import RatSPN

    rng = ctx.rng
    kind = str(rng.choice(["rat", "einet", "convpc", "bayes"]))
    n = n or int(rng.choice([4, 6, 9, 24, 48]))
    cls = classes or int(rng.integers(1, 4))
    R, C = int(rng.integers(1, 3)), int(rng.integers(1, 4))
    vs = variables(rng, n)
    if kind == "rat":
        depth = int(rng.integers(1, min(3, int(np.log2(n))) + 1))
        m = RatSPN(leaf_modules=zoo.group_leaves(rng, vs, C, R), n_root_nodes=cls, n_region_nodes=int(rng.integers(1, 4)), num_repetitions=R, depth=depth,
                   outer_product=bool(rng.random() < 0.4))
    elif kind == "einet":
        depth = int(rng.integers(0, min(3, int(np.log2(n))) + 1))
        m = Einet(leaf_modules=zoo.group_leaves(rng, vs, C, R), num_classes=cls, num_sums=int(rng.integers(1, 4)), num_leaves=C, depth=depth, num_repetitions=R,
                  layer_type="einsum" if rng.random() < 0.5 else "linsum", structure="top-down" if rng.random() < 0.6 else "bottom-up")
    elif kind == "convpc":
        side = int(rng.choice([2, 4]))
        v = Var(SMOOTH[rng.integers(len(SMOOTH))])
        vs = [Var(v.kind) for _ in range(side * side)]
        cls = 1
        m = ConvPc(leaf=zoo.group_leaves(rng, vs, C, 1)[0], input_height=side, input_width=side, channels=int(rng.integers(1, 4)),
                   depth=int(rng.integers(1, int(np.log2(side)) + 1)), kernel_size=2, use_sum_conv=bool(rng.random() < 0.5))
    else:
        m = NaiveBayes(zoo.group_leaves(rng, vs, cls, 1), num_classes=cls)
    if kind != "bayes":
        zoo.scramble_weights(m, rng)
    ctx.note(f"{kind} n={len(vs)} classes={cls} R={R} C={C} {[v.kind for v in vs][:6]}")
    ctx.count("models:" + kind)
    return m, vs, kind, cls


def some_model(ctx):
    rng = ctx.rng
    if rng.random() < 0.5:
        node, vs = circ.random_circuit(rng, n=int(rng.integers(1, 7)), families=CONT + (["bernoulli"] if rng.random() < 0.4 else []), sampleable=True)
        ctx.note(f"vars={vs} {node.describe()[:300]}")
        ctx.count("models:circuit")
        return node.build(), vs, "circuit:" + str(node.sig()), 1
    return architecture(ctx)


def pair(ctx, m, vs, big=50, same=False, double=None):
    rng = ctx.rng
    double = bool(rng.random() < 0.3) if double is None else double
    if double:
        m = m.double()
    a = factors(rng, vs, big, same, double)
    ctx.note(f"units 2^{np.log2(a).astype(int).tolist()[:8]} {'double' if double else 'single'}")
    return m, rescale(m, a), a


def T(m, X):
    return torch.tensor(X, dtype=next(m.parameters()).dtype)


def LL(m, X):
    with torch.no_grad():
        return m.log_likelihood(T(m, X)).double().numpy()


def rows(rng, vs, n, missing=0.0):
    return circ.rand_data(rng, vs, n, missing=missing).astype(np.float32).astype(float)


def jac(X, a):
    return (~np.isnan(X) * np.log(a)[None]).sum(1)


def compare(ctx, got, want, what, scale=1.0):
    big = np.abs(want[np.isfinite(want)]).max(initial=1.0)
    ctx.close(got, want, what, 2e-5 * scale, max(1e-3, 3e-6 * big) * scale)


def f_density(ctx):
    """Densities, posteriors and gradients."""
    rng = ctx.rng
    m, vs, sig, cls = some_model(ctx)
    m, q, a = pair(ctx, m, vs)
    X = rows(rng, vs, 8, missing=0.25)
    X[0] = np.nan
    L, M = LL(m, X), LL(q, X * a)
    if not np.isfinite(L).all():
        raise Skip("data outside the support")
    J = jac(X, a).reshape(-1, *[1] * (L.ndim - 1))
    extra = 1.0 + np.abs(J).max() / 500
    compare(ctx, M, L - J, f"{sig}: log-density in other units", extra)
    ctx.count("densities", len(X))
    ctx.count("decades spanned", int(np.abs(J).max() / np.log(10)))
    ctx.key(sig, a.tolist())
    if cls > 1 and hasattr(m, "predict_proba"):
        try:
            with torch.no_grad():
                p0, p1 = m.predict_proba(T(m, X)).double().numpy(), q.predict_proba(T(q, X * a)).double().numpy()
        except NotImplementedError:
            p0 = None
        if p0 is not None:
            ctx.check(np.isfinite(p1).all(), f"{sig}: class posterior in other units is {p1.tolist()}")
            ctx.close(p1, p0, f"{sig}: class posterior in other units", 5e-3 * extra, 2e-3 * extra)
            ctx.count("posteriors", len(X))
    # gradients: of the mixture weights unchanged, of the data divided by the unit
    X = rows(rng, vs, 4)
    if not np.isfinite(LL(m, X)).all():
        return
    gs = []
    for k, Y in ((m, X), (q, X * a)):
        k.zero_grad()
        y = T(k, Y).requires_grad_(True)
        k.log_likelihood(y).sum().backward()
        gs.append((None if y.grad is None else y.grad.double().numpy(), {n: p.grad.double().numpy() for n, p in k.named_parameters() if n.endswith("logits") and p.grad is not None}))
    (g0, w0), (g1, w1) = gs
    ctx.check(sorted(w0) == sorted(w1), "gradients of different parameters")
    for n in w0:
        if "probs" in n or w0[n].size == 0:
            continue
        ctx.check(np.isfinite(w1[n]).all(), f"{sig}: gradient of {n} in other units is not finite")
        ctx.close(w1[n], w0[n], f"{sig}: gradient of {n} in other units", 5e-3 * extra, 3e-3 * extra * max(1.0, np.abs(w0[n]).max()))
        ctx.count("weight gradients", w0[n].size)
    if g0 is not None and np.isfinite(g0).all() and sum(v.kind in CONT for v in vs):
        ok = np.array([v.kind in CONT for v in vs])
        ctx.close((g1 * a)[:, ok], g0[:, ok], f"{sig}: gradient of the data in other units", 5e-3 * extra, 3e-3 * extra * max(1.0, np.abs(g0).max()))


def f_sampling(ctx):
    """Samples, conditional samples and most probable completions from the same random numbers."""
    rng = ctx.rng
    m, vs, sig, cls = some_model(ctx)
    if cls > 1:
        raise Skip("one root is sampled")
    m, q, a = pair(ctx, m, vs)
    n = 60
    E = rows(rng, vs, n, missing=0.5)
    if not np.isfinite(LL(m, E)).all():
        raise Skip("data outside the support")
    blank = np.full((n, len(vs)), np.nan)  # a table of the model's own precision
    ops = {"sample": lambda k, s: k.sample(data=T(k, blank)), "sample with evidence": lambda k, s: k.sample_with_evidence(T(k, E * s)), "mpe": lambda k, s: k.mpe(data=T(k, E * s)),
           "mpe without evidence": lambda k, s: k.mpe(data=T(k, blank[:2]))}
    for what, f in ops.items():
        out = []
        for k, s in ((m, 1.0), (q, a)):
            torch.manual_seed(ctx.sub % 65536)
            with torch.no_grad():
                out.append(f(k, s).double().numpy() / s)
        x, y = out
        ctx.check(np.isfinite(y).all(), f"{sig}: {what} in other units is not finite")
        tol = 2e-3 * np.maximum(np.abs(x), 1.0)
        off = (np.abs(x - y) > tol).any(1)
        ctx.check(off.sum() <= max(1, 0.05 * len(x)), f"{sig}: {what} in other units: {int(off.sum())}/{len(x)} rows differ, first {x[off][:1].tolist()} against {y[off][:1].tolist()} (back in the old units)")
        ctx.count("rows:" + what, len(x))
    ctx.key(sig, a.tolist())


def f_interval(ctx):
    """Probabilities of boxes are unit-free."""
    from spflow.meta.data.interval_evidence import IntervalEvidence

    rng = ctx.rng
    node, vs = circ.random_circuit(rng, n=int(rng.integers(1, 5)), families=["normal", "laplace", "exponential", "lognormal"])
    ctx.note(node.describe()[:300])
    m, q, a = pair(ctx, node.build(), vs)
    X = rows(rng, vs, 6)
    w = rng.uniform(0.3, 2.0, X.shape)
    lo, hi = (X - w * 0.5).astype(np.float32).astype(float), (X + w).astype(np.float32).astype(float)
    pos = np.array([v.kind in ("exponential", "lognormal", "gamma") for v in vs])
    lo[:, pos] = np.maximum(lo[:, pos], 0.01)
    hi[:, pos] = np.maximum(hi[:, pos], 0.3)
    lo[rng.random(X.shape) < 0.2] = np.nan
    try:
        with torch.no_grad():
            A = m.log_likelihood(IntervalEvidence(T(m, lo), T(m, hi))).double().numpy()
            B = q.log_likelihood(IntervalEvidence(T(q, lo * a), T(q, hi * a))).double().numpy()
    except NotImplementedError:
        raise Skip("no interval evidence for a leaf family")
    if (A < -15).any():
        raise Skip("empty box")
    ctx.close(B, A, "log-probability of a box in other units", 1e-3, 3e-3)
    ctx.count("boxes", len(X))
    ctx.key(node.sig(), a.tolist())


def params(m):
    out = []
    for k in m.modules():
        n = type(k).__name__
        if n in ("Normal", "Laplace", "Exponential", "Gamma", "LogNormal"):
            out += [(n + "." + p, v.detach().double().numpy()) for p, v in sorted(k.params().items())]
        elif torch.is_tensor(getattr(k, "logits", None)) and hasattr(k, "weights"):
            out.append((n + ".weights", k.weights.detach().double().numpy()))
    return out


def f_training(ctx):
    """Estimation, EM and learning commute with the change of units."""
    from spflow.learn import expectation_maximization, learn_spn
    from spflow.modules.leaves import Normal

    rng = ctx.rng
    kind = str(rng.choice(["leaf", "em", "em", "learn"]))
    if kind == "leaf":
        vs = [Var(CONT[rng.integers(len(CONT))])] * int(rng.integers(1, 4))
        m = zoo.group_leaves(rng, vs, int(rng.integers(1, 3)), 1)[0]
        X = rows(rng, vs, 80)
        m, q, a = pair(ctx, m, vs, 14, double=True)
        W = torch.tensor(rng.uniform(0.1, 1.0, (len(X), *m.out_shape[:0], m.out_shape.features, m.out_shape.channels, m.out_shape.repetitions)))
        b = bool(rng.random() < 0.5)
        for k, Y in ((m, X), (q, X * a)):
            k.maximum_likelihood_estimation(T(k, Y), weights=W, bias_correction=b)
    elif kind == "em":
        node, vs = circ.random_circuit(rng, n=int(rng.integers(2, 5)), families=["normal", "exponential", "lognormal"], depth=int(rng.integers(1, 4)), maxC=2, max_nodes=16)  # weighted medians (Laplace) jump at ties
        X = rows(rng, vs, 60)
        ctx.note(node.describe()[:300])
        m, q, a = pair(ctx, node.build(), vs, 12, double=True)
        hs = [expectation_maximization(k, T(k, Y), max_steps=2, bias_correction=False).detach().double().numpy() for k, Y in ((m, X), (q, X * a))]
        n = min(map(len, hs))
        compare(ctx, hs[1][:n], hs[0][:n] - np.log(a).sum(), "EM history in other units", 20)
    else:
        n = int(rng.integers(2, 6))
        X = np.concatenate([rng.normal(size=(80, n)) @ rng.normal(size=(n, n)), 6 + rng.normal(size=(80, n))]).astype(np.float32).astype(float)
        vs = [Var("normal")] * n
        a = factors(rng, vs, 14, same=True)
        ms = []

        def halves(d, n_clusters=2, **k):  # k-means stops at an absolute tolerance of its own: split by rank instead
            return (torch.argsort(torch.argsort(d[:, 0])) >= d.shape[0] // 2).long()

        for s in (1.0, a):
            torch.manual_seed(7)
            np.random.seed(7)
            leaf = Normal(scope=list(range(n)), out_channels=1)
            ms.append(learn_spn(torch.tensor(X * s, dtype=torch.float32), leaf, min_instances_slice=60, min_features_slice=2, clustering_method=halves))
        m, q = ms
        L, M = LL(m, X), LL(q, X * a)
        ctx.check(L.shape == M.shape, "learned circuit of another shape in other units")
        ctx.close(M, L - np.log(a).sum(), "log-likelihood of the learned circuit in other units", 2e-3, 2e-2)
        ctx.count("learned circuits")
        ctx.key("learn", n, a.tolist(), float(X[0, 0]))
        return
    want = params(rescale(m, a))
    for (n, x), (_, y) in zip(want, params(q)):
        ok = np.isfinite(x)
        z = np.maximum(np.abs(x).max(), 1e-12)
        ctx.close(np.where(ok, y, 0) / z, np.where(ok, x, 0) / z, f"{kind}: {n} estimated in other units (relative to the largest)", 3e-3, 3e-4)
        ctx.count("estimates:" + n, x.size)
    Y = rows(rng, vs, 6)
    if np.isfinite(LL(m, Y)).all():
        ctx.close(LL(q, Y * a), LL(m, Y) - (np.log(a).reshape(1, -1, 1, 1) if kind == "leaf" else np.log(a).sum()), f"{kind}: log-density after estimation in other units", 2e-3, 2e-2)
    ctx.key(kind, a.tolist(), float(X[0, 0]))


def f_measures(ctx):
    """Entropies shift by the Jacobian; information, evidence weights and normalised scores do not move."""
    from spflow.interfaces.sklearn import SPFlowDensityEstimator
    from spflow.measures.information_theory import conditional_mutual_information, entropy, mutual_information

    rng = ctx.rng
    node, vs = circ.random_circuit(rng, n=int(rng.integers(3, 6)), families=CONT + ["bernoulli"], sampleable=True)
    ctx.note(node.describe()[:300])
    m, q, a = pair(ctx, node.build(), vs, 40, double=False)
    n = len(vs)
    p = [int(i) for i in rng.permutation(n)]
    A, B, C = sorted(p[:1]), sorted(p[1:2]), sorted(p[2:3])
    la = np.log(a)
    kw = dict(method="mc", num_samples=64, seed=int(rng.integers(1000)))
    for what, f, d in (("entropy", lambda k: entropy(k, scope=sorted(A + C), **kw), la[A + C].sum()), ("mutual information", lambda k: mutual_information(k, A, B, **kw), 0.0),
                       ("conditional mutual information", lambda k: conditional_mutual_information(k, A, B, C, **kw), 0.0)):
        with torch.no_grad():
            x, y = (np.asarray(f(k).double().numpy()) for k in (m, q))
        # a sample whose routing flips between the two runs changes one of 64 terms
        ctx.close(y, x + d, f"{what} in other units", 2e-2, 0.15)
        ctx.count("measures:" + what)
    X = rows(rng, vs, 5)
    s = [SPFlowDensityEstimator(model=k, fit_params=False, dtype="float32").fit(Y.astype(np.float32)).score_samples(Y.astype(np.float32)) for k, Y in ((m, X), (q, X * a))]
    if np.isfinite(s[0]).all():
        compare(ctx, np.asarray(s[1], dtype=float), np.asarray(s[0], dtype=float) - la.sum(), "score_samples in other units", 3)
    ctx.key(node.sig(), a.tolist())


def f_products(ctx):
    """Integrals of products of two densities over a variable shrink by its unit; squared circuits stay densities."""
    from spflow.modules.sos import SOCS
    from spflow.utils.inner_product import log_self_inner_product_scalar
    from spmon.checks.c22 import Inst, Struct

    rng = ctx.rng
    st = Struct(rng, allow=["bernoulli", "categorical", "normal", "exponential", "laplace"], nmax=4, fixed=True)
    vs = [Var(k if k in CONT else "bernoulli") for k in st.kinds]
    i = Inst(st, rng, signed=bool(rng.random() < 0.5))
    a = factors(rng, vs, 40)
    ctx.note(f"{st.kinds} {st.tree} units {np.log2(a).tolist()}")
    m, q = i.m, rescale(i.m, a)
    with torch.no_grad():
        x, y = (float(log_self_inner_product_scalar(k)) for k in (m, q))
    if x < -40:
        raise Skip("the function vanishes up to rounding")
    ctx.close(y, x - np.log(a).sum(), "log of the self inner product in other units", 1e-5, 1e-4)
    ctx.count("inner products")
    X = np.stack([rng.exponential(1.0, 6) if v.kind in CONT else rng.integers(0, 2, 6) for v in vs], 1).astype(np.float32).astype(float)
    if m.out_shape.channels == 1 and m.out_shape.repetitions == 1:
        with torch.no_grad():
            u, w = (SOCS([k]).log_likelihood(torch.tensor(Y)).double().numpy() for k, Y in ((m, X), (q, X * a)))
        ok = np.isfinite(u) & (u > -40)
        ctx.close(np.where(ok, w, 0), np.where(ok, u - np.log(a).sum(), 0), "squared circuit's log-density in other units", 1e-4, 1e-3)
        ctx.count("squared densities", len(X))
    ctx.key(str(st.tree), a.tolist(), st.kinds)


FAMILIES = [Family("density", f_density, 400, 9000), Family("sampling", f_sampling, 200, 5000), Family("interval", f_interval, 120, 3000), Family("training", f_training, 160, 4000),
            Family("measures", f_measures, 90, 2000), Family("products", f_products, 150, 4000)]
