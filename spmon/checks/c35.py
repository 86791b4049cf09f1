"""C35: assignments and branches of probability zero are exact everywhere: -inf, never NaN, never reached, without effect on anything else."""
import itertools

import numpy as np
import torch

from spmon import circ, leafref as lr, mon, zoo
from spmon.circ import t
from spmon.runner import Family, Skip
from spmon.checks import c10, common

PID = "C35"
RULE = "distinct = circuit signature or model configuration together with the pattern of zero-probability values"
ASSUMPTIONS = ["zero probabilities arise from categorical leaves with zero entries, uniform leaves with bounded supports and certain geometric leaves",
               "Bernoulli-like leaves with probability 0 or 1 may keep the mass float32 distributions reserve (below 1e-6)",
               "conditioning on evidence of probability zero is undefined and not asked for"]
NAN = np.nan
STEP = 0.5


class Cell(circ.Var):
    """A variable under uniform leaves with bounds on a grid: its density is constant on the cells between grid points."""

    def __init__(self):
        super().__init__("uniform")

    @property
    def domain(self):
        return list(np.arange(-2, 3) * STEP + STEP / 2)


def zeros(kind, p, rng):
    """Put zero probabilities into leaf parameters."""
    if kind == "categorical":
        pr = np.array(p["probs"])
        K = pr.shape[-1]
        kill = rng.random(pr.shape) < rng.choice([0.2, 0.5])
        keep = rng.integers(0, K, pr.shape[:-1])
        np.put_along_axis(kill, keep[..., None], False, -1)
        pr = np.where(kill, 0.0, pr)
        p["probs"] = np.asarray(pr / pr.sum(-1, keepdims=True), np.float32).astype(float)
    elif kind == "uniform":
        shape = p["low"].shape
        lo = rng.integers(-2, 3, shape)
        p["low"] = lo * STEP
        p["high"] = (lo + rng.integers(1, 4 - lo)) * STEP
    elif kind == "geometric":
        p["probs"] = np.where(rng.random(p["probs"].shape) < 0.5, 1.0, p["probs"])
    return p


def variables(rng, n, cells=True):
    out = []
    for _ in range(n):
        k = rng.choice(["categorical", "uniform"]) if cells else "categorical"
        out.append(Cell() if k == "uniform" else circ.Var("categorical", K=int(rng.integers(2, 5))))
    return out


def ast(ctx, n=None, cells=True, cap=800, sampleable=True, maxC=3, **kw):
    rng = ctx.rng
    n = n or int(rng.integers(2, 5))
    vs = variables(rng, n, cells)
    if np.prod([len(v.domain) for v in vs]) > cap:
        raise Skip("domain larger than the enumeration cap")
    g = circ.Gen(rng, vs, R=1 if rng.random() < 0.6 else 2, maxC=maxC, sampleable=sampleable, **kw)
    node = g.root(C=1, depth=int(rng.integers(2, 6)))
    for q in node.walk():
        if q.op == "leaf":
            zeros(q.p["kind"], q.p["params"], rng)
    ctx.note(f"{vs} {node.describe()[:350]}")
    ctx.key("ast", node.sig(), str([q.p["params"] for q in node.walk() if q.op == "leaf"])[:300])
    return node, node.build(), vs


def cells_of(vs):
    return np.array([isinstance(v, Cell) for v in vs])


def snap(S, vs):
    """Map values of grid variables to the middle of their cell."""
    S = np.array(S, float)
    c = cells_of(vs)
    S[:, c] = np.floor(S[:, c] / STEP) * STEP + STEP / 2
    return S


def exact(ctx, got, want, what, tol=5e-4):
    ctx.check(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}")
    ctx.check(not np.isnan(got).any(), f"{what}: NaN")
    bad = np.isneginf(got) != np.isneginf(want)
    if bad.any():
        i = tuple(int(v) for v in np.argwhere(bad)[0])
        ctx.check(False, f"{what}: at {i} got {got[i]}, the textbook value is {want[i]}")
    ctx.close(np.where(np.isneginf(got), 0, got), np.where(np.isneginf(want), 0, want), what, rtol=tol, atol=tol)
    ctx.count("impossible_rows", int(np.isneginf(want).sum()))


def scattered(vs, D, rng):
    """Domain rows with the values of grid variables moved inside their cells."""
    X = D.copy()
    c = cells_of(vs)
    X[:, c] += rng.uniform(-0.45, 0.45, X[:, c].shape) * STEP
    return X


def f_likelihood(ctx):
    rng = ctx.rng
    node, m, vs = ast(ctx, sampleable=False)
    D = mon.domain(vs)
    X = scattered(vs, D, rng)
    L = mon.ll(m, X)
    want = node.ref(X)
    exact(ctx, L, want, "log-likelihood with impossible assignments")
    tot = mon.lse(want, 0) + np.log(STEP) * cells_of(vs).sum()
    ctx.close(mon.lse(L, 0) + np.log(STEP) * cells_of(vs).sum(), np.zeros_like(tot), "log total mass", 0, 5e-4)
    M = X[rng.choice(len(X), min(60, len(X)), replace=False)].copy()
    M[rng.random(M.shape) < 0.4] = NAN
    exact(ctx, mon.ll(m, M), node.ref(M), "log-likelihood of incomplete impossible rows")
    i = int(rng.integers(len(X)))
    exact(ctx, mon.ll(m, X[i:i + 1]), want[i:i + 1], "a single row")
    with torch.no_grad():
        P = m.probability(t(X)).numpy()
    ctx.check((P[np.isneginf(want)] == 0).all(), "probability of an impossible row is not zero")
    dm = node  # double precision twin
    keep = torch.get_default_dtype()
    torch.set_default_dtype(torch.float64)
    try:
        for q in dm.walk():
            q._mod = None
        exact(ctx, mon.ll(dm.build(), X), want, "log-likelihood in float64", 1e-5)
    finally:
        torch.set_default_dtype(keep)


def f_structural(ctx):
    rng = ctx.rng
    node, m, vs = ast(ctx, ops=common.MARG_OPS)
    D = mon.domain(vs)
    X = scattered(vs, D, rng)
    mon.check_structural_marginal(ctx, m, vs, rng, X=X, what="circuit with impossible values")


def f_gradient(ctx):
    """Gradients of possible rows are those of finite differences, whatever impossible rows and branches surround them."""
    rng = ctx.rng
    node, m, vs = ast(ctx, sampleable=False, n=int(rng.integers(1, 5)))
    X = scattered(vs, mon.domain(vs), rng)
    X = X[rng.choice(len(X), min(40, len(X)), replace=False)]
    X[rng.random(X.shape) < 0.15] = NAN
    fin = np.isfinite(node.ref(X)[:, 0, 0, 0])
    if not fin.any():
        raise Skip("no possible row")
    m = m.double()
    if not any(p.requires_grad for p in m.parameters()):
        raise Skip("nothing to learn")
    T = t(X).double()
    cot = torch.as_tensor(rng.normal(0, 1, int(fin.sum())))

    def value():
        with torch.no_grad():
            return float((m.log_likelihood(T[torch.as_tensor(fin)])[:, 0, 0, 0] * cot).sum())

    def grads(mixed):
        m.zero_grad()
        if mixed:
            L = m.log_likelihood(T)[:, 0, 0, 0][torch.as_tensor(fin)]
        else:
            L = m.log_likelihood(T[torch.as_tensor(fin)])[:, 0, 0, 0]
        (L * cot).sum().backward()
        return {k: (p.grad.clone() if p.grad is not None else torch.zeros_like(p)) for k, p in m.named_parameters() if p.requires_grad}

    g = grads(False)
    h = grads(True)
    ctx.count("impossible_rows_in_batch", int((~fin).sum()))
    for k, p in m.named_parameters():
        if k not in g:
            continue
        ctx.check(bool(torch.isfinite(g[k][torch.isfinite(p)]).all()), f"gradient of {k} is not finite although every row is possible")
        ctx.check(bool(torch.isfinite(h[k][torch.isfinite(p)]).all()), f"gradient of {k} is not finite because of impossible rows elsewhere in the batch")
        ctx.close(h[k][torch.isfinite(p)].numpy(), g[k][torch.isfinite(p)].numpy(), f"gradient of {k} with impossible rows in the batch", 1e-6, 1e-8)
        d = torch.randn(p.shape, dtype=torch.float64) * torch.isfinite(p)
        keep = p.data.clone()
        v = []
        for s in (1e-5, -1e-5):
            p.data = torch.where(torch.isfinite(keep), keep + s * d, keep)
            v.append(value())
        p.data = keep
        num, ana = (v[0] - v[1]) / 2e-5, float((torch.where(torch.isfinite(p), g[k], torch.zeros_like(g[k])) * d).sum())
        ctx.count("directional_derivatives")
        ctx.check(abs(num - ana) <= 1e-4 * max(1.0, abs(num)), f"derivative along {k} is {ana}, finite differences give {num}")


def f_weighted(ctx):
    """Weighted sums (fixed non-negative weights, zeros included) over circuits with impossible values."""
    from spflow.zoo.pic.weighted_sum import WeightedSum

    rng = ctx.rng
    vs = variables(rng, int(rng.integers(1, 4)))
    if np.prod([len(v.domain) for v in vs]) > 800:
        raise Skip("domain larger than the enumeration cap")
    g = circ.Gen(rng, vs, R=1 if rng.random() < 0.6 else 2, maxC=3, sampleable=True)
    node = g.root(C=int(rng.integers(1, 4)), depth=int(rng.integers(1, 4)))
    for q in node.walk():
        if q.op == "leaf":
            zeros(q.p["kind"], q.p["params"], rng)
    m = node.build().double()
    R = m.log_likelihood(t(mon.domain(vs)[:1]).double()).shape[3]
    F, C = m.out_shape.features, m.out_shape.channels
    O = int(rng.integers(1, 3))
    w = rng.uniform(0.1, 2.0, size=(F, C, O, R)) * (rng.random((F, C, O, R)) > 0.3)
    ctx.note(f"weighted sum over {node.describe()[:300]}")
    ctx.key("weighted", node.sig(), w.shape)
    top = WeightedSum(m, weights=t(w).double())
    X = scattered(vs, mon.domain(vs), rng)
    X = X[rng.choice(len(X), min(40, len(X)), replace=False)]
    X[rng.random(X.shape) < 0.15] = NAN
    ref = node.ref(X)
    with np.errstate(divide="ignore"):
        want = np.logaddexp.reduce(ref[:, :, :, None, :] + np.log(w)[None], axis=2)
    exact(ctx, mon.ll(top, t(X).double()), want, "weighted sum")
    o, r = int(rng.integers(O)), int(rng.integers(R))
    fin = torch.as_tensor(np.isfinite(want[:, 0, o, r]))
    if not fin.any():
        raise Skip("no possible row")
    T = t(X).double()
    grads = []
    for rows in (T, T[fin]):
        top.zero_grad()
        L = top.log_likelihood(rows)[:, 0, o, r]
        (L[fin] if rows is T else L).sum().backward()
        grads.append({k: (torch.zeros_like(p) if p.grad is None else p.grad.clone()) for k, p in top.named_parameters() if p.requires_grad})
    for k in grads[0]:
        ok = torch.isfinite(dict(top.named_parameters())[k])
        ctx.check(bool(torch.isfinite(grads[0][k][ok]).all()), f"gradient of {k} is not finite")
        ctx.close(grads[0][k][ok].numpy(), grads[1][k][ok].numpy(), f"gradient of {k} with impossible rows in the batch", 1e-6, 1e-8)
    with np.errstate(divide="ignore", invalid="ignore"):
        e = np.exp(ref[:, 0, :, r] - want[:, 0, o, r][:, None])[fin.numpy()].sum(0)
    own = grads[0]["_weights"][0, :, o, r].numpy()
    pos = w[0, :, o, r] > 0
    ctx.close(own[pos], e[pos], "gradient of the positive weights", 1e-4, 1e-5)
    ctx.count("weighted_sums")


def f_sampling(ctx):
    rng = ctx.rng
    node, m, vs = ast(ctx)
    D = mon.domain(vs)
    L = node.ref(D) + np.log(STEP) * cells_of(vs).sum()
    p = np.exp(L[:, 0, 0, 0])
    N = 2500 if ctx.tier == "quick" else 8000
    torch.manual_seed(int(rng.integers(1 << 30)))
    mon.check_samples(ctx, m, vs, N, "circuit with impossible values", D=D, p=p, draw=lambda k: torch.as_tensor(snap(m.sample(num_samples=k).detach().numpy(), vs)))

    def cond(data):
        S = m.sample_with_evidence(data).detach().numpy()
        o = ~np.isnan(data.numpy())
        assert (S[o] == data.numpy()[o]).all()
        return torch.as_tensor(snap(S, vs))

    mon.check_cond_samples(ctx, m, vs, rng, N=N, what="circuit with impossible values", D=D, L=L, rows=4, draw=cond)


def f_mpe(ctx):
    rng = ctx.rng
    node, m, vs = ast(ctx)
    D = mon.domain(vs)
    L = node.ref(D)

    def fn(data):
        return torch.as_tensor(snap(m.sample_with_evidence(data, is_mpe=True).detach().numpy(), vs))

    mon.check_mpe_basic(ctx, m, vs, rng, what="circuit with impossible values", D=D, L=L, rows=10, fn=fn)
    if not any(cells_of(vs)):  # decision by decision against the textbook routing
        p = np.exp(L[:, 0, 0, 0])
        E = D[rng.choice(len(D), size=12, p=p / p.sum())].copy()
        E[rng.random(E.shape) < 0.6] = NAN
        want, margin = node.mpe(E)
        got = m.sample_with_evidence(t(E), is_mpe=True).detach().numpy().astype(float)
        ok = margin > 1e-4
        ctx.count("mpe_routed", int(ok.sum()))
        ctx.check((got[ok] == want[ok]).all(), lambda: f"most probable completion {got[ok][(got[ok] != want[ok]).any(1)][:1]} instead of {want[ok][(got[ok] != want[ok]).any(1)][:1]}")


def f_em(ctx):
    rng = ctx.rng
    node, m, vs = ast(ctx, n=int(rng.integers(1, 4)), maxC=2, max_nodes=14)
    if not any(q.op in c10.WAX for q in node.walk()):
        raise Skip("no sum node")
    D = mon.domain(vs)
    p = np.exp(node.ref(D)[:, 0, 0, 0])
    n = int(rng.integers(20, 60))
    X = scattered(vs, D[rng.choice(len(D), n, p=p / p.sum())], rng).astype(np.float32).astype(float)
    if any(cells_of(vs)):
        uniform = [(q, {k: v.copy() for k, v in q.p["params"].items()}) for q in node.walk() if q.op == "leaf" and q.p["kind"] == "uniform"]
    else:
        uniform = []
    # uniform leaves keep their bounds under EM and have no estimate to compare: judge sums and categorical leaves
    base = node.ref(X)
    if not np.isfinite(base).all():
        raise Skip("rounding left the support")
    if not uniform:
        c10.step_check(ctx, node, vs, X)
        m = node.build()
    hist = [float(mon.ll(m, X)[:, 0, 0, 0].mean())]
    for _ in range(3):
        h = c10.em(m, X)
        ctx.close(float(h[0]), hist[-1], "EM history reports the average log-likelihood", 1e-3, 1e-3)
        hist.append(float(mon.ll(m, X)[:, 0, 0, 0].mean()))
    ctx.check(np.isfinite(hist).all(), f"log-likelihood under EM became {hist}")
    for a, b in zip(hist, hist[1:]):
        ctx.check(b >= a - 1e-3 * (1 + abs(a)), f"EM lowered the average log-likelihood: {hist}")
    c10.check_valid(ctx, m)
    ctx.count("em_runs")


ZOO = ["rat", "einet", "convpc", "naive_bayes", "cms"]


def f_zoo(ctx):
    """Ready-made architectures over leaves with zero probabilities."""
    rng = ctx.rng
    name = ZOO[ctx.idx % 4]
    seen = []

    def hook(kind, scope, p, kw):
        if kind == "categorical":
            zeros(kind, p, rng)
            seen.append(kind)
        elif kind == "bernoulli":  # a Bernoulli variable as a two-valued categorical one keeps exact zeros
            from spflow.modules.leaves import Categorical

            q = zeros("categorical", {"probs": np.stack([1 - np.asarray(p["probs"]), np.asarray(p["probs"])], -1)}, rng)
            seen.append(kind)
            return Categorical(scope=scope, K=2, probs=t(q["probs"]), **kw)
        return None

    lr.HOOK = hook
    try:
        z = common.model(ctx, name)
    finally:
        lr.HOOK = None
    if not seen:
        raise Skip("no leaf with zeros")
    D = mon.domain(z.vs)
    if len(D) > 700:
        raise Skip("domain larger than the enumeration cap")
    L = mon.ll(z.m, D)
    ctx.check(not np.isnan(L).any(), f"{name}: NaN log-likelihood")
    ctx.count("impossible_rows", int(np.isneginf(L).sum()))
    tot = mon.lse(L, 0)
    ctx.close(tot, np.zeros_like(tot), f"{name}: log total mass", 0, 5e-4)
    mon.check_nan_marginal(ctx, z.m, z.vs, rng, what=name, D=D, L=L)
    C = L.shape[2]
    if C > 1 and hasattr(z.m, "log_posterior"):
        prior = None
        poss = np.isfinite(L[:, 0, :, 0]).any(1)
        X = D[poss]
        P = z.m.log_posterior(t(X)).detach().numpy().astype(float)
        P = P.reshape(len(X), C)
        ctx.check(not np.isnan(P).any(), f"{name}: NaN class posterior of a possible row")
        ctx.close(np.exp(P).sum(1), np.ones(len(X)), f"{name}: class posteriors of possible rows", 1e-4, 1e-4)
        ctx.check((P[np.isneginf(L[poss, 0, :, 0])] < -20).all(), f"{name}: a class that cannot produce the row has posterior probability {np.exp(P[np.isneginf(L[poss, 0, :, 0])].max(initial=-99)):.3g}")
        pc = z.m.predict_proba(t(X)).detach().numpy() if hasattr(z.m, "predict_proba") else None
        if pc is not None:
            ctx.close(pc.reshape(len(X), C), np.exp(P), f"{name}: predict_proba", 1e-4, 1e-5)
        ctx.count("posteriors", len(X))
        return
    # gradients of possible rows are unaffected by impossible ones in the batch
    if not any(p.requires_grad for p in z.m.parameters()):
        return
    fin = np.isfinite(L[:, 0, 0, 0])
    g = []
    for mixed in (False, True):
        z.m.zero_grad()
        out = z.m.log_likelihood(t(D))[:, 0, 0, 0][torch.as_tensor(fin)] if mixed else z.m.log_likelihood(t(D[fin]))[:, 0, 0, 0]
        out.mean().backward()
        g.append({k: p.grad.clone().numpy() for k, p in z.m.named_parameters() if p.grad is not None})
    for k in g[0]:
        ok = np.isfinite(dict(z.m.named_parameters())[k].detach().numpy())
        ctx.check(np.isfinite(g[0][k][ok]).all(), f"{name}: gradient of {k} is not finite although every row is possible")
        ctx.close(g[1][k][ok], g[0][k][ok], f"{name}: gradient of {k} with impossible rows in the batch", 1e-3, 1e-5)
    ctx.count("gradients")
    if name in ("rat", "einet", "convpc", "naive_bayes"):
        p = np.exp(L[:, 0, 0, 0])
        torch.manual_seed(int(rng.integers(1 << 30)))
        mon.check_samples(ctx, z.m, z.vs, 2000, name, D=D, p=p)
        mon.check_mpe_basic(ctx, z.m, z.vs, rng, what=name, D=D, L=L)


def f_certain(ctx):
    """Leaves of two-outcome families with probabilities of exactly zero and one."""
    from spflow.modules import leaves as Lv
    from spflow.modules.sums import Sum

    rng = ctx.rng
    kind = ["bernoulli", "binomial", "geometric", "negbin", "categorical"][ctx.idx % 5]
    F, C, R = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 3))
    p = lr.rand_params(kind, rng, (F, C, R), K=3)
    pr = p["probs"]
    if kind == "categorical":
        hot = np.eye(3)[rng.integers(0, 3, pr.shape[:-1])]
        p["probs"] = np.where(rng.random(pr.shape[:-1])[..., None] < 0.7, hot, pr)
    else:
        hi = 1.0 if kind != "negbin" else 0.0
        lo = 0.0 if kind != "geometric" else 1.0
        p["probs"] = np.where(rng.random(pr.shape) < 0.35, lo, np.where(rng.random(pr.shape) < 0.5, hi, pr))
    cols = [int(c) for c in rng.permutation(F)]
    if rng.random() < 0.5:
        m = lr.build(kind, cols, p)
    else:  # through the setter
        q = lr.rand_params(kind, rng, (F, C, R), K=3)
        if "total_count" in p:
            q["total_count"] = p["total_count"]
        m = lr.build(kind, cols, q)
        m.probs = t(p["probs"])
    ctx.key(kind, F, C, R, str(p)[:200])
    ctx.note(f"{kind} {str(p)[:300]}")
    top = {"bernoulli": 1, "categorical": 2, "geometric": 8, "negbin": 12}.get(kind) or int(p["total_count"].max())
    X = rng.integers(0, top + 1, (40, F)).astype(float)
    X[rng.random(X.shape) < 0.1] = NAN
    got = mon.ll(m, X)
    with np.errstate(all="ignore"):
        want = np.stack([lr.logpdf(kind, X[:, c][:, None, None], {k: v[f] for k, v in p.items()}) for f, c in enumerate(cols)], 1)
    if kind in ("binomial", "negbin"):  # 0 * log 0 in the reference
        from scipy import stats

        fam = (lambda x, n, q: stats.binom.logpmf(x, n, q)) if kind == "binomial" else None
        for f, c in enumerate(cols):
            for i, j in itertools.product(range(C), range(R)):
                n, q = p["total_count"][f, i, j], p["probs"][f, i, j]
                if kind == "binomial":
                    want[:, f, i, j] = fam(X[:, c], n, q)
                elif q == 0:
                    want[:, f, i, j] = np.where(X[:, c] == 0, 0.0, -np.inf)
    want = np.where(np.isnan(X[:, cols])[:, :, None, None], 0.0, want)
    ctx.check(not np.isnan(got).any(), f"{kind}: NaN log-likelihood with certain outcomes")
    ctx.close(np.exp(got), np.exp(want), f"{kind}: probabilities with certain outcomes", 1e-4, 2e-5)
    ctx.count("certain:" + kind, got.size)
    # what is drawn and completed is possible
    s = Sum(inputs=m, out_channels=1, num_repetitions=R)
    wt = s.weights.detach().numpy()
    if R == 1:
        torch.manual_seed(int(rng.integers(1 << 30)))
        for what, S in (("samples", s.sample(num_samples=300)), ("completions", s.mpe(num_samples=3))) if F == 1 else ():
            S = S.detach().numpy().astype(float)
            for f, c in enumerate(cols):
                pos = np.zeros(len(S))
                for i in range(C):
                    q = {k: v[f, i, 0] for k, v in p.items()}
                    with np.errstate(all="ignore"):
                        v = stats_pmf(kind, S[:, c], q)
                    pos += v
                ctx.check((pos > 0).mean() > 0.98, f"{what} of a {kind} mixture take impossible values {S[pos <= 0][:2].tolist()}")
    # gradients stay finite
    L = m.log_likelihood(t(X))
    L[torch.isfinite(L)].sum().backward()
    for k, w in m.named_parameters():
        if w.grad is not None and kind != "categorical":
            ok = torch.isfinite(w)
            ctx.check(bool(torch.isfinite(w.grad[ok]).all()), f"{kind}: gradient of {k} is not finite")


def stats_pmf(kind, x, q):
    from scipy import stats

    if kind == "bernoulli":
        return stats.bernoulli.pmf(x, q["probs"])
    if kind == "binomial":
        return stats.binom.pmf(x, q["total_count"], q["probs"])
    if kind == "geometric":
        return stats.geom.pmf(x + 1, q["probs"])
    if kind == "negbin":
        return (x == 0).astype(float) if q["probs"] == 0 else np.exp(lr.logpdf(kind, x, q))
    return np.exp(lr.logpdf(kind, x, q))


FAMILIES = [
    Family("likelihood", f_likelihood, quick=500, thorough=6000, timeout=60),
    Family("structural", f_structural, quick=150, thorough=2000, timeout=60),
    Family("gradient", f_gradient, quick=300, thorough=2500, timeout=60),
    Family("weighted", f_weighted, quick=80, thorough=1500, timeout=60),
    Family("sampling", f_sampling, quick=160, thorough=1500, timeout=90),
    Family("mpe", f_mpe, quick=300, thorough=2000, timeout=60),
    Family("em", f_em, quick=200, thorough=1500, timeout=60),
    Family("zoo", f_zoo, quick=120, thorough=1000, timeout=90),
    Family("certain", f_certain, quick=200, thorough=1500, timeout=60),
]
