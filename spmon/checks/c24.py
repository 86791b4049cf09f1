"""C24: information measures equal their definitions on the model's own distribution."""
from __future__ import annotations

import itertools
from types import SimpleNamespace

import numpy as np
import torch

from spmon import circ, mon
from spmon.checks import common
from spmon.runner import Family, Skip

PID = "C24"
RULE = "distinct = distinct (circuit signature, measure, method, aggregation, variable sets) whose value was compared"
ASSUMPTIONS = ["the joint table comes from complete-row log-likelihoods (checked by C01-C03), all marginal tables are sums of it in float64",
               "Monte Carlo estimates must lie within a Bernstein bound (failure probability < 1e-12) of the exact value"]
AGG = ["logmeanexp", "first", "logsumexp"]


def _agg(P, cagg, ragg):
    """P: (n, C, R) densities -> (n,) aggregated over repetitions, then channels."""
    f = {"logmeanexp": lambda a, ax: a.mean(ax), "logsumexp": lambda a, ax: a.sum(ax), "first": lambda a, ax: a.take(0, ax)}
    return f[cagg](f[ragg](P, 2), 1)


def model(ctx, families=("bernoulli", "categorical"), n=None, name=None, multi=None):
    rng = ctx.rng
    if name is None and multi is None and rng.random() < 0.3:
        name = str(rng.choice(["rat", "einet", "cltree" if "binomial" in families else "cnet", "learn_spn", "naive_bayes", "cms", "hclt"]))
    if name:
        z = common.model(ctx, name)
        vs, m = z.vs, z.m
    else:
        multi = rng.random() < 0.5 if multi is None else multi
        n = n or int(rng.integers(1, 6))
        node, vs = circ.random_multi(rng, n=n, families=list(families)) if multi else circ.random_circuit(rng, n=n, families=list(families), sampleable=True)
        ctx.note(node.describe()[:400])
        ctx.key("ast", node.sig())
        m = node.build()
    if all(v.domain for v in vs):
        size = int(np.prod([len(v.domain) for v in vs]))
        if size > 1500:
            raise Skip("domain larger than the enumeration cap")
    return m, vs


def joint(m, vs, cagg, ragg):
    D = np.array(list(itertools.product(*[v.domain for v in vs])), float)
    L = mon.ll(m, D).astype(float)
    return D, _agg(np.exp(L.sum(1)), cagg, ragg)


def marg(D, P, cols):
    """Marginal table as an array aligned with D: probability of the row's values of `cols`."""
    if not len(cols):
        return np.full(len(D), P.sum())
    _, inv = np.unique(D[:, cols], axis=0, return_inverse=True)
    inv = inv.reshape(-1)
    return np.bincount(inv, weights=P)[inv]


def ent(D, P, cols):
    _, inv = np.unique(D[:, cols], axis=0, return_inverse=True)
    p = np.bincount(inv.reshape(-1), weights=P)
    p = p[p > 0]
    return float(-(p * np.log(p)).sum())


def pick(rng, n, k):
    """k disjoint non-empty variable sets."""
    perm = [int(v) for v in rng.permutation(n)]
    cuts = sorted(int(c) for c in rng.choice(np.arange(1, n + 1), size=k, replace=False)) if n >= k else None
    if cuts is None:
        raise Skip("too few variables")
    return [perm[a:b] for a, b in zip([0] + cuts[:-1], cuts)]


def arg(rng, s):
    from spflow.meta.data.scope import Scope

    if len(s) == 1 and rng.random() < 0.4:
        return s[0]
    return [Scope(s), list(s), tuple(s), np.array(s).tolist()][int(rng.integers(4))]


def draw_call(ctx, vs):
    from spflow.measures import conditional_mutual_information, entropy, mutual_information

    rng = ctx.rng
    k = int(rng.integers(1, 1 + min(3, len(vs))))
    sets = pick(rng, len(vs), k)
    fn = {1: entropy, 2: mutual_information, 3: conditional_mutual_information}[k]
    return fn, sets


def f_exact(ctx):
    from spflow.exceptions import UnsupportedOperationError

    rng = ctx.rng
    m, vs = model(ctx)
    cagg, ragg = str(rng.choice(AGG)), str(rng.choice(AGG))
    D, P = joint(m, vs, cagg, ragg)
    before = [q.clone() for q in m.state_dict().values()]
    for _ in range(3):
        fn, sets = draw_call(ctx, vs)
        ctx.key(fn.__name__, "exact", cagg, ragg, tuple(map(len, sets)))
        try:
            got = fn(m, *[arg(rng, s) for s in sets], method="exact", channel_agg=cagg, repetition_agg=ragg)
        except UnsupportedOperationError:
            ctx.count("rejected")
            ok = all(v.kind in ("bernoulli", "categorical") for v in vs) and all(
                type(q).__name__ in ("Sum", "Product", "Cat", "ElementwiseSum", "ElementwiseProduct", "OuterProduct", "Bernoulli", "Categorical",
                                     "SplitConsecutive", "SplitInterleaved", "ModuleList", "RepetitionMixingLayer") for q in m.modules())
            ctx.check(not ok, f"{fn.__name__}(method='exact') rejected a circuit with Bernoulli and Categorical leaves only")
            return
        if fn.__name__ == "entropy":
            want = ent(D, P, sets[0])
        elif fn.__name__ == "mutual_information":
            want = ent(D, P, sets[0]) + ent(D, P, sets[1]) - ent(D, P, sets[0] + sets[1])
        else:
            x, y, z = sets
            want = ent(D, P, x + z) + ent(D, P, y + z) - ent(D, P, z) - ent(D, P, x + y + z)
        ctx.check(got.shape == (), f"{fn.__name__}: not a scalar")
        scale = 1 + float(P.sum())
        ctx.close(float(got), want, f"{fn.__name__}({sets}, exact, {cagg}/{ragg}) of a model over {vs}", 2e-4 * scale, 2e-4)
    ctx.check(all(torch.equal(a, b) for a, b in zip(before, m.state_dict().values())), "measuring changed the model")
    # zero-probability cells contribute nothing
    ctx.count("tables", 1)
    ctx.count("cells", len(P))


def bound(var, b, n):
    t = np.log(2e12)
    return np.sqrt(2 * max(var, 0) * t / n) + b * t / (3 * n)


def f_mc(ctx):
    rng = ctx.rng
    m, vs = model(ctx, families=("bernoulli", "categorical", "binomial"))
    cagg, ragg = str(rng.choice(AGG[:2])), str(rng.choice(AGG[:2]))
    D, P = joint(m, vs, cagg, ragg)
    fn, sets = draw_call(ctx, vs)
    ctx.key(fn.__name__, "mc", cagg, ragg, tuple(map(len, sets)))
    lg = lambda c: np.log(np.maximum(marg(D, P, c), 1e-300))  # noqa: E731
    if len(sets) == 1:
        v = -lg(sets[0])
    elif len(sets) == 2:
        v = lg(sets[0] + sets[1]) - lg(sets[0]) - lg(sets[1])
    else:
        x, y, z = sets
        v = lg(x + y + z) + lg(z) - lg(x + z) - lg(y + z)
    n = int(rng.choice([1500, 4000]))
    if any(type(q).__name__ in ("CLTree", "CLTreeJoint") for q in m.modules()):
        n = 200  # these draw row by row
    want = float((P * v).sum())
    var = float((P * (v - want) ** 2).sum())
    live = P > 1e-14
    tol = bound(var, float(np.abs(v[live] - want).max()), n) + 5e-4
    args = [arg(rng, s) for s in sets]
    seed = int(rng.integers(1 << 30))
    torch.manual_seed(11)
    state = torch.random.get_rng_state().clone()
    a = fn(m, *args, num_samples=n, seed=seed, channel_agg=cagg, repetition_agg=ragg)
    ctx.check(torch.equal(state, torch.random.get_rng_state()), "a seeded estimate changed the global random state")
    torch.rand(3)
    b = fn(m, *args, num_samples=n, seed=seed, channel_agg=cagg, repetition_agg=ragg, method="mc")
    ctx.check(float(a) == float(b), f"the same seed gave {float(a)} and {float(b)}")
    torch.manual_seed(12)
    c = fn(m, *args, num_samples=n, channel_agg=cagg, repetition_agg=ragg)
    torch.manual_seed(12)
    d = fn(m, *args, num_samples=n, channel_agg=cagg, repetition_agg=ragg)
    state = torch.random.get_rng_state().clone()
    e = fn(m, *args, num_samples=n, channel_agg=cagg, repetition_agg=ragg)
    ctx.check(not torch.equal(state, torch.random.get_rng_state()), "an unseeded estimate used no new random draws")
    ctx.check(float(c) == float(d), "an unseeded estimate does not follow the global random state")
    for r in (a, c, e):
        ctx.check(abs(float(r) - want) <= tol, f"{fn.__name__}({sets}, mc, n={n}, {cagg}/{ragg}) = {float(r):.5f}, exact {want:.5f} +- {tol:.4f}")
    ctx.count("estimates", 3)


def f_cont(ctx):
    """Continuous and count variables: the estimate agrees with an independent evaluation of the definition."""
    rng = ctx.rng
    m, vs = model(ctx, families=circ.CONTINUOUS + circ.COUNTS + ["bernoulli", "categorical"], name=None, n=int(rng.integers(1, 5)), multi=False)
    fn, sets = draw_call(ctx, vs)
    ctx.key(fn.__name__, "cont", tuple(map(len, sets)))
    n, N = 3000, 6000

    def lg(S, c):
        X = np.full(S.shape, np.nan)
        X[:, c] = S[:, c]
        return mon.ll(m, X)[:, :, 0, 0].sum(1).astype(float)

    if m.out_shape.channels != 1 or m.out_shape.repetitions != 1:
        raise Skip("several outputs")
    torch.manual_seed(int(rng.integers(1 << 30)))
    S = m.sample(num_samples=N).detach().double().numpy()
    if len(sets) == 1:
        v = -lg(S, sets[0])
    elif len(sets) == 2:
        v = lg(S, sets[0] + sets[1]) - lg(S, sets[0]) - lg(S, sets[1])
    else:
        x, y, z = sets
        v = lg(S, x + y + z) + lg(S, z) - lg(S, x + z) - lg(S, y + z)
    r = float(fn(m, *[arg(rng, s) for s in sets], num_samples=n, seed=int(rng.integers(1000))))
    ctx.check(np.isfinite(r), f"{fn.__name__} is {r}")
    sd, b = v.std(), np.abs(v - v.mean()).max()
    tol = 1.5 * (bound(sd ** 2, b, n) + bound(sd ** 2, b, N)) + 1e-3
    ctx.check(abs(r - v.mean()) <= tol, f"{fn.__name__}({sets}) = {r:.5f}, independent estimate {v.mean():.5f} +- {tol:.4f}")
    ctx.count("estimates")


def sharp(ctx):
    """A naive-Bayes style circuit whose conditionals come close to zero and one."""
    from spflow.modules.leaves import Bernoulli
    from spflow.modules.products import Product
    from spflow.modules.sums import Sum

    rng = ctx.rng
    n = int(rng.integers(2, 5))
    e = 10.0 ** -rng.uniform(1, 3.5, n)
    one = lambda p, i: Bernoulli(scope=[i], out_channels=1, probs=torch.tensor([[[float(p)]]]))  # noqa: E731
    m = Sum(inputs=[Product(inputs=[one(e[i] if c == 0 else 1 - e[i], i) for i in range(n)]) for c in range(2)], weights=torch.tensor(rng.dirichlet([2.0, 2.0]), dtype=torch.float32))
    ctx.key("sharp", n)
    return m, [SimpleNamespace(domain=[0.0, 1.0], kind="bernoulli") for _ in range(n)]


def f_domains(ctx):
    """Leaves over one variable whose domains differ: refused, or the entropy of the larger table."""
    from spflow.measures import entropy
    from spflow.modules.leaves import Bernoulli, Categorical
    from spflow.modules.sums import Sum

    rng = ctx.rng
    K = int(rng.integers(3, 6))
    q = rng.dirichlet(np.ones(K))
    p = float(rng.uniform(0.1, 0.9))
    w = rng.dirichlet([3.0, 3.0])
    leaves = [Bernoulli(scope=[0], out_channels=1, probs=torch.tensor([[[p]]])), Categorical(scope=[0], out_channels=1, K=K, probs=torch.tensor(q, dtype=torch.float32).reshape(1, 1, 1, K))]
    tab = [np.array([1 - p, p] + [0.0] * (K - 2)), q]
    if ctx.idx % 2:
        leaves, tab = leaves[::-1], tab[::-1]
    m = Sum(inputs=leaves, weights=torch.tensor(w, dtype=torch.float32))
    t = w[0] * tab[0] + w[1] * tab[1]
    want = -(t * np.log(t)).sum()
    ctx.key("domains", K, ctx.idx % 2)
    try:
        r = float(entropy(m, [0], method="exact"))
    except Exception:  # noqa: BLE001
        ctx.count("rejected")
        ctx.check(True, "refused")
    else:
        ctx.check(abs(r - want) < 1e-4, f"exact entropy of a mixture of a Bernoulli and a {K}-category leaf is {r:.5f}, the distribution has {want:.5f}")


def f_woe(ctx):
    from spflow.measures import conditional_probability, weight_of_evidence, weight_of_evidence_leave_one_out

    rng = ctx.rng
    m, vs = sharp(ctx) if ctx.idx % 4 == 3 else model(ctx)
    cagg, ragg = str(rng.choice(AGG)), str(rng.choice(AGG))
    kw = dict(channel_agg=cagg, repetition_agg=ragg)
    D, P = joint(m, vs, cagg, ragg)
    D0 = len(vs)
    y = int(rng.integers(D0))
    yv = vs[y].domain[int(rng.integers(len(vs[y].domain)))]
    ctx.key("woe", cagg, ragg, D0)

    def cp(E):
        out = []
        for row in E:
            ok = np.ones(len(D), bool)
            for j, e in enumerate(row):
                if j != y and not np.isnan(e):
                    ok &= D[:, j] == e
            den = P[ok].sum()
            if den < 1e-9:
                raise Skip("evidence of negligible probability")
            out.append(P[ok & (D[:, y] == yv)].sum() / den)
        return np.array(out)

    B = int(rng.integers(1, 6))
    X = D[rng.choice(len(D), B, p=P / P.sum())].copy()
    X[rng.random(X.shape) < 0.3] = np.nan
    E = torch.tensor(X, dtype=torch.get_default_dtype())
    keep = E.clone()
    got = conditional_probability(m, y_index=y, y_value=yv if rng.random() < 0.5 else int(yv), evidence=E, **kw).detach().double().numpy()
    p1 = cp(X)
    ctx.check(got.shape == (B,), f"conditional_probability: shape {got.shape}")
    ctx.close(got, p1, f"conditional probability of variable {y}={yv}", 2e-4, 2e-5)
    tot = sum(conditional_probability(m, y_index=y, y_value=v, evidence=E, **kw).detach().double().numpy() for v in vs[y].domain)
    ctx.close(tot, np.ones(B), "conditional probabilities sum to one", 2e-4, 0)

    n, k, eps = int(rng.choice([1, 5, 100, 10000])), None, float(rng.choice([1e-6, 1e-3, 0.05]))
    if rng.random() < 0.3 or vs[y].kind not in ("bernoulli", "categorical"):
        k = int(rng.integers(2, 6))
    kk = k or len(vs[y].domain)

    def woe(p1, p2):
        lap = lambda p: np.clip((p * n + 1) / (n + kk), eps, 1 - eps)  # noqa: E731
        lo = lambda p: np.log(p) - np.log1p(-p)  # noqa: E731
        return lo(lap(p1)) - lo(lap(p2))

    def judge(got, p1, p2, what):
        d = 3e-5
        a = woe(np.maximum(p1 * (1 - 2e-4) - 1e-6, 0), np.minimum(p2 * (1 + 2e-4) + 1e-6, 1)) - d - 2e-4 * abs(woe(p1, p2))
        b = woe(np.minimum(p1 * (1 + 2e-4) + 1e-6, 1), np.maximum(p2 * (1 - 2e-4) - 1e-6, 0)) + d + 2e-4 * abs(woe(p1, p2))
        # (1-p) resolution of single precision near one
        slack = 4e-7 / np.minimum(1 - np.clip((p1 * n + 1) / (n + kk), eps, 1 - eps), 1 - np.clip((p2 * n + 1) / (n + kk), eps, 1 - eps))
        ctx.check(((got >= a - slack) & (got <= b + slack)).all(), f"{what}: {got.tolist()} is not {woe(p1, p2).tolist()} (n={n} k={kk} eps={eps})")
        ctx.count("scores", int(np.size(got)))

    from spflow.exceptions import UnsupportedOperationError

    X2 = X.copy()
    X2[rng.random(X2.shape) < 0.5] = np.nan
    E2 = torch.tensor(X2, dtype=E.dtype)
    try:
        w = weight_of_evidence(m, y_index=y, y_value=yv, evidence_full=E, evidence_reduced=E2, n=n, k=k, eps=eps, **kw).detach().double().numpy()
        judge(w, p1, cp(X2), "weight of evidence")
        loo = weight_of_evidence_leave_one_out(m, y_index=y, y_value=yv, x_instance=E, n=n, k=k, eps=eps, **kw).detach().double().numpy()
    except UnsupportedOperationError:
        ctx.check(k is None, "weight of evidence rejected although the cardinality was given")
        ctx.count("rejected")
        return
    ctx.check(loo.shape == X.shape, "leave-one-out: shape")
    for j in range(D0):
        have = ~np.isnan(X[:, j]) & (j != y)
        ctx.check(bool(np.isnan(loo[~have, j]).all()), f"leave-one-out: a score for an entry that is missing (or the class): {loo[:, j].tolist()} for values {X[:, j].tolist()}")
        if have.any():
            R = X[have].copy()
            R[:, j] = np.nan
            judge(loo[have, j], p1[have], cp(R), "leave-one-out score")
    ctx.check(torch.equal(torch.nan_to_num(E, nan=-7), torch.nan_to_num(keep, nan=-7)), "the evidence tensor was changed")


def f_reject(ctx):
    from spflow.measures import conditional_mutual_information, entropy, mutual_information, weight_of_evidence

    rng = ctx.rng
    m, vs = model(ctx, n=int(rng.integers(3, 6)), name=None, multi=False)
    if len(vs) < 3:
        raise Skip("too few variables")
    a, b, c = (int(v) for v in rng.permutation(len(vs))[:3])
    bad = [lambda: entropy(m, [], method="exact"), lambda: entropy(m, [], num_samples=5), lambda: entropy(m, [a], method="guess"), lambda: entropy(m, [a], num_samples=0),
           lambda: entropy(m, [a], num_samples=-3), lambda: mutual_information(m, [a, b], [b], method="exact"), lambda: mutual_information(m, [a], [a, c], num_samples=5),
           lambda: mutual_information(m, [a], [b], method="guess"), lambda: conditional_mutual_information(m, [a], [b], [a], method="exact"),
           lambda: conditional_mutual_information(m, [a], [b], [b, c], num_samples=5), lambda: entropy(m, [len(vs) + 3], method="exact"),
           lambda: weight_of_evidence(m, y_index=a, y_value=0, evidence_full=torch.zeros(2, len(vs)), evidence_reduced=torch.zeros(1, len(vs)), n=5),
           lambda: weight_of_evidence(m, y_index=a, y_value=0, evidence_full=torch.zeros(2, len(vs)), evidence_reduced=torch.zeros(2, len(vs)), n=0)]
    ctx.key("reject", len(vs))
    for i, f in enumerate(bad):
        try:
            r = f()
        except Exception:  # noqa: BLE001
            ctx.count("rejected")
        else:
            ctx.fail(f"malformed request {i} was answered with {r}")
    # enumeration refuses leaves whose domain it cannot know
    m2, vs2 = model(ctx, families=["binomial", "normal", "poisson"], n=2, multi=False)
    try:
        r = entropy(m2, [0], method="exact")
    except Exception:  # noqa: BLE001
        ctx.count("rejected")
    else:
        if not all(v.kind in ("bernoulli", "categorical") for v in vs2):
            ctx.fail(f"exact entropy of a {vs2[0]} answered {r}")


FAMILIES = [
    Family("exact", f_exact, 80, 2000, timeout=60),
    Family("mc", f_mc, 60, 800, timeout=60),
    Family("cont", f_cont, 40, 600, timeout=60),
    Family("woe", f_woe, 80, 2000, timeout=60),
    Family("reject", f_reject, 10, 100, timeout=60),
    Family("domains", f_domains, 6, 60, timeout=60),
]
