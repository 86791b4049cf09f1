"""C31: a circuit answers alike whichever columns of the table hold its variables."""
import copy

import numpy as np
import torch

from spmon import circ, leafref as lr, mon, zoo
from spmon.runner import Family, Skip
from spmon.checks import common

PID = "C31"
RULE = "distinct = circuit signature or architecture configuration together with the column map"
ASSUMPTIONS = ["the circuit over columns 0..n-1 is the reference (its own answers are judged by the other properties)",
               "samples are first compared under one seed; when the draw order differs they are judged by frequencies instead"]
NAN = np.nan


class Pair:
    """A circuit over columns 0..n-1 and its copy over columns `f` of a table with W columns."""

    def __init__(self, a, b, vs, f, W, name):
        self.a, self.b, self.vs, self.f, self.W, self.name = a, b, vs, list(f), W, name

    def put(self, X, rng, fill=None):
        X = np.asarray(X, float)
        T = np.full((len(X), self.W), NAN)
        out = [c for c in range(self.W) if c not in self.f]
        if fill is None:
            fill = rng.choice(["nan", "rand", "huge", "mix", "frac"])
        g = {"nan": np.full((len(X), len(out)), NAN), "rand": rng.normal(0, 3, (len(X), len(out))),
             "huge": rng.choice([1e9, -1e9, np.inf], (len(X), len(out))), "frac": np.full((len(X), len(out)), 0.5), "huge0": np.full((len(X), len(out)), 1e6)}
        if fill == "mix":
            v = np.where(rng.random((len(X), len(out))) < 0.5, g["nan"], g["rand"])
        else:
            v = g[fill]
        T[:, out] = v
        T[:, self.f] = X
        return T

    @property
    def rest(self):
        return [c for c in range(self.W) if c not in self.f]


def colmap(rng, n, monotone):
    if not monotone and n > 1 and rng.random() < 0.25:  # the same columns in another order
        f = rng.permutation(n)
        if (f != np.arange(n)).any():
            return [int(c) for c in f], n + int(rng.integers(0, 3))
    W = n + int(rng.integers(1, 6))
    f = rng.choice(W, n, replace=False)
    if monotone or rng.random() < 0.4:
        f = np.sort(f)
    W = int(f.max()) + 1 if rng.random() < 0.4 else W
    if (f == np.arange(n)).all() and W == n:
        f = f + 1
        W += 1
    return [int(c) for c in f], W


def seed_all(s):
    import random

    random.seed(s)
    np.random.seed(s % (1 << 31))
    torch.manual_seed(s)


def twice(ctx, make, f):
    """Build the same model for the identity columns and for the columns `f`."""
    s = int(ctx.rng.integers(1 << 30))
    seed_all(s)
    a = make()
    seed_all(s)
    lr.COLMAP = f
    try:
        b = make()
    finally:
        lr.COLMAP = None
    return a, b


def ast_pair(ctx, families=None, multi=False, **kw):
    rng = ctx.rng
    if multi:
        node, vs = circ.random_multi(rng, families=families, **kw)
    else:
        node, vs = circ.random_circuit(rng, families=families, sampleable=True, **kw)
    f, W = colmap(rng, len(vs), False)
    ctx.note(f"vars={vs} columns={f} of {W} circuit={node.describe()[:400]}")

    def make():
        for q in node.walk():
            q._mod = None
        return node.build()

    a, b = twice(ctx, make, f)
    ctx.key("ast", node.sig(), tuple(f), W)
    return node, Pair(a, b, vs, f, W, "ast")


def zoo_pair(ctx, name, **kw):
    rng = ctx.rng
    st = int(rng.integers(1 << 30))
    box = {}

    def make():
        z = zoo.BUILDERS[name](np.random.default_rng(st), **kw)
        box["z"] = z
        return z.m

    probe = zoo.BUILDERS[name](np.random.default_rng(st), **kw)
    f, W = colmap(rng, len(probe.vs), name == "convpc")
    a, b = twice(ctx, make, f)
    ctx.note(f"{name}: {probe.cfg} columns={f} of {W}")
    ctx.key(name, probe.cfg, tuple(f), W)
    ctx.count("models:" + name)
    return Pair(a, b, probe.vs, f, W, name)


def some_rows(ctx, p, n=24, missing=0.35, rows_possible=False):
    rng = ctx.rng
    X = circ.rand_data(rng, p.vs, n) if any(v.domain is None for v in p.vs) else np.stack(
        [rng.choice(v.domain, n) for v in p.vs], 1)
    if getattr(p, "support", None) is not None and rows_possible:  # evidence must have positive probability
        X = p.support[rng.integers(len(p.support), size=n)]
    M = X.copy()
    M[rng.random(M.shape) < missing] = NAN
    M[0] = NAN
    return X, M


def eq_ll(ctx, got, want, what):
    ctx.check(got.shape == want.shape, f"{what}: output shape {got.shape}, over the first columns {want.shape}")
    ctx.close(np.where(np.isneginf(got), -1e6, got), np.where(np.isneginf(want), -1e6, want), what, rtol=2e-5, atol=2e-5)


def same_ll(ctx, p, what="", a=None, b=None, rows=24):
    a, b = a or p.a, b or p.b
    X, M = some_rows(ctx, p, rows)
    for Z, nm in ((X, "complete rows"), (M, "missing values")):
        T = p.put(Z, ctx.rng)
        t = mon.tt(T)
        keep = t.clone()
        with torch.no_grad():
            got = b.log_likelihood(t).detach().numpy().astype(float)
        eq_ll(ctx, got, mon.ll(a, Z), f"{what}log-likelihood of {nm} in columns {p.f} of {p.W}")
        ctx.check(torch.equal(torch.nan_to_num(t, 7.5), torch.nan_to_num(keep, 7.5)), f"{what}log_likelihood changed its input")
        ctx.count("rows_compared", len(Z))
    # the narrowest table that holds all variables
    w = max(p.f) + 1
    eq_ll(ctx, mon.ll(b, p.put(M, ctx.rng)[:, :w]), mon.ll(a, M), f"{what}log-likelihood in the narrowest table")


def same_meta(ctx, p):
    ctx.check(set(map(int, p.b.scope.query)) == set(p.f), f"scope {sorted(p.b.scope.query)} instead of {sorted(p.f)}")
    fa, fb = p.a.feature_to_scope, p.b.feature_to_scope
    ctx.check(fa.shape == fb.shape, f"feature_to_scope shape {fb.shape} instead of {fa.shape}")
    for x, y in zip(fa.ravel(), fb.ravel()):
        ctx.check({p.f[int(q)] for q in x.query} == {int(q) for q in y.query},
                  f"feature over {sorted(y.query)}, expected {sorted(p.f[int(q)] for q in x.query)}")
    ctx.check(tuple(p.a.out_shape) == tuple(p.b.out_shape) if hasattr(p.a.out_shape, "__iter__") else str(p.a.out_shape) == str(p.b.out_shape),
              "output shape depends on the columns")


def agree_samples(ctx, p, Sa, Sb, what, base=None, N=0):
    """Sa over n columns, Sb over W columns."""
    Sa, Sb = Sa.detach().numpy().astype(float), Sb.detach().numpy().astype(float)
    ctx.check(Sb.shape[0] == Sa.shape[0], f"{what}: {Sb.shape[0]} rows instead of {Sa.shape[0]}")
    need = max(p.f) + 1
    ctx.check(Sb.shape[1] >= need, f"{what}: the table has {Sb.shape[1]} columns, variables sit in columns {p.f}")
    if base is not None:
        ctx.check(Sb.shape[1] == base.shape[1], f"{what}: table width changed from {base.shape[1]} to {Sb.shape[1]}")
        ctx.check(np.array_equal(Sb[:, p.rest], base[:, p.rest], equal_nan=True), f"{what}: wrote into columns of other variables")
    else:
        rest = [c for c in range(Sb.shape[1]) if c not in p.f]
        ctx.check(np.isnan(Sb[:, rest]).all(), f"{what}: values in columns of variables the model does not have")
    G = Sb[:, p.f]
    ctx.count("sampled_rows", len(G))
    if np.array_equal(G, Sa, equal_nan=True):
        ctx.count("seeded_draws_equal")
        return True
    ctx.count("seeded_draws_differ")
    return False


def freq(ctx, p, S, D, P, what):
    ix = mon.index_rows(D, S)
    ctx.check((ix >= 0).all(), f"{what}: value outside the domain")
    mon.chi2_cells(ctx, np.bincount(ix, minlength=len(D)), P, what)


def same_samples(ctx, p, N=300):
    rng = ctx.rng
    s = int(rng.integers(1 << 30))
    torch.manual_seed(s)
    Sa = p.a.sample(num_samples=N)
    torch.manual_seed(s)
    Sb = p.b.sample(num_samples=N)
    disc = all(v.domain for v in p.vs)
    D = P = None
    if not agree_samples(ctx, p, Sa, Sb, "sample"):
        if not disc:
            raise Skip("draw order depends on the columns and the domain is not finite")
        D = mon.domain(p.vs)
        if len(D) > 800:
            raise Skip("domain too large")
        P = np.exp(mon.ll(p.a, D)[:, 0, 0, 0])
        freq(ctx, p, p.b.sample(num_samples=3000).detach().numpy()[:, p.f].astype(float), D, P, "samples")
    with torch.no_grad():
        L = p.b.log_likelihood(Sb)
    ctx.check(bool(torch.isfinite(L[:, 0, 0]).all()), "the model's own samples have no density under it")
    # in place into a wide table
    Z = np.full((40, len(p.vs)), NAN)
    T = p.put(Z, rng)
    torch.manual_seed(s)
    Sa = p.a.sample(data=mon.tt(Z))
    torch.manual_seed(s)
    Sb = p.b.sample(data=mon.tt(T))
    agree_samples(ctx, p, Sa, Sb, "sample(data)", base=T.astype(np.float32))
    # evidence
    _, M = some_rows(ctx, p, 40, missing=0.5, rows_possible=True)
    T = p.put(M, rng)
    for mpe in (False, True):
        torch.manual_seed(s)
        Sa = p.a.sample_with_evidence(mon.tt(M), is_mpe=mpe)
        torch.manual_seed(s)
        Sb = p.b.sample_with_evidence(mon.tt(T), is_mpe=mpe)
        what = "MPE completion" if mpe else "conditional sample"
        same = agree_samples(ctx, p, Sa, Sb, what, base=mon.tt(T).numpy().astype(float))
        o = ~np.isnan(M)
        ctx.check(np.array_equal(Sb.detach().numpy()[:, p.f][o].astype(float), mon.tt(M).numpy()[o].astype(float)), f"{what}: observed value changed")
        if mpe and not same:
            la, lb = mon.ll(p.a, Sa.detach().numpy())[:, 0, 0, 0], mon.ll(p.b, Sb.detach().numpy())[:, 0, 0, 0]
            ctx.close(lb, la, "log-likelihood of the MPE completion", rtol=1e-4, atol=1e-4)
        if not mpe and not same and disc:
            D = mon.domain(p.vs)
            P = np.exp(mon.ll(p.a, D)[:, 0, 0, 0])
            row = M[1]
            sel = (D[:, ~np.isnan(row)] == row[~np.isnan(row)]).all(1)
            q = np.where(sel, P, 0)
            S = p.b.sample_with_evidence(mon.tt(p.put(np.repeat(row[None], 2000, 0), rng))).detach().numpy()[:, p.f].astype(float)
            freq(ctx, p, S, D, q / q.sum(), "conditional samples")
    if hasattr(p.b, "mpe"):
        torch.manual_seed(s)
        Sa = p.a.mpe(num_samples=2)
        torch.manual_seed(s)
        Sb = p.b.mpe(num_samples=2)
        agree_samples(ctx, p, Sa, Sb, "mpe()")


def same_marginals(ctx, p):
    rng = ctx.rng
    n = len(p.vs)
    for _ in range(2):
        drop = sorted(int(i) for i in rng.choice(n, int(rng.integers(0, n + 1)), replace=False))
        extra = [c for c in p.rest if rng.random() < 0.5]  # variables the model does not have
        prune = bool(rng.random() < 0.5)
        a = p.a.marginalize(drop, prune=prune)
        arg = [p.f[i] for i in drop] + extra
        rng.shuffle(arg)
        b = p.b.marginalize([int(c) for c in arg], prune=prune)
        ctx.check((a is None) == (b is None), f"marginalising columns {arg}: {type(b).__name__}, over the first columns {type(a).__name__}")
        ctx.count("marginal_pairs")
        if a is None:
            continue
        ctx.check({int(c) for c in b.scope.query} == {p.f[int(i)] for i in a.scope.query}, f"scope after marginalising {arg}: {sorted(b.scope.query)}")
        same_ll(ctx, p, f"after marginalising {arg}: ", a, b, rows=8)


def test_ast(ctx):
    fam = [None, ["normal", "bernoulli"], ["gamma", "exponential", "categorical"], ["poisson", "geometric", "laplace"]][int(ctx.rng.integers(4))]
    marg = ctx.rng.random() < 0.6
    _, p = ast_pair(ctx, families=fam, **(dict(ops=common.MARG_OPS) if marg else dict(multi=ctx.rng.random() < 0.4)))
    same_meta(ctx, p)
    same_ll(ctx, p)
    if marg:
        same_marginals(ctx, p)


def test_sampling(ctx):
    fam = [None, None, ["normal", "bernoulli"], ["gamma", "exponential", "categorical"]][int(ctx.rng.integers(4))]
    _, p = ast_pair(ctx, families=fam)
    same_samples(ctx, p)


def test_zoo(ctx):
    name = str(ctx.rng.choice(["rat", "einet", "convpc", "naive_bayes"]))
    p = zoo_pair(ctx, name)
    same_meta(ctx, p)
    same_ll(ctx, p)
    if int(p.a.out_shape.channels) == 1 and int(p.a.out_shape.repetitions) == 1:
        same_samples(ctx, p)
    if name == "naive_bayes":
        same_marginals(ctx, p)
    if p.a.out_shape.channels > 1 and hasattr(p.a, "log_posterior"):
        X, M = some_rows(ctx, p)
        for Z in (X, M):
            t = mon.tt(p.put(Z, ctx.rng))
            ctx.close(p.b.log_posterior(t).detach().numpy(), p.a.log_posterior(mon.tt(Z)).detach().numpy(), "class posterior", rtol=1e-4, atol=1e-4)
            ctx.check(torch.equal(p.b.predict(t), p.a.predict(mon.tt(Z))), "predicted class depends on the columns")
            ctx.count("posteriors_compared", len(Z))


def params_equal(ctx, a, b, what):
    pa, pb = dict(a.named_parameters()), dict(b.named_parameters())
    ctx.check(set(pa) == set(pb), f"{what}: different parameters")
    for k in pa:
        ctx.close(pb[k].detach().numpy(), pa[k].detach().numpy(), f"{what}: parameter {k}", rtol=2e-3, atol=2e-4)
        ctx.count("parameters_compared", pa[k].numel())


def test_learning(ctx):
    rng = ctx.rng
    if rng.random() < 0.6:
        fam = [None, ["normal", "bernoulli"], ["exponential", "categorical", "poisson"]][int(rng.integers(3))]
        _, p = ast_pair(ctx, families=fam, ops=None)
    else:
        p = zoo_pair(ctx, str(rng.choice(["rat", "einet", "convpc", "naive_bayes"])))
    from spflow.learn import expectation_maximization, train_gradient_descent

    X, M = some_rows(ctx, p, 40, missing=0.2)
    how = str(rng.choice(["em", "gd", "leaf-mle"]))
    ctx.note(how)
    T = p.put(X, rng)
    if how == "em":
        if p.a.out_shape.channels > 1:
            raise Skip("EM compared for single-output circuits")
        la = expectation_maximization(p.a, mon.tt(X), max_steps=2)
        lb = expectation_maximization(p.b, mon.tt(T), max_steps=2)
        ctx.close(lb.detach().numpy(), la.detach().numpy(), "EM log-likelihood history", rtol=1e-4, atol=1e-4)
    elif how == "gd":
        if p.a.out_shape.channels > 1:
            raise Skip("gradient descent compared for single-output circuits")
        for m, Z in ((p.a, X), (p.b, T)):
            train_gradient_descent(m, common.loader([mon.tt(Z[:20]), mon.tt(Z[20:])]), epochs=2, lr=0.01, optimizer=torch.optim.SGD(m.parameters(), lr=0.01))
    else:
        from spflow.modules.leaves.leaf import LeafModule

        for m, Z in ((p.a, X), (p.b, T)):
            for q in m.modules():
                if isinstance(q, LeafModule):
                    q.maximum_likelihood_estimation(mon.tt(Z))
    params_equal(ctx, p.a, p.b, how)
    same_ll(ctx, p, f"after {how}: ")


def test_structure(ctx):
    """Structure learners asked for a model of some columns of a wider table."""
    rng = ctx.rng
    from spflow.meta.data.scope import Scope
    from spflow.modules.leaves import Bernoulli, CLTree

    n = int(rng.integers(2, 6))
    f, W = colmap(rng, n, False)
    how = str(rng.choice(["learn_spn", "prometheus", "cnet", "cltree"]))
    K = 2 if how in ("learn_spn", "prometheus") else int(rng.integers(2, 4))
    vs = [circ.Var("categorical", K=K) if K > 2 or how in ("cnet", "cltree") else circ.Var("bernoulli") for _ in range(n)]
    X = zoo.rand_table_data(rng, vs, int(rng.integers(60, 160)))
    X[:2] = [[0] * n, [1] * n]
    p = Pair(None, None, vs, f, W, how)
    fill = str(rng.choice(["huge0", "frac"] if how == "cnet" else ["nan", "rand", "frac"]))  # learn_cnet demands complete tables
    T = p.put(X, rng, fill=fill)
    s = int(rng.integers(1 << 30))
    ctx.note(f"{how} n={n} K={K} columns={f} of {W}")
    ctx.key(how, n, K, tuple(f), W)

    def run(Z, cols):
        torch.manual_seed(s)
        r = np.random.default_rng(s)
        if how == "learn_spn":
            from spflow.learn.learn_spn import learn_spn

            def part(d):
                k = d.shape[1]
                if k > 1 and r.random() < 0.5:
                    y = torch.as_tensor(r.integers(0, 2, k))
                    y[0], y[-1] = 0, 1
                    return y
                return torch.zeros(k, dtype=torch.int)

            return learn_spn(mon.tt(Z), leaf_modules=Bernoulli(scope=cols, out_channels=1), out_channels=1, min_instances_slice=30,
                             clustering_method=_byvalue, partitioning_method=part)
        if how == "prometheus":
            from spflow.learn.prometheus import learn_prometheus

            return learn_prometheus(mon.tt(Z), leaf_modules=Bernoulli(scope=cols, out_channels=1), out_channels=1, min_instances_slice=30,
                                    clustering_method=_byvalue)
        if how == "cnet":
            from spflow.learn.cnet import learn_cnet

            return learn_cnet(mon.tt(Z), cardinalities=K if s % 2 else [K] * Z.shape[1], scope=Scope(cols), cond="naive_mle", min_instances_slice=20,
                              min_features_slice=1 + s % 2, alpha=0.3, seed=s)
        m = CLTree(scope=cols, out_channels=1, K=K, alpha=0.3)
        m.maximum_likelihood_estimation(mon.tt(Z))
        return m

    # `sorted` columns: learners may order the variables of a scope
    if how in ("learn_spn", "prometheus") or rng.random() < 0.5:
        p.f = f = sorted(f)
        T = p.put(X, rng, fill=fill)
    p.a = zoo.joint(run(X, list(range(n))))
    p.b = zoo.joint(run(T, list(f)))
    p.support = X
    same_ll(ctx, p, f"{how}: ")
    same_samples(ctx, p, N=60)


def _byvalue(d, n_clusters=2):
    y = (d[:, 0] > 0).long()
    return y


def test_measures(ctx):
    rng = ctx.rng
    from spflow.measures import conditional_mutual_information, conditional_probability, entropy, mutual_information

    _, p = ast_pair(ctx, families=["bernoulli", "categorical"], n=int(rng.integers(2, 5)))
    n = len(p.vs)
    s = int(rng.integers(1 << 20))
    perm = [int(i) for i in rng.permutation(n)]
    x, y, z = perm[:1], perm[1:2], perm[2:3]
    g = lambda S: [p.f[i] for i in S]
    jobs = [("entropy", lambda m, h, k: entropy(m, h(perm[:max(1, n - 1)]), **k)), ("mutual information", lambda m, h, k: mutual_information(m, h(x), h(y), **k))]
    if z:
        jobs.append(("conditional mutual information", lambda m, h, k: conditional_mutual_information(m, h(x), h(y), h(z), **k)))
    for nm, job in jobs:
        for k in ({"method": "exact"}, {"method": "mc", "num_samples": 400, "seed": s}):
            va, vb = float(job(p.a, lambda S: S, k)), float(job(p.b, g, k))
            if k["method"] == "exact":
                ctx.close(vb, va, f"{nm} over columns {p.f}", rtol=1e-4, atol=1e-5)
            else:
                ctx.check(np.isfinite(vb), f"Monte Carlo {nm} over columns {p.f} is {vb}")
                ctx.check(abs(vb - va) < 0.75, f"Monte Carlo {nm} over columns {p.f}: {vb}, over the first columns {va}")
            ctx.count("measures_compared")
    X = np.stack([rng.choice(v.domain, 6) for v in p.vs], 1)
    E = X.copy()
    E[:, perm[0]] = NAN
    if n > 2:
        E[:, perm[2]] = NAN
    va = conditional_probability(p.a, y_index=perm[0], y_value=float(X[0, perm[0]]), evidence=mon.tt(E))
    vb = conditional_probability(p.b, y_index=p.f[perm[0]], y_value=float(X[0, perm[0]]), evidence=mon.tt(p.put(E, rng)))
    ctx.close(vb.detach().numpy(), va.detach().numpy(), "conditional probability", rtol=1e-4, atol=1e-5)


def test_squares(ctx):
    rng = ctx.rng
    from spflow.modules.sos import SOCS
    from spflow.utils.inner_product import inner_product_matrix, log_self_inner_product_scalar

    node, p = ast_pair(ctx, families=["bernoulli", "categorical", "normal"] if rng.random() < 0.5 else None, n=int(rng.integers(2, 4)), R=1,
                       ops=["leafn", "sum", "prod", "cat1"])
    ctx.close(inner_product_matrix(p.b, p.b).detach().numpy(), inner_product_matrix(p.a, p.a).detach().numpy(), "inner products", rtol=1e-4, atol=1e-6)
    ctx.close(float(log_self_inner_product_scalar(p.b)), float(log_self_inner_product_scalar(p.a)), "log self inner product", rtol=1e-4, atol=1e-4)
    ctx.count("inner_products_compared", 2)
    a, b = SOCS([p.a]), SOCS([p.b])
    q = Pair(a, b, p.vs, p.f, p.W, "socs")
    same_ll(ctx, q, "SOCS: ")
    ctx.check({int(c) for c in b.scope.query} == set(p.f), "SOCS scope")
    s = int(rng.integers(1 << 30))
    Z = np.full((12, len(p.vs)), NAN)
    T = q.put(Z, rng, fill="nan")  # observed columns are evidence, which SOCS refuses
    for what, fa, fb, base in (("SOCS sample", lambda: a.sample(num_samples=12), lambda: b.sample(num_samples=12), None),
                               ("SOCS sample(data)", lambda: a.sample(data=mon.tt(Z)), lambda: b.sample(data=mon.tt(T)), T)):
        torch.manual_seed(s)
        Sa = fa()
        torch.manual_seed(s)
        Sb = fb()
        agree_samples(ctx, q, Sa, Sb, what, base=base)
        ctx.check(np.isfinite(mon.ll(b, Sb.detach().numpy())).all(), f"{what}: draws of zero density")


FAMILIES = [
    Family("circuits", test_ast, quick=60, thorough=1500, timeout=60),
    Family("sampling", test_sampling, quick=40, thorough=900, timeout=60),
    Family("architectures", test_zoo, quick=36, thorough=700, timeout=90),
    Family("learning", test_learning, quick=36, thorough=700, timeout=90),
    Family("structure", test_structure, quick=24, thorough=400, timeout=90),
    Family("measures", test_measures, quick=16, thorough=300, timeout=60),
    Family("squares", test_squares, quick=12, thorough=200, timeout=60),
]
