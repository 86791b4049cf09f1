"""C06: conditional samples keep the evidence and follow the conditional distribution."""
import numpy as np

from spmon import circ, mon
from spmon.runner import Family, Skip
from spmon.checks import common

PID = "C06"
RULE = "distinct = distinct circuit signature / zoo configuration; every case conditions on several evidence rows mixed in one batch"
ASSUMPTIONS = ["chi-square against the exact conditional obtained by enumeration, alarm at p < 1e-10 or on any impossible draw; "
               "KS at p < 1e-10 for continuous variables"]


def _draw(ctx, m):
    """The documented ways of asking for a conditional sample."""
    from spflow.utils.cache import Cache

    k = int(ctx.rng.integers(0, 4))
    ctx.count(["via:sample_with_evidence", "via:sample(data)", "via:own cache", "via:sample_with_evidence+cache"][k])
    if k == 0:
        return lambda d: m.sample_with_evidence(d)
    if k == 1:
        return lambda d: m.sample(data=d)
    if k == 2:
        def f(d):
            c = Cache()
            m.log_likelihood(d, cache=c)
            return m.sample(data=d, cache=c)
        return f
    return lambda d: m.sample_with_evidence(d, cache=Cache())


def f_ast(ctx):
    node, m, vs = common.ast(ctx, sampleable=True)
    mon.check_cond_samples(ctx, m, vs, ctx.rng, what="random circuit", rows=4, N=4000 if ctx.tier == "quick" else 12000,
                           draw=_draw(ctx, m))


def f_slots(ctx):
    node, vs = circ.random_multi(ctx.rng)
    ctx.note(node.describe()[:300])
    ctx.key("slots", node.sig())
    mon.check_slot_cond(ctx, node.build(), vs, ctx.rng, what="multi-output circuit", slots=4,
                        N=4000 if ctx.tier == "quick" else 12000)


def f_mixed(ctx):
    """Evidence on some variables of a mixed circuit; one free variable is compared with its conditional."""
    rng = ctx.rng
    fams = circ.CONTINUOUS + ["bernoulli", "categorical", "binomial"]
    node, vs = circ.random_circuit(rng, n=int(rng.integers(2, 6)), families=fams, sampleable=True)
    ctx.note(f"{vs} {node.describe()[:300]}")
    ctx.key("mixed", node.sig())
    m = node.build()
    n = len(vs)
    rows, per = 3, 1500 if ctx.tier == "quick" else 5000
    base = circ.rand_data(rng, vs, rows)
    for i in range(rows):
        miss = rng.random(n) < 0.5
        if not miss.any():
            miss[rng.integers(n)] = True
        if miss.all():
            miss[rng.integers(n)] = False
        base[i, miss] = np.nan
    base = mon.tt(base).numpy().astype(float)
    owner = rng.permutation(np.repeat(np.arange(rows), per))
    E = base[owner]
    S = _draw(ctx, m)(mon.tt(E.copy())).detach().numpy().astype(float)
    o = ~np.isnan(E)
    ctx.check((S[o] == E[o]).all(), "conditional sampling changed an observed value")
    ctx.check(np.isfinite(S).all(), "conditional samples contain missing or infinite values")
    for r in range(rows):
        s = S[owner == r]
        for t in np.where(np.isnan(base[r]))[0]:
            v = vs[t]
            ctx.count("conditionals_tested")
            if v.domain:
                X = np.repeat(base[r][None], len(v.domain), 0)
                X[:, t] = v.domain
                L = mon.ll(m, X)[:, 0, 0, 0]
                ix = np.array([v.domain.index(q) if q in v.domain else -1 for q in s[:, t]])
                ctx.check((ix >= 0).all(), "conditional sample outside domain")
                mon.chi2_cells(ctx, np.bincount(ix, minlength=len(L)), np.exp(L - mon.lse(L)),
                               f"variable {t} given {base[r].round(3).tolist()}", tinyp=0)
            else:
                x, c = mon.cond_cdf(m, vs, t, base[r])
                mon.ks_check(ctx, s[:, t], x, c, f"variable {t} ({v.kind}) given {base[r].round(3).tolist()}")


def f_rare(ctx):
    """Evidence that contradicts the prior: only a low-weight component explains it."""
    import torch
    from spflow.modules.products import Product
    from spflow.modules.sums import Sum
    from spmon import leafref as lr
    from spmon.circ import Var, t

    rng = ctx.rng
    n, C = int(rng.integers(2, 5)), int(rng.integers(2, 5))
    p = np.where(rng.random((n, C, 1)) < 0.5, 1e-4, 1 - 1e-4)
    w = np.full((1, C, 1, 1), 1e-3)
    w[0, 0] = 1 - 1e-3 * (C - 1)
    m = Sum(inputs=Product(inputs=lr.build("bernoulli", list(range(n)), {"probs": p})), weights=t(w))
    vs = [Var("bernoulli") for _ in range(n)]
    ctx.note(f"rare evidence n={n} components={C}")
    ctx.key("rare", p.tobytes())
    mon.check_cond_samples(ctx, m, vs, rng, rows=4, N=4000, what="low-weight component", draw=_draw(ctx, m))
    k = int(rng.integers(1, C))
    e = np.round(p[:, k, 0])
    free = int(rng.integers(n))
    e[free] = np.nan
    S = _draw(ctx, m)(mon.tt(np.repeat(e[None], 3000, 0))).detach().numpy()[:, free]
    X = np.repeat(e[None], 2, 0)
    X[:, free] = [0, 1]
    L = mon.ll(m, X)[:, 0, 0, 0]
    mon.chi2_cells(ctx, np.bincount(S.astype(int), minlength=2), np.exp(L - mon.lse(L)), "low-weight component", tinyp=0)


def f_jointll(ctx):
    """Several blocks of variables behind one joint log-likelihood: evidence in a block conditions the rest of it."""
    from spflow.modules.ops import Cat
    from spflow.modules.products import Product
    from spflow.modules.sums import Sum
    from spflow.zoo.cms.joint import JointLogLikelihood
    from spmon import leafref as lr
    from spmon.circ import Var, t

    rng = ctx.rng
    blocks, off = [], 0
    for _ in range(int(rng.integers(2, 4))):
        n, C = int(rng.integers(1, 4)), int(rng.integers(2, 4))
        p = rng.uniform(0.03, 0.97, (n, C, 1))
        leaves = lr.build("bernoulli", list(range(off, off + n)), {"probs": p})
        blocks.append(Sum(inputs=Product(inputs=leaves), weights=t(rng.dirichlet(np.ones(C)).reshape(1, C, 1, 1))))
        off += n
    m = JointLogLikelihood(Cat(blocks, dim=1))
    ctx.note(f"blocks of {[len(b.scope.query) for b in blocks]} variables")
    ctx.key("jointll", tuple(len(b.scope.query) for b in blocks), tuple(b.in_shape.channels for b in blocks))
    vs = [Var("bernoulli") for _ in range(off)]
    mon.check_cond_samples(ctx, m, vs, rng, rows=4, N=4000, what="joint log-likelihood", draw=_draw(ctx, m))


def f_full(ctx):
    """Nothing missing: the call returns the evidence; everything missing: it equals unconditional sampling."""
    node, m, vs = common.ast(ctx, sampleable=True)
    D = mon.domain(vs)
    L = mon.ll(m, D)[:, 0, 0, 0]
    pos = D[L > -60]
    X = pos[ctx.rng.integers(0, len(pos), 20)]
    S = _draw(ctx, m)(mon.tt(X.copy())).detach().numpy()
    ctx.check((S == X).all(), "fully observed rows were changed")
    mon.check_samples(ctx, m, vs, D=D, p=np.exp(L), what="fully missing evidence", N=2500,
                      draw=lambda N: _draw(ctx, m)(mon.tt(np.full((N, len(vs)), np.nan))))


def _zoo(name, **kw):
    def f(ctx):
        z = common.model(ctx, name, **kw)
        N = 4000 if ctx.tier == "quick" else 12000
        if name in ("cltree", "cltmix", "cnet"):  # row-wise tree inference is slow
            N = 1200 if ctx.tier == "quick" else 5000
        size = 1
        for v in z.vs:
            size *= len(v.domain)
        if size > 5000:
            return _big(ctx, z)
        mon.check_cond_samples(ctx, z.m, z.vs, ctx.rng, what=name, rows=4, N=N, draw=_draw(ctx, z.m))
    return f


def _big(ctx, z):
    """Large domain: few missing variables, so the conditional can be enumerated."""
    import itertools

    rng = ctx.rng
    n = len(z.vs)
    seedrows = z.m.sample(num_samples=4).detach().numpy().astype(float)
    rows, per, free = [], 900, []
    for r in seedrows:
        k = int(rng.integers(2, 8))
        mi = np.sort(rng.choice(n, k, replace=False))
        r = r.copy()
        r[mi] = np.nan
        rows.append(r)
        free.append(mi)
    owner = rng.permutation(np.repeat(np.arange(4), per))
    E = np.array(rows)[owner]
    S = _draw(ctx, z.m)(mon.tt(E.copy())).detach().numpy().astype(float)
    o = ~np.isnan(E)
    ctx.check((S[o] == E[o]).all(), f"{z.name}: conditional sampling changed an observed value")
    for i in range(4):
        D = np.array(list(itertools.product(*[z.vs[j].domain for j in free[i]])))
        X = np.repeat(rows[i][None], len(D), 0)
        X[:, free[i]] = D
        L = mon.ll(z.m, X)[:, 0, 0, 0]
        ix = mon.index_rows(D, S[owner == i][:, free[i]])
        ctx.check((ix >= 0).all(), f"{z.name}: conditional sample outside the domain")
        ctx.count("conditionals_tested")
        mon.chi2_cells(ctx, np.bincount(ix, minlength=len(D)), np.exp(L - mon.lse(L)), f"{z.name}: free variables {free[i].tolist()}")


FAMILIES = [
    Family("ast", f_ast, 500, 5000),
    Family("slots", f_slots, 300, 3000),
    Family("mixed", f_mixed, 90, 900),
    Family("rare", f_rare, 30, 400),
    Family("full", f_full, 40, 500),
    Family("jointll", f_jointll, 20, 250),
] + [Family(k, _zoo(k), q, t) for k, q, t in [
    ("masked", 100, 1500),     ("rat", 90, 900), ("einet", 120, 1200), ("convpc", 28, 250), ("hclt", 24, 200), ("cltmix", 16, 120), ("cltree", 40, 300), ("naive_bayes", 30, 300),
    ("cnet", 30, 300), ("learn_spn", 16, 150), ("prometheus", 8, 80), ("cms", 8, 60)]] + [Family("sumconv", _zoo("convpc", sum_conv=True), 40, 300)]
