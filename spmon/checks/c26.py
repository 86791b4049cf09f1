"""C26: differentiable sampling draws from the same distribution, and leaf-parameter records name the parameters used."""
import numpy as np
from scipy import special

from spmon import circ, leafref as lr, mon
from spmon.circ import Var, t
from spmon.runner import Family, Skip
from spmon.checks import common

PID = "C26"
RULE = "distinct = distinct circuit signature / zoo configuration / leaf parameters"
ASSUMPTIONS = [
    "chi-square / KS with alarm at p < 1e-10 against exact enumeration or the leaf's own distribution function",
    "binomial leaves use the SIMPLE method; the normal approximation (the documented default) is only checked for support and moments",
    "straight-through outputs may differ from the drawn value by rounding (1e-3)",
    "gradient of a near-deterministic one-level mixture is compared with the temperature-tau softmax relaxation",
]


def _simple(m):
    from spflow.modules.leaves.binomial import BinomialDifferentiableSamplingMethod as B

    for q in m.modules():
        if type(q).__name__ == "Binomial":
            q.differentiable_sampling_method = B.SIMPLE
    return m


def _oh(ix, K):
    return np.eye(K)[np.asarray(ix)]


def ctx_for(m, chan, rep, diff, is_mpe=False, tau=1.0, rec=False):
    """Explicit routing request: chan (B, F) and rep (B,), hard indices."""
    import torch
    from spflow.utils.sampling_context import SamplingContext

    F, C, R = m.out_shape.features, m.out_shape.channels, m.out_shape.repetitions
    if diff:
        return SamplingContext(channel_index=t(_oh(chan, C)), repetition_index=t(_oh(rep, R)), is_mpe=is_mpe, is_differentiable=True,
                               tau=tau, return_leaf_params=rec)
    return SamplingContext(channel_index=torch.as_tensor(chan), repetition_index=torch.as_tensor(rep), is_mpe=is_mpe,
                           return_leaf_params=rec)


def draw(m, data, chan=None, rep=None, diff=True, is_mpe=False, tau=1.0, rec=False, evidence=True):
    from spflow.utils.cache import Cache

    B = len(data)
    F = m.out_shape.features
    chan = np.zeros((B, F), dtype=np.int64) if chan is None else chan
    rep = np.zeros(B, dtype=np.int64) if rep is None else rep
    sc = ctx_for(m, chan, rep, diff, is_mpe, tau, rec)
    c = Cache()
    if evidence:
        m.log_likelihood(data.clone(), cache=c)
    S = m._sample(data=data, sampling_ctx=sc, cache=c)
    return (S, sc) if rec else S


def hard(ctx, S, what):
    """Straight-through outputs -> drawn values (only for discrete models)."""
    S = S.detach().cpu().numpy().astype(float)
    H = np.rint(S)
    ctx.check(np.isfinite(S).all(), f"{what}: differentiable samples contain missing or non-finite values")
    ctx.check(np.abs(S - H).max(initial=0) < 1e-3, f"{what}: differentiable samples of discrete variables are not (almost) discrete")
    return H


def _tau(ctx):
    return float(ctx.rng.choice([0.1, 0.5, 1.0, 1.0, 3.0]))


class _D:
    """Array standing in for a drawn tensor (already rounded)."""

    def __init__(self, a):
        self.a = a

    def detach(self):
        return self

    cpu = detach

    def numpy(self):
        return self.a


def _sd(ctx, m, tau, what):
    def f(data):
        if isinstance(data, (int, np.integer)):
            data = mon.tt(np.full((int(data), m_width), np.nan))
            return _D(hard(ctx, draw(m, data, tau=tau, evidence=False), what))
        return _D(hard(ctx, draw(m, data, tau=tau), what))

    m_width = len(m.scope.query)
    return f


def f_ast(ctx):
    """Random discrete circuits: unconditional and conditional differentiable samples follow the model."""
    node, m, vs = common.ast(ctx, sampleable=True)
    _simple(m)
    tau = _tau(ctx)
    f = _sd(ctx, m, tau, "differentiable sample")
    mon.check_samples(ctx, m, vs, what="differentiable sample", draw=f)
    mon.check_cond_samples(ctx, m, vs, ctx.rng, what="differentiable conditional sample", draw=f, rows=3, N=3000)


def f_zoo(ctx):
    name = ["rat", "einet", "convpc", "learn_spn"][ctx.idx % 4]
    z = common.model(ctx, name)
    if z.m.out_shape.channels != 1 or getattr(z.m, "num_classes", 1) > 1 or getattr(z.m, "n_root_nodes", 1) > 1:
        raise Skip("several classes")
    if len(list(mon.domain(z.vs))) > common.DOMAIN_CAP:
        raise Skip("domain larger than the enumeration cap")
    m = _simple(z.m)
    if any(type(q).__name__ == "CLTree" for q in m.modules()):
        raise Skip("CLTree leaves reject differentiable sampling")
    f = _sd(ctx, m, _tau(ctx), name)
    mon.check_samples(ctx, m, z.vs, what=f"differentiable {name}", draw=f, N=2500)
    mon.check_cond_samples(ctx, m, z.vs, ctx.rng, what=f"differentiable conditional {name}", draw=f, rows=3, N=2400)


def f_slots(ctx):
    """Different output slots requested in one differentiable batch."""
    rng = ctx.rng
    node, vs = circ.random_multi(rng)
    size = int(np.prod([len(v.domain) for v in vs]))
    if size > common.DOMAIN_CAP:
        raise Skip("domain larger than the enumeration cap")
    ctx.note(f"{vs} {node.describe()[:400]}")
    ctx.key("slots", node.sig())
    m = _simple(node.build())
    D = mon.domain(vs)
    L = mon.ll(m, D)
    _, F, C, R = L.shape
    slots, per = 3, 800
    chans = [rng.integers(0, C, F) for _ in range(slots)]
    reps = [int(rng.integers(0, R)) for _ in range(slots)]
    owner = rng.permutation(np.repeat(np.arange(slots), per))
    ch = np.array([chans[o] for o in owner], dtype=np.int64)
    rp = np.array([reps[o] for o in owner], dtype=np.int64)
    ev = rng.random(len(vs)) < 0.4
    X = D[rng.integers(0, len(D), slots)].copy()
    X[:, ~ev] = np.nan
    base = X[owner]
    S = hard(ctx, draw(m, mon.tt(base.copy()), ch, rp, tau=_tau(ctx)), "slots")
    ctx.check((S[:, ev] == base[:, ev]).all(), "differentiable conditional sampling changed an observed value")
    for o in range(slots):
        p = np.exp(sum(L[:, f, chans[o][f], reps[o]] for f in range(F)))
        p = np.where((D[:, ev] == X[o][ev]).all(1), p, 0.0)
        if p.sum() < 1e-12:
            continue
        ix = mon.index_rows(D, S[owner == o])
        ctx.check((ix >= 0).all(), "differentiable sample outside the domain")
        ctx.count("slots_sampled")
        mon.chi2_cells(ctx, np.bincount(ix, minlength=len(D)), p / p.sum(),
                       f"differentiable slot channels={chans[o].tolist()} repetition={reps[o]} evidence={X[o].tolist()}")


def f_mixed(ctx):
    """Continuous / count leaves inside a circuit: KS and chi2 per variable given evidence."""
    rng = ctx.rng
    node, vs = circ.random_circuit(rng, n=int(rng.integers(2, 4)), sampleable=True, families=circ.DISCRETE + circ.CONTINUOUS + circ.COUNTS)
    ctx.note(f"{vs} {node.describe()[:400]}")
    ctx.key("mixed", node.sig())
    m = _simple(node.build())
    # a plausible base row, observed values from the model itself
    x0 = mon.tt(np.full((1, len(vs)), np.nan))
    row = m.sample(data=x0).detach().numpy()[0].astype(float)
    k = int(rng.integers(len(vs)))
    miss = rng.random(len(vs)) < 0.5
    miss[k] = True
    row[miss] = np.nan
    N = 3000
    row = mon.tt(row[None]).numpy()[0].astype(float)
    E = np.repeat(row[None], N, 0)
    S = draw(m, mon.tt(E.copy()), tau=_tau(ctx)).detach().numpy().astype(float)
    ctx.check(np.isfinite(S).all(), "differentiable samples contain missing or non-finite values")
    ctx.check((S[:, ~miss] == E[:, ~miss]).all(), "differentiable conditional sampling changed an observed value")
    for q in np.where(miss)[0]:
        v = vs[q]
        s = S[:, q]
        ctx.count("conditionals_tested")
        if v.domain or v.kind in circ.COUNTS:
            s = hard(ctx, mon.tt(s), v.kind)
            dom = np.array(v.domain if v.domain else np.arange(0, max(60, s.max() + 30)))
            X = np.repeat(row[None], len(dom), 0)
            X[:, q] = dom
            L = mon.ll(m, X)[:, 0, 0, 0]
            ctx.check((s >= 0).all() and (s <= dom[-1]).all(), "differentiable sample outside the domain")
            mon.chi2_cells(ctx, np.bincount(s.astype(int), minlength=len(L)), np.exp(L - mon.lse(L)),
                           f"differentiable {v.kind} variable {q} given {row.round(3).tolist()}", allow=2)
        else:
            x, c = mon.cond_cdf(m, vs, q, row)
            mon.ks_check(ctx, s, x, c, f"differentiable {v.kind} variable {q} given {row.round(3).tolist()}")


LEAVES = ["bernoulli", "categorical", "binomial", "geometric", "negbin", "poisson", "hypergeometric", "normal", "laplace", "lognormal",
          "exponential", "gamma", "uniform"]


def _rand_leaf(rng, kind, shape):
    K = int(rng.integers(2, 5)) if kind == "categorical" else None
    tot = int(rng.integers(1, 6)) if kind in ("binomial", "negbin") else None
    p = lr.rand_params(kind, rng, shape, K=K, total=tot)
    if rng.random() < 0.5:  # channels far apart: truncated supports must fit the widest of them
        f32 = lambda a: np.asarray(a, np.float32).astype(float)
        if kind == "geometric":
            p["probs"] = f32(np.where(rng.random(shape) < 0.5, rng.uniform(0.04, 0.1, shape), rng.uniform(0.9, 0.98, shape)))
        elif kind == "poisson":
            p["rate"] = f32(np.where(rng.random(shape) < 0.5, rng.uniform(0.05, 0.5, shape), rng.uniform(40, 90, shape)))
        elif kind == "negbin":
            p["probs"] = f32(np.where(rng.random(shape) < 0.5, rng.uniform(0.02, 0.1, shape), rng.uniform(0.85, 0.93, shape)))
    return p, K, tot


def _pit(ctx, kind, x, p, rng):
    """Randomised probability integral transform of x under parameters p (element-wise)."""
    hi = lr.cdf(kind, x, p) if kind in CONT else _dcdf(kind, x, p)
    if kind in CONT:
        return hi
    lo = _dcdf(kind, x - 1, p)
    return lo + rng.random(x.shape) * (hi - lo)


CONT = {"normal", "laplace", "lognormal", "exponential", "gamma", "uniform"}


def _dcdf(kind, x, p):
    out = np.zeros(x.shape)
    m = int(max(x.max(), 0))
    for k in range(0, m + 1):
        out += np.where(k <= x, np.exp(lr.logpdf(kind, np.full(x.shape, float(k)), p)), 0.0)
    return np.minimum(out, 1.0)


def _sel(p, f, c, r):
    return {k: v[f, c, r] for k, v in p.items()}


def f_leaf(ctx):
    """Each leaf family's differentiable sampler, all channels and repetitions mixed in one batch."""
    rng = ctx.rng
    kind = LEAVES[ctx.idx % len(LEAVES)]
    F, C, R = int(rng.integers(1, 3)), int(rng.integers(1, 4)), int(rng.integers(1, 3))
    p, K, tot = _rand_leaf(rng, kind, (F, C, R))
    ctx.note(f"{kind} F={F} C={C} R={R} {({k: v.tolist() for k, v in p.items()})}"[:400])
    ctx.key("leaf", kind, *[v.tobytes() for v in p.values()])
    ctx.count("leaf:" + kind)
    m = _simple(lr.build(kind, list(range(F)), p))
    N = 3000
    ch, rp = rng.integers(0, C, (N, F)), rng.integers(0, R, N)
    S, sc = draw(m, mon.tt(np.full((N, F), np.nan)), ch, rp, tau=_tau(ctx), rec=True)
    x = S.detach().numpy().astype(float)
    ctx.check(np.isfinite(x).all(), f"{kind}: differentiable samples contain missing or non-finite values")
    if kind not in CONT:
        x = hard(ctx, S, kind)
        ctx.check((x >= 0).all(), f"{kind}: differentiable sample outside the domain")
    grid = np.linspace(0, 1, 5)
    for f in range(F):
        for c in range(C):
            for r in range(R):
                rows = (ch[:, f] == c) & (rp == r)
                if rows.sum() < 100:
                    continue
                q = _sel(p, f, c, r)
                q = {k: np.asarray(v)[None] for k, v in q.items()}
                u = _pit(ctx, kind, x[rows, f], q, rng)
                mon.ks_check(ctx, u, grid, grid, f"differentiable {kind} feature {f} channel {c} repetition {r}", slack=5e-3)
    _records(ctx, m, [(m, kind, list(range(F)))], S, sc, np.full((N, F), np.nan), rng)
    # gradients reach the leaf parameters
    if S.requires_grad:
        g = [q for q in m.parameters()]
        S.sum().backward()
        ctx.check(all(q.grad is None or np.isfinite(q.grad.numpy()).all() for q in g), f"{kind}: non-finite gradient through a differentiable sample")
        if kind in ("normal", "laplace"):
            cnt = np.zeros((F, C, R))
            np.add.at(cnt, (np.tile(np.arange(F), (N, 1)), ch, np.tile(rp[:, None], (1, F))), 1.0)
            got = m.loc.grad.numpy()
            ctx.close(got, cnt, "gradient of samples w.r.t. the location of the component that generated them", 1e-3, 1e-3)


def _ref_params(kind, rec):
    P = {k: v.detach().numpy().astype(float) for k, v in rec.params.items()}
    if kind == "categorical":
        return {"probs": special.softmax(P["logits"], -1)}
    if "logits" in P:
        P["probs"] = special.expit(P.pop("logits"))
    P.pop("log_scale", None)
    return P


def _records(ctx, m, leaves, S, sc, E, rng, what="records"):
    """Every generated entry is covered by exactly one record, whose parameters explain the drawn values."""
    recs = sc.leaf_param_records()
    x = S.detach().numpy().astype(float)
    cover = np.zeros(x.shape)
    by = {id(l): (l, kind, cols) for l, kind, cols in leaves}
    us = {}
    for rec in recs:
        ctx.check(rec.leaf_id in by, f"{what}: record of an unknown leaf")
        l, kind, cols = by[rec.leaf_id]
        ctx.check(rec.leaf_type == type(l).__name__, f"{what}: leaf type {rec.leaf_type}")
        ctx.check(list(rec.scope_cols) == cols, f"{what}: columns {rec.scope_cols} vs {cols}")
        A = rec.active_mask.numpy()
        ctx.check(A.shape == (len(x), len(cols)), f"{what}: mask shape")
        cover[:, cols] += A
        if not A.any():
            continue
        P = _ref_params(kind, rec)
        true = {k: v.detach().numpy() for k, v in l.params().items()}
        for k, v in rec.params.items():
            ctx.check(v.shape[:2] == A.shape, f"{what}: shape of recorded {k}")
            if k in true:
                # each recorded parameter is one of the leaf's own channels/repetitions
                tv = true[k]
                vv = v.detach().numpy()
                tail = tv.shape[3:]
                cand = tv.reshape(tv.shape[0], -1, *tail)
                for f in range(len(cols)):
                    with np.errstate(invalid="ignore"):
                        d = np.where(vv[:, f][:, None] == cand[f][None], 0.0, np.abs(vv[:, f][:, None] - cand[f][None]))
                    d = d.reshape(d.shape[0], d.shape[1], -1).max(-1).min(1)
                    ctx.check((d[A[:, f]] <= 1e-3 * (1 + np.abs(tv).max())).all(), f"{what}: recorded {k} of {kind} is none of the leaf's parameters")
        if kind in ("hist",):
            continue
        Q = {k: v[A] for k, v in P.items()}
        xv = x[:, cols][A]
        if kind not in CONT:
            xv = np.rint(xv)
        lp = lr.logpdf(kind, xv, Q) if kind != "uniform" else np.zeros(len(xv))
        if sc.is_mpe and kind == "gamma":
            lp = np.where(xv == 0, 0.0, lp)  # the mode sits on the open end of the support for concentration <= 1
        ctx.check(np.isfinite(lp).all(), f"{what}: drawn value impossible under the recorded {kind} parameters")
        us.setdefault(kind, []).append(_pit(ctx, kind, xv, Q, rng))
        ctx.count("records")
        ctx.count("record_entries", int(A.sum()))
    ctx.check((cover == np.isnan(E)).all(), f"{what}: records do not cover exactly the generated entries "
              f"(max {int(cover.max())} records per entry, {int((np.isnan(E) & (cover == 0)).sum())} uncovered, "
              f"{int(((cover > 0) & ~np.isnan(E)).sum())} observed entries covered)")
    ctx.count("verdict_entries", int(np.isnan(E).sum()))
    return us


def _leaves(node):
    return [(q.build(), q.p["kind"], list(q.p["cols"])) for q in node.walk() if q.op == "leaf"]


FAMS = ["bernoulli", "categorical", "binomial", "normal", "laplace", "lognormal", "exponential", "gamma", "poisson", "geometric", "negbin"]


def f_fewrows(ctx):
    """Records of tiny batches whose size coincides with other axes."""
    rng = ctx.rng
    kind = ["categorical", "categorical", "normal", "binomial"][ctx.idx % 4]
    F, C, R = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    p, K, tot = _rand_leaf(rng, kind, (F, C, R))
    ctx.key("fewrows", kind, *[v.tobytes() for v in p.values()])
    m = _simple(lr.build(kind, list(range(F)), p))
    for N in range(1, 5):
        for diff in (False, True):
            ch, rp = rng.integers(0, C, (N, F)), rng.integers(0, R, N)
            E = np.full((N, F), np.nan)
            S, sc = draw(m, mon.tt(E.copy()), ch, rp, diff=diff, rec=True)
            (rec,) = sc.leaf_param_records()
            P = _ref_params(kind, rec)
            for k, v in p.items():
                want = np.stack([v[np.arange(F), ch[i], rp[i]] for i in range(N)])
                ctx.close(P[k], want, f"{kind} batch of {N}: recorded {k}", 1e-3, 1e-3)
            _records(ctx, m, [(m, kind, list(range(F)))], S, sc, E, rng)


def f_records(ctx):
    """return_leaf_params through whole circuits, both modes: unconditional, conditional, MPE."""
    import torch

    rng = ctx.rng
    multi = rng.random() < 0.4
    node, vs = (circ.random_multi(rng, families=FAMS) if multi
                else circ.random_circuit(rng, families=FAMS, sampleable=True, n=int(rng.integers(2, 6))))
    ctx.note(f"{vs} {node.describe()[:400]}")
    ctx.key("rec", node.sig())
    m = _simple(node.build())
    N = 1500
    F, C, R = m.out_shape.features, m.out_shape.channels, m.out_shape.repetitions
    ch, rp = rng.integers(0, C, (N, F)), rng.integers(0, R, N)
    X = m.sample(num_samples=N).detach().numpy().astype(float) if not multi else circ.rand_data(rng, vs, N)
    X = mon.tt(X).numpy().astype(float)
    miss = rng.random((N, len(vs))) < float(rng.choice([1.0, 0.5, 0.2]))
    E = np.where(miss, np.nan, X)
    diff = rng.random() < 0.5
    mode = ["sample", "mpe"][int(rng.random() < 0.25)]
    ctx.count("mode:" + ("diff/" if diff else "hard/") + mode)
    if multi:
        with np.errstate(all="ignore"):
            ok = np.isfinite(mon.ll(m, E)).all((1, 2, 3))
        E, ch, rp = E[ok], ch[ok], rp[ok]
    seed = int(rng.integers(1 << 30))
    torch.manual_seed(seed)
    S, sc = draw(m, mon.tt(E.copy()), ch, rp, diff=diff, is_mpe=mode == "mpe", rec=True)
    torch.manual_seed(seed)
    S0 = draw(m, mon.tt(E.copy()), ch, rp, diff=diff, is_mpe=mode == "mpe")
    ctx.check(torch.equal(S0, S), "asking for leaf parameters changes the samples drawn from the same generator state")
    us = _records(ctx, m, _leaves(node), S, sc, E, rng)
    if mode == "sample" and not (~np.isnan(E)).any():
        grid = np.linspace(0, 1, 5)
        for kind, l in us.items():
            u = np.concatenate(l)
            if len(u) > 200:
                mon.ks_check(ctx, u, grid, grid, f"values of {kind} leaves under their recorded parameters", slack=5e-3)


KIND = {"Bernoulli": "bernoulli", "Categorical": "categorical", "Binomial": "binomial", "Normal": "normal", "Laplace": "laplace",
        "Poisson": "poisson", "Gamma": "gamma", "Geometric": "geometric", "LogNormal": "lognormal", "Exponential": "exponential",
        "NegativeBinomial": "negbin"}


def f_zoorec(ctx):
    """return_leaf_params through the public entry points of the shipped architectures."""
    import torch

    rng = ctx.rng
    name = ["rat", "einet", "convpc", "learn_spn", "cnet", "hclt"][ctx.idx % 6]
    z = common.model(ctx, name)
    m = z.m
    if any(type(q).__name__ in ("CLTree", "Histogram") for q in m.modules()):
        raise Skip("leaf kind without leaf-parameter records")
    leaves = [(q, KIND[type(q).__name__], list(q.scope.query)) for q in m.modules() if type(q).__name__ in KIND]
    N, n = 300, len(z.vs)
    how = int(rng.integers(4))
    ctx.count(["via:sample", "via:sample(data)", "via:mpe", "via:sample_with_evidence"][how])
    X = m.sample(num_samples=N).detach().numpy().astype(float)
    E = np.where(rng.random((N, n)) < 0.5, np.nan, X)
    if how == 0:
        E[:] = np.nan
    seed = int(rng.integers(1 << 30))

    def go(rec):
        torch.manual_seed(seed)
        d = mon.tt(E.copy())
        if how == 0:
            return m.sample(num_samples=N, return_leaf_params=rec)
        if how == 1:
            return m.sample(data=d, return_leaf_params=rec)
        if how == 2:
            return m.mpe(data=d, return_leaf_params=rec)
        return m.sample_with_evidence(d, return_leaf_params=rec)

    S, recs = go(True)
    ctx.check(torch.equal(S, go(False)), f"{name}: asking for leaf parameters changes the samples drawn from the same generator state")
    _records(ctx, m, leaves, S, _Recs(recs, how == 2), E, rng, what=name)


class _Recs:
    def __init__(self, recs, is_mpe):
        self.r, self.is_mpe = recs, is_mpe

    def leaf_param_records(self):
        return self.r


def f_ident(ctx):
    """Nearly deterministic leaves reveal which component generated a value: the record has to name that one."""
    rng = ctx.rng
    node, vs = circ.random_circuit(rng, families=["normal"], sampleable=True, n=int(rng.integers(2, 5)), C=1)
    for q in node.walk():
        if q.op == "leaf":
            sh = q.p["params"]["loc"].shape
            q.p["params"] = {"loc": rng.permutation(np.arange(int(np.prod(sh)))).reshape(sh) * 1.0 + 0.25 * rng.integers(0, 3),
                             "scale": np.full(sh, 1e-3)}
    ctx.note(node.describe()[:400])
    ctx.key("ident", node.sig())
    m = node.build()
    N = 400
    diff = rng.random() < 0.5
    E = np.full((N, len(vs)), np.nan)
    S, sc = draw(m, mon.tt(E.copy()), diff=diff, rec=True, evidence=False, tau=_tau(ctx))
    _records(ctx, m, _leaves(node), S, sc, E, rng)
    x = S.detach().numpy()
    for rec in sc.leaf_param_records():
        A = rec.active_mask.numpy()
        d = np.abs(x[:, list(rec.scope_cols)] - rec.params["loc"].detach().numpy())
        ctx.check((d[A] < 0.02).all(), lambda: f"the recorded location is not that of the component that generated the value (off by {d[A].max():.3f})")
        ctx.check(np.isclose(rec.params["scale"].detach().numpy()[A], 1e-3, rtol=0.05).all(), "recorded scale")
    if diff and S.requires_grad:
        S.sum().backward()
        for q in m.parameters():
            ctx.check(q.grad is None or np.isfinite(q.grad.numpy()).all(), "non-finite gradient through a differentiable sample")
        # every generated entry moves one to one with the location of the leaf that produced it
        tot = sum(float(l.loc.grad.sum()) for l, _, _ in _leaves(node) if l.loc.grad is not None)
        ctx.close(np.array(tot), np.array(float(N * len(vs))), "total gradient w.r.t. leaf locations", 1e-3, 1e-2)


def f_grad(ctx):
    """One-level mixture of nearly deterministic leaves: gradient w.r.t. the mixture logits = tau-softmax relaxation."""
    import torch
    from spflow.modules.sums import Sum

    rng = ctx.rng
    C = int(rng.integers(2, 5))
    loc = rng.normal(0, 2, (1, C, 1))
    w = rng.dirichlet(np.ones(C) * 2)
    tau = _tau(ctx)
    leaf = lr.build("normal", [0], {"loc": loc, "scale": np.full((1, C, 1), 1e-4)})
    m = Sum(inputs=leaf, weights=t(w[None, :, None, None]))
    ctx.key("grad", loc.tobytes(), w.tobytes(), tau)
    ctx.note(f"loc={loc.ravel().tolist()} w={w.tolist()} tau={tau}")
    N = 50
    S = draw(m, mon.tt(np.full((N, 1), np.nan)), tau=tau, evidence=False)
    S.sum().backward()
    y = special.softmax(np.log(w) / tau)
    mu = loc.ravel()
    # logits enter through a (log-)softmax or directly; both give the same relaxation derivative projected on the simplex tangent
    dlogit = N * y * (mu - (y * mu).sum()) / tau
    want = dlogit - w * dlogit.sum()
    got = m.logits.grad if m.logits.grad is not None else None
    ctx.check(got is not None, "no gradient reaches the mixture weights")
    got = got.detach().numpy().ravel()
    got = got - w * got.sum()
    ctx.close(got, want, "gradient of differentiable samples w.r.t. mixture weights", 2e-2, 2e-2 * N / tau * (1e-2 + np.abs(mu).max() * 1e-2))
    ctx.count("gradients")


def f_graddeep(ctx):
    """Mixtures below products and other mixtures: each one's weights follow the temperature-tau relaxation on the rows routed to it."""
    from spflow.modules.products import ElementwiseProduct, Product
    from spflow.modules.sums import ElementwiseSum, Sum

    rng = ctx.rng
    tau = float(rng.choice([0.3, 0.7, 1.5, 4.0]))
    F = int(rng.integers(1, 4))
    vals = list(rng.permutation(np.arange(-20, 21)) * 0.5)  # every component has a location of its own
    mixes = []

    def mix(v):
        C = int(rng.integers(2, 4))
        mu = np.array([vals.pop() for _ in range(C)])
        w = rng.dirichlet(np.ones(C) * 3) * 0.9 + 0.1 / C
        leaf = lr.build("normal", [v], {"loc": mu.reshape(1, C, 1), "scale": np.full((1, C, 1), 1e-4)})
        m = Sum(inputs=leaf, weights=t(w[None, :, None, None]))
        mixes.append((v, mu, w, m))
        return m

    def comp(vs, depth):
        """Circuit with one output over the variables vs."""
        if depth == 0 or rng.random() < 0.35:
            parts = [mix(v) for v in vs]
        elif len(vs) > 1 and rng.random() < 0.5:
            k = int(rng.integers(1, len(vs)))
            parts = [comp(vs[:k], depth - 1), comp(vs[k:], depth - 1)]
        else:
            k = 2
            kids = [comp(vs, depth - 1) for _ in range(k)]
            w = rng.dirichlet(np.ones(k) * 4) * 0.8 + 0.1
            if rng.random() < 0.6:
                return Sum(inputs=kids, weights=t(w[None, :, None, None]))
            return ElementwiseSum(inputs=kids, weights=t(w.reshape(1, 1, 1, k, 1)))
        if len(parts) == 1:
            return parts[0]
        return Product(inputs=parts) if rng.random() < 0.7 else ElementwiseProduct(inputs=parts)

    m = comp(list(range(F)), 2)
    ctx.key("graddeep", repr(m), tau)
    ctx.note(f"tau={tau} F={F} mixtures={len(mixes)} {type(m).__name__}")
    N = 60
    S = draw(m, mon.tt(np.full((N, F), np.nan)), tau=tau, evidence=False)
    S.sum().backward()
    V = S.detach().numpy().astype(float)
    for v, mu, w, q in mixes:
        rows = (np.abs(V[:, v][:, None] - mu[None]) < 0.1).any(1).sum()
        y = special.softmax(np.log(w) / tau)
        want = rows * y * (mu - (y * mu).sum()) / tau
        g = q.logits.grad
        got = np.zeros(len(mu)) if g is None else g.detach().numpy().ravel().astype(float)
        got = got - w * got.sum()
        want = want - w * want.sum()
        ctx.close(got, want, f"gradient of the weights of a mixture {mu.tolist()} that generated {rows} of {N} rows (tau={tau})", 2e-2, 2e-2 * (1 + rows * 0.2 / tau))
        ctx.count("deep_mixture_gradients")


def f_flow(ctx):
    """Gradients reach every mixture that has a say (deep circuits) and are finite, with and without evidence."""
    rng = ctx.rng
    node, vs = circ.random_circuit(rng, families=["normal", "laplace"], sampleable=True, n=int(rng.integers(2, 5)))
    ctx.note(node.describe()[:400])
    ctx.key("flow", node.sig())
    m = node.build()
    E = np.full((40, len(vs)), np.nan)
    if rng.random() < 0.5:
        E[:, 0] = rng.normal(0, 1, 40)
    S = draw(m, mon.tt(E.copy()), tau=_tau(ctx))
    if not S.requires_grad:
        ctx.fail("differentiable samples carry no gradient")
    (S * S).sum().backward()
    for n, q in m.named_parameters():
        ctx.check(q.grad is None or np.isfinite(q.grad.numpy()).all(), f"non-finite gradient of {n} through a differentiable sample")
    mixing = [q for q in node.walk() if q.op in ("sum", "esum", "einsum", "linsum", "repmix")]
    ctx.count("gradients", len(mixing))


def f_mpe(ctx):
    """Differentiable MPE is the ordinary MPE."""
    rng = ctx.rng
    node, vs = (circ.random_circuit(rng, families=FAMS, sampleable=True, n=int(rng.integers(2, 6))) if rng.random() < 0.6
                else circ.random_multi(rng, families=FAMS))
    ctx.note(f"{vs} {node.describe()[:400]}")
    ctx.key("mpe", node.sig())
    m = _simple(node.build())
    N = 60
    F, C, R = m.out_shape.features, m.out_shape.channels, m.out_shape.repetitions
    ch, rp = rng.integers(0, C, (N, F)), rng.integers(0, R, N)
    E = circ.rand_data(rng, vs, N, missing=0.5)
    E = mon.tt(E).numpy().astype(float)
    ok = np.isfinite(mon.ll(m, E)).all((1, 2, 3))
    E, ch, rp = E[ok], ch[ok], rp[ok]
    if not len(E):
        raise Skip("no possible evidence")
    A = draw(m, mon.tt(E.copy()), ch, rp, diff=True, is_mpe=True, tau=_tau(ctx)).detach().numpy().astype(float)
    B = draw(m, mon.tt(E.copy()), ch, rp, diff=False, is_mpe=True).detach().numpy().astype(float)
    bad = ~np.isclose(A, B, rtol=1e-4, atol=1e-3).all(1)
    ctx.count("verdict_rows", len(A))
    if bad.any():
        la, lb = mon.ll(m, A[bad]), mon.ll(m, B[bad])
        la = np.array([sum(la[i, f, ch[bad][i, f], rp[bad][i]] for f in range(F)) for i in range(bad.sum())])
        lb = np.array([sum(lb[i, f, ch[bad][i, f], rp[bad][i]] for f in range(F)) for i in range(bad.sum())])
        ctx.check(np.allclose(la, lb, atol=1e-4), lambda: f"differentiable MPE {A[bad][0].tolist()} differs from MPE {B[bad][0].tolist()} for {E[bad][0].tolist()}")


def f_impossible(ctx):
    """Evidence that rules some components out: they are never sampled, and nothing turns into NaN."""
    from spflow.modules.products import Product
    from spflow.modules.sums import Sum

    rng = ctx.rng
    C, R = int(rng.integers(2, 5)), int(rng.integers(1, 3))
    lo = np.arange(C, dtype=float)[None, :, None] * np.ones((1, 1, R)) + np.zeros((1, C, R))
    a = lr.build("uniform", [0], {"low": lo, "high": lo + float(rng.choice([0.9, 1.5]))})
    p, _, _ = _rand_leaf(rng, "categorical", (1, C, R))
    b = lr.build("categorical", [1], p)
    w = rng.dirichlet(np.ones(C), size=(1, 2, R)).transpose(0, 3, 1, 2)
    m = Sum(inputs=Product(inputs=[a, b]), weights=t(w))
    ctx.note(f"C={C} R={R} low={lo[0, :, 0].tolist()}")
    ctx.key("impossible", w.tobytes())
    N = 2000
    k = int(rng.integers(C))
    e = np.array([k + 0.3, np.nan])
    ch, rp = np.full((N, 1), int(rng.integers(2))), np.full(N, int(rng.integers(R)))
    S = draw(m, mon.tt(np.repeat(e[None], N, 0)), ch, rp, tau=_tau(ctx)).detach().numpy()
    ctx.check(np.isfinite(S).all(), "differentiable samples are NaN when evidence excludes a component")
    K = p["probs"].shape[-1]
    X = np.stack([np.full(K, e[0]), np.arange(K)], 1)
    L = mon.ll(m, X)[:, 0, ch[0, 0], rp[0]]
    mon.chi2_cells(ctx, np.bincount(np.rint(S[:, 1]).astype(int), minlength=K), np.exp(L - mon.lse(L)),
                   "differentiable sample given evidence that excludes components")


def f_normalapprox(ctx):
    """Default differentiable binomial: whole numbers in range with the right mean."""
    rng = ctx.rng
    n, pr = int(rng.integers(8, 40)), float(rng.uniform(0.3, 0.7))
    m = lr.build("binomial", [0], {"total_count": np.full((1, 1, 1), float(n)), "probs": np.full((1, 1, 1), pr)})
    ctx.key("approx", n, pr)
    N = 4000
    S = draw(m, mon.tt(np.full((N, 1), np.nan)), evidence=False)
    s = hard(ctx, S, "binomial")[:, 0]
    ctx.check((s >= 0).all() and (s <= n).all(), "differentiable binomial sample outside 0..n")
    sd = np.sqrt(n * pr * (1 - pr))
    ctx.check(abs(s.mean() - n * pr) < 7 * sd / np.sqrt(N) + 0.02 * sd, f"differentiable binomial mean {s.mean():.3f} vs {n * pr:.3f}")
    ctx.check(abs(s.std() - sd) < 0.1 * sd + 0.1, f"differentiable binomial deviation {s.std():.3f} vs {sd:.3f}")
    S.sum().backward()
    ctx.check(m._logits.grad is not None and np.isfinite(m._logits.grad.numpy()).all(), "no finite gradient reaches the binomial probability")


def f_reject(ctx):
    """Kinds that cannot be sampled differentiably say so instead of returning something else."""
    from spflow.exceptions import UnsupportedOperationError

    rng = ctx.rng
    z = common.model(ctx, "cltree")
    N = 4
    data = mon.tt(np.full((N, len(z.vs)), np.nan))
    try:
        draw(z.m, data, evidence=False)
        ctx.fail("CLTree accepted differentiable sampling")
    except UnsupportedOperationError:
        ctx.count("rejections")
    try:
        z.m.sample(num_samples=2, return_leaf_params=True)
        ctx.fail("CLTree returned leaf parameters")
    except UnsupportedOperationError:
        ctx.count("rejections")


FAMILIES = [
    Family("ast", f_ast, 100, 900),
    Family("zoo", f_zoo, 32, 240),
    Family("slots", f_slots, 60, 600),
    Family("mixed", f_mixed, 60, 600),
    Family("leaf", f_leaf, 52, 780),
    Family("fewrows", f_fewrows, 24, 240),
    Family("records", f_records, 120, 900),
    Family("zoorec", f_zoorec, 36, 600),
    Family("ident", f_ident, 80, 600),
    Family("grad", f_grad, 30, 300),
    Family("graddeep", f_graddeep, 60, 900),
    Family("flow", f_flow, 40, 600),
    Family("mpe", f_mpe, 120, 900),
    Family("impossible", f_impossible, 20, 200),
    Family("normalapprox", f_normalapprox, 6, 60),
    Family("reject", f_reject, 4, 20),
]
