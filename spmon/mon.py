"""Black-box monitors: what a probabilistic circuit's public queries must satisfy.

Everything here only uses the public query surface (log_likelihood / sample /
sample_with_evidence / mpe / marginalize) of a real SPFlow module, and judges it against
 * exhaustive enumeration of the finite data domain, or
 * an independent reference evaluation supplied by the caller.
"""
from __future__ import annotations

import itertools
import math

import numpy as np
from scipy import stats


def tt(x):
    import torch

    return torch.as_tensor(np.asarray(x), dtype=torch.get_default_dtype())


def ll(m, X, cache=None):
    """log_likelihood as float64 numpy (B, F, C, R)."""
    import torch

    with torch.no_grad():
        out = m.log_likelihood(tt(X)) if cache is None else m.log_likelihood(tt(X), cache=cache)
    return out.detach().cpu().numpy().astype(np.float64)


def domain(vs):
    return np.array(list(itertools.product(*[v.domain for v in vs])), dtype=np.float64)


def lse(a, axis=0):
    a = np.asarray(a, dtype=np.float64)
    m = np.max(a, axis=axis, keepdims=True)
    m = np.where(np.isfinite(m), m, 0.0)
    with np.errstate(all="ignore"):
        return np.log(np.exp(a - m).sum(axis=axis)) + np.squeeze(m, axis)


def table(m, vs, D=None):
    D = domain(vs) if D is None else D
    return D, ll(m, D)


# --------------------------------------------------------------------- C01
def check_normalized(ctx, m, vs, what="", tol=3e-4):
    D, L = table(m, vs)
    ctx.check(not np.isnan(L).any(), f"{what}: NaN log-likelihood on a complete in-domain assignment")
    ctx.check((L < 1e-3).all() if all(v.domain for v in vs) else True,
              f"{what}: a probability mass above one: {L.max()}")
    tot = lse(L, 0)
    ctx.count("assignments_summed", D.shape[0])
    ctx.count("distributions_summed", tot.size)
    ctx.close(tot, np.zeros_like(tot), f"{what}: log total mass over the full domain", rtol=0, atol=tol)
    full = np.full((1, len(vs)), np.nan)
    ctx.close(ll(m, full)[0], np.zeros_like(tot), f"{what}: log-likelihood of the empty evidence", rtol=0, atol=tol)
    return D, L


# --------------------------------------------------------------------- C03
def check_nan_marginal(ctx, m, vs, rng, masks=4, rows=3, what="", D=None, L=None, tol=5e-4):
    if D is None:
        D, L = table(m, vs)
    n = len(vs)
    for _ in range(masks):
        k = int(rng.integers(1, n + 1))
        miss = np.zeros(n, bool)
        miss[rng.choice(n, k, replace=False)] = True
        X = D[rng.choice(len(D), size=min(rows, len(D)), replace=False)].copy()
        X[:, miss] = np.nan
        got = ll(m, X)
        for i in range(len(X)):
            sel = (D[:, ~miss] == X[i, ~miss]).all(1)
            want = lse(L[sel], 0)
            ctx.count("marginals_enumerated")
            ctx.count("completions_summed", int(sel.sum()))
            _close_ll(ctx, got[i], want, f"{what}: log-marginal with missing {np.where(miss)[0].tolist()} row {X[i].tolist()}", tol)


def _close_ll(ctx, got, want, what, tol):
    g, w = np.asarray(got), np.asarray(want)
    # values below float32 resolution of the mass are compared as "both tiny"
    tiny = (w < -80) & (g < -80)
    g = np.where(tiny, 0.0, g)
    w = np.where(tiny, 0.0, w)
    ctx.close(g, w, what, rtol=tol, atol=tol)


# --------------------------------------------------------------------- sampling
def chi2_cells(ctx, counts, probs, what, minexp=20.0, alpha=1e-10, mech=None, tinyp=1e-13, allow=0):
    """Goodness of fit of observed cell counts to a probability vector; exact-zero cells must be empty."""
    counts = np.asarray(counts, float)
    probs = np.asarray(probs, float)
    N = counts.sum()
    zero = probs <= tinyp
    ctx.obs["verdicts"] += 1
    ctx.count("samples_drawn", int(N))
    ctx.count("cells_tested", len(probs))
    if counts[zero].sum() > allow:
        i = int(np.argmax(counts * zero))
        ctx.fail(f"{what}: sampled an impossible outcome (cell {i}, {int(counts[i])} of {int(N)} draws)", mech)
    p = probs / probs.sum()
    e = p * N
    order = np.argsort(e)
    ce, cc, pools, poolc = 0.0, 0.0, [], []
    for i in order:
        ce += e[i]
        cc += counts[i]
        if ce >= minexp:
            pools.append(ce)
            poolc.append(cc)
            ce = cc = 0.0
    if ce > 0 and pools:
        pools[-1] += ce
        poolc[-1] += cc
    # very rare cells: bounded by Poisson tail
    if len(pools) >= 2:
        pools, poolc = np.array(pools), np.array(poolc)
        chi = ((poolc - pools) ** 2 / pools).sum()
        pv = stats.chi2.sf(chi, len(pools) - 1)
        if pv < alpha:
            w = int(np.argmax((counts - e) ** 2 / np.maximum(e, 1)))
            ctx.fail(
                f"{what}: sample frequencies disagree with the model (chi2={chi:.1f}, df={len(pools)-1}, p={pv:.1e}); "
                f"cell {w}: observed {int(counts[w])}, expected {e[w]:.1f} of {int(N)}", mech)
    return True


def index_rows(D, S):
    """Row index in D for every row of S (or -1)."""
    look = {tuple(r): i for i, r in enumerate(D.tolist())}
    return np.array([look.get(tuple(r), -1) for r in np.asarray(S, float).tolist()])


def check_samples(ctx, m, vs, N=2500, what="", D=None, p=None, out_channel=0, draw=None, mech=None):
    if D is None:
        D, L = table(m, vs)
        p = np.exp(L[:, 0, out_channel, 0])
    S = (draw(N) if draw else m.sample(num_samples=N)).detach().cpu().numpy().astype(float)
    ctx.check(S.shape == (N, len(vs)), f"{what}: sample shape {S.shape}, expected {(N, len(vs))}", mech)
    ctx.check(not np.isnan(S).any(), f"{what}: samples contain missing values", mech)
    ix = index_rows(D, S)
    ctx.check((ix >= 0).all(), lambda: f"{what}: sampled values outside the variables' domain: {S[ix < 0][0].tolist()}", mech)
    chi2_cells(ctx, np.bincount(ix, minlength=len(D)), p, what, mech=mech)


def check_cond_samples(ctx, m, vs, rng, N=2500, what="", D=None, L=None, masks=2, mech=None, draw=None, rows=3):
    """sample_with_evidence: several evidence rows (different missing patterns) in ONE batch."""
    if D is None:
        D, L = table(m, vs)
    p = np.exp(L[:, 0, 0, 0])
    n = len(vs)
    ev = []
    while len(ev) < rows:
        miss = rng.random(n) < 0.5
        if not miss.any():
            miss[rng.integers(n)] = True
        if miss.all() and n > 1:
            miss[rng.integers(n)] = False
        x = D[rng.choice(len(D), p=p / p.sum())].copy()
        x[miss] = np.nan
        ev.append(x)
    per = N // rows
    E = np.repeat(np.array(ev), per, axis=0)
    perm = rng.permutation(len(E))
    E = E[perm]
    owner = np.repeat(np.arange(rows), per)[perm]
    data = tt(E.copy())
    S = (draw(data) if draw else m.sample_with_evidence(data)).detach().cpu().numpy().astype(float)
    ctx.check(S.shape == E.shape, f"{what}: conditional sample shape {S.shape}", mech)
    obs = ~np.isnan(E)
    ctx.check((S[obs] == tt(E).numpy().astype(float)[obs]).all(), f"{what}: conditional sampling changed an observed value", mech)
    ctx.check(not np.isnan(S).any(), f"{what}: conditional samples contain missing values", mech)
    for i in range(rows):
        o = ~np.isnan(ev[i])
        sel = (D[:, o] == ev[i][o]).all(1)
        q = np.where(sel, p, 0.0)
        ix = index_rows(D, S[owner == i])
        ctx.check((ix >= 0).all(), f"{what}: conditional sample outside domain", mech)
        ctx.count("conditionals_tested")
        chi2_cells(ctx, np.bincount(ix, minlength=len(D)), q / q.sum(), f"{what}: conditional on {ev[i].tolist()}", mech=mech)


def check_mpe_basic(ctx, m, vs, rng, what="", D=None, L=None, rows=6, fn=None, mech=None):
    """MPE completion: keeps evidence, in domain, positive mass, deterministic."""
    if D is None:
        D, L = table(m, vs)
    p = np.exp(L[:, 0, 0, 0])
    n = len(vs)
    E = D[rng.choice(len(D), size=rows, p=p / p.sum())].copy()
    E[rng.random(E.shape) < 0.6] = np.nan
    fn = fn or (lambda d: m.sample_with_evidence(d, is_mpe=True))
    S = fn(tt(E.copy())).detach().cpu().numpy().astype(float)
    S2 = fn(tt(E.copy())).detach().cpu().numpy().astype(float)
    ctx.check(S.shape == E.shape, f"{what}: MPE shape {S.shape}", mech)
    o = ~np.isnan(E)
    ctx.check((S[o] == tt(E).numpy().astype(float)[o]).all(), f"{what}: MPE changed an observed value", mech)
    ctx.check(not np.isnan(S).any(), f"{what}: MPE left a value missing", mech)
    ctx.check((S == S2).all(), f"{what}: MPE is not deterministic", mech)
    ix = index_rows(D, S)
    ctx.check((ix >= 0).all(), f"{what}: MPE outside the domain {S[ix < 0][:1].tolist()}", mech)
    ctx.check((p[ix] > 0).all(), f"{what}: MPE completion has zero probability", mech)
    ctx.count("mpe_rows", rows)
    return E, S


# --------------------------------------------------------------------- marginalize
def check_structural_marginal(ctx, m, vs, rng, X=None, what="", tries=2, tol=5e-4, mech=None):
    n = len(vs)
    X = domain(vs) if X is None else X
    for _ in range(tries):
        k = int(rng.integers(0, n + 1)) if rng.random() < 0.2 else int(rng.integers(1, max(2, n)))
        drop = sorted(int(v) for v in rng.choice(n, k, replace=False))
        prune = bool(rng.random() < 0.6)
        Xr = X[rng.choice(len(X), size=min(len(X), 12), replace=False)].copy()
        Xn = Xr.copy()
        Xn[:, drop] = np.nan
        want = ll(m, Xn)
        before = ll(m, Xr)
        mm = m.marginalize(drop, prune=prune)
        after = ll(m, Xr)
        ctx.check(np.array_equal(before, after, equal_nan=True), f"{what}: marginalize changed the original model", mech)
        if k == n:
            ctx.check(mm is None, f"{what}: marginalising everything must leave nothing, got {type(mm).__name__}", mech)
            continue
        ctx.check(mm is not None, f"{what}: marginalising {drop} of {n} variables returned nothing", mech)
        ctx.count("structural_marginals")
        left = set(int(q) for q in mm.scope.query)
        ctx.check(left == set(range(n)) - set(drop), f"{what}: scope after marginalising {drop} is {sorted(left)}", mech)
        got = ll(mm, Xr)
        if got.shape != want.shape:
            ctx.fail(f"{what}: marginalised model output shape {got.shape} vs {want.shape}", mech)
        _close_ll(ctx, got, want, f"{what}: marginalize({drop}, prune={prune}) vs missing-value query", tol)


# --------------------------------------------------------------------- explicit routing
def slot_draw(m, data, chan, rep, is_mpe=False, cache=None):
    """Top-down draw for explicit output slots: chan (B, F), rep (B,)."""
    import torch
    from spflow.utils.cache import Cache
    from spflow.utils.sampling_context import SamplingContext

    sc = SamplingContext(channel_index=torch.as_tensor(chan), repetition_index=torch.as_tensor(rep), is_mpe=is_mpe)
    return m._sample(data=data, sampling_ctx=sc, cache=Cache() if cache is None else cache)


def check_slot_samples(ctx, m, vs, rng, slots=3, N=2400, what="", mech=None):
    """Every output slot (channel per feature, repetition) is sampled from its own distribution, mixed in one batch."""
    D = domain(vs)
    L = ll(m, D)
    _, F, C, R = L.shape
    per = N // slots
    chans = [rng.integers(0, C, F) for _ in range(slots)]
    reps = [int(rng.integers(0, R)) for _ in range(slots)]
    owner = rng.permutation(np.repeat(np.arange(slots), per))
    ch = np.array([chans[o] for o in owner], dtype=np.int64)
    rp = np.array([reps[o] for o in owner], dtype=np.int64)
    data = tt(np.full((len(owner), len(vs)), np.nan))
    S = slot_draw(m, data, ch, rp).detach().cpu().numpy().astype(float)
    ctx.check(S.shape == (len(owner), len(vs)), f"{what}: sample shape {S.shape}", mech)
    ctx.check(not np.isnan(S).any(), f"{what}: samples contain missing values", mech)
    for o in range(slots):
        p = np.exp(sum(L[:, f, chans[o][f], reps[o]] for f in range(F)))
        ix = index_rows(D, S[owner == o])
        ctx.check((ix >= 0).all(), f"{what}: sampled values outside the domain", mech)
        ctx.count("slots_sampled")
        chi2_cells(ctx, np.bincount(ix, minlength=len(D)), p,
                   f"{what}: output slot channels={chans[o].tolist()} repetition={reps[o]}", mech=mech)


def check_slot_cond(ctx, m, vs, rng, slots=3, N=2400, what="", mech=None):
    """As check_slot_samples, each slot with its own partial evidence row."""
    from spflow.utils.cache import Cache
    import torch

    D = domain(vs)
    L = ll(m, D)
    _, F, C, R = L.shape
    n = len(vs)
    per = N // slots
    chans = [rng.integers(0, C, F) for _ in range(slots)]
    reps = [int(rng.integers(0, R)) for _ in range(slots)]
    ps, ev = [], []
    for o in range(slots):
        p = np.exp(sum(L[:, f, chans[o][f], reps[o]] for f in range(F)))
        x = D[rng.choice(len(D), p=p / p.sum())].copy()
        miss = rng.random(n) < 0.6
        if not miss.any():
            miss[rng.integers(n)] = True
        x[miss] = np.nan
        ev.append(x)
        ps.append(p)
    owner = rng.permutation(np.repeat(np.arange(slots), per))
    E = np.array([ev[o] for o in owner])
    ch = np.array([chans[o] for o in owner], dtype=np.int64)
    rp = np.array([reps[o] for o in owner], dtype=np.int64)
    cache = Cache()
    with torch.no_grad():
        m.log_likelihood(tt(E), cache=cache)
    S = slot_draw(m, tt(E.copy()), ch, rp, cache=cache).detach().cpu().numpy().astype(float)
    ob = ~np.isnan(E)
    ctx.check((S[ob] == tt(E).numpy().astype(float)[ob]).all(), f"{what}: an observed value was changed", mech)
    ctx.check(not np.isnan(S).any(), f"{what}: conditional samples contain missing values", mech)
    for o in range(slots):
        k = ~np.isnan(ev[o])
        q = np.where((D[:, k] == ev[o][k]).all(1), ps[o], 0.0)
        ix = index_rows(D, S[owner == o])
        ctx.check((ix >= 0).all(), f"{what}: conditional sample outside domain", mech)
        ctx.count("conditionals_tested")
        chi2_cells(ctx, np.bincount(ix, minlength=len(D)), q / q.sum(),
                   f"{what}: slot channels={chans[o].tolist()} rep={reps[o]} given {ev[o].tolist()}", mech=mech)


# --------------------------------------------------------------------- continuous
GRID = {"normal": (-15, 15, False), "laplace": (-30, 30, False), "exponential": (-17, 4.2, True),
        "gamma": (-30, 4.2, True), "lognormal": (-7, 6, True), "uniform": (-3, 5, False)}


def cond_cdf(m, vs, target, row, k=6001):
    """CDF of variable ``target`` given the observed entries of ``row``, from the model's own marginal densities."""
    lo, hi, lg = GRID[vs[target].kind]
    u = np.linspace(lo, hi, k)
    x = np.exp(u) if lg else u
    X = np.repeat(row[None], k, 0)
    X[:, target] = x
    d = ll(m, X)[:, 0, 0, 0]
    d = np.exp(d - d.max()) * (x if lg else 1.0)
    c = np.concatenate([[0.0], np.cumsum((d[1:] + d[:-1]) / 2)])
    return x, c / c[-1]


def ks_check(ctx, s, x, c, what, mech=None, alpha=1e-10, slack=2e-3):
    s = np.sort(np.asarray(s, float))
    n = len(s)
    F = np.interp(s, x, c, left=0.0, right=1.0)
    d = max((np.arange(1, n + 1) / n - F).max(), (F - np.arange(n) / n).max())
    ctx.obs["verdicts"] += 1
    ctx.count("ks_tests")
    ctx.count("samples_drawn", n)
    crit = np.sqrt(-np.log(alpha / 2) / (2 * n)) + slack
    if d > crit:
        ctx.fail(f"{what}: sample distribution differs from the model (KS distance {d:.4f} > {crit:.4f}, n={n})", mech)
