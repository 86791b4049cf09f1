"""C27: autoencoding probabilistic circuits: encoding, decoding, latent statistics, losses and training are those of the joint circuit."""
import copy
import itertools

import numpy as np
from scipy import special

from spmon import leafref as lr, mon
from spmon.circ import Var, t
import torch

from spmon.runner import Family, Skip

PID = "C27"
RULE = "distinct = distinct encoder configuration and parameters"
ASSUMPTIONS = [
    "chi-square / KS with alarm at p < 1e-10 against exact enumeration of the joint circuit",
    "sampling temperature 1 for Gaussian latents redrawn from latent statistics (the draw is documented to scale with tau)",
    "training is compared with a replica loop under the same generator state",
]

ZK = ["bernoulli", "categorical", "binomial", "normal"]


def _factory(rng, var):
    def f(scope, C, R):
        p = lr.rand_params(var.kind, rng, (len(scope), C, R), K=var.K, total=var.total)
        return lr.build(var.kind, list(scope), p)

    return f


def _var(rng, kinds):
    k = kinds[rng.integers(len(kinds))]
    return Var(k, K=int(rng.integers(2, 4)) if k == "categorical" else None, total=int(rng.integers(1, 3)) if k == "binomial" else None)


class Enc:
    pass


def _encoder(ctx, xk=("bernoulli", "categorical"), zk=ZK, conv=None):
    """Random joint encoder; sets .e (encoder) .xv .zv (variables) .x4 (image input accepted)."""
    from spflow.modules.leaves.binomial import BinomialDifferentiableSamplingMethod as B
    from spflow.zoo.apc.encoders.convpc_joint_encoder import ConvPcJointEncoder
    from spflow.zoo.apc.encoders.einet_joint_encoder import EinetJointEncoder
    from spmon import zoo

    rng = ctx.rng
    q = Enc()
    xvar, zvar = _var(rng, xk), _var(rng, zk)
    conv = rng.random() < 0.35 if conv is None else conv
    if not conv:
        nx, nz = int(rng.integers(2, 5)), int(rng.integers(1, 4))
        depth = int(rng.integers(1, 1 + int(np.floor(np.log2(nx + nz)))))
        cfg = dict(num_x_features=nx, latent_dim=nz, num_sums=int(rng.integers(1, 4)), num_leaves=int(rng.integers(1, 4)), depth=depth,
                   num_repetitions=int(rng.integers(1, 4)), layer_type=["einsum", "linsum"][int(rng.integers(2))])
        q.e = EinetJointEncoder(**cfg, x_leaf_factory=_factory(rng, xvar), z_leaf_factory=_factory(rng, zvar))
        q.img = None
    else:
        depth = int(rng.integers(2, 4)) if xvar.kind == "normal" else 2
        side = 2 ** (depth - 1)
        h = side * int(rng.choice([1, 1, 2])) if xvar.kind == "normal" else side
        C = int(rng.integers(1, 4))
        ld = int(rng.integers(0, depth))
        # features at the fusion point
        tgt = (side // 2 ** ld) ** 2
        perm = rng.random() < 0.3
        nz = int(rng.choice([1, 2, tgt, tgt * 2, tgt * 2 if tgt <= 4 else tgt])) if tgt > 1 else int(rng.choice([1, 2]))
        while zvar.domain and len(zvar.domain) ** nz > 600:
            nz //= 2
        R = int(rng.integers(1, 3))
        cfg = dict(input_height=h, input_width=h, latent_dim=nz, channels=C, depth=depth, kernel_size=2, num_repetitions=R,
                   use_sum_conv=bool(rng.random() < 0.3), latent_depth=ld, perm_latents=bool(perm))
        q.e = ConvPcJointEncoder(**cfg, x_leaf_factory=_factory(rng, xvar), z_leaf_factory=_factory(rng, zvar))
        nx = h * h
        q.img = (1, h, h)
    zoo.scramble_weights(q.e.pc, rng)
    for m in q.e.modules():
        if type(m).__name__ == "Binomial":
            m.differentiable_sampling_method = B.SIMPLE
    q.cfg = cfg
    q.nx, q.nz, q.xvar, q.zvar = nx, nz, xvar, zvar
    q.xv, q.zv = [xvar] * nx, [zvar] * nz
    ctx.note(f"{type(q.e).__name__} {cfg} x={xvar} z={zvar}")
    ctx.key(type(q.e).__name__, cfg, xvar.kind, zvar.kind, [float(p.detach().sum()) for p in q.e.parameters()][:3])
    ctx.count(f"encoder:{type(q.e).__name__}/{xvar.kind}/{zvar.kind}")
    return q


def _dom(vs):
    return np.array(list(itertools.product(*[v.domain for v in vs])), dtype=float)


def _pc(q, X, Z):
    return mon.ll(q.e.pc, np.concatenate([X, Z], 1))[:, 0, 0, 0]


def _grid(q, x=None, z=None):
    """All completions (x-part, z-part) of a fixed x or z and their joint log-likelihood from the circuit."""
    if x is not None:
        D = _dom(q.zv)
        return D, _pc(q, np.repeat(x[None], len(D), 0), D)
    D = _dom(q.xv)
    return D, _pc(q, D, np.repeat(z[None], len(D), 0))


def _xin(q, X, rng):
    a = mon.tt(X)
    if q.img and rng.random() < 0.5:
        return a.reshape(-1, *q.img)
    return a


def _flat(a):
    return a.detach().cpu().numpy().astype(float).reshape(len(a), -1)


def _disc(ctx, s, what):
    h = np.rint(s)
    ctx.check(np.abs(s - h).max(initial=0) < 1e-3, f"{what}: not (almost) discrete")
    return h


def _randx(q, rng, n):
    return np.stack([lr.sample_data(v.kind, rng, n, K=v.K, total=v.total) for v in q.xv], 1)


def _randz(q, rng, n):
    return np.stack([lr.sample_data(v.kind, rng, n, K=v.K, total=v.total) for v in q.zv], 1)


def f_ll(ctx):
    """joint_log_likelihood and log_likelihood_x against the circuit, enumeration and total mass."""
    rng = ctx.rng
    q = _encoder(ctx, xk=("bernoulli", "categorical", "normal"))
    X, Z = _randx(q, rng, 12), _randz(q, rng, 12)
    X, Z = mon.tt(X).numpy().astype(float), mon.tt(Z).numpy().astype(float)
    got = q.e.joint_log_likelihood(_xin(q, X, rng), mon.tt(Z)).detach().numpy()
    ctx.close(got, _pc(q, X, Z), "joint_log_likelihood vs the joint circuit", 1e-5, 1e-5)
    got = q.e.log_likelihood_x(_xin(q, X, rng)).detach().numpy()
    ctx.check(got.shape == (12,), "log_likelihood_x shape")
    if q.zvar.domain:
        k = 12 if len(q.zvar.domain) ** q.nz <= 300 else 2
        want = np.array([mon.lse(_grid(q, x=x)[1]) for x in X[:k]])
        ctx.close(got[:k], want, "log_likelihood_x vs sum over latents")
    else:
        want = mon.ll(q.e.pc, np.concatenate([X, np.full_like(Z, np.nan)], 1))[:, 0, 0, 0]
        ctx.close(got, want, "log_likelihood_x vs the circuit with latents missing", 1e-5, 1e-5)
    Xm = X.copy()
    Xm[:, 0] = np.nan
    got = q.e.log_likelihood_x(_xin(q, Xm, rng)).detach().numpy()
    want = mon.ll(q.e.pc, np.concatenate([Xm, np.full_like(Z, np.nan)], 1))[:, 0, 0, 0]
    ctx.close(got, want, "log_likelihood_x of incomplete rows", 1e-5, 1e-5)
    ctx.check(set(q.e.pc.scope.query) == set(range(q.nx + q.nz)), "the joint circuit does not cover all observed and latent variables")
    # every variable matters to the joint circuit (nothing dropped)
    base = np.concatenate([X, Z], 1)
    for j in range(base.shape[1]):
        v = (q.xv + q.zv)[j]
        alt = np.repeat(base[:1], 3, 0)
        alt[:, j] = v.domain[:3] + [np.nan] * (3 - len(v.domain[:3])) if v.domain else [-1.0, 0.5, 2.0]
        L = mon.ll(q.e.pc, alt)[:, 0, 0, 0]
        ctx.check(np.ptp(L) > 0, f"variable {j} does not influence the joint log-likelihood")


def _cmp_z(ctx, q, z, x, what):
    """Draws z for one x against p(z|x)."""
    if q.zvar.domain:
        D, L = _grid(q, x=x)
        z = _disc(ctx, z, what)
        ix = mon.index_rows(D, z)
        ctx.check((ix >= 0).all(), f"{what}: latent outside its domain")
        mon.chi2_cells(ctx, np.bincount(ix, minlength=len(D)), np.exp(L - mon.lse(L)), what)
    else:
        row = np.concatenate([x, np.full(q.nz, np.nan)])
        for j in range(q.nz):
            xx, c = mon.cond_cdf(q.e.pc, q.xv + q.zv, q.nx + j, row)
            mon.ks_check(ctx, z[:, j], xx, c, what + f" latent {j}")
        if q.nz > 1:  # dependence between latents: condition on the first
            zs = z[:, 0]
            k = np.argsort(zs)
            ctx.check(len(np.unique(z[:, 1])) > len(z) // 2, f"{what}: repeated latent values")


def f_encode(ctx):
    import torch

    rng = ctx.rng
    q = _encoder(ctx, xk=("bernoulli", "categorical", "normal"))
    per = 800
    X = mon.tt(_randx(q, rng, 3)).numpy().astype(float)
    if rng.random() < 0.3:
        X[0, int(rng.integers(q.nx))] = np.nan
    owner = rng.permutation(np.repeat(np.arange(3), per))
    mode = int(rng.integers(3))
    ctx.count(["encode", "encode+stats", "model.encode"][mode])
    xin = _xin(q, X[owner], rng)
    keep = xin.clone()
    if mode == 0:
        z = q.e.encode(xin, tau=float(rng.choice([0.3, 1.0, 2.0])))
    elif mode == 1:
        st, z = q.e.encode(xin, return_latent_stats=True)
    else:
        z = _model(q).encode(xin)
    ctx.check(torch.equal(torch.nan_to_num(xin, 7.0), torch.nan_to_num(keep, 7.0)), "encode changed its input")
    z = _flat(z)
    ctx.check(z.shape == (len(owner), q.nz) and np.isfinite(z).all(), f"encoded latents: shape {z.shape} or non-finite values")
    for o in range(3):
        _cmp_z(ctx, q, z[owner == o], X[o], f"encode mode {mode} p(z|x={X[o].round(2).tolist()})")
    if mode == 1:
        _stats_law(ctx, q, st, X, owner)


def _post_mean(q, x):
    """E[z|x] per latent dimension from the circuit."""
    row = np.concatenate([x, np.full(q.nz, np.nan)])
    out = []
    for j in range(q.nz):
        if q.zvar.domain:
            dom = np.array(q.zvar.domain)
            X = np.repeat(row[None], len(dom), 0)
            X[:, q.nx + j] = dom
            L = mon.ll(q.e.pc, X)[:, 0, 0, 0]
            p = np.exp(L - mon.lse(L))
            m = (p * dom).sum()
            v = (p * dom ** 2).sum() - m * m
        else:
            xx, c = mon.cond_cdf(q.e.pc, q.xv + q.zv, q.nx + j, row)
            d = np.diff(c)
            mid = (xx[1:] + xx[:-1]) / 2
            m = (d * mid).sum()
            v = (d * mid ** 2).sum() - m * m
        out.append((m, v))
    return np.array(out)


def _stats_law(ctx, q, st, X, owner):
    """Latent statistics are the mean/variance of the generating component: total expectation and variance give the posterior's."""
    mu, lv = _flat(st.mu), _flat(st.logvar)
    ctx.check(mu.shape == (len(owner), q.nz) == lv.shape, "latent statistics shape")
    for o in range(len(X)):
        a, b = mu[owner == o], np.exp(lv[owner == o])
        n = len(a)
        for j, (m, v) in enumerate(_post_mean(q, X[o])):
            se = np.sqrt(max(a[:, j].var(), 1e-12) / n)
            ctx.check(abs(a[:, j].mean() - m) <= 8 * se + 5e-3 * (1 + abs(m)), lambda: f"average latent mean {a[:, j].mean():.4f} vs posterior mean {m:.4f} (latent {j})")
            tot = b[:, j] + (a[:, j] - m) ** 2
            se = np.sqrt(tot.var() / n)
            ctx.check(abs(tot.mean() - v) <= 8 * se + 1e-2 * (1 + v), lambda: f"total variance of the latent statistics {tot.mean():.4f} vs posterior variance {v:.4f} (latent {j})")
            ctx.count("moment_checks", 2)


def _kld(q, st, leafp=None):
    """Own closed forms from mu/logvar (Normal) or from mu alone (Bernoulli, Binomial)."""
    mu, lv = _flat(st.mu), _flat(st.logvar)
    if q.zvar.kind == "normal":
        return 0.5 * (mu ** 2 + np.exp(lv) - 1 - lv).sum(1), mu
    if q.zvar.kind in ("bernoulli", "binomial"):
        n = 1 if q.zvar.kind == "bernoulli" else q.zvar.total
        p = mu / n
        k = n * (special.xlogy(p, 2 * p) + special.xlogy(1 - p, 2 * (1 - p)))
        dec = (p >= 0.5).astype(float) if n == 1 else np.minimum(np.floor((n + 1) * p), n)
        return k.sum(1), dec
    return None, None


def f_stats(ctx):
    rng = ctx.rng
    q = _encoder(ctx, xk=("bernoulli", "categorical", "normal"))
    X = mon.tt(_randx(q, rng, 2)).numpy().astype(float)
    owner = rng.permutation(np.repeat(np.arange(2), 700))
    xin = _xin(q, X[owner], rng)
    via = rng.random() < 0.5
    st = q.e.latent_stats(xin) if via else q.e.encode(xin, return_latent_stats=True)[0]
    _stats_law(ctx, q, st, X, owner)
    k, dec = _kld(q, st)
    got = _flat(st.kld_per_sample)[:, 0]
    dl = _flat(st.decode_latent)
    if k is not None:
        ctx.close(got, k, "Kullback-Leibler term of the latent statistics", 1e-3, 1e-3)
        amb = np.zeros(len(dl), bool)[:, None]
        if q.zvar.kind == "bernoulli":
            amb = np.abs(_flat(st.mu) - 0.5) < 1e-4
        elif q.zvar.kind == "binomial":
            fr = ((q.zvar.total + 1) * _flat(st.mu) / q.zvar.total) % 1
            amb = (fr < 1e-4) | (fr > 1 - 1e-4)
        ok = ~np.broadcast_to(amb, dl.shape)
        ctx.check(np.allclose(dl[ok], dec[ok], atol=1e-4), "decode_latent is not the most probable latent of the component")
    else:
        # categorical: the parameters must be those of one of the latent leaf's slots
        P = q.e._z_leaf.probs.detach().numpy().astype(float).reshape(q.nz, -1, q.zvar.K)
        mean = (P * np.arange(q.zvar.K)).sum(-1)
        var = (P * np.arange(q.zvar.K) ** 2).sum(-1) - mean ** 2
        kl = special.xlogy(P, P * q.zvar.K).sum(-1)
        mu, lv = _flat(st.mu), _flat(st.logvar)
        tot = np.zeros(len(mu))
        for j in range(q.nz):
            d = np.abs(mu[:, j][:, None] - mean[j][None]) + np.abs(np.exp(lv[:, j])[:, None] - var[j][None])
            i = d.argmin(1)
            ctx.check(d.min(1).max() < 1e-3, "latent statistics are those of none of the latent leaf's components")
            tot += kl[j][i]
            pk = np.sort(P[j], -1)
            clear = (pk[:, -1] - pk[:, -2] > 1e-3)[i]
            ctx.check((dl[clear, j] == P[j].argmax(-1)[i][clear]).all(), "decode_latent is not the most probable latent of the component")
        ctx.close(got, tot, "Kullback-Leibler term of the latent statistics", 2e-3, 2e-3)
    ctx.check((got > -1e-4).all(), "negative Kullback-Leibler term")


def f_decode(ctx):
    rng = ctx.rng
    q = _encoder(ctx, xk=("bernoulli", "categorical"))
    Z = mon.tt(_randz(q, rng, 2)).numpy().astype(float)
    per = 1200
    owner = rng.permutation(np.repeat(np.arange(2), per))
    zin = mon.tt(Z[owner])
    mode = int(rng.integers(4))
    ctx.count(["decode", "decode x", "decode x fill", "model.decode"][mode])
    x0 = mon.tt(_randx(q, rng, 2)).numpy().astype(float)
    obs = rng.random((2, q.nx)) < 0.4
    E = np.where(obs, x0, np.nan)[owner]
    tau = float(rng.choice([0.3, 1.0, 2.0]))
    if mode == 0:
        S = q.e.decode(zin, tau=tau)
        obs[:] = False
    elif mode == 3:
        S = _model(q).decode(zin)
        obs[:] = False
    else:
        xin = _xin(q, E, rng)
        S = q.e.decode(zin, x=xin, tau=tau, fill_evidence=mode == 2)
        ctx.check(S.shape == xin.shape, f"decoded shape {tuple(S.shape)} vs {tuple(xin.shape)}")
    s = _flat(S)
    ctx.check(s.shape == (len(owner), q.nx), f"decoded shape {s.shape}")
    s = _disc(ctx, s, "decode")
    D = _dom(q.xv)
    for o in range(2):
        L = _pc(q, D, np.repeat(Z[o][None], len(D), 0))
        ok = (D[:, obs[o]] == x0[o][obs[o]]).all(1)
        L = np.where(ok, L, -np.inf)
        ix = mon.index_rows(D, s[owner == o])
        ctx.check((ix >= 0).all(), "decoded value outside the domain")
        mon.chi2_cells(ctx, np.bincount(ix, minlength=len(D)), np.exp(L - mon.lse(L)), f"decode mode {mode}: p(x|z={Z[o].round(2).tolist()}, evidence)")


def f_prior(ctx):
    """sample_prior_z and sample_x follow the latent prior and the marginal of x."""
    rng = ctx.rng
    q = _encoder(ctx, xk=("bernoulli", "categorical"), zk=ZK[:3])
    N = 2500
    z = _disc(ctx, _flat(q.e.sample_prior_z(N) if rng.random() < 0.5 else _model(q).sample_z(N)), "prior sample")
    D = _dom(q.zv)
    L = mon.ll(q.e.pc, np.concatenate([np.full((len(D), q.nx), np.nan), D], 1))[:, 0, 0, 0]
    ix = mon.index_rows(D, z)
    ctx.check((ix >= 0).all(), "prior latent outside its domain")
    mon.chi2_cells(ctx, np.bincount(ix, minlength=len(D)), np.exp(L - mon.lse(L)), "latent prior")
    x = _disc(ctx, _flat(_model(q).sample_x(N)), "sample_x")
    D = _dom(q.xv)
    L = mon.ll(q.e.pc, np.concatenate([D, np.full((len(D), q.nz), np.nan)], 1))[:, 0, 0, 0]
    ix = mon.index_rows(D, x)
    ctx.check((ix >= 0).all(), "sampled x outside its domain")
    mon.chi2_cells(ctx, np.bincount(ix, minlength=len(D)), np.exp(L - mon.lse(L)), "sample_x")


def f_mpe(ctx):
    """mpe encoding/decoding: deterministic, equal to the circuit's MPE."""
    rng = ctx.rng
    q = _encoder(ctx, xk=("bernoulli", "categorical", "normal"))
    n = 10
    X, Z = mon.tt(_randx(q, rng, n)).numpy().astype(float), mon.tt(_randz(q, rng, n)).numpy().astype(float)
    a = _flat(q.e.encode(_xin(q, X, rng), mpe=True))
    E = np.concatenate([X, np.full((n, q.nz), np.nan)], 1)
    b = q.e.pc.mpe(data=mon.tt(E.copy())).detach().numpy().astype(float)[:, q.nx:]

    def same(a, b, full):
        bad = ~np.isclose(a, b, atol=1e-3, rtol=1e-4).all(1)
        if bad.any():
            la, lb = full(a[bad], bad), full(b[bad], bad)
            ctx.check(np.allclose(la, lb, atol=1e-4), lambda: f"MPE differs from the circuit's: {a[bad][0].tolist()} vs {b[bad][0].tolist()}")
        ctx.count("verdict_rows", len(a))

    same(a, b, lambda z, bad: _pc(q, X[bad], z))
    a = _flat(q.e.decode(mon.tt(Z), mpe=True))
    E = np.concatenate([np.full((n, q.nx), np.nan), Z], 1)
    b = q.e.pc.mpe(data=mon.tt(E.copy())).detach().numpy().astype(float)[:, :q.nx]
    same(a, b, lambda x, bad: _pc(q, x, Z[bad]))
    # the autoencoder itself hands its requests to the encoder, or to its own decoder
    m = _model(q)
    same(_flat(m.encode(_xin(q, X, rng), mpe=True)), _flat(q.e.encode(_xin(q, X, rng), mpe=True)), lambda z, bad: _pc(q, X[bad], z))
    same(_flat(m.decode(mon.tt(Z), mpe=True)), a, lambda x, bad: _pc(q, x, Z[bad]))
    z = q.e.encode(_xin(q, X, rng), mpe=True)
    zz = _flat(z)
    same(_flat(m.reconstruct(_xin(q, X, rng), mpe=True)), _flat(q.e.decode(z, mpe=True)), lambda x, bad: _pc(q, x, zz[bad]))
    net = torch.nn.Linear(q.nz, q.nx)
    ctx.close(_flat(_model(q, net).decode(mon.tt(Z), mpe=True)), _flat(net(mon.tt(Z))), "decoding with a network of the caller's", 1e-6, 1e-6)


def f_tau(ctx):
    """Gaussian latents redrawn from their statistics: the same draw at another temperature, deviation scaled by it."""
    rng = ctx.rng
    q = _encoder(ctx, zk=("normal",))
    n = 8
    X = mon.tt(_randx(q, rng, n)).numpy().astype(float)
    x = _xin(q, X, rng)
    seed, tau = int(rng.integers(1 << 30)), float(rng.uniform(0.1, 3))
    out = []
    for v in (1.0, tau):
        torch.manual_seed(seed)
        st, z = q.e.encode(x, tau=v, return_latent_stats=True)
        out.append((_flat(st.mu), _flat(st.logvar), _flat(z)))
    (m0, l0, z0), (m1, l1, z1) = out
    same = np.isclose(m0, m1).all(1) & np.isclose(l0, l1, atol=1e-5).all(1)
    if not same.any():
        raise Skip("another component at another temperature")
    ctx.close((z1 - m1)[same], tau * (z0 - m0)[same], "deviation of the latent draw from its mean at another temperature", 1e-3, 1e-4)
    ctx.count("draws at two temperatures", int(same.sum()))
    ctx.key("tau", q.nx, q.nz, round(tau, 2))


def _cfg(rng, q, **kw):
    from spflow.zoo.apc import ApcConfig
    from spflow.zoo.apc.config import ApcLossWeights

    w = kw.pop("w", ApcLossWeights())
    return ApcConfig(latent_dim=q.nz, loss_weights=w, **kw)


def _model(q, decoder=None, cfg=None):
    from spflow.zoo.apc import AutoencodingPC

    return AutoencodingPC(encoder=q.e, decoder=decoder, config=cfg or _cfg(None, q))


def _setup(ctx, zk=ZK):
    from spflow.zoo.apc.config import ApcLossWeights
    from spflow.zoo.apc.decoders import MLPDecoder1D

    rng = ctx.rng
    xk = ("bernoulli",) if rng.random() < 0.4 else ("bernoulli", "normal")
    q = _encoder(ctx, xk=xk, zk=zk)
    bce = q.xvar.kind == "bernoulli" and rng.random() < 0.6
    w = ApcLossWeights(*[float(rng.choice([0.0, 0.5, 1.0, 2.5], p=[0.2, 0.2, 0.3, 0.3])) for _ in range(3)])
    dec = MLPDecoder1D(q.nz, q.nx, hidden_dims=(5,), out_activation="sigmoid" if bce else "identity") if bce or rng.random() < 0.6 else None
    cfg = _cfg(rng, q, w=w, rec_loss="bce" if bce else "mse", nll_x_and_z=bool(rng.random() < 0.5), train_decode_mpe=bool(rng.random() < 0.3))
    ctx.note(f"{cfg} decoder={type(dec).__name__}")
    ctx.count(f"loss:{cfg.rec_loss}/{'xz' if cfg.nll_x_and_z else 'x'}/{'mpe' if cfg.train_decode_mpe else 'draw'}")
    return q, _model(q, dec, cfg), cfg, dec


def f_loss(ctx):
    """Every loss component recomputed from the returned latents and reconstructions."""
    import torch

    rng = ctx.rng
    q, m, cfg, dec = _setup(ctx)
    n = int(rng.integers(1, 9))
    X = mon.tt(_randx(q, rng, n)).numpy().astype(float)
    xin = mon.tt(X)
    seed = int(rng.integers(1 << 30))
    torch.manual_seed(seed)
    c = m.loss_components(xin)
    w = cfg.loss_weights
    rec = kld = nll = 0.0
    if w.rec > 0:
        R = _flat(c["x_rec"])
        ctx.check(R.shape == X.shape, "reconstruction shape")
        if cfg.rec_loss == "mse":
            rec = ((R - X) ** 2).sum() / n
        else:
            R = R.astype(np.float32).astype(float)
            rec = -(X * np.maximum(np.log(np.maximum(R, 1e-45)), -100) + (1 - X) * np.maximum(np.log(np.maximum(1 - R, 1e-45)), -100)).sum() / n
        if dec is not None:
            if not cfg.train_decode_mpe:
                with torch.no_grad():
                    ctx.close(_flat(dec(c["z"])), R, "reconstruction is not the decoder applied to the sampled latent", 1e-4, 1e-4)
            elif q.zvar.kind == "normal":
                with torch.no_grad():
                    ctx.close(_flat(dec(c["mu"])), R, "reconstruction is not the decoder applied to the latent mean", 1e-4, 1e-4)
    if w.nll > 0:
        if cfg.nll_x_and_z:
            nll = -_pc(q, X, _zr(q, _flat(c["z"]))).mean()
        else:
            nll = -mon.ll(q.e.pc, np.concatenate([X, np.full((n, q.nz), np.nan)], 1))[:, 0, 0, 0].mean()
    if w.kld > 0:
        class S:
            mu, logvar = c["mu"], c["logvar"]

        k, _ = _kld(q, S)
        kld = k.mean() if k is not None else float(c["kld"])
    for name, v in (("rec", rec), ("kld", kld), ("nll", nll), ("total", w.rec * rec + w.kld * kld + w.nll * nll)):
        ctx.close(c[name].item(), v, f"loss component {name}", 2e-3, 2e-3)
    torch.manual_seed(seed)
    ctx.close(m.loss(xin).item(), c["total"].item(), "loss() vs loss_components", 1e-6, 1e-6)
    torch.manual_seed(seed)
    ctx.close(m(xin)["total"].item(), c["total"].item(), "forward() vs loss_components", 1e-6, 1e-6)
    if w.rec + w.kld + w.nll > 0 and c["total"].requires_grad:
        c["total"].backward()
        for nme, p in m.named_parameters():
            ctx.check(p.grad is None or np.isfinite(p.grad.numpy()).all(), f"non-finite gradient of {nme}")
        if w.nll > 0:
            ctx.check(any(p.grad is not None and float(p.grad.abs().sum()) > 0 for p in q.e.parameters()) or n == 0, "no gradient reaches the circuit")


def _zr(q, z):
    return np.rint(z) if q.zvar.domain else z


class _Rec:
    """Records every loss evaluation of a model: rows, components, mode and (when training) the gradient of the total."""

    def __init__(self, m):
        import torch

        self.m, self.log = m, []
        orig = type(m).loss_components
        ps = [p for p in m.parameters() if p.requires_grad]

        def wrapped(x, *a, **k):
            c = orig(m, x, *a, **k)
            g = None
            if torch.is_grad_enabled() and c["total"].requires_grad:
                g = torch.autograd.grad(c["total"], ps, retain_graph=True, allow_unused=True)
            self.log.append((x.detach().clone(), {k: float(c[k].detach()) for k in ("rec", "kld", "nll", "total")}, m.training, torch.is_grad_enabled(), g))
            return c

        m.loss_components = wrapped

    def take(self):
        out, self.log = self.log, []
        return out


def _avg(rows, k):
    return sum(c[k] * len(x) for x, c, *_ in rows) / sum(len(x) for x, *_ in rows)


def _rows_same(ctx, rows, X, what):
    import torch

    got = torch.cat([x for x, *_ in rows]).numpy()
    key = lambda a: sorted(map(tuple, np.nan_to_num(a.reshape(len(a), -1), nan=-99.0).tolist()))
    ctx.check(key(got) == key(X.numpy()), f"{what}: the rows visited are not each row exactly once")


def f_train(ctx):
    """fit_apc / train_apc_step / evaluate_apc: every row once per epoch, gradient steps of the loss, averages over rows."""
    import torch
    from spflow.zoo.apc import ApcTrainConfig
    from spflow.zoo.apc.train import evaluate_apc, fit_apc

    rng = ctx.rng
    q, m, cfg, dec = _setup(ctx)
    w = cfg.loss_weights
    N, bs = int(rng.integers(3, 14)), int(rng.integers(2, 6))
    X = mon.tt(_randx(q, rng, N))
    V = mon.tt(_randx(q, rng, int(rng.integers(1, 7)))) if rng.random() < 0.6 else None
    tc = ApcTrainConfig(epochs=int(rng.integers(1, 4)), batch_size=bs, learning_rate=0.02, weight_decay=float(rng.choice([0.0, 0.05])),
                        grad_clip_norm=None if rng.random() < 0.5 else float(rng.choice([0.01, 0.5])))
    ctx.note(str(tc))
    m2 = copy.deepcopy(m)
    if not m.loss_components(X)["total"].requires_grad:
        raise Skip("loss does not depend on parameters")
    rec = _Rec(m)
    own = rng.random() < 0.4
    ps = [p for p in m.parameters() if p.requires_grad]
    ps2 = [p for p in m2.parameters() if p.requires_grad]
    opt = torch.optim.SGD(ps, lr=1e-3, momentum=0.9) if own else None
    opt2 = torch.optim.SGD(ps2, lr=1e-3, momentum=0.9) if own else torch.optim.Adam(ps2, lr=tc.learning_rate, weight_decay=tc.weight_decay)
    wrap = [lambda b: b, lambda b: (b,), lambda b: [b, torch.zeros(len(b))]][int(rng.integers(3))]
    data = lambda T: T if rng.random() < 0.5 else [wrap(T[i:i + bs]) for i in range(0, len(T), bs)]
    train, val = data(X), None if V is None else data(V)
    ctx.count("train:" + ("tensor" if torch.is_tensor(train) else "loader") + ("/own optimizer" if own else "/Adam"))
    x0 = X.clone()
    hist = fit_apc(m, train, config=tc, optimizer=opt, val_data=val)
    log = rec.take()
    ctx.check(torch.equal(X, x0), "training changed the data")
    ctx.check(len(hist) == tc.epochs, "history length")
    if not log:
        raise Skip("the loss evaluations are not observable")
    nb = -(-N // bs)
    pos = 0
    for ep in range(tc.epochs):
        rows = log[pos:pos + nb]
        pos += nb
        ctx.check(len(rows) == nb and all(t and g for _, _, t, g, _ in rows), f"epoch {ep + 1}: training steps not in training mode")
        _rows_same(ctx, rows, X, f"epoch {ep + 1} training")
        ctx.check(all(len(r[0]) <= bs for r in rows), "batch larger than batch_size")
        for k in ("rec", "kld", "nll", "total"):
            ctx.close(hist[ep][f"train_{k}"], _avg(rows, k), f"epoch {ep + 1} training {k}: average over the rows", 1e-5, 1e-6)
        ctx.check(hist[ep]["epoch"] == ep + 1, "epoch number")
        for r in rows:
            for p, g in zip(ps2, r[4]):
                p.grad = None if g is None else g.clone()
            if tc.grad_clip_norm is not None:
                n = torch.sqrt(sum((p.grad.double() ** 2).sum() for p in ps2 if p.grad is not None))
                for p in ps2:
                    if p.grad is not None and n > tc.grad_clip_norm:
                        p.grad = (p.grad.double() * tc.grad_clip_norm / n).to(p.dtype)
            opt2.step()
        if V is not None:
            nv = -(-len(V) // bs)
            rows = log[pos:pos + nv]
            pos += nv
            ctx.check(len(rows) == nv and not any(t or g for _, _, t, g, _ in rows), f"epoch {ep + 1}: validation in training mode or recording gradients")
            _rows_same(ctx, rows, V, f"epoch {ep + 1} validation")
            for k in ("rec", "kld", "nll", "total"):
                ctx.close(hist[ep][f"val_{k}"], _avg(rows, k), f"epoch {ep + 1} validation {k}", 1e-5, 1e-6)
    ctx.check(pos == len(log), f"{len(log)} loss evaluations, expected {pos}")
    # Adam's first steps depend on the sign of the gradient: entries with (numerically) zero gradient are not compared
    for (n1, a), (_, b) in zip(m.named_parameters(), m2.named_parameters()):
        a, b = a.detach().numpy(), b.detach().numpy()
        gs = [r[4][i] for r in log if r[4] is not None for i in [next((i for i, p in enumerate(ps) if p is dict(m.named_parameters())[n1]), -1)] if i >= 0 and r[4][i] is not None]
        small = np.zeros(a.shape, bool)
        for g in gs:
            small |= np.abs(g.numpy()) < 1e-5
        ok = ~small
        ctx.close(a[ok], b[ok], f"parameter {n1} after training", 1e-3, 1e-4)
        ctx.count("parameters_compared", int(ok.sum()))
    ctx.count("steps", nb * tc.epochs)
    # the trained joint circuit is still a distribution
    if q.xvar.domain and q.zvar.domain:
        D = _dom(q.xv + q.zv)
        ctx.close(mon.lse(mon.ll(q.e.pc, D)[:, 0, 0, 0]), 0.0, "total mass of the trained joint circuit", 1e-3, 1e-3)
    # evaluation leaves parameters and mode alone
    for mode in (True, False):
        m.train(mode)
        before = [p.detach().clone() for p in m.parameters()]
        r = evaluate_apc(m, data(X), batch_size=bs)
        rows = rec.take()
        ctx.check(m.training == mode and all(s.training == mode for s in m.modules()), "evaluation changed the training mode")
        ctx.check(all(torch.equal(a, b) for a, b in zip(before, m.parameters())), "evaluation changed the parameters")
        _rows_same(ctx, rows, X, "evaluation")
        ctx.check(not any(t or g for _, _, t, g, _ in rows), "evaluation in training mode or recording gradients")
        for k in ("rec", "kld", "nll", "total"):
            ctx.close(r[k], _avg(rows, k), f"evaluate_apc {k}: average over the rows", 1e-5, 1e-6)


def f_decoders(ctx):
    """Neural decoders: declared shape, range of the activation, rows independent in eval mode, reproducible."""
    import torch
    from spflow.zoo.apc.decoders import ConvDecoder2D, MLPDecoder1D, NeuralDecoder2D

    rng = ctx.rng
    k = ctx.idx % 3
    nz = int(rng.integers(1, 5))
    act = ["identity", "tanh", "sigmoid"][int(rng.integers(3))]
    ch, s = int(rng.integers(1, 4)), int(rng.choice([4, 8, 12]))
    if k == 0:
        d = MLPDecoder1D(nz, int(rng.integers(1, 6)), hidden_dims=tuple(int(v) for v in rng.integers(1, 6, int(rng.integers(1, 4)))), out_activation=act)
        shape = (d(torch.zeros(1, nz)).shape[1],)
    elif k == 1:
        shape = (ch, s + int(rng.integers(0, 3)), s + int(rng.integers(0, 3)))
        d = ConvDecoder2D(nz, shape, base_channels=int(rng.choice([2, 4, 8])), num_upsamples=int(rng.integers(0, 3)), out_activation=act)
    else:
        shape = (ch, s, s)
        d = NeuralDecoder2D(nz, shape, num_hidden=4, num_res_hidden=2, num_res_layers=1, num_scales=2, bn=bool(rng.random() < 0.5), out_activation=act)
    d.eval()
    ctx.key("dec", k, shape, act, nz)
    z = torch.randn(5, nz) * 5
    with torch.no_grad():
        y = d(z)
        ctx.check(tuple(y.shape) == (5, *shape), f"decoder output {tuple(y.shape)} vs {(5, *shape)}")
        ctx.close(d(z[2:3]).numpy(), y[2:3].numpy(), "decoder rows depend on each other", 1e-3, 1e-4)
        if act == "tanh":
            ctx.check(float(y.abs().max()) <= 1, "tanh range")
        if act == "sigmoid":
            ctx.check(float(y.min()) >= 0 and float(y.max()) <= 1, "sigmoid range")
    ctx.count("decoders")
    from spflow.exceptions import InvalidParameterError

    for bad in (torch.zeros(2, nz + 1),):
        try:
            d(bad)
            ctx.fail("decoder accepted a latent of the wrong size")
        except (InvalidParameterError, RuntimeError):
            ctx.count("rejections")


def f_reject(ctx):
    """Wrong shapes, sizes, settings and leaf scopes are refused."""
    import torch
    from spflow.exceptions import InvalidParameterError, ShapeError, UnsupportedOperationError
    from spflow.zoo.apc import ApcConfig, ApcTrainConfig
    from spflow.zoo.apc.config import ApcLossWeights
    from spflow.zoo.apc.encoders.einet_joint_encoder import EinetJointEncoder

    rng = ctx.rng
    q = _encoder(ctx, xk=("bernoulli",))
    m = _model(q)
    x, z = mon.tt(_randx(q, rng, 3)), mon.tt(_randz(q, rng, 3))
    E = (InvalidParameterError, ShapeError, UnsupportedOperationError, ValueError)
    nrm = lambda s, c, r: lr.build("normal", list(s), lr.rand_params("normal", rng, (len(s), c, r)))  # noqa: E731
    bad = {
        "x too wide": lambda: q.e.encode(torch.cat([x, x[:, :1]], 1)),
        "x too narrow": lambda: q.e.log_likelihood_x(x[:, :-1]),
        "x one-dimensional": lambda: q.e.encode(x[0]),
        "z too wide": lambda: q.e.decode(torch.cat([z, z[:, :1]], 1)),
        "batch mismatch": lambda: q.e.joint_log_likelihood(x, z[:2]),
        "no samples": lambda: q.e.sample_prior_z(0),
        "tau 0": lambda: q.e.encode(x, tau=0.0),
        "latent_dim 0": lambda: ApcConfig(latent_dim=0),
        "sample_tau": lambda: ApcConfig(latent_dim=1, sample_tau=-1.0),
        "negative weight": lambda: ApcLossWeights(kld=-0.1),
        "epochs": lambda: ApcTrainConfig(epochs=0),
        "batch": lambda: ApcTrainConfig(batch_size=0),
        "lr": lambda: ApcTrainConfig(learning_rate=0.0),
        "clip": lambda: ApcTrainConfig(grad_clip_norm=0.0),
        "decay": lambda: ApcTrainConfig(weight_decay=-1.0),
        "x leaf scope": lambda: EinetJointEncoder(num_x_features=3, latent_dim=2, x_leaf_factory=lambda s, c, r: nrm([0, 1], c, r)),
        "z leaf scope": lambda: EinetJointEncoder(num_x_features=3, latent_dim=2, z_leaf_factory=lambda s, c, r: nrm([0, 1], c, r)),
        "no features": lambda: EinetJointEncoder(num_x_features=0, latent_dim=2),
        "loss name": lambda: _model(q, None, _cfg(rng, q, rec_loss="l1")).loss(x),
    }
    for name, fn in bad.items():
        try:
            fn()
        except E:
            ctx.count("rejections")
            continue
        ctx.fail(f"accepted: {name}")


FAMILIES = [
    Family("ll", f_ll, 40, 500),
    Family("encode", f_encode, 40, 500),
    Family("stats", f_stats, 30, 400),
    Family("decode", f_decode, 40, 500),
    Family("prior", f_prior, 24, 300),
    Family("mpe", f_mpe, 30, 300),
    Family("tau", f_tau, 15, 200),
    Family("loss", f_loss, 60, 700),
    Family("train", f_train, 26, 400),
    Family("decoders", f_decoders, 18, 90),
    Family("reject", f_reject, 4, 20),
]
