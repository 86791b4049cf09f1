"""C20: class posteriors follow Bayes' rule, predictions maximise them, and supervised estimation is per class."""
import numpy as np

from spmon import circ, leafref as lr, mon, zoo
from spmon.circ import Var, t
from spmon.runner import Family, Skip
from spmon.checks import common

PID = "C20"
RULE = "distinct = distinct classifier configuration (model family, shapes, number of classes, prior)"
ASSUMPTIONS = ["class-conditional likelihoods are obtained from the same model with all class weight on one class (Naive Bayes: from the leaves' scipy densities)",
               "rows of probability zero under every class have no posterior and are not asked for"]


def onehot_class_ll(m, K, X, set_w):
    """log p(x | y) for every class, by giving one class (almost) the whole prior."""
    out = []
    for k in range(K):
        w = np.zeros(K)
        w[k] = 1.0
        out.append(set_w(w))
    return np.stack(out, 1)


def bayes(prior, cond):
    j = np.log(prior)[None] + cond
    return j - mon.lse(j, 1)[:, None], mon.lse(j, 1)


def rows(rng, vs, n):
    X = circ.rand_data(rng, vs, n, missing=float(rng.choice([0.0, 0.3, 0.6])))
    X[0] = np.nan
    return X


def judge(ctx, m, K, X, prior, cond, what):
    import torch
    from spflow.interfaces.classifier import Classifier

    ctx.check(isinstance(m, Classifier), f"{what}: not a Classifier")
    post, marg = bayes(prior, cond)
    x = mon.tt(X)
    lp = m.log_posterior(x).detach().numpy().astype(float)
    ctx.check(lp.shape == (len(X), K), f"{what}: log_posterior shape {lp.shape}")
    ctx.close(np.exp(lp), np.exp(post), f"{what}: posterior against Bayes' rule", rtol=1e-3, atol=2e-4)
    ctx.close(np.maximum(lp, -30), np.maximum(post, -30), f"{what}: log posterior against Bayes' rule", rtol=2e-3, atol=2e-3)
    pp = m.predict_proba(x).detach().numpy().astype(float)
    ctx.close(pp, np.exp(post), f"{what}: predict_proba", rtol=1e-3, atol=2e-4)
    ctx.close(pp.sum(1), np.ones(len(X)), f"{what}: predicted probabilities add up", rtol=0, atol=1e-4)
    ctx.close(pp[0], prior, f"{what}: without evidence the posterior is the prior", rtol=1e-4, atol=1e-4)
    pr = m.predict(x).detach().numpy()
    ctx.check(pr.shape == (len(X),), f"{what}: predict shape {pr.shape}")
    best = np.exp(post)
    srt = np.sort(best, 1)
    clear = srt[:, -1] - srt[:, -2] > 1e-3
    ctx.check((pr[clear] == best.argmax(1)[clear]).all(), f"{what}: prediction is not the most probable class")
    ctx.close(mon.ll(m, X)[:, 0, 0, 0], marg, f"{what}: log-likelihood is the class mixture", rtol=1e-3, atol=1e-3)
    # one row alone, any order
    i = int(rng_i(ctx, len(X)))
    ctx.close(m.log_posterior(x[i:i + 1]).detach().numpy(), lp[i:i + 1], f"{what}: posterior of a row alone", rtol=1e-4, atol=1e-4)
    from spflow.utils.cache import Cache

    c = Cache()
    with torch.no_grad():
        a = m.log_posterior(x, cache=c).numpy()
        b = m.log_likelihood(x, cache=c).numpy()
    ctx.close(a, lp, f"{what}: posterior with a cache", rtol=1e-5, atol=1e-5)
    ctx.close(b[:, 0, 0, 0], marg, f"{what}: likelihood sharing the posterior's cache", rtol=1e-3, atol=1e-3)
    ctx.count("posteriors_checked", len(X) * K)


def rng_i(ctx, n):
    return ctx.rng.integers(n)


def f_deep(ctx):
    """RAT-SPN and Einet classifiers."""
    import torch

    rng = ctx.rng
    name = str(rng.choice(["rat", "einet"]))
    K = int(rng.integers(2, 5))
    z = common.model(ctx, name, classes=K)
    m = z.m
    X = rows(rng, z.vs, 8)
    shape = tuple(m.root_node.log_weights.shape)
    ctx.check(int(np.prod(shape)) == K, f"{name}: class weights {shape}")
    prior = rng.dirichlet(np.ones(K)) * 0.95 + 0.05 / K
    keep = m.root_node.logits.detach().clone()

    def cond(w):
        with torch.no_grad():
            m.root_node.logits.copy_(t(np.where(w > 0, 0.0, -200.0)).reshape(keep.shape))
        return mon.ll(m, X)[:, 0, 0, 0]

    C = onehot_class_ll(m, K, X, cond)
    m.root_node.weights = t(prior).reshape(shape)
    m.eval() if rng.random() < 0.5 else m.train()
    judge(ctx, m, K, X, prior, C, f"{name} with {K} classes")
    # changing the prior changes the posterior accordingly
    prior = rng.dirichlet(np.ones(K)) * 0.95 + 0.05 / K
    m.root_node.weights = t(prior).reshape(shape)
    judge(ctx, m, K, X, prior, C, f"{name} with {K} classes, new prior")


NB = ["bernoulli", "categorical", "binomial", "poisson", "geometric", "normal", "laplace", "exponential", "gamma", "lognormal"]


def nb_leaves(rng, K, kinds=NB, Fmax=3, groups=None):
    out, vs = [], []
    groups = groups or int(rng.integers(1, 4))
    used = 0
    perm = rng.permutation(groups * Fmax)
    for _ in range(groups):
        kind = str(rng.choice(kinds))
        F = int(rng.integers(1, Fmax + 1))
        v = Var(kind, K=3 if kind == "categorical" else None, total=4 if kind == "binomial" else None)
        prm = lr.rand_params(kind, rng, (F, K, 1), K=3, total=4)
        cols = list(range(used, used + F))
        out.append((kind, cols, prm))
        vs += [v] * F
        used += F
    return out, vs


def nb_cond(spec, X, K):
    """Class-conditional log-likelihoods from scipy densities of the given parameters."""
    L = np.zeros((len(X), K))
    for kind, cols, prm in spec:
        for f, c in enumerate(cols):
            for k in range(K):
                p = {q: v[f, k, 0] for q, v in prm.items()}
                ob = ~np.isnan(X[:, c])
                L[ob, k] += lr.logpdf(kind, X[ob, c], p)
    return L


def f_nb(ctx):
    from spflow.zoo.naive_bayes import NaiveBayes

    rng = ctx.rng
    K = int(rng.integers(2, 5))
    spec, vs = nb_leaves(rng, K)
    perm = rng.permutation(len(spec))
    leaves = [lr.build(k, c, p) for k, c, p in (spec[i] for i in perm)]
    how = int(rng.integers(4))
    raw = rng.gamma(1.0, size=K) + 0.05
    kw = {}
    prior = raw / raw.sum()
    if how == 0:
        prior = np.ones(K) / K
    elif how == 1:
        kw["class_prior"] = raw.tolist()
    elif how == 2:
        kw["class_prior"] = t(raw)
    else:
        kw["class_prior"] = t(prior)
    kw["learnable_prior"] = bool(rng.random() < 0.5)
    m = NaiveBayes(leaves if len(leaves) > 1 or rng.random() < 0.5 else leaves[0], num_classes=K, **kw)
    X = rows(rng, vs, 9)
    ctx.key("nb", tuple((k, len(c)) for k, c, _ in spec), K, how)
    judge(ctx, m, K, X, prior, nb_cond(spec, X, K), f"naive Bayes {[k for k, _, _ in spec]} prior form {how}")
    bad = [np.append(raw, 1.0), raw[:-1], -raw, np.where(np.arange(K) == 0, 0.0, raw), np.where(np.arange(K) == 0, np.nan, raw)]
    for b in bad:
        try:
            NaiveBayes(leaves, num_classes=K, class_prior=t(b))
        except Exception:  # noqa: BLE001
            ctx.count("rejected")
            continue
        ctx.fail(f"class prior {b.tolist()} accepted for {K} classes")


def f_fit(ctx):
    """Supervised estimation: every class gets the estimate of its own rows; the prior becomes the class frequencies iff it is learnable."""
    import torch
    from spflow.zoo.naive_bayes import NaiveBayes

    rng = ctx.rng
    K = int(rng.integers(2, 5))
    kinds = ["bernoulli", "categorical", "binomial", "poisson", "geometric", "normal", "exponential", "lognormal"]
    spec, vs = nb_leaves(rng, K, kinds=kinds)
    leaves = [lr.build(k, c, p) for k, c, p in spec]
    n = int(rng.integers(8 * K, 60))
    y = np.concatenate([np.repeat(np.arange(K), 3), rng.integers(0, K, n - 3 * K)])
    X = circ.rand_data(rng, vs, n)
    gone = int(rng.integers(K)) if rng.random() < 0.3 else None  # a class the training data do not contain
    if gone is not None:
        y = np.where(y == gone, (gone + 1) % K, y)
    perm = rng.permutation(n)
    y, X = y[perm], X[perm]
    learn = bool(rng.random() < 0.6)
    prior0 = rng.dirichlet(np.ones(K)) * 0.9 + 0.1 / K
    bc = False  # the bias correction counts all rows, also those of other classes
    m = NaiveBayes(leaves, num_classes=K, class_prior=t(prior0), learnable_prior=learn)
    m.maximum_likelihood_estimation(mon.tt(X), targets=torch.as_tensor(y), bias_correction=bc)
    ctx.key("fit", tuple((k, len(c)) for k, c, _ in spec), K, n, learn, bc)
    Z = circ.rand_data(rng, vs, 12, missing=0.2)
    C = np.zeros((len(Z), K))
    got = mon.ll(m.conditional_root, Z)[:, 0, :, 0]
    ctx.check(not np.isnan(got).any(), f"NaN likelihood after supervised estimation (class absent from the targets: {gone})")
    for k in range(K):
        if k == gone:
            C[:, k] = got[:, k]
            continue
        for (kind, cols, prm) in spec:
            one = lr.build(kind, cols, {q: v[:, :1] for q, v in prm.items()})
            one.maximum_likelihood_estimation(mon.tt(X[y == k]), bias_correction=bc)
            C[:, k] += mon.ll(one, Z)[:, :, 0, 0].sum(1)
    prior = np.maximum(np.bincount(y, minlength=K) / n, 1e-9) if learn else prior0
    fin = np.isfinite(C).all(1)
    C = np.maximum(C, -1e4)
    ctx.close(np.maximum(got, -60), np.maximum(C, -60), "class-conditional likelihoods after supervised estimation against one model per class", rtol=2e-3, atol=2e-3)
    j = bayes(prior, C)[0]
    pp = m.predict_proba(mon.tt(Z[fin])).detach().numpy()
    ctx.close(pp, np.exp(j[fin]), f"posterior after supervised estimation (learnable prior {learn})", rtol=5e-3, atol=1e-3)
    for bad in (None, torch.as_tensor(y).double(), torch.as_tensor(y[:-1]), torch.as_tensor(y) + K, torch.as_tensor(y) - K):
        try:
            m.maximum_likelihood_estimation(mon.tt(X), targets=bad)
        except Exception:  # noqa: BLE001
            ctx.count("rejected")
            continue
        ctx.fail(f"targets {None if bad is None else (bad.dtype, bad.min().item(), bad.max().item(), len(bad))} accepted")


def f_joint(ctx):
    """A generative classifier's joint distribution: sampling rows from it, the posterior predicts their classes with the stated confidence (calibration)."""
    import torch
    from spflow.zoo.naive_bayes import NaiveBayes

    rng = ctx.rng
    K = int(rng.integers(2, 4))
    spec, vs = nb_leaves(rng, K, kinds=["bernoulli", "categorical"], groups=2)
    prior = rng.dirichlet(np.ones(K)) * 0.9 + 0.1 / K
    m = NaiveBayes([lr.build(k, c, p) for k, c, p in spec], num_classes=K, class_prior=t(prior))
    ctx.key("joint", tuple((k, len(c)) for k, c, _ in spec), K)
    N = 3000
    y = rng.choice(K, size=N, p=prior)
    X = mon.slot_draw(m.conditional_root, mon.tt(np.full((N, len(vs)), np.nan)), y[:, None], np.zeros(N, np.int64)).detach().numpy().astype(float)
    pp = m.predict_proba(mon.tt(X)).detach().numpy().astype(float)
    for k in range(K):
        b = np.clip((pp[:, k] * 6).astype(int), 0, 5)
        for v in range(6):
            s = b == v
            if s.sum() < 60:
                continue
            e, var = pp[s, k].sum(), (pp[s, k] * (1 - pp[s, k])).sum()
            ctx.check(abs((y[s] == k).sum() - e) <= 7 * np.sqrt(var) + 3, f"class {k}: {int((y[s] == k).sum())} of {int(s.sum())} rows, posterior expects {e:.1f}")
            ctx.count("calibration_bins")


FAMILIES = [
    Family("deep", f_deep, 60, 1500, timeout=60),
    Family("nb", f_nb, 90, 2500, timeout=60),
    Family("fit", f_fit, 60, 1500, timeout=60),
    Family("joint", f_joint, 16, 300, timeout=60),
]
