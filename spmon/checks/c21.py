"""C21: the scikit-learn interface gives the wrapped model's own answers, in scikit-learn's conventions."""
import copy
import pickle

import numpy as np

from spmon import circ, leafref as lr, mon, zoo
from spmon.circ import Var, t
from spmon.runner import Family, Skip
from spmon.checks import common

PID = "C21"
RULE = "distinct = distinct estimator configuration (model, learner settings, aggregation, dtype, input container)"
ASSUMPTIONS = ["multi-channel / multi-repetition scores are compared with the documented aggregation of the model's log-likelihood; sampling is judged for single-output models"]


def container(rng, X, dtype="float32"):
    """The same table in another container."""
    import torch

    k = int(rng.integers(4))
    if k == 0 or (k == 1 and dtype is None):
        return X  # lists become float64 tables, which a float32 model need not accept without dtype
    if k == 1:
        return X.tolist()
    if k == 2:
        return np.asfortranarray(X)
    return torch.as_tensor(X).numpy()


def f_wrap(ctx):
    """Density estimator around a given model."""
    import torch
    from sklearn.base import clone
    from sklearn.exceptions import NotFittedError
    from spflow.interfaces.sklearn import SPFlowDensityEstimator

    rng = ctx.rng
    multi = rng.random() < 0.5
    if multi:
        node, vs = circ.random_multi(rng, families=circ.CONTINUOUS + circ.DISCRETE)
    else:
        node, vs = circ.random_circuit(rng, families=circ.CONTINUOUS + circ.DISCRETE, sampleable=True)
    m = node.build()
    dtype = [None, "float32", "float64"][int(rng.integers(3))]
    ca, ra = (str(rng.choice(["logmeanexp", "logsumexp", "first"])) for _ in range(2))
    ctx.key("wrap", node.sig(), dtype, ca, ra)
    ctx.note(node.describe()[:250])
    est = SPFlowDensityEstimator(model=m, fit_params=False, dtype=dtype, channel_agg=ca, repetition_agg=ra)
    X = circ.rand_data(rng, vs, 9, missing=0.3)
    if dtype is None:
        X = X.astype(np.float32)
    for f in (lambda: est.score_samples(X), lambda: est.sample(1)):
        try:
            f()
        except (NotFittedError, AttributeError, ValueError):
            ctx.count("rejected")
            continue
        ctx.fail("an unfitted estimator answered")
    keep = X.copy()
    sd = copy.deepcopy(m.state_dict())
    if dtype == "float64":
        m.double()
    r = est.fit(container(rng, X, dtype), None if rng.random() < 0.5 else np.zeros(9))
    ctx.check(r is est and est.n_features_in_ == len(vs), "fit returns the estimator and counts features")
    ctx.check(all(torch.equal(v, m.state_dict()[k].to(v.dtype)) for k, v in sd.items()), "fit without fit_params changed the model")
    L = m.log_likelihood(torch.as_tensor(X, dtype=torch.float64 if dtype == "float64" else torch.float32)).detach().numpy().astype(float).sum(1)
    for ax, agg in ((-1, ra), (-1, ca)):
        L = L[..., 0] if agg == "first" else mon.lse(L, ax) - (np.log(L.shape[ax]) if agg == "logmeanexp" else 0)
    got = est.score_samples(container(rng, X, dtype))
    ctx.check(isinstance(got, np.ndarray) and got.shape == (9,), f"score_samples returns {type(got).__name__} {np.shape(got)}")
    ctx.close(got, L, f"score_samples (channels {ca}, repetitions {ra})", rtol=2e-4, atol=2e-4)
    ctx.check(np.array_equal(X, keep, equal_nan=True), "the caller's table was changed")
    ctx.close(est.score_samples(X[3:4]), L[3:4], "score of one row", rtol=2e-4, atol=2e-4)
    ctx.check(est.score_samples(np.empty((0, len(vs)), X.dtype)).shape == (0,), "score of an empty table")
    # conventions: parameters, clone, pickle
    c = clone(est)
    ctx.check(not hasattr(c, "model_") and c.get_params(deep=False).keys() == est.get_params(deep=False).keys(), "clone keeps the parameters and drops the fit")
    ctx.check(c.channel_agg == ca and c.repetition_agg == ra and c.dtype == dtype, "clone changed a parameter")
    ctx.close(clone(est).fit(X).score_samples(X), L, "clone, fitted", rtol=2e-4, atol=2e-4)
    ctx.close(pickle.loads(pickle.dumps(est)).score_samples(X), L, "pickled estimator", rtol=2e-4, atol=2e-4)
    if not multi:
        sampling(ctx, est, m, vs, rng)
    ctx.count("scores_compared", 9)


def sampling(ctx, est, m, vs, rng):
    import torch

    n = int(rng.integers(1, 7))
    a = est.sample(n, random_state=3)
    ctx.check(isinstance(a, np.ndarray) and a.shape == (n, len(vs)) and np.isfinite(a).all(), f"sample returns {type(a).__name__} {np.shape(a)}")
    st = torch.random.get_rng_state()
    b = est.sample(n, random_state=np.int64(3))
    ctx.check(torch.equal(st, torch.random.get_rng_state()), "seeded sampling disturbed the global generator")
    ctx.check(np.array_equal(a, b), "the same random_state gave different samples")
    torch.manual_seed(11)
    z = est.sample(40, random_state=3)
    torch.manual_seed(12)
    ctx.check(np.array_equal(z, est.sample(40, random_state=3)), "random_state does not determine the samples")
    if len(set(map(tuple, z.tolist()))) > 8:
        ctx.check(not np.array_equal(z, est.sample(40, random_state=4)), "different random_state, same samples")
        u, v = est.sample(40), est.sample(40)
        ctx.check(not np.array_equal(u, v), "two successive unseeded draws are identical")
    for bad in (0, -1, 1.5, "3"):
        try:
            est.sample(bad)
        except Exception:  # noqa: BLE001
            ctx.count("rejected")
            continue
        ctx.fail(f"sample({bad!r}) accepted")


def f_dist(ctx):
    """Samples drawn through the interface (many calls, seeded or not) follow the model."""
    from spflow.interfaces.sklearn import SPFlowDensityEstimator

    node, m, vs = common.ast(ctx, sampleable=True, cap=200)
    est = SPFlowDensityEstimator(model=m, fit_params=False).fit(np.zeros((1, len(vs)), np.float32))
    D = mon.domain(vs).astype(np.float32)
    p = np.exp(est.score_samples(D))
    ctx.close(p.sum(), 1.0, "scores add up over the domain", rtol=0, atol=1e-3)
    k = 40
    S = np.concatenate([est.sample(50) for _ in range(k)])
    ix = mon.index_rows(D, S)
    ctx.check((ix >= 0).all(), "sampled values outside the domain")
    mon.chi2_cells(ctx, np.bincount(ix, minlength=len(D)), p, f"{k} unseeded calls of sample(50)")
    S = np.concatenate([est.sample(50, random_state=int(s)) for s in ctx.rng.choice(1 << 30, k, replace=False)])
    mon.chi2_cells(ctx, np.bincount(mon.index_rows(D, S), minlength=len(D)), p, f"{k} calls of sample(50) with different seeds")


def f_learn(ctx):
    """fit() with a structure learner equals learning with that learner directly."""
    import torch
    from sklearn.base import clone
    from spflow.interfaces.sklearn import SPFlowDensityEstimator
    from spflow.learn.learn_spn import learn_spn
    from spflow.learn.prometheus import learn_prometheus
    from spflow.meta.data.scope import Scope
    from spflow.modules.leaves import Normal

    rng = ctx.rng
    n, d = int(rng.integers(40, 90)), int(rng.integers(1, 5))
    which = str(rng.choice(["learn_spn", "prometheus"])) if d > 1 else "learn_spn"
    g = rng.integers(0, 2, n)
    X = (rng.normal(size=(n, d)) + g[:, None] * rng.normal(size=d) * 3).astype(np.float32)
    mi = int(rng.integers(10, 40))

    def cluster(data, n_clusters=2, **kw):
        return (data[:, 0] > data[:, 0].median()).long()

    def part(data, threshold=0.3, **kw):
        k = data.shape[1]
        if data.shape[0] < n // 2 + 1 and k > 1:
            return torch.as_tensor([0] + [1] * (k - 1))
        return torch.zeros(k, dtype=torch.long)

    kw = {"clustering_method": cluster, "partitioning_method": part} if which == "learn_spn" else {"clustering_method": cluster}
    est = SPFlowDensityEstimator(structure_learner=which, structure_learner_kwargs=dict(kw), min_instances_slice=mi, min_features_slice=2)
    keep = X.copy()
    inp = [X, X.astype(np.float64), X.tolist(), X.astype(np.float64).T.copy().T][int(rng.integers(4))]
    est.dtype = "float32" if not (isinstance(inp, np.ndarray) and inp.dtype == np.float32) or rng.random() < 0.5 else None
    torch.manual_seed(1)
    np.random.seed(1)
    est.fit(inp)
    ctx.check(np.array_equal(X, keep), "fit changed the caller's table")
    torch.manual_seed(1)
    np.random.seed(1)
    fn = learn_spn if which == "learn_spn" else learn_prometheus
    ref = fn(torch.as_tensor(X), leaf_modules=Normal(scope=Scope(list(range(d))), out_channels=1), out_channels=1, min_instances_slice=mi, min_features_slice=2, **kw)
    ctx.key("learn", which, n, d, mi)
    Z = np.concatenate([X[:6], rng.normal(size=(4, d)).astype(np.float32)])
    want = mon.ll(ref, Z)[:, 0, 0, 0]
    ctx.close(est.score_samples(Z), want, f"{which} through fit() against calling it", rtol=1e-3, atol=1e-3)
    ctx.check(est.n_features_in_ == d and sorted(est.model_.scope.query) == list(range(d)), "features of the fitted model")
    s = est.sample(5, random_state=0)
    ctx.check(s.shape == (5, d) and np.isfinite(s).all(), "sample of the learned model")
    # refitting on other data forgets the first fit; cloning drops it
    Y = X[::2] * 2 + 1
    a = clone(est).fit(Y).score_samples(Z)
    est.fit(Y)
    ctx.close(est.score_samples(Z), a, "refitting equals fitting a clone", rtol=1e-3, atol=1e-3)
    for bad in ({"structure_learner": "nope"}, {"leaf": "nope"}, {"dtype": "nope"}):
        try:
            SPFlowDensityEstimator(**bad).fit(X)
        except Exception:  # noqa: BLE001
            ctx.count("rejected")
            continue
        ctx.fail(f"{bad} accepted")


def f_fitparams(ctx):
    """fit_params=True estimates the parameters of the given model from the table."""
    import torch
    from spflow.interfaces.sklearn import SPFlowDensityEstimator

    rng = ctx.rng
    kind = str(rng.choice(["normal", "bernoulli", "exponential", "poisson", "categorical", "laplace"]))
    d = int(rng.integers(1, 4))
    prm = lr.rand_params(kind, rng, (d, 1, 1), K=3, total=3)
    X = lr.sample_data(kind, rng, 30 * d, K=3, total=3).reshape(30, d)
    a, b = (lr.build(kind, list(range(d)), prm) for _ in range(2))
    before = mon.ll(a, X)
    est = SPFlowDensityEstimator(model=a, fit_params=False, dtype="float32").fit(X)
    ctx.close(mon.ll(a, X), before, "fit_params=False changed the model", rtol=0, atol=0)
    est = SPFlowDensityEstimator(model=a, fit_params=True, dtype="float32").fit(X)
    b.maximum_likelihood_estimation(mon.tt(X))
    ctx.close(est.score_samples(X), mon.ll(b, X).sum(1)[:, 0, 0], f"{kind}: fit_params=True", rtol=1e-4, atol=1e-4)
    ctx.key("fitparams", kind, d)
    node, vs = circ.random_circuit(rng, n=3)
    try:
        m = node.build()
        if not hasattr(m, "maximum_likelihood_estimation"):
            SPFlowDensityEstimator(model=m, fit_params=True).fit(np.zeros((3, 3)))
            ctx.fail("fit_params=True silently ignored by a circuit without parameter estimation")
    except ValueError:
        ctx.count("rejected")


def f_classifier(ctx):
    """Classifier wrapper: probabilities of the model, labels of the training targets."""
    import torch
    from sklearn.base import clone
    from sklearn.exceptions import NotFittedError
    from spflow.interfaces.sklearn import SPFlowClassifier
    from spflow.zoo.naive_bayes import NaiveBayes

    rng = ctx.rng
    K = int(rng.integers(2, 5))
    r = rng.random()
    if r < 0.4:
        vs = [Var("normal"), Var("normal"), Var("bernoulli")]
        m = NaiveBayes([lr.build("normal", [0, 1], lr.rand_params("normal", rng, (2, K, 1))), lr.build("bernoulli", [2], lr.rand_params("bernoulli", rng, (1, K, 1)))],
                       num_classes=K, class_prior=(rng.gamma(1, size=K) + 0.1).tolist())
        name = "nb"
    else:
        z = common.model(ctx, "rat" if r < 0.7 else "einet", classes=K)
        m, vs, name = z.m, z.vs, z.name
    labels = [np.arange(K), np.array(["ant", "bee", "cat", "dog"])[:K], np.array([-3, 5, 7, 12])[:K], np.array([2.0, 3.0, 9.0, 11.0])[:K], np.array([False, True])][int(rng.integers(5 if K == 2 else 4))]
    y = np.concatenate([labels, labels[rng.integers(0, K, 20)]])
    rng.shuffle(y)
    X = circ.rand_data(rng, vs, len(y), missing=0.2).astype(np.float32)
    clf = SPFlowClassifier(m, dtype=None if rng.random() < 0.5 else "float32")
    for f in (clf.predict, clf.predict_proba):
        try:
            f(X)
        except (NotFittedError, AttributeError):
            ctx.count("rejected")
            continue
        ctx.fail("an unfitted classifier answered")
    ctx.check(clf.fit(X, y) is clf and (clf.classes_ == labels).all(), f"classes_ {clf.classes_} for labels {labels}")
    want = m.predict_proba(torch.as_tensor(X)).detach().numpy()
    pp = clf.predict_proba(container(rng, X, clf.dtype))
    ctx.check(isinstance(pp, np.ndarray), "predict_proba returns an array")
    ctx.close(pp, want, f"{name}: predict_proba", rtol=1e-4, atol=1e-4)
    pr = clf.predict(X)
    ctx.check(np.array_equal(pr, labels[want.argmax(1)]), f"{name}: predicted labels {pr[:4]} for argmax {want.argmax(1)[:4]} of {labels}")
    ctx.close(clf.score(X, y), np.mean(pr == y), "score is the accuracy", rtol=0, atol=1e-9)
    ctx.close(clone(clf).fit(X, y).predict_proba(X), want, "clone", rtol=1e-4, atol=1e-4)
    ctx.key("clf", name, K, labels.dtype.kind, clf.dtype)
    ctx.count("predictions", len(y))


FAMILIES = [
    Family("wrap", f_wrap, 80, 2000, timeout=60),
    Family("dist", f_dist, 16, 200, timeout=60),
    Family("learn", f_learn, 40, 600, timeout=90),
    Family("fitparams", f_fitparams, 30, 600, timeout=60),
    Family("classifier", f_classifier, 50, 1200, timeout=60),
]
