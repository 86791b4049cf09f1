"""C12: structure learners return the circuit their procedure defines, fitted to the data."""
import contextlib
import importlib
import io
import itertools

import numpy as np
import torch

from spmon import leafref as lr
from spmon import mon
from spmon.circ import Var, t
from spmon.runner import Family, Skip

PID = "C12"
RULE = "distinct = distinct learner configuration (learner, leaf families, shapes, slice limits) whose learned distribution was compared with the reference recursion or the empirical marginals"
ASSUMPTIONS = ["leaf templates are fitted by the library's own estimator on the rows the reference recursion assigns to them (C09 checks the estimator itself)"]

FAM = ["bernoulli", "categorical", "binomial", "normal", "poisson", "exponential"]


# ------------------------------------------------------------------ workload
def _vars(rng, n, fam=FAM):
    out = []
    for _ in range(n):
        k = fam[int(rng.integers(len(fam)))]
        out.append(Var(k, K=int(rng.integers(2, 5)) if k == "categorical" else None, total=int(rng.integers(1, 4)) if k == "binomial" else None))
    return out


def _table(rng, vs, N):
    """Correlated mixed data through a latent class."""
    X = np.zeros((N, len(vs)))
    h = rng.integers(0, 3, N)
    for i, v in enumerate(vs):
        for k in range(3):
            q = h == k
            m = int(q.sum())
            if v.kind == "bernoulli":
                X[q, i] = rng.random(m) < rng.uniform(0.05, 0.95)
            elif v.kind == "categorical":
                X[q, i] = rng.choice(v.K, size=m, p=rng.dirichlet(np.ones(v.K)))
            elif v.kind == "binomial":
                X[q, i] = rng.binomial(v.total, rng.uniform(0.05, 0.95), m)
            elif v.kind == "normal":
                X[q, i] = rng.normal(rng.uniform(-3, 3), rng.uniform(0.3, 2), m)
            elif v.kind == "poisson":
                X[q, i] = rng.poisson(rng.uniform(0.5, 6), m)
            else:
                X[q, i] = rng.exponential(rng.uniform(0.3, 3), m) + 0.01
    return X.astype(np.float32).astype(float)


def _layout(rng, vs):
    """Where the modelled variables live: (total columns, positions)."""
    n = len(vs)
    extra = int(rng.integers(0, 3)) if rng.random() < 0.5 else 0
    cols = np.sort(rng.permutation(n + extra)[:n])
    return n + extra, [int(c) for c in cols]


def _templates(rng, vs, cols, C):
    """Leaf templates covering the columns: one per group of equal variable types (possibly split up)."""
    groups = {}
    for v, c in zip(vs, cols):
        groups.setdefault(v.group, []).append((v, c))
    out = []
    for g in groups.values():
        if len(g) > 1 and rng.random() < 0.3:
            k = int(rng.integers(1, len(g)))
            parts = [g[:k], g[k:]]
        else:
            parts = [g]
        for p in parts:
            v = p[0][0]
            prm = lr.rand_params(v.kind, rng, (len(p), C, 1), K=v.K, total=v.total)
            out.append(lr.build(v.kind, [c for _, c in p], prm))
    rng.shuffle(out)
    return out


def _fit(v, x):
    """log-density function of a leaf of v's family fitted to the sample x."""
    prm = lr.rand_params(v.kind, np.random.default_rng(0), (1, 1, 1), K=v.K, total=v.total)
    leaf = lr.build(v.kind, [0], prm)
    leaf.maximum_likelihood_estimation(t(np.asarray(x)[:, None]))
    return lambda q: mon.ll(leaf, np.asarray(q)[:, None])[:, 0, 0, 0]


def _stamp(cols, slab, salt):
    """A deterministic seed from the contents of a data slice."""
    a = np.ascontiguousarray(np.asarray(slab, dtype=np.float32))
    import zlib

    return zlib.crc32(a.tobytes() + str((salt, a.shape)).encode())


def _quiet():
    return contextlib.redirect_stdout(io.StringIO())


class Decisions:
    """Clustering and partitioning as deterministic functions of the slice, observed and checked on every call."""

    def __init__(self, ctx, X, cols, salt, min_i, min_f, k=2, split=0.5, shuffle=True):
        self.ctx, self.X, self.cols, self.salt, self.min_i, self.min_f = ctx, X, cols, salt, min_i, min_f
        self.k, self.split = k, split
        self.colset = [tuple(np.asarray(X[:, c], dtype=np.float32).tolist()) for c in cols]

    def _seen(self, d, what):
        d = np.asarray(d)
        self.ctx.count("callback_calls")
        self.ctx.check(2 <= d.shape[1] <= len(self.cols) and d.shape[1] >= self.min_f, f"{what} was given {d.shape[1]} columns (limit {self.min_f})")
        for j in range(d.shape[1]):
            ok = any(np.isin(d[:, j].astype(np.float32), np.float32(self.X[:, c])).all() for c in self.cols)
            self.ctx.check(ok, f"{what} was given a column that is no column of the model's scope")
        return d

    def cluster_np(self, d):
        r = np.random.default_rng(_stamp(None, d, self.salt))
        n = d.shape[0]
        y = r.integers(0, self.k, n)
        # at least two rows per label, labels not necessarily consecutive
        if n >= 2 * self.k:
            p = r.permutation(n)
            for a in range(self.k):
                y[p[2 * a]] = y[p[2 * a + 1]] = a
        else:
            y[:] = 0
            if n >= 4:
                y[: n // 2] = 1
        return y

    def part_np(self, d):
        r = np.random.default_rng(_stamp(None, d, self.salt + 1))
        k = d.shape[1]
        if r.random() < self.split:
            y = r.integers(0, 3, k)
            y[0], y[-1] = 2, 0
            return y
        return np.zeros(k, dtype=int)

    def cluster(self, data, n_clusters=2):
        d = self._seen(data, "clustering")
        self.ctx.check(d.shape[0] >= self.min_i, f"clustering was given {d.shape[0]} rows, fewer than min_instances_slice={self.min_i}")
        return torch.as_tensor(self.cluster_np(d))

    def partition(self, data):
        d = self._seen(data, "partitioning")
        return torch.as_tensor(self.part_np(d))


# ------------------------------------------------------------------ structure monitor
def check_structure(ctx, m, scope, templates, what):
    """Walk the learned modules: decomposable, smooth, complete, leaves from the templates."""
    from spflow.modules.leaves.leaf import LeafModule
    from spflow.modules.ops.cat import Cat
    from spflow.modules.products import Product
    from spflow.modules.sums import Sum

    ctx.check(set(m.scope.query) == set(scope), f"{what}: learned scope {m.scope.query} instead of {scope}")
    tpl = {}
    for tm in templates:
        for rv in tm.scope.query:
            tpl[rv] = tm
    seen = set()

    def walk(q):
        if id(q) in seen:
            return
        seen.add(id(q))
        ctx.count("modules_walked")
        if isinstance(q, LeafModule):
            for rv in q.scope.query:
                tm = tpl.get(rv)
                if tm is None:
                    ctx.fail(f"{what}: leaf over variable {rv} which no template covers")
                ctx.check(type(q) is type(tm), f"{what}: leaf {type(q).__name__} for a {type(tm).__name__} template")
                for a in ("K", "total_count"):
                    if hasattr(tm, a) and getattr(tm, a) is not None:
                        x, y = getattr(q, a), getattr(tm, a)
                        if torch.is_tensor(x):
                            x, y = float(x.reshape(-1)[0]), float(y.reshape(-1)[0])
                        ctx.check(x == y, f"{what}: leaf setting {a}={x} instead of the template's {y}")
                ctx.check(q.out_shape.channels == tm.out_shape.channels, f"{what}: leaf channels {q.out_shape.channels}")
            return
        kids = q.inputs
        kids = list(kids) if isinstance(kids, (list, torch.nn.ModuleList)) else [kids]
        sc = [set(k.scope.query) for k in kids]
        if isinstance(q, Cat) and q.dim == 1:
            ctx.check(sum(map(len, sc)) == len(set().union(*sc)), f"{what}: product over overlapping scopes {sc}")
        elif isinstance(q, (Sum, Cat)):
            ctx.check(all(s == sc[0] for s in sc), f"{what}: mixture over different scopes {sc}")
        if isinstance(q, Sum):
            w = q.weights.detach().numpy()
            ctx.check(np.isfinite(w).all() and (w >= 0).all() and np.allclose(w.sum(1), 1, atol=1e-5), f"{what}: sum weights {w.reshape(-1)[:6]}")
        for k in kids:
            walk(k)

    walk(m)


# ------------------------------------------------------------------ LearnSPN
def ref_spn(X, vs, cols, dec, min_i, min_f, Q):
    """Reference recursion of LearnSPN: log density of the rows Q."""
    pos = {c: i for i, c in enumerate(cols)}

    def leaf(rows, scope):
        return sum(_fit(vs[pos[c]], X[rows][:, c])(Q[:, c]) for c in scope)

    def rec(rows, scope, depth=0):
        if len(scope) < min_f:
            return leaf(rows, scope)
        slab = X[rows][:, scope]
        if len(rows) > 1:
            y = dec.part_np(np.asarray(t(slab)))
            u = np.unique(y)
            if len(u) > 1:
                return sum(rec(rows, [scope[i] for i in np.nonzero(y == a)[0]], depth + 1) for a in u)
        if len(rows) < min_i or (slab == slab[:1]).all():
            return leaf(rows, scope)
        y = dec.cluster_np(np.asarray(t(slab)))
        u = np.unique(y)
        if len(u) == 1:
            raise Skip("clustering cannot separate the rows")
        return mon.lse(np.stack([np.log((y == a).mean()) + rec(rows[y == a], scope, depth + 1) for a in u]), 0)

    return rec(np.arange(len(X)), list(cols))


def _setup(ctx, fam=FAM, nmax=5, N=None, nmin=2):
    rng = ctx.rng
    n = int(rng.integers(nmin, nmax + 1))
    vs = _vars(rng, n, fam)
    D, cols = _layout(rng, vs)
    N = N or int(rng.integers(24, 120))
    X = np.round(rng.normal(0, 2, (N, D)), 3).astype(np.float32).astype(float)
    X[:, cols] = _table(rng, vs, N)
    C = int(rng.integers(1, 4)) if rng.random() < 0.5 else 1
    tm = _templates(rng, vs, cols, C)
    return vs, D, cols, X, C, tm


def _queries(rng, X, vs, cols, k=12):
    Q = X[rng.integers(0, len(X), k)].copy()
    for i, c in enumerate(cols):
        q = rng.random(k) < 0.4
        Q[q, c] = X[rng.integers(0, len(X), int(q.sum())), c]
    return Q


def f_spn(ctx):
    from spflow.learn.learn_spn import learn_spn
    from spflow.meta.data.scope import Scope

    rng = ctx.rng
    vs, D, cols, X, C, tm = _setup(ctx)
    min_i, min_f = int(rng.choice([4, 8, 20, 50])), int(rng.integers(2, 4))
    oc = int(rng.integers(1, 4)) if rng.random() < 0.5 else 1
    if oc > 1:  # the structure grows with out_channels ** depth
        min_i = max(min_i, 30)
    dec = Decisions(ctx, X, cols, int(rng.integers(1 << 30)), min_i, min_f, k=int(rng.integers(2, 4)), split=float(rng.uniform(0, 0.8)))
    explicit = rng.random() < 0.5
    lm = tm[0] if len(tm) == 1 and rng.random() < 0.7 else list(tm)
    if explicit and rng.random() < 0.5:  # a scope that is not in ascending order
        o = rng.permutation(len(cols))
        cols, vs = [cols[i] for i in o], [vs[i] for i in o]
        dec.cols = cols
    scope = Scope(list(cols)) if explicit else None
    if explicit and rng.random() < 0.3 and len(cols) > 2:  # only some of the template variables
        drop = int(rng.integers(len(cols)))
        cols = cols[:drop] + cols[drop + 1:]
        vs = vs[:drop] + vs[drop + 1:]
        scope, dec.cols = Scope(list(cols)), cols
    ctx.note(f"learn_spn vars={vs} cols={cols}/{D} N={len(X)} C={C} out={oc} min_i={min_i} min_f={min_f} scope={scope}")
    Q = _queries(rng, X, vs, cols)
    order = cols if explicit else None
    before = X.copy()
    T = t(X)
    kw = dict(out_channels=oc, min_instances_slice=min_i, min_features_slice=min_f, scope=scope, clustering_method=dec.cluster, partitioning_method=dec.partition)
    if order is None:  # scope order follows the templates
        s = []
        for q in tm:
            s += list(q.scope.query)
        # the recursion sees columns in the order of the joined scope
        from spflow.meta.data.scope import Scope as S

        sc = tm[0].scope
        for q in tm[1:]:
            sc = sc.join(q.scope)
        order = [int(v) for v in sc.query]
        ctx.check(sorted(order) == sorted(cols), f"joined scope {order} instead of {sorted(cols)}")
    o = [cols.index(c) for c in order]
    want = ref_spn(X, [vs[i] for i in o], order, dec, min_i, min_f, Q)
    snap = [{k: v.clone() for k, v in q.state_dict().items()} for q in tm]
    with _quiet():
        m = learn_spn(T, lm, **kw)
    ctx.check(bool((T == t(before)).all()), "learn_spn changed the training data")
    for q, s in zip(tm, snap):
        ctx.check(all(torch.equal(v, s[k]) for k, v in q.state_dict().items()), "learn_spn changed a leaf template")
    check_structure(ctx, m, cols, tm, "learn_spn")
    got = mon.ll(m, Q)
    if m.out_shape.features > 1:
        got = got.sum(1, keepdims=True)
    ctx.count("densities_compared", got.size)
    ctx.key("spn", tuple(v.group for v in vs), C, oc, min_i, min_f, explicit, len(tm))
    # columns outside the scope do not matter
    Q2 = Q.copy()
    other = [c for c in range(D) if c not in cols]
    if other:
        Q2[:, other] = rng.normal(0, 5, (len(Q), len(other)))
        ctx.close(mon.ll(m, Q2), mon.ll(m, Q), "log-likelihood after changing columns outside the scope", rtol=0, atol=1e-6)
    ctx.close(got, np.broadcast_to(want[:, None, None, None], got.shape), "learn_spn: log-density against the reference recursion", rtol=2e-3, atol=3e-3)


# ------------------------------------------------------------------ Prometheus
def _kruskal(A):
    d = len(A)
    par = list(range(d))

    def find(a):
        while par[a] != a:
            a = par[a]
        return a

    edges = []
    for w, i, j in sorted(((A[i, j], i, j) for i in range(d) for j in range(i)), reverse=True):
        a, b = find(i), find(j)
        if a != b:
            par[a] = b
            edges.append((w, i, j))
    return edges


def _comps(d, edges):
    lab = list(range(d))
    for _, i, j in edges:
        a, b = lab[i], lab[j]
        lab = [a if q == b else q for q in lab]
    out = {}
    for i, q in enumerate(lab):
        out.setdefault(q, []).append(i)
    return sorted(out.values())


def ref_prom(X, vs, cols, dec, min_i, min_f, affinity, Q):
    pos = {c: i for i, c in enumerate(cols)}

    def leaf(rows, scope):
        return sum(_fit(vs[pos[c]], X[rows][:, c])(Q[:, c]) for c in scope)

    def rec(rows, scope):
        if len(scope) < min_f or len(rows) < min_i:
            return leaf(rows, scope)
        slab = np.asarray(t(X[rows][:, scope]))
        y = dec.cluster_np(slab)
        terms = []
        for a in np.unique(y):
            q = rows[y == a]
            if len(q) < 2 or len(scope) < 2:
                continue
            A = affinity(np.asarray(t(X[q][:, scope])))
            es = sorted(_kruskal(A), reverse=True)
            ws = sorted(w for w, _, _ in es)
            if ws[0] < 0:
                dec.ctx.count("slices bridged without measurement")
            if any(b - a_ < 1e-5 for a_, b in zip(ws, ws[1:])):
                raise Skip("nearly tied affinities")
            off = np.sort(A[np.triu_indices(len(A), 1)])
            off = off[off >= 0]
            if len(off) > 1 and np.min(np.diff(off)) < 1e-5:
                raise Skip("nearly tied affinities")
            parts = [_comps(len(scope), es[:k]) for k in range(len(es) - 1, -1, -1)]
            memo = {}
            for comps in parts:
                s = 0
                for c in comps:
                    key = tuple(c)
                    if key not in memo:
                        memo[key] = rec(q, [scope[i] for i in c])
                    s = s + memo[key]
                terms.append(np.log(len(q) / len(rows) / len(parts)) + s)
        if not terms:
            return leaf(rows, scope)
        return mon.lse(np.stack(terms), 0)

    return rec(np.arange(len(X)), list(cols))


def f_prom(ctx):
    from spflow.learn.prometheus import learn_prometheus
    from spflow.meta.data.scope import Scope

    rng = ctx.rng
    mode = str(rng.choice(["corr", "custom", "custom", "rdc", "sampled_corr", "sampled_rdc", "sampled_rdc"]))
    vs, D, cols, X, C, tm = _setup(ctx, **(dict(nmin=5, nmax=9) if mode == "sampled_rdc" and rng.random() < 0.6 else dict(nmax=4)))
    min_i, min_f = int(rng.choice([8, 20, 50])), int(rng.integers(2, 4))
    if len(cols) > 4:
        min_i = max(min_i, len(X) // 2)
    oc = int(rng.integers(1, 3))
    k = int(rng.integers(2, 4))
    dec = Decisions(ctx, X, cols, int(rng.integers(1 << 30)), min_i, min_f, k=k)
    sc = tm[0].scope
    for q in tm[1:]:
        sc = sc.join(q.scope)
    scope, order = None, [int(v) for v in sc.query]
    if rng.random() < 0.5:
        if rng.random() < 0.5:  # a scope that is not in ascending order
            o = rng.permutation(len(cols))
            cols, vs = [cols[i] for i in o], [vs[i] for i in o]
            dec.cols = cols
        scope, order = Scope(list(cols)), list(cols)
    salt = int(rng.integers(1 << 30))
    d = len(cols)
    skw = {}
    if mode.startswith("sampled"):
        # corr: every pair measured, the answer is that of the full table; rdc: the measured pairs are observed
        spv = int(rng.integers(max(1, d - 1), d + 2)) if mode == "sampled_corr" else (None if rng.random() < 0.2 else int(rng.choice([1, 1, 1, 1, 2, d])))
        skw = dict(affinity_mode="sampled", sampling_per_var=spv, sampling_seed=int(rng.integers(1000)) if rng.random() < 0.7 else None)
    if mode.endswith("rdc"):
        oc = 1
    pairs = {}

    def col_key(x):
        return _stamp(None, np.asarray(x).reshape(-1), salt)

    def fake_rdc(x, y, *a, **k_):
        p = tuple(sorted((col_key(x), col_key(y))))
        pairs[p] = pairs.get(p, 0) + 1
        ctx.count("pairs_measured")
        return float(np.random.default_rng(p).uniform(0.05, 0.95))

    def aff_np(d):
        d = np.asarray(d)
        if mode.endswith("rdc"):
            ks = [col_key(d[:, j]) for j in range(d.shape[1])]
            if len(set(ks)) < len(ks):
                raise Skip("identical columns")
            A = np.eye(len(ks))
            for i in range(len(ks)):
                for j in range(i):
                    p = tuple(sorted((ks[i], ks[j])))
                    if pairs.get(p, 0) > 1:
                        raise Skip("a pair was measured for two slices")
                    A[i, j] = A[j, i] = float(np.random.default_rng(p).uniform(0.05, 0.95)) if p in pairs else -1.0
            need = len(ks) - 1
            if mode == "sampled_rdc" and skw["sampling_per_var"] is not None:
                need = min(need, skw["sampling_per_var"])
            elif mode == "sampled_rdc":
                need = 1
            have = (A >= 0).sum(1) - 1
            ctx.check((have >= need).all(), f"dependence measured for {have.tolist()} partners per variable, {need} requested of {len(ks) - 1}")
            if (np.triu(A < 0, 1)).any():
                ctx.count("slices with unmeasured pairs")
            return A
        if mode.endswith("corr"):
            x = d.astype(np.float64)
            x = x - x.mean(0)
            den = np.sqrt((x * x).sum(0))
            if (den < 1e-6).any():
                raise Skip("constant column")
            return np.abs((x / den).T @ (x / den))
        r = np.random.default_rng(_stamp(None, d, salt))
        A = np.triu(r.random((d.shape[1],) * 2), 1)
        return A + A.T + np.eye(len(A))

    def aff(d):
        ctx.count("callback_calls")
        return t(aff_np(np.asarray(d)))

    seen_k = []

    def cl(data, n_clusters=2):
        seen_k.append(n_clusters)
        return dec.cluster(data)

    ctx.note(f"prometheus vars={vs} cols={cols}/{D} N={len(X)} C={C} out={oc} min_i={min_i} min_f={min_f} {mode} scope={scope}")
    Q = _queries(rng, X, vs, cols)
    o = [cols.index(c) for c in order]
    import spflow.learn.prometheus as prom_mod

    lm = tm[0] if len(tm) == 1 and rng.random() < 0.7 else list(tm)
    T = t(X)
    real = getattr(prom_mod, "rdc", None)
    if mode.endswith("rdc"):
        if real is None:
            raise Skip("no dependence measure to observe")
        prom_mod.rdc = fake_rdc
    try:
        m = learn_prometheus(T, lm, out_channels=oc, min_instances_slice=min_i, min_features_slice=min_f, scope=scope, n_clusters=k,
                             clustering_method=cl, similarity=mode.rsplit("_", 1)[-1] if mode != "custom" else aff, **skw)
    finally:
        if real is not None:
            prom_mod.rdc = real
    if mode.endswith("rdc") and not pairs and seen_k:
        raise Skip("the dependence measure was reached another way")
    want = ref_prom(X, [vs[i] for i in o], order, dec, min_i, min_f, aff_np, Q)
    ctx.count(f"affinity:{mode}")
    if skw.get("sampling_seed") is not None:
        first = dict(pairs)
        pairs.clear()
        try:
            if mode.endswith("rdc"):
                prom_mod.rdc = fake_rdc
            np.random.seed(int(rng.integers(1000)))
            m2 = learn_prometheus(T, lm, out_channels=oc, min_instances_slice=min_i, min_features_slice=min_f, scope=scope, n_clusters=k,
                                  clustering_method=cl, similarity=mode.rsplit("_", 1)[-1], **skw)
        finally:
            prom_mod.rdc = real
        ctx.check(pairs == first, f"sampling_seed={skw['sampling_seed']}: a second run measured other pairs ({len(first)} and {len(pairs)})")
        ctx.close(mon.ll(m2, Q), mon.ll(m, Q), f"sampling_seed={skw['sampling_seed']}: a second run learned another model", 1e-5, 1e-5)
    ctx.check(bool((T == t(X)).all()), "learn_prometheus changed the training data")
    ctx.check(all(a == k for a in seen_k), f"clustering was asked for {set(seen_k)} clusters instead of {k}")
    check_structure(ctx, m, cols, tm, "prometheus")
    got = mon.ll(m, Q)
    if m.out_shape.features > 1:
        got = got.sum(1, keepdims=True)
    ctx.count("densities_compared", got.size)
    ctx.key("prom", tuple(v.group for v in vs), C, oc, min_i, min_f, mode, len(tm))
    ctx.close(got, np.broadcast_to(want[:, None, None, None], got.shape), "learn_prometheus: log-density against the reference recursion", rtol=2e-3, atol=3e-3)


# ------------------------------------------------------------------ empirical marginals (built-in methods, random decisions)
def f_marg(ctx):
    """Whatever the structure, every univariate marginal of the learned model is the maximum-likelihood one."""
    from spflow.learn.learn_spn import learn_spn
    from spflow.learn.prometheus import learn_prometheus

    rng = ctx.rng
    learner = ["spn", "prom", "prom_sampled"][int(rng.integers(3))]
    fam = ["bernoulli", "categorical"]
    vs, D, cols, X, C, tm = _setup(ctx, fam=fam, N=int(rng.integers(60, 160)))
    if learner != "spn" and C > 1:
        pass
    oc = int(rng.integers(1, 4))
    min_i = int(rng.choice([10, 30, 60])) if oc == 1 else int(rng.choice([40, 60]))
    torch.manual_seed(int(rng.integers(1 << 30)))
    np.random.seed(int(rng.integers(1 << 30)))
    r2 = np.random.default_rng(int(rng.integers(1 << 30)))
    builtin = rng.random() < 0.5
    if learner == "spn" and builtin:
        oc = min(oc, 2)

    def clus(d, n_clusters=2):
        y = r2.integers(0, n_clusters, d.shape[0])
        p = r2.permutation(d.shape[0])
        y[p[:2]], y[p[-2:]] = 0, 1
        return torch.as_tensor(y)

    def part(d):
        y = r2.integers(0, 2, d.shape[1])
        return torch.as_tensor(y if r2.random() < 0.5 else 0 * y)

    ctx.note(f"{learner} vars={vs} cols={cols}/{D} N={len(X)} C={C} out={oc} min_i={min_i} builtin={builtin}")
    with _quiet():
        if learner == "spn":
            kw = {} if builtin else dict(clustering_method=clus, partitioning_method=part)
            if builtin:
                kw = dict(partitioning_args={"threshold": float(rng.choice([0.1, 0.3, 0.5]))}, clustering_args={"n_clusters": int(rng.integers(2, 4))})
            m = learn_spn(t(X), list(tm), out_channels=oc, min_instances_slice=min_i, **kw)
        else:
            # the built-in clustering may produce one-row clusters, which Prometheus leaves out: not used for this oracle
            kw = dict(clustering_method=clus, similarity="rdc" if rng.random() < 0.3 else "corr")
            if learner == "prom_sampled":
                kw.update(affinity_mode="sampled", sampling_seed=int(rng.integers(1000)))
                if rng.random() < 0.5:
                    kw.update(sampling_per_var=int(rng.integers(1, 4)))
            m = learn_prometheus(t(X), list(tm), out_channels=oc, min_instances_slice=min_i, **kw)
    check_structure(ctx, m, cols, tm, learner)
    ctx.key("marg", learner, tuple(v.group for v in vs), C, oc, min_i, builtin)
    size = int(np.prod([len(v.domain) for v in vs]))
    if size <= 600:
        dom = mon.domain(vs)
        full = np.zeros((len(dom), D))
        full[:, cols] = dom
        L = mon.ll(m, full)
        if L.shape[1] > 1:
            L = L.sum(1, keepdims=True)
        ctx.close(mon.lse(L, 0), np.zeros(L.shape[1:]), f"{learner}: log total mass", rtol=0, atol=5e-4)
    for v, c in zip(vs, cols):
        E = np.full((len(v.domain), D), np.nan)
        E[:, c] = v.domain
        P = np.exp(mon.ll(m, E).sum(1, keepdims=True))
        emp = np.array([(X[:, c] == a).mean() for a in v.domain])
        ctx.count("marginals_compared", P.size)
        ctx.close(P, np.broadcast_to(emp[:, None, None, None], P.shape), f"{learner}: marginal of column {c} against the data", rtol=0, atol=2e-3)


# ------------------------------------------------------------------ cutset networks
def ref_cnet(X, cols, card, order, min_i, min_f, alpha, Q):
    from spflow.meta.data.scope import Scope
    from spflow.modules.leaves.categorical import Categorical
    from spflow.modules.leaves.cltree import CLTree

    def leaf(rows, scope):
        if len(scope) >= 2:
            q = CLTree(scope=Scope(scope), out_channels=1, K=max(card[c] for c in scope), alpha=alpha)
            T = t(X[rows])
            if len(rows) == 1:
                T = T.repeat(2, 1)
            q.maximum_likelihood_estimation(T)
            return mon.ll(q, Q)[:, :, 0, 0].sum(1)
        q = Categorical(scope=Scope(scope), out_channels=1, K=card[scope[0]])
        q.maximum_likelihood_estimation(t(X[rows]))
        return mon.ll(q, Q)[:, 0, 0, 0]

    def rec(rows, scope):
        if len(scope) <= min_f or len(rows) < min_i:
            return leaf(rows, scope)
        v = next(o for o in order if o in scope)
        rest = [c for c in scope if c != v]
        if not rest:
            return leaf(rows, scope)
        out = np.full(len(Q), -np.inf)
        for a in range(card[v]):
            sel = rows[X[rows, v] == a]
            if len(sel):
                p = np.log(len(sel) / len(rows)) + rec(sel, rest)
                out = np.where(Q[:, v] == a, p, out)
        return out

    return rec(np.arange(len(X)), list(cols))


def f_cnet(ctx):
    from spflow.learn.cnet import learn_cnet
    from spflow.meta.data.scope import Scope

    rng = ctx.rng
    n = int(rng.integers(1, 6))
    same = rng.random() < 0.4
    K = int(rng.integers(2, 4))
    vs = [Var("categorical", K=K if same else int(rng.integers(2, 5))) for _ in range(n)]
    D, cols = _layout(rng, vs)
    N = int(rng.integers(6, 150))
    X = np.round(rng.normal(0, 2, (N, D)), 3)
    X[:, cols] = _table(rng, vs, N)
    card = [2] * D
    for v, c in zip(vs, cols):
        card[c] = v.K
    for i, c in enumerate(cols):  # sometimes nearly deterministic relations and missing categories
        if i and rng.random() < 0.2:
            X[:, c] = np.minimum(X[:, cols[i - 1]], card[c] - 1)
        elif rng.random() < 0.1:
            X[:, c] = np.minimum(X[:, c], card[c] - 2)
    alpha = float(rng.choice([0.01, 0.1, 1.0]))
    min_i, min_f = int(rng.choice([2, 8, 20, 60])), int(rng.integers(1, 4))
    cond = "naive_mle" if rng.random() < 0.7 else "random"
    oc = int(rng.integers(1, 4)) if rng.random() < 0.4 else 1
    scope = None
    perm = list(cols)
    if D != n or rng.random() < 0.3:
        if rng.random() < 0.3:
            rng.shuffle(perm)
        scope = Scope(perm)
    ctx.note(f"cnet cards={[v.K for v in vs]} cols={perm}/{D} N={N} alpha={alpha} min_i={min_i} min_f={min_f} {cond} out={oc} scope={scope}")
    if scope is not None:
        perm = [int(a) for a in scope.query]
    seed = int(rng.integers(1 << 30)) if rng.random() < 0.7 else None
    T = t(X)
    cards = K if same and scope is None else card
    if rng.random() < 0.3 and not isinstance(cards, int):
        cards = tuple(cards)
    kw = dict(cardinalities=cards, scope=scope, cond=cond, min_instances_slice=min_i, min_features_slice=min_f, out_channels=oc, alpha=alpha, seed=seed)
    m = learn_cnet(T, **kw)
    ctx.check(bool((T == t(X)).all()), "learn_cnet changed the data")
    ctx.check(set(m.scope.query) == set(cols), f"learn_cnet scope {m.scope.query} instead of {cols}")
    dom = mon.domain(vs)
    if len(dom) > 400:
        dom = dom[rng.permutation(len(dom))[:400]]
    Q = np.zeros((len(dom), D))
    Q[:, cols] = dom
    got = mon.ll(m, Q).sum(1)  # (B, C, R)
    ctx.check(not np.isnan(got).any(), "learn_cnet: NaN log-likelihood")
    ctx.count("densities_compared", got.size)
    ctx.key("cnet", tuple(v.K for v in vs), min_i, min_f, alpha, cond, oc)
    ent = []
    for c in perm:
        p = np.bincount(X[:, c].astype(int), minlength=card[c]) / N
        ent.append(float(-(p[p > 0] * np.log(p[p > 0])).sum()))
    e = np.array(ent)
    if cond == "naive_mle":
        d = np.abs(e[:, None] - e[None])[np.triu_indices(n, 1)]
        if ((d < 1e-5) & (d > 0)).any() or (d == 0).any():
            orders = itertools.permutations(perm)
            orders = [o for o in orders if all(e[perm.index(a)] >= e[perm.index(b)] - 1e-5 for a, b in zip(o, o[1:]))][:24]
        else:
            orders = [tuple(perm[i] for i in np.argsort(-e))]
    else:
        orders = list(itertools.permutations(perm))
        if len(orders) > 24:
            orders = orders[:0]
    # where the CLTree leaf spans different cardinalities its tables cover max(K) categories; densities are compared on the real domain
    ok, best = not orders, None
    floor = -25.0  # zero-probability categories are floored differently by leaf estimation
    for o in orders:
        want = ref_cnet(X, perm, card, o, min_i, min_f, alpha, Q)
        a = np.maximum(got, floor)
        b = np.broadcast_to(np.maximum(want, floor)[:, None, None], got.shape)
        bad = np.abs(np.exp(a) - np.exp(b)) > 1e-4 + 2e-3 * np.exp(b)
        bad |= (np.abs(a - b) > 5e-3) & (b > -12)
        if not bad.any():
            ok = True
            break
        best = float(np.abs(a - b)[bad].max())
    ctx.check(ok, f"learn_cnet: no admissible variable order reproduces the model (log-density off by {best})")
    m2 = learn_cnet(T, **kw) if seed is not None or cond == "naive_mle" else None
    if m2 is not None:
        ctx.close(mon.ll(m2, Q).sum(1), got, "learn_cnet with the same seed", rtol=0, atol=1e-6)
    M = X.copy()
    if len(cols) and len(dom) < 400:
        L = mon.lse(got, 0)
        if len({card[c] for c in cols}) == 1:
            ctx.close(L, np.zeros_like(L), "learn_cnet: log total mass", rtol=0, atol=2e-3)
        else:
            ctx.check((L < 2e-3).all(), f"learn_cnet: total mass above one {L}")
    return M


# ------------------------------------------------------------------ degenerate data and built-in methods
def f_edge(ctx):
    from spflow.learn.cnet import learn_cnet
    from spflow.learn.learn_spn import learn_spn
    from spflow.learn.prometheus import learn_prometheus
    from spflow.modules.leaves import Bernoulli, Normal
    from spflow.modules.products import Product
    from spflow.modules.sums import Sum

    rng = ctx.rng
    n = int(rng.integers(1, 5))
    N = int(rng.choice([2, 3, 12, 60]))
    kind = ["identical", "duplicate_columns", "constant_columns", "binary", "two_rows", "all"][int(rng.integers(6))]
    normal = rng.random() < 0.4
    X = rng.normal(0, 1, (N, n)) if normal else (rng.random((N, n)) < 0.5).astype(float)
    if kind == "identical":
        X = np.repeat(X[:1], N, 0)
    elif kind == "duplicate_columns":
        X = np.repeat(X[:, :1], n, 1)
    elif kind == "constant_columns":
        X[:, : (n + 1) // 2] = X[0, 0]
    elif kind == "two_rows":
        X = X[rng.integers(0, 2, N)]
    elif kind == "all":
        X[:] = X[0, 0]
    X = X.astype(np.float32).astype(float)
    learner = ["spn", "prom", "cnet"][int(rng.integers(3))] if not normal else ["spn", "prom"][int(rng.integers(2))]
    C, oc = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    min_i = int(rng.choice([2, 5, 30]))
    if oc > 1 and N > 12:
        min_i = 30
    ctx.note(f"{learner} {kind} n={n} N={N} normal={normal} C={C} out={oc} min_i={min_i}")
    torch.manual_seed(int(rng.integers(1 << 30)))
    np.random.seed(int(rng.integers(1 << 30)))
    dt = torch.get_default_dtype()
    R = 2 if learner != "cnet" and rng.random() < 0.3 else 1  # templates with repetitions give leaves without
    leaf = (Normal if normal else Bernoulli)(scope=list(range(n)), out_channels=C, num_repetitions=R)
    with _quiet():
        if learner == "spn":
            # clusterings that never separate anything must still end
            kw = dict(clustering_method=lambda d: torch.zeros(d.shape[0], dtype=torch.long)) if ctx.idx % 3 == 0 else {}
            m = learn_spn(t(X), leaf, out_channels=oc, min_instances_slice=min_i, **kw)
        elif learner == "prom":
            m = learn_prometheus(t(X), leaf, out_channels=oc, min_instances_slice=min_i, similarity="rdc" if rng.random() < 0.5 else "corr")
        else:
            m = learn_cnet(t(X), cardinalities=2, out_channels=oc, min_instances_slice=min_i)
    ctx.check(torch.get_default_dtype() == dt, "the learner changed the default dtype")
    ctx.key("edge", learner, kind, normal, n, N, C, oc, min_i)
    ctx.check(set(m.scope.query) == set(range(n)), f"scope {m.scope.query}")
    if learner != "cnet" and isinstance(m, (Sum, Product)):
        check_structure(ctx, m, list(range(n)), [leaf], learner)
    L = mon.ll(m, X).sum(1)
    ctx.check(np.isfinite(L).all(), f"{learner}: a training row has log-likelihood {L[~np.isfinite(L)][:1]}")
    if not normal:
        vs = [Var("bernoulli")] * n
        L = mon.ll(m, mon.domain(vs)).sum(1)
        ctx.close(mon.lse(L, 0), np.zeros(L.shape[1:]), f"{learner}: log total mass", rtol=0, atol=5e-4)


def f_builtin(ctx):
    """The built-in dependence test and clustering recover unmistakable structure."""
    from spflow.learn.learn_spn import cluster_by_kmeans, partition_by_rdc

    rng = ctx.rng
    torch.manual_seed(int(rng.integers(1 << 30)))
    np.random.seed(int(rng.integers(1 << 30)))
    what = ctx.idx % 4
    if what == 2:  # discrete columns: independent ones are separated, noisy copies are not
        n = int(rng.integers(2, 7))
        lab = rng.integers(0, 3, n)
        N = 800
        p = rng.choice([0.05, 0.1, 0.3, 0.5, 0.8], 3)
        K = int(rng.choice([2, 2, 4]))
        Z = np.stack([np.where(rng.random(N) < a, rng.integers(1, K, N), 0) for a in p], 1)
        X = np.stack([np.where(rng.random(N) < 0.97, Z[:, k], rng.permutation(Z[:, k])) for k in lab], 1).astype(float)
        runs = [np.asarray(partition_by_rdc(t(X), threshold=0.3)) for _ in range(3)]
        ctx.key("rdc discrete", n, len(set(lab.tolist())), K)
        blocks = lab[:, None] == lab[None]
        good = sum(bool(((y[:, None] == y[None]) == blocks).all()) for y in runs)
        ctx.check(good >= 2, f"partition_by_rdc gave {[r.tolist() for r in runs]} for discrete columns of blocks {lab} (P(nonzero)={p.tolist()}, {K} values)")
    elif what == 3:  # two-valued columns: every transformation is affine, so the coefficient is the absolute correlation
        from spflow.utils.rdc import rdc, rdc_np

        N = int(rng.integers(60, 400))
        x = (rng.random(N) < rng.uniform(0.1, 0.9)) * 1.0
        y = np.where(rng.random(N) < rng.uniform(0, 1), x, rng.random(N) < 0.5) * 1.0
        if x.std() == 0 or y.std() == 0:
            raise Skip("constant column")
        want = abs(np.corrcoef(x, y)[0, 1])
        f64 = torch.float64
        for fn, mk in ((rdc, lambda a: torch.tensor(a, dtype=f64)), (rdc_np, np.asarray)):
            got = []
            for r in range(5):  # single draws of the projections are occasionally off for numerical reasons
                torch.manual_seed(7 + ctx.idx + r)
                np.random.seed(7 + ctx.idx + r)
                got.append(float(fn(mk(x), mk(2 - 3 * y))))
            ctx.check(all(0 <= g <= 1 for g in got), f"{fn.__name__}: coefficients {got}")
            got = float(np.median(got))
            ctx.key("rdc", fn.__name__, round(want, 1))
            ctx.check(abs(got - want) <= 0.1, f"{fn.__name__}: coefficient {got} for two-valued columns with correlation {want}")
    elif what == 0:
        n = int(rng.integers(2, 7))
        lab = rng.integers(0, 3, n)
        N = 600
        Z = rng.normal(0, 1, (N, 3))
        X = np.stack([(Z[:, k] * rng.uniform(0.5, 3) * rng.choice([-1, 1]) + rng.normal(0, 0.02, N) + rng.normal(0, 3)) for k in lab], 1)
        kw = {}
        pre = rng.random() < 0.3
        if pre:
            kw["preprocessing"] = lambda d: d * 2.0
        dt = torch.get_default_dtype()
        ls_mod = importlib.import_module("spflow.learn.learn_spn")  # the package re-exports a function of the same name

        y = np.asarray(partition_by_rdc(t(X), threshold=0.5, **kw))
        # the threshold itself, with an observed coefficient
        if hasattr(ls_mod, "rdc"):
            real, thr, vals = ls_mod.rdc, float(rng.choice([0.2, 0.4, 0.7])), {}

            def fake(a, b, *q, **k_):
                key = tuple(sorted((_stamp(None, np.asarray(a).reshape(-1), 0), _stamp(None, np.asarray(b).reshape(-1), 0))))
                vals[key] = float(np.random.default_rng(key).random())
                return torch.as_tensor(vals[key])

            ls_mod.rdc = fake
            try:
                y2 = np.asarray(partition_by_rdc(t(X), threshold=thr))
            finally:
                ls_mod.rdc = real
            ks = [_stamp(None, np.asarray(t(X))[:, j], 0) for j in range(n)]
            adj = [(1, i, j) for i in range(n) for j in range(i) if vals.get(tuple(sorted((ks[i], ks[j]))), 0) >= thr]
            if vals or n < 2:
                comps = _comps(n, adj)
                mine = sorted([int(v) for v in np.nonzero(y2 == a)[0]] for a in np.unique(y2))
                ctx.check(mine == comps, f"partition_by_rdc(threshold={thr}) grouped {mine}, the coefficients connect {comps}")
        ctx.check(torch.get_default_dtype() == dt, "partition_by_rdc changed the default dtype")
        ctx.check(y.shape == (n,), f"partition labels of shape {y.shape}")
        ctx.key("rdc", n, len(set(lab.tolist())), pre)
        blocks = lab[:, None] == lab[None]
        runs = [y] + [np.asarray(partition_by_rdc(t(X), threshold=0.5, **kw)) for _ in range(2)]
        good = sum(bool(((y[:, None] == y[None]) == blocks).all()) for y in runs)  # one draw of the projections may be off for numerical reasons
        ctx.check(good >= 2, f"partition_by_rdc gave {[r.tolist() for r in runs]} for dependent blocks {lab}")
    else:
        k = int(rng.integers(2, 4))
        d = int(rng.integers(1, 4))
        N = int(rng.integers(40, 120))
        lab = rng.integers(0, k, N)
        cen = np.array([[60.0 * (a - 1)] * d for a in range(k)])
        X = cen[lab] + rng.normal(0, 0.5, (N, d))
        pre = rng.random() < 0.3
        with _quiet():
            y = np.asarray(cluster_by_kmeans(t(X), n_clusters=k, **({"preprocessing": lambda q: q + 1.0} if pre else {})))
        ctx.key("kmeans", k, d, pre)
        ctx.check(y.shape == (N,) and set(y.tolist()) <= set(range(k)), f"labels {set(y.tolist())} for {k} clusters")
        if k == 2:  # with more clusters k-means may stop in a local optimum
            ctx.check(all(len(set(y[lab == a].tolist())) == 1 for a in range(k)) and len(set(y.tolist())) == len(set(lab.tolist())),
                      "cluster_by_kmeans mixes two clusters that are far apart")


def f_prune(ctx):
    """Merging nested sums leaves the distribution unchanged."""
    from spflow.learn.learn_spn import learn_spn, prune_sums

    rng = ctx.rng
    vs, D, cols, X, C, tm = _setup(ctx, fam=["bernoulli", "categorical", "normal"], N=80)
    oc = int(rng.integers(1, 4))
    dec = Decisions(ctx, X, cols, int(rng.integers(1 << 30)), 2, 2, k=int(rng.integers(2, 4)), split=float(rng.uniform(0, 0.4)))
    mi = int(rng.choice([10, 30])) if oc == 1 else 30
    ctx.note(f"prune vars={vs} cols={cols}/{D} C={C} out={oc}")
    with _quiet():
        m = learn_spn(t(X), list(tm), out_channels=oc, min_instances_slice=mi, clustering_method=dec.cluster, partitioning_method=dec.partition)
    from spmon import zoo

    zoo.scramble_weights(m, rng)
    Q = _queries(rng, X, vs, cols)
    L0 = mon.ll(m, Q)
    k0 = sum(1 for q in m.modules() if type(q).__name__ == "Sum")
    prune_sums(m)
    k1 = sum(1 for q in m.modules() if type(q).__name__ == "Sum")
    ctx.check(k1 <= k0, f"prune_sums added sums: {k0} -> {k1}")
    ctx.key("prune", tuple(v.group for v in vs), C, oc, k0, k1)
    ctx.close(mon.ll(m, Q), L0, f"log-density after prune_sums ({k0} -> {k1} sums)", rtol=1e-4, atol=1e-4)


def f_reject(ctx):
    from spflow.learn.cnet import learn_cnet
    from spflow.learn.learn_spn import learn_spn
    from spflow.learn.prometheus import learn_prometheus
    from spflow.meta.data.scope import Scope
    from spflow.modules.leaves import Bernoulli

    rng = ctx.rng
    n = 3
    X = (rng.random((20, n)) < 0.5).astype(float)
    X[0], X[1] = 0, 1
    T = t(X)
    lf = lambda: Bernoulli(scope=list(range(n)), out_channels=1)  # noqa: E731
    nan = T.clone()
    nan[3, 1] = float("nan")
    frac, neg, big = T.clone(), T.clone(), T.clone()
    frac[2, 0], neg[2, 0], big[2, 0] = 0.5, -1.0, 2.0
    cases = [
        ("learn_spn min_instances_slice=1", lambda: learn_spn(T, lf(), min_instances_slice=1)),
        ("learn_spn min_instances_slice=2.5", lambda: learn_spn(T, lf(), min_instances_slice=2.5)),
        ("learn_spn min_features_slice=1", lambda: learn_spn(T, lf(), min_features_slice=1)),
        ("learn_spn unknown clustering", lambda: learn_spn(T, lf(), clustering_method="x")),
        ("learn_spn unknown partitioning", lambda: learn_spn(T, lf(), partitioning_method="x")),
        ("learn_spn overlapping templates", lambda: learn_spn(T, [Bernoulli(scope=[0, 1]), Bernoulli(scope=[1, 2])])),
        ("prometheus out_channels=0", lambda: learn_prometheus(T, lf(), out_channels=0)),
        ("prometheus min_features_slice=0", lambda: learn_prometheus(T, lf(), min_features_slice=0)),
        ("prometheus min_instances_slice=0", lambda: learn_prometheus(T, lf(), min_instances_slice=0)),
        ("prometheus n_clusters=0", lambda: learn_prometheus(T, lf(), n_clusters=0)),
        ("prometheus unknown affinity_mode", lambda: learn_prometheus(T, lf(), affinity_mode="x")),
        ("prometheus sampling_per_var=0", lambda: learn_prometheus(T, lf(), affinity_mode="sampled", sampling_per_var=0)),
        ("prometheus unknown similarity", lambda: learn_prometheus(T, lf(), similarity="x")),
        ("prometheus unknown clustering", lambda: learn_prometheus(T, lf(), clustering_method="x")),
        ("prometheus empty templates", lambda: learn_prometheus(T, [])),
        ("prometheus sampled custom similarity", lambda: learn_prometheus(T, lf(), affinity_mode="sampled", similarity=lambda d: torch.eye(d.shape[1]))),
        ("prometheus uncovered scope", lambda: learn_prometheus(T, Bernoulli(scope=[0]), scope=Scope([1]))),
        ("prometheus NaN data", lambda: learn_prometheus(nan, lf(), min_instances_slice=4, clustering_method=lambda d, n_clusters: torch.zeros(len(d), dtype=torch.long))),
        ("cnet NaN data", lambda: learn_cnet(nan, cardinalities=2)),
        ("cnet fractional value", lambda: learn_cnet(frac, cardinalities=2)),
        ("cnet negative value", lambda: learn_cnet(neg, cardinalities=2)),
        ("cnet value beyond the cardinality", lambda: learn_cnet(big, cardinalities=2)),
        ("cnet cardinalities of the wrong length", lambda: learn_cnet(T, cardinalities=[2, 2])),
        ("cnet unknown cond", lambda: learn_cnet(T, cardinalities=2, cond="x")),
        ("cnet 1-D data", lambda: learn_cnet(T[:, 0], cardinalities=2)),
    ]
    nm, fn = cases[int(rng.integers(len(cases)))]
    ctx.note(nm)
    ctx.key("reject", nm)

    try:
        with _quiet():
            fn()
    except (ValueError, TypeError):
        ctx.count("rejections")
        return
    ctx.fail(f"{nm} was accepted")


FAMILIES = [
    Family("spn", f_spn, 260, 5000),
    Family("prom", f_prom, 200, 4000),
    Family("marg", f_marg, 140, 2400),
    Family("cnet", f_cnet, 240, 5000),
    Family("edge", f_edge, 200, 3000),
    Family("builtin", f_builtin, 60, 600),
    Family("prune", f_prune, 100, 1500),
    Family("reject", f_reject, 120, 400),
]
