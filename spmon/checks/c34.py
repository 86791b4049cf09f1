"""C34: circuits with conditional leaves are, row by row, the circuit with the parameters computed from that row's evidence."""
import copy
import io

import numpy as np
import torch

from spmon import circ, leafref as lr, mon, zoo
from spmon.circ import t
from spmon.runner import Family, Skip
from spmon.checks import common

PID = "C34"
RULE = "distinct = circuit signature or architecture configuration together with the evidence columns of its leaves"
ASSUMPTIONS = ["the circuit with fixed leaf parameters is the reference (its own answers are judged by the other properties)",
               "evidence columns are complete and are no query variables of the same circuit"]
NAN = np.nan
CONT = ["normal", "laplace", "gamma", "exponential", "lognormal", "poisson", "bernoulli"]
SHAPED = {"normal": ("loc", "scale"), "laplace": ("loc", "scale"), "lognormal": ("loc", "scale"), "exponential": ("rate",), "poisson": ("rate",),
          "gamma": ("concentration", "rate"), "bernoulli": ("probs",), "geometric": ("probs",), "categorical": ("probs",), "binomial": ("probs", "total_count"),
          "negbin": ("probs", "total_count")}


class Net(torch.nn.Module):
    """Parameters of one leaf as a function of its evidence columns."""

    def __init__(self, kind, p, E, rng):
        super().__init__()
        self.kind = kind
        self.names = [k for k in SHAPED[kind] if k != "total_count"]
        for k in self.names:
            v = np.asarray(p[k], float)
            base = {"loc": lambda v: v, "probs": (lambda v: np.log(v)) if kind == "categorical" else (lambda v: np.log(v) - np.log1p(-v))}.get(k, np.log)(v)
            setattr(self, "b_" + k, torch.nn.Parameter(t(base)))
            setattr(self, "w_" + k, torch.nn.Parameter(t(rng.normal(0, 0.6, (E,) + v.shape))))
        if "total_count" in SHAPED[kind]:
            self.register_buffer("n", t(p["total_count"]))

    def raw(self, ev, k):
        return getattr(self, "b_" + k) + torch.tensordot(ev.to(self.__getattr__("w_" + k).dtype), getattr(self, "w_" + k), dims=1)

    def forward(self, ev):
        out = {}
        for k in self.names:
            o = self.raw(ev, k)
            if k == "loc":
                out[k] = o
            elif k == "probs":
                out["logits"] = o
            elif self.kind == "gamma":  # Gamma applies exp to the results of its parameter function
                out[k] = o
            else:
                out[k] = torch.exp(o)
        if hasattr(self, "n"):
            out["total_count"] = self.n.expand(ev.shape[0], *self.n.shape)
        return out

    def fixed(self, ev):
        """Constructor parameters for one evidence row (float64 arithmetic)."""
        e = torch.as_tensor(ev, dtype=torch.float64)
        out = {}
        for k in self.names:
            o = (getattr(self, "b_" + k).detach().double() + torch.tensordot(e, getattr(self, "w_" + k).detach().double(), dims=1)).numpy()
            if k == "loc":
                out[k] = o
            elif k == "probs" and self.kind == "categorical":
                z = np.exp(o - o.max(-1, keepdims=True))
                out[k] = z / z.sum(-1, keepdims=True)
            elif k == "probs":
                out[k] = 1 / (1 + np.exp(-o))
            else:
                out[k] = np.exp(o)
        if hasattr(self, "n"):
            out["total_count"] = self.n.numpy()
        return out


class Cond:
    """A circuit whose leaves (some of them) have parameter functions, and its twins with fixed parameters."""

    def __init__(self, rng, make, vs, rate=0.75):
        self.rng, self.make, self.vs = rng, make, vs
        n, E = len(vs), int(rng.integers(1, 4))
        W = n + E + int(rng.integers(0, 2))
        cols = rng.permutation(W) if rng.random() < 0.6 else np.arange(W)
        self.f = [int(c) for c in np.sort(cols[:n])] if rng.random() < 0.5 else [int(c) for c in cols[:n]]
        self.e = [int(c) for c in cols[n:n + E]]
        self.W = W
        self.nets, self.evs = [], []
        # evidence of each variable (the scopes of all inputs of a sum must agree)
        self.var_ev = {col: sorted(int(i) for i in rng.choice(E, int(rng.integers(1, E + 1)), replace=False)) if rng.random() < rate else [] for col in self.f}
        self.seed = int(rng.integers(1 << 30))
        self.m = self.build(None)

    def build(self, ev):
        """ev None: conditional leaves; ev = one row of evidence values (in the order of self.e): fixed leaves."""
        count = [0]

        def hook(kind, scope, p, kw):
            k = count[0]
            count[0] += 1
            if ev is None and len(self.nets) <= k:
                net, cols = None, None
                need = sorted({i for col in scope for i in self.var_ev[col]})
                if need and kind in SHAPED:
                    cols = [int(i) for i in self.rng.permutation(need)]
                    net = Net(kind, p, len(cols), self.rng)
                self.nets.append(net)
                self.evs.append(cols)
            net = self.nets[k]
            if net is None:
                return None
            if ev is not None:
                lr.HOOK = None
                keep, lr.COLMAP = lr.COLMAP, None
                try:
                    leaf = lr.build(kind, scope, net.fixed(np.asarray(ev, float)[self.evs[k]]), **kw)
                    torch.manual_seed(self.seed + k)  # random structures draw the same numbers in every twin
                    return leaf
                finally:
                    lr.HOOK, lr.COLMAP = hook, keep
            from spflow.meta.data.scope import Scope
            from spflow.modules import leaves as L

            shp = np.asarray(p[SHAPED[kind][0]]).shape
            cls = {"normal": L.Normal, "laplace": L.Laplace, "lognormal": L.LogNormal, "exponential": L.Exponential, "poisson": L.Poisson, "gamma": L.Gamma,
                   "bernoulli": L.Bernoulli, "geometric": L.Geometric, "categorical": L.Categorical, "binomial": L.Binomial, "negbin": L.NegativeBinomial}[kind]
            kw = dict(kw, out_channels=shp[1], num_repetitions=shp[2])
            if kind == "categorical":
                kw["K"] = shp[-1]
            if "total_count" in p:
                kw["total_count"] = t(p["total_count"])
            leaf = cls(scope=Scope(scope, [self.e[i] for i in self.evs[k]]), parameter_fn=net, **kw)
            torch.manual_seed(self.seed + k)
            return leaf

        import random

        random.seed(self.seed)
        np.random.seed(self.seed)
        torch.manual_seed(self.seed)
        lr.HOOK, lr.COLMAP = hook, self.f
        try:
            return self.make()
        finally:
            lr.HOOK = lr.COLMAP = None

    @property
    def used(self):
        return sorted({self.e[i] for net, cols in zip(self.nets, self.evs) if net is not None for i in cols})

    def put(self, X, ev):
        X, ev = np.asarray(X, float), np.asarray(ev, float)
        T = np.full((len(X), self.W), NAN)
        T[:, self.f] = X
        T[:, self.e] = ev
        rest = [c for c in range(self.W) if c not in self.f and c not in self.e]
        T[:, rest] = self.rng.choice([NAN, 7.5, -3.0], (len(X), len(rest)))
        return T


def ast(ctx, families=None, **kw):
    rng = ctx.rng
    if families is None and ctx.idx % 5 == 4:
        families = ["gamma", "lognormal", "laplace", "bernoulli"]
    node, vs = circ.random_circuit(rng, families=families, sampleable=True, **kw)

    def make():
        for q in node.walk():
            q._mod = None
        return node.build()

    c = Cond(rng, make, vs)
    if not c.used:
        raise Skip("no conditional leaf")
    ctx.note(f"vars={vs} columns={c.f} evidence={c.evs} of {c.e} circuit={node.describe()[:400]}")
    ctx.key("ast", node.sig(), str(c.evs))
    c.name = "ast"
    return c


def arch(ctx, name):
    rng = ctx.rng
    st = int(rng.integers(1 << 30))
    probe = zoo.BUILDERS[name](np.random.default_rng(st))
    c = Cond.__new__(Cond)
    c.rng = rng
    mk = lambda: zoo.BUILDERS[name](np.random.default_rng(st)).m  # noqa: E731
    if name == "convpc":
        Cond.__init__(c, _Mono(rng), mk, probe.vs)
        c.rng = rng
    else:
        Cond.__init__(c, rng, mk, probe.vs)
    if not c.used:
        raise Skip("no conditional leaf")
    ctx.note(f"{name}: {probe.cfg} columns={c.f} evidence={c.evs} of {c.e}")
    ctx.key(name, probe.cfg, str(c.evs))
    ctx.count("models:" + name)
    c.name = name
    return c


class _Mono:
    """Random source whose permutations are the identity (architectures over images need ascending columns)."""

    def __init__(self, rng):
        self.rng = rng

    def __getattr__(self, k):
        return getattr(self.rng, k)

    def permutation(self, n):
        return np.arange(n) if isinstance(n, (int, np.integer)) else self.rng.permutation(n)


def rows(ctx, c, n, missing=0.3):
    rng = ctx.rng
    X = circ.rand_data(rng, c.vs, n) if any(v.domain is None for v in c.vs) else np.stack([rng.choice(v.domain, n) for v in c.vs], 1)
    M = X.copy()
    M[rng.random(M.shape) < missing] = NAN
    ev = np.round(rng.normal(0, 1, (n, len(c.e))), 3)
    if rng.random() < 0.5:  # a few evidence rows, repeated
        ev = ev[rng.integers(0, max(1, n // 4), n)]
    return X, M, ev


def eq(ctx, got, want, what, tol=1e-4):
    ctx.check(got.shape == want.shape, f"{what}: output shape {got.shape}, with fixed parameters {want.shape}")
    ctx.close(np.where(np.isneginf(got), -1e6, got), np.where(np.isneginf(want), -1e6, want), what, rtol=tol, atol=tol)


def check_ll(ctx, c, n=14):
    rng = ctx.rng
    X, M, ev = rows(ctx, c, n)
    for what, Z in (("complete rows", X), ("rows with missing values", M)):
        T = c.put(Z, ev)
        keep = T.copy()
        tt = t(T)
        with torch.no_grad():
            got = c.m.log_likelihood(tt).numpy().astype(float)
        ctx.check(np.array_equal(tt.numpy(), t(keep).numpy(), equal_nan=True), f"{what}: log_likelihood changed the given table")
        want = np.concatenate([mon.ll(c.build(ev[i]), c.put(Z[i:i + 1], ev[i:i + 1])) for i in range(n)])
        ctx.count("rows_compared", n)
        eq(ctx, got, want, f"log-likelihood of {what} of a circuit with conditional leaves")
        pi = rng.permutation(n)
        eq(ctx, mon.ll(c.m, T[pi]), got[pi], f"{what}: log-likelihoods of permuted rows", 2e-5)
        eq(ctx, mon.ll(c.m, T[:1]), got[:1], f"{what}: log-likelihood of a single row", 2e-5)
    return X, M, ev


def test_likelihood(ctx):
    rng = ctx.rng
    c = ast(ctx, None if rng.random() < 0.5 else CONT)
    X, M, ev = check_ll(ctx, c)
    sc = c.m.scope
    ctx.check(set(sc.query) == set(c.f), f"scope of the circuit has query {sc.query} instead of {sorted(c.f)}")
    ctx.check(set(sc.evidence) == set(c.used), f"scope of the circuit has evidence {sc.evidence} instead of {c.used}")
    # copies answer alike and are independent
    T = c.put(X, ev)
    want = mon.ll(c.m, T)
    twin = copy.deepcopy(c.m)
    b = io.BytesIO()
    torch.save(c.m, b)
    b.seek(0)
    other = torch.load(b, weights_only=False)
    eq(ctx, mon.ll(twin, T), want, "deep copy of a circuit with conditional leaves", 1e-6)
    eq(ctx, mon.ll(other, T), want, "saved circuit with conditional leaves", 1e-6)
    with torch.no_grad():
        for p in c.m.parameters():
            p.add_(0.3)
    eq(ctx, mon.ll(twin, T), want, "deep copy after the original's parameter functions changed", 1e-6)
    changed = mon.ll(c.m, T)
    with torch.no_grad():
        for p in c.m.parameters():
            p.add_(-0.2)
    c.m.load_state_dict(twin.state_dict())
    eq(ctx, mon.ll(c.m, T), want, "state of a circuit with conditional leaves loaded back", 1e-5)


def test_interval(ctx):
    """Interval evidence on conditional leaves is answered with each row's parameters or refused, never with other parameters."""
    from spflow.meta.data.interval_evidence import IntervalEvidence

    rng = ctx.rng
    c = ast(ctx, families=["bernoulli", "categorical", "normal", "exponential", "gamma", "laplace"], n=int(rng.integers(1, 5)))
    n = 8
    X, _, ev = rows(ctx, c, n, 0)
    lo, hi = c.put(X - rng.uniform(0, 2, X.shape), ev), c.put(X + rng.uniform(0.2, 2, X.shape), ev)
    try:
        with torch.no_grad():
            got = c.m.log_likelihood(IntervalEvidence(low=t(lo), high=t(hi))).numpy().astype(float)
    except (NotImplementedError, RuntimeError, ValueError) as ex:
        ctx.count("interval_refused:" + type(ex).__name__)
        ctx.check(len(str(ex)) > 0, "refusal without a message")
        return
    with torch.no_grad():
        want = np.concatenate([c.build(ev[i]).log_likelihood(IntervalEvidence(low=t(lo[i:i + 1]), high=t(hi[i:i + 1]))).numpy().astype(float) for i in range(n)])
    ctx.count("interval_rows", n)
    eq(ctx, np.maximum(got, -60), np.maximum(want, -60), "interval probabilities of a circuit with conditional leaves")


def test_gradient(ctx):
    """Gradients with respect to the parameter functions against finite differences of the reference circuit."""
    rng = ctx.rng
    c = ast(ctx)
    n = 6
    X, M, ev = rows(ctx, c, n, 0.2)
    L = c.m.log_likelihood(t(c.put(M, ev)))
    ok = torch.isfinite(L)
    if not bool(ok.all()):
        raise Skip("impossible rows")
    cot = t(rng.normal(0, 1, tuple(L.shape)))
    c.m.zero_grad()
    (L * cot).sum().backward()

    def f():
        return sum(float((mon.ll(c.build(ev[i]), c.put(M[i:i + 1], ev[i:i + 1])) * cot[i:i + 1].numpy()).sum()) for i in range(n))

    nets = [net for net in c.nets if net is not None]
    net = nets[int(rng.integers(len(nets)))]
    name, p = list(net.named_parameters())[int(rng.integers(len(list(net.named_parameters()))))]
    if p.grad is None:
        ctx.check(False, f"no gradient reaches the parameter function of a {net.kind} leaf ({name})")
    d = t(rng.normal(0, 1, tuple(p.shape)))
    h = 0.02
    keep = p.data.clone()
    v = []
    for s in (h, -h, h / 2, -h / 2):
        p.data = keep + s * d
        v.append(f())
    p.data = keep
    a, b = (v[0] - v[1]) / (2 * h), (v[2] - v[3]) / h
    num = (4 * b - a) / 3
    if abs(a - b) > 0.03 * max(1.0, abs(b)):
        raise Skip("finite differences not converged")
    ana = float((p.grad * d).sum())
    ctx.count("directional_derivatives")
    ctx.check(abs(num - ana) <= 0.02 * max(1.0, abs(num), float((p.grad.abs() * d.abs()).sum()) * 0.2), f"derivative along a direction of {name} of a {net.kind} leaf is {ana:.5g}, finite differences of the reference give {num:.5g}")


def groups(ctx, c, G, N):
    rng = ctx.rng
    ev = np.round(rng.normal(0, 1.2, (G, len(c.e))), 3)
    owner = rng.permutation(np.repeat(np.arange(G), N))
    return ev, owner


def test_sampling(ctx, c=None, N=1500):
    rng = ctx.rng
    if c is None:
        c = ast(ctx, families=["bernoulli", "categorical", "binomial"], n=int(rng.integers(2, 5)))
    D = mon.domain(c.vs)
    if len(D) > 300:
        raise Skip("domain too large")
    ev, owner = groups(ctx, c, 3, N)
    mods = [c.build(e) for e in ev]
    tabs = [mon.ll(m, c.put(D, np.repeat(e[None], len(D), 0)))[:, 0, 0, 0] for m, e in zip(mods, ev)]
    if c.m.out_shape.features != 1:
        raise Skip("several features")
    mode = rng.choice(["plain", "evidence", "sample"])
    X = np.full((len(owner), len(c.vs)), NAN)
    obs = []
    if mode == "evidence" and len(c.vs) > 1:
        obs = sorted(int(i) for i in rng.choice(len(c.vs), int(rng.integers(1, len(c.vs))), replace=False))
    row = np.stack([D[int(rng.choice(len(D), p=np.exp(tb - mon.lse(tb))))] for tb in tabs])
    X[:, obs] = row[owner][:, obs]
    T = c.put(X, ev[owner])
    torch.manual_seed(int(rng.integers(1 << 30)))
    S = (c.m.sample_with_evidence(t(T)) if mode != "sample" else c.m.sample(data=t(T))).detach().numpy().astype(float)
    ctx.check(np.array_equal(S[:, c.e], t(T).numpy()[:, c.e]), "sampling changed evidence columns")
    ctx.count("sampling:" + mode)
    for g in range(len(ev)):
        keep = np.ones(len(D), bool)
        for i in obs:
            keep &= D[:, i] == row[g, i]
        Sg = S[owner == g][:, c.f]
        for i in obs:
            ctx.check((Sg[:, i] == row[g, i]).all(), "conditional sampling changed an observed value")
        ix = mon.index_rows(D[keep], Sg)
        ctx.check((ix >= 0).all(), f"{mode} sample outside the domain: {Sg[ix < 0][:1]}")
        p = np.exp(tabs[g][keep] - mon.lse(tabs[g][keep]))
        mon.chi2_cells(ctx, np.bincount(ix, minlength=int(keep.sum())), p, f"{c.name}: {mode} samples for evidence row {ev[g]}")
    # MPE answers are those of the circuit with fixed parameters
    B = 8
    o = rng.integers(0, len(ev), B)
    Y = np.stack([D[int(rng.choice(len(D), p=np.exp(tabs[k] - mon.lse(tabs[k]))))] for k in o])
    Y[rng.random(Y.shape) < 0.6] = NAN
    T = c.put(Y, ev[o])
    got = c.m.sample_with_evidence(t(T), is_mpe=True).detach().numpy()[:, c.f].astype(float)
    for i in range(B):
        w = mods[o[i]].sample_with_evidence(t(T[i:i + 1]), is_mpe=True).detach().numpy()[:, c.f].astype(float)
        if not np.array_equal(w[0], got[i]):  # ties within float precision
            a = [mon.ll(mods[o[i]], c.put(q, ev[o[i]][None]))[0, 0, 0, 0] for q in (w, got[i:i + 1])]
            ctx.check(abs(a[0] - a[1]) < 1e-4, f"{c.name}: most probable completion {got[i]} of {Y[i]} given {ev[o[i]]}; with fixed parameters {w[0]}")
    ctx.count("mpe_rows", B)


def test_records(ctx):
    """Leaf-parameter records of conditional leaves carry the parameters of each row."""
    rng = ctx.rng
    c = ast(ctx, families=["gamma", "lognormal", "exponential", "laplace", "normal"]) if ctx.idx % 3 == 0 else ast(ctx)
    n = 12
    _, _, ev = rows(ctx, c, n)
    X = np.full((n, len(c.vs)), NAN)
    T = c.put(X, ev)
    torch.manual_seed(int(rng.integers(1 << 30)))
    try:
        S, recs = c.m.sample_with_evidence(t(T), return_leaf_params=True)
    except Exception as ex:
        if "repetition" in str(ex):
            raise Skip("routing needs an outer mixture")
        raise
    S = S.detach().numpy().astype(float)
    by = {id(net): k for k, net in enumerate(c.nets) if net is not None}
    fixed = {}
    seen = 0
    leaves = {id(m): m for m in c.m.modules() if hasattr(m, "parameter_fn")}
    for r in recs:
        leaf = leaves.get(r.leaf_id)
        if leaf is None or not leaf.is_conditional:
            continue
        k = by[id(leaf.parameter_fn)]
        net, act = c.nets[k], r.active_mask.numpy().astype(bool)
        cols = list(r.scope_cols)
        ctx.check(sorted(cols) == sorted(leaf.scope.query), f"record of a conditional leaf over {leaf.scope.query} names columns {cols}")
        names = {"probs": "probs"}
        for pn, val in r.params.items():
            val = val.detach().numpy().astype(float)
            for i in range(n):
                fx = net.fixed(ev[i][c.evs[k]])
                if pn == "logits":
                    a = fx["probs"]
                    ref = np.log(a) if net.kind == "categorical" else np.log(a) - np.log1p(-a)
                elif pn in fx:
                    ref = np.asarray(fx[pn], float)
                else:
                    continue
                if pn == "logits" and net.kind == "categorical":
                    v = val[i] - np.log(np.exp(val[i] - val[i].max(-1, keepdims=True)).sum(-1, keepdims=True)) - val[i].max(-1, keepdims=True)
                else:
                    v = val[i]
                for j in range(len(cols)):
                    if not act[i, cols[j]] if act.shape[1] == c.W else not act[i, j]:
                        continue
                    # ref[j] has shape (channels, repetitions[, K]): the record must be one of its entries
                    cand = ref[j].reshape(ref.shape[1] * ref.shape[2], -1)
                    dist = np.abs(cand - np.asarray(v[j]).reshape(1, -1)).max(1)
                    seen += 1
                    ctx.check(dist.min() < 1e-3 * (1 + np.abs(cand).max()), f"record of a {net.kind} leaf: {pn} of row {i}, column {cols[j]} is {v[j]}, the parameter function gives {cand.tolist()}")
    if not seen:
        raise Skip("no conditional leaf was drawn from")
    ctx.count("records_compared", seen)


ARCHS = ["rat", "einet", "convpc", "naive_bayes"]


def test_architectures(ctx):
    rng = ctx.rng
    name = ARCHS[ctx.idx % len(ARCHS)]
    c = arch(ctx, name)
    X, M, ev = check_ll(ctx, c, 8)
    if getattr(c.m, "num_classes", 1) > 1 and hasattr(c.m, "log_posterior"):
        got = c.m.log_posterior(t(c.put(X, ev))).detach().numpy().astype(float)
        want = np.concatenate([c.build(ev[i]).log_posterior(t(c.put(X[i:i + 1], ev[i:i + 1]))).detach().numpy() for i in range(len(X))])
        ctx.close(np.maximum(got, -60), np.maximum(want, -60), f"{name}: class posteriors with conditional leaves", 2e-4, 2e-4)
        ctx.count("posteriors")
    if len(mon.domain(c.vs)) <= 300 and name != "rat":
        test_sampling(ctx, c, 1200)


def test_training(ctx):
    """Gradient training adapts the parameter functions; operations that cannot work on conditional leaves are refused."""
    from torch.utils.data import DataLoader, TensorDataset
    from spflow.learn import train_gradient_descent

    rng = ctx.rng
    c = ast(ctx, families=["bernoulli", "categorical", "normal", "poisson"], n=int(rng.integers(1, 4)))
    N = 64
    X, _, ev = rows(ctx, c, N, 0)
    if not np.isfinite(X).all():
        raise Skip("incomplete rows")
    T = t(c.put(X, ev))
    if not torch.isfinite(c.m.log_likelihood(T)).all():
        raise Skip("impossible rows")
    before = {k: v.clone() for k, v in c.m.state_dict().items()}
    l0 = float(c.m.log_likelihood(T).mean())
    train_gradient_descent(c.m, DataLoader(TensorDataset(T), batch_size=32), epochs=3, lr=0.01)
    l1 = float(c.m.log_likelihood(T).mean())
    ctx.check(l1 > l0 - 0.02 * (1 + abs(l0)), f"gradient training of a circuit with conditional leaves lowered the mean log-likelihood from {l0:.4f} to {l1:.4f}")
    moved = 0
    used = {id(m.parameter_fn) for m in c.m.modules() if getattr(m, "parameter_fn", None) is not None}
    names = {id(p): k for k, p in c.m.named_parameters()}
    for net in c.nets:
        if net is None or id(net) not in used:
            continue
        for k, p in net.named_parameters():
            ctx.check(id(p) in names, f"parameter {k} of a parameter function is not registered in the circuit")
            moved += int(not torch.equal(before[names[id(p)]], p.data))
    ctx.check(moved > 0, "gradient training left every parameter function unchanged")
    ctx.count("trained")
    # operations that conditional leaves do not support are refused, and the refusal changes nothing
    leaf = next(m for m in c.m.modules() if getattr(m, "parameter_fn", None) is not None)
    state = {k: v.clone() for k, v in leaf.state_dict().items()}
    for what, fn in (("estimation", lambda: leaf.maximum_likelihood_estimation(T)), ("marginalisation", lambda: leaf.marginalize([leaf.scope.query[0]]))):
        try:
            fn()
            ctx.check(False, f"{what} of a conditional leaf was accepted")
        except (RuntimeError, ValueError, NotImplementedError) as ex:
            ctx.count("refused:" + what)
    for k, v in leaf.state_dict().items():
        ctx.check(torch.equal(v, state[k]), f"a refused operation changed {k} of a conditional leaf")


FAMILIES = [
    Family("likelihood", test_likelihood, quick=50, thorough=1500, timeout=60),
    Family("interval", test_interval, quick=24, thorough=600, timeout=60),
    Family("gradient", test_gradient, quick=30, thorough=800, timeout=60),
    Family("sampling", test_sampling, quick=40, thorough=1200, timeout=90),
    Family("architectures", test_architectures, quick=24, thorough=600, timeout=90),
    Family("records", test_records, quick=30, thorough=600, timeout=60),
    Family("training", test_training, quick=16, thorough=300, timeout=60),
]
