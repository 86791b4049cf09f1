"""C25: materialised quadrature circuits equal the quadrature of the integral circuits they come from."""
from __future__ import annotations

import copy
import math

import numpy as np
import torch
from torch import nn

from spmon import mon
from spmon.runner import Family, Skip

PID = "C25"
RULE = "distinct = distinct (structure, number of quadrature points, leaf kinds, latent dimensions, sharing) configuration"
ASSUMPTIONS = ["reference values are computed in float64 by naming every latent axis and summing over quadrature nodes; columns of an integral's "
               "function arguments follow the order of its latent / integrated scopes",
               "TensorizedQPC: layer parameters are observed from the model's own networks; the recursion over the region graph is independent"]


class Wave(nn.Module):
    """Positive function of (z, y) with separate treatment of every column."""

    def __init__(self, rng, zd, yd, zero=0.0):
        super().__init__()
        self.zd, self.yd, self.zero = zd, yd, zero
        h = int(rng.integers(2, 5))
        self.A = rng.normal(size=(zd + yd, h)) * 2
        self.b = rng.normal(size=h)
        self.c = rng.normal(size=h)

    def forward(self, z, y):
        if z.shape[:-1] != y.shape[:-1] or z.shape[-1] != self.zd or y.shape[-1] != self.yd:
            raise ValueError(f"function called with shapes {tuple(z.shape)} and {tuple(y.shape)} for {self.zd}+{self.yd} latents")
        return torch.tensor(self.np(z.double().numpy(), y.double().numpy()), dtype=z.dtype)

    def np(self, z, y):
        x = np.concatenate([z, y], -1)
        v = np.exp(np.sin(x @ self.A + self.b) @ self.c * 0.7)
        return np.maximum(v - self.zero, 0.0)


def group_np(group, head, z, y):
    """FunctionGroup value in float64, from its parameters."""
    g = lambda t: t.detach().double().numpy()  # noqa: E731
    x = np.concatenate([z, y], -1)
    p = x @ g(group.mlp.fourier.B)
    h = np.concatenate([np.sin(p), np.cos(p)], -1)
    for layer in group.mlp.layers:
        h = h @ g(layer.weight).T + g(layer.bias) if isinstance(layer, nn.Linear) else h / (1 + np.exp(-h))
    lin = group._f_head if group.sharing_type == "f" else group._multi_headed.heads[head]
    return np.logaddexp(0, (h @ g(lin.weight).T + g(lin.bias))[..., 0])


def leaf_class():
    from spflow.modules.module import Module
    from spflow.modules.module_shape import ModuleShape

    class Leaf(Module):
        """PIC input unit; p(x | z) depends on every latent column."""

        def __init__(self, rng, kind, x_scope, z_scope):
            super().__init__()
            self.scope, self.latent_scope, self.kind = x_scope, z_scope, kind
            self.in_shape = self.out_shape = ModuleShape(features=1, channels=1, repetitions=1)
            self.S = {"bernoulli": 2, "normal": 2}.get(kind) or int(kind[3:])
            zd = len(z_scope.query)
            self.A = rng.normal(size=(zd, self.S)) * 1.5
            self.b = rng.normal(size=self.S)
            self.calls = 0

        @property
        def feature_to_scope(self):
            return np.array([self.scope])

        def logits(self, Z):
            return Z @ self.A + self.b

        def grid(self, q):
            zd = len(self.latent_scope.query)
            P = q.points.double().numpy()
            if zd == 0:
                return np.zeros((1, 0))
            return np.stack(np.meshgrid(*[P] * zd, indexing="ij"), -1).reshape(-1, zd)

        def materialize(self, q):
            from spflow.modules.leaves import Bernoulli, Categorical, Normal

            self.calls += 1
            L = self.logits(self.grid(q))
            C = len(L)
            T = lambda a: torch.tensor(a, dtype=q.points.dtype)  # noqa: E731
            if self.kind == "bernoulli":
                return Bernoulli(scope=self.scope, out_channels=C, probs=T(1 / (1 + np.exp(-L[:, 0]))).reshape(1, C, 1))
            if self.kind == "normal":
                return Normal(scope=self.scope, out_channels=C, loc=T(L[:, 0]).reshape(1, C, 1), scale=T(np.exp(L[:, 1] * 0.3)).reshape(1, C, 1))
            p = np.exp(L - L.max(1, keepdims=True))
            return Categorical(scope=self.scope, out_channels=C, probs=T(p / p.sum(1, keepdims=True)).reshape(1, C, 1, self.S))

        def value(self, X, q):
            """(B, K, ..., K)"""
            x = X[:, self.scope.query[0]][:, None]
            L = self.logits(self.grid(q))[None]
            if self.kind == "bernoulli":
                p = 1 / (1 + np.exp(-L[..., 0]))
                v = np.where(x == 1, p, 1 - p)
            elif self.kind == "normal":
                s = np.exp(L[..., 1] * 0.3)
                v = np.exp(-0.5 * ((x - L[..., 0]) / s) ** 2) / (s * math.sqrt(2 * math.pi))
            else:
                p = np.exp(L - L.max(-1, keepdims=True))
                p = (p / p.sum(-1, keepdims=True))[0]
                v = p.T[np.nan_to_num(x[:, 0]).astype(int)]
            v = np.where(np.isnan(x), 1.0, v)
            return v.reshape((len(X),) + (len(q.points),) * len(self.latent_scope.query))

        def log_likelihood(self, data, cache=None):
            raise NotImplementedError

        def sample(self, *a, **k):
            raise NotImplementedError

        def _sample(self, data, sampling_ctx, cache):
            raise NotImplementedError

        def marginalize(self, marg_rvs, prune=True, cache=None):
            raise NotImplementedError

    return Leaf


def mul(A, B):
    """Product of two named-axis arrays (axes, array with a leading batch axis)."""
    ax, a = A
    bx, b = B
    out = list(ax) + [v for v in bx if v not in ax]

    def fit(x, arr):
        arr = np.moveaxis(arr, range(1, 1 + len(x)), [1 + sorted(range(len(x)), key=lambda i: out.index(x[i])).index(j) for j in range(len(x))]) if len(x) > 1 else arr
        present = sorted(x, key=out.index)
        return arr.reshape((arr.shape[0],) + tuple(arr.shape[1 + present.index(v)] if v in present else 1 for v in out))

    return out, fit(ax, a) * fit(bx, b)


def value(u, X, q, memo=None):
    """Named-axis value of a symbolic unit under the quadrature rule: (latent ids, array (B, K, ..., K))."""
    memo = {} if memo is None else memo
    if id(u) in memo:
        return memo[id(u)]
    n = type(u).__name__
    K = len(q.points)
    P, W = q.points.double().numpy(), q.weights.double().numpy()
    if n == "Leaf":
        r = (list(u.latent_scope.query), u.value(X, q))
    elif n == "PICProduct":
        r = mul(value(u.left, X, q, memo), value(u.right, X, q, memo))
    elif n == "PICSum":
        parts = [value(c, X, q, memo) for c in u.inputs]
        ax = parts[0][0]
        r = (ax, sum(float(w) * mul((ax, np.ones((1,) + (K,) * len(ax))), p)[1] for w, p in zip(u.weights.double().numpy(), parts)))
    else:
        zs, ys = list(u.latent_scope.query), list(u.integrated_latent_scope.query)
        axes = zs + ys
        G = np.stack(np.meshgrid(*[P] * len(axes), indexing="ij"), -1) if axes else np.zeros((0,))
        G = G.reshape((K,) * len(axes) + (len(axes),))
        Z, Y = G[..., :len(zs)], G[..., len(zs):]
        f = group_np(u.function, u.function_head_idx or 0, Z, Y) if type(u.function).__name__ == "FunctionGroup" else u.function.np(Z, Y)
        for j in range(len(ys)):
            f = f * W.reshape((1,) * (len(zs) + j) + (-1,) + (1,) * (len(ys) - j - 1))
        ax, v = mul((axes, f[None]), value(u.inputs, X, q, memo))
        drop = tuple(1 + ax.index(y) for y in ys)
        v = v.sum(drop)
        ax = [a for a in ax if a not in ys]
        r = mul((zs, np.ones((1,) + (K,) * len(zs))), (ax, v))
    memo[id(u)] = r
    return r


def rule(rng, kmax=4):
    from spflow.zoo.pic import QuadratureRule

    K = int(rng.integers(1, kmax + 1))
    dt = torch.float64 if rng.random() < 0.5 else torch.float32
    how = rng.integers(3)
    if how == 0:
        x, w = np.polynomial.legendre.leggauss(K)
        w = w / 2
    elif how == 1:
        x, w = np.sort(rng.normal(size=K)), np.full(K, 1.0 / K)
    else:
        x, w = rng.normal(size=K), rng.random(K) * 2 + 0.05
        if K > 2 and rng.random() < 0.3:
            w[rng.integers(K)] = 0.0
    return QuadratureRule(points=torch.tensor(x, dtype=dt), weights=torch.tensor(w, dtype=dt))


class Builder:
    def __init__(self, rng, n, kmax, discrete=True, group=None):
        self.rng, self.budget = rng, 14
        self.ids = list(rng.permutation(np.arange(n, n + 60)))
        kinds = ["bernoulli", "cat2", "cat3"] + ([] if discrete else ["normal", "normal"])
        self.kinds = [str(rng.choice(kinds)) for _ in range(n)]
        self.Leaf = leaf_class()
        self.maxdim = 3 if kmax <= 3 else 2
        self.ops = set()
        self.groups = {} if group else None
        self.sharing = group
        self.pool = {}

    def fresh(self):
        return int(self.ids.pop())

    def integral(self, child, z, y):
        from spflow.meta.data.scope import Scope
        from spflow.zoo.pic import Integral
        from spflow.zoo.pic.functional_sharing import FunctionGroup

        rng = self.rng
        u = Integral(input_module=child, latent_scope=Scope(z), integrated_latent_scope=Scope(y), function=Wave(rng, len(z), len(y), zero=float(rng.choice([0.0, 0.0, 0.7]))))
        if self.groups is not None and z and rng.random() < 0.8:
            key = (len(z) + len(y),) if rng.random() < 0.5 else (len(z), len(y))
            g = self.groups.get(key)
            if g is None:
                g = self.groups[key] = FunctionGroup(sharing_type=self.sharing, input_dim=len(z) + len(y), hidden_dim=int(rng.integers(3, 7)), num_layers=int(rng.integers(1, 3)))
            u.function, u.function_head_idx = g, g.add_unit(u)
        return u

    def unit(self, vs, z):
        """A unit over variables vs whose latent scope is exactly z."""
        from spflow.meta.data.scope import Scope
        from spflow.zoo.pic import PICProduct, PICSum

        rng = self.rng
        self.budget -= 1
        key = (tuple(sorted(vs)), tuple(z))
        if key in self.pool and rng.random() < 0.5:
            self.ops.add("shared")
            return self.pool[key][rng.integers(len(self.pool[key]))]
        opts = []
        if len(vs) == 1:
            opts += ["leaf"] * 4
        else:
            opts += ["cp"] * 2
        if self.budget > 0 or len(vs) > 1:
            opts += ["int1"] * 1 + (["tucker"] * 3 if len(vs) > 1 else [])
            if self.budget > 4:
                opts += ["sum"] * 2 + (["wide"] if self.maxdim > 1 else [])
        op = str(rng.choice(opts))
        if self.budget <= 0:
            op = "leaf" if len(vs) == 1 else "cp"
        self.ops.add(op)
        if op == "leaf":
            u = self.Leaf(rng, self.kinds[vs[0]], Scope(vs), Scope(z))
        elif op == "cp":
            A, B = self.split(vs)
            u = PICProduct(self.unit(A, z), self.unit(B, z))
        elif op == "int1":
            y = [self.fresh()]
            u = self.integral(self.unit(vs, y), z, y)
        elif op == "wide":
            y = [self.fresh(), self.fresh()]
            zz = self.unit(vs, y)
            u = self.integral(zz, z, [int(v) for v in rng.permutation(y)])
        elif op == "sum":
            k = int(rng.integers(1, 4))
            w = rng.random(k) + 0.1
            u = PICSum([self.unit(vs, z) for _ in range(k)], torch.tensor(w / w.sum(), dtype=self.dtype), Scope(z))
        else:
            parts = [vs]
            while len(parts) < self.maxdim and (len(parts) < 2 or rng.random() < 0.4):
                big = max(range(len(parts)), key=lambda i: len(parts[i]))
                if len(parts[big]) < 2:
                    break
                parts[big:big + 1] = self.split(parts[big])
            ys = [[self.fresh()] for _ in parts]
            units = [self.unit(p, y) for p, y in zip(parts, ys)]
            order = [int(i) for i in rng.permutation(len(units))]
            cur = units[order[0]]
            for i in order[1:]:
                cur = PICProduct(cur, units[i]) if rng.random() < 0.5 else PICProduct(units[i], cur)
            y = [v for t in ys for v in t]
            y = list(cur.latent_scope.query) if rng.random() < 0.5 else [int(v) for v in rng.permutation(y)]
            u = self.integral(cur, z, y)
        self.pool.setdefault(key, []).append(u)
        return u

    def split(self, vs):
        p = [int(v) for v in self.rng.permutation(vs)]
        k = int(self.rng.integers(1, len(p)))
        return [p[:k], p[k:]]


def data_for(rng, kinds, B, nan=0.25):
    X = np.stack([rng.integers(0, 2, B) if k == "bernoulli" else rng.normal(size=B) * 1.5 if k == "normal" else rng.integers(0, int(k[3:]), B) for k in kinds], 1).astype(float)
    X[rng.random(X.shape) < nan] = np.nan
    return X


def variables(kinds):
    from spmon.circ import Var

    return [Var("bernoulli") if k == "bernoulli" else Var("categorical", K=int(k[3:])) for k in kinds]


def judge_qpc(ctx, qpc, pic, q, kinds, what, rng, f64=True):
    f64 &= q.points.dtype == torch.float64
    X = data_for(rng, kinds, int(rng.integers(1, 8)))
    X[0] = np.nan
    X = X.astype(np.float32).astype(float)
    want_ax, want = value(pic, X, q)
    ctx.check(want_ax == [], "reference has free latents")
    with torch.no_grad():
        got = qpc.log_likelihood(torch.tensor(X, dtype=q.points.dtype)).double().numpy()
    ctx.check(got.shape == (len(X), 1, 1, 1), f"{what}: output shape {got.shape}")
    with np.errstate(divide="ignore"):
        ref = np.log(want)
    got = got[:, 0, 0, 0]
    ctx.obs["verdicts"] += len(X)
    same = np.isclose(got, ref, rtol=1e-8 if f64 else 2e-4, atol=1e-7 if f64 else 2e-4) | (np.isneginf(ref) & np.isneginf(got))
    same |= (want < 1e-250) & (got < -500)  # the reference itself underflows
    if not same.all():
        i = int(np.argmin(same))
        ctx.fail(f"{what}: log-density {got[i]} of {X[i].tolist()}, quadrature of the integral circuit is {ref[i]}")


def f_hand(ctx):
    from spflow.zoo.pic import pic2qpc

    rng = ctx.rng
    n = int(rng.integers(1, 6))
    q = rule(rng, 4)
    K = len(q.points)
    b = Builder(rng, n, K, discrete=bool(rng.random() < 0.6), group=str(rng.choice(["c", "f"])) if rng.random() < 0.4 else None)
    b.dtype = q.points.dtype
    torch.manual_seed(int(rng.integers(2**31)))
    pic = b.unit(list(range(n)), [])
    if type(pic).__name__ == "Leaf" and rng.random() < 0.8:
        raise Skip("single leaf")
    qpc = pic2qpc(pic, q)
    ctx.key("hand", K, tuple(sorted(b.ops)), n, b.sharing, str(q.points.dtype))
    judge_qpc(ctx, qpc, pic, q, b.kinds, f"PIC {sorted(b.ops)} n={n} K={K}", rng, f64=not b.groups)
    # gradients reach every weight the value depends on; materialising twice gives the same function
    q2 = pic2qpc(pic, q)
    X = torch.tensor(data_for(rng, b.kinds, 3), dtype=q.points.dtype)
    with torch.no_grad():
        a, c = qpc.log_likelihood(X), q2.log_likelihood(X)
    ctx.check(torch.allclose(a, c, rtol=1e-5, atol=1e-5, equal_nan=True), "materialising the same integral circuit twice gives different densities")


def rand_rg(rng, n, mixing=True, nary=True, multi_inner=False):
    from spflow.meta.data.scope import Scope
    from spflow.meta.region_graph import Region, RegionGraph

    table = {}

    def region(vs, root=False):
        key = tuple(sorted(vs))
        if key in table and rng.random() < 0.8:
            return table[key]
        r = Region(Scope(key))
        if len(key) > 1:
            k = int(rng.integers(1, 4)) if (root and mixing) or (multi_inner and rng.random() < 0.4) else 1
            seen = set()
            for _ in range(k):
                p = [int(v) for v in rng.permutation(key)]
                a = int(rng.integers(2, min(4, len(p)) + 1)) if nary else 2
                cuts = [0] + sorted(int(c) for c in rng.choice(np.arange(1, len(p)), size=a - 1, replace=False)) + [len(p)]
                parts = [tuple(p[i:j]) for i, j in zip(cuts, cuts[1:])]
                sig = frozenset(frozenset(t) for t in parts)
                if sig in seen:
                    continue
                seen.add(sig)
                r.add_partition(tuple(region(t) for t in parts))
        if key not in table:
            table[key] = r
        return table[key]

    return RegionGraph(region(range(n), True))


def f_rg(ctx):
    from spflow.meta.data.scope import Scope
    from spflow.zoo.pic import MergeStrategy, pic2qpc, rg2pic
    from spflow.zoo.pic.functional_sharing import FunctionGroup

    rng = ctx.rng
    n = int(rng.integers(1, 7))
    rg = rand_rg(rng, n)
    q = rule(rng, 4)
    K = len(q.points)
    Leaf = leaf_class()
    kinds = [str(k) for k in rng.choice(["bernoulli", "cat3", "normal"] if rng.random() < 0.5 else ["bernoulli", "cat2"], size=n)]
    sharing = str(rng.choice(["none", "c", "f"]))
    norm = bool(sharing == "none" and rng.random() < 0.4)
    torch.manual_seed(int(rng.integers(2**31)))
    groups = []

    class Norm(Wave):
        """integrates to one over y, for this quadrature rule"""

        def np(self, z, y):
            v = super().np(z, y)
            P, W = q.points.double().numpy(), q.weights.double().numpy()
            G = np.stack(np.meshgrid(*[P] * self.yd, indexing="ij"), -1).reshape(-1, self.yd) if self.yd else np.zeros((1, 0))
            WW = np.prod(np.stack(np.meshgrid(*[W] * self.yd, indexing="ij"), -1).reshape(-1, self.yd), -1)
            flat = z.reshape(-1, self.zd) if self.zd else np.zeros((int(np.prod(z.shape[:-1])), 0))
            d = np.array([(WW * super(Norm, self).np(np.repeat(t[None], len(G), 0), G)).sum() for t in flat])
            return v / d.reshape(z.shape[:-1])

    def mk_group(depth, zd, yd):
        g = FunctionGroup(sharing_type=sharing, input_dim=zd + yd, hidden_dim=int(rng.integers(3, 7)), num_layers=int(rng.integers(1, 3)))
        groups.append((depth, zd, yd))
        return g

    fns = lambda zd, yd: (Norm if norm else Wave)(rng, zd, yd)  # noqa: E731
    given = rng.random() < 0.5

    def weights(k):
        w = rng.random(k) + 0.1
        return torch.tensor(w / w.sum(), dtype=q.points.dtype)

    pic = rg2pic(rg, merge_strategy=MergeStrategy.AUTO if rng.random() < 0.6 else MergeStrategy.TUCKER,
                 leaf_factory=lambda x, z: Leaf(rng, kinds[x.query[0]], x, z), function_factory=fns,
                 integral_group_factory=None if sharing == "none" else mk_group, sum_weights_factory=weights if given else None)
    ctx.key("rg", n, K, sharing, len(rg.root.children), max([len(p) for r in rg.regions for p in r.children], default=0), norm)
    ctx.check(set(pic.scope.query) == set(range(n)) and len(pic.latent_scope.query) == 0, f"root unit has scope {pic.scope} and latents {pic.latent_scope}")
    ctx.check(len(groups) == len(set(groups)), "several function groups for one (depth, dimensions) key")
    # every partition of every region appears as a product of the right variables; latents are unique and outside the variables
    units, stack = {}, [pic]
    while stack:
        u = stack.pop()
        if id(u) in units:
            continue
        units[id(u)] = u
        kids = [] if type(u).__name__ == "Leaf" else list(u.inputs) if isinstance(u.inputs, nn.ModuleList) else [u.inputs]
        stack += kids
    lat = [v for u in units.values() if type(u).__name__ in ("Leaf", "Integral") for v in u.latent_scope.query]
    ctx.check(len(lat) == len(set(lat)) and all(v >= n for v in lat), f"latent variables {sorted(lat)} are not unique or clash with the variables")
    leafs = [u for u in units.values() if type(u).__name__ == "Leaf"]
    want_leaf = [r for r in rg.regions if not r.children]
    ctx.check(len(leafs) == len(want_leaf), f"{len(leafs)} input units for {len(want_leaf)} leaf regions")
    prods = [set(u.scope.query) for u in units.values() if type(u).__name__ == "PICProduct"]
    parts = [p for r in rg.regions for p in r.children]
    ctx.check(len(prods) == sum(len(p) - 1 for p in parts), f"{len(prods)} products for partitions of arity {[len(p) for p in parts]}")
    # the components of the root follow the region graph
    if len(rg.root.children) > 1:
        ctx.check(type(pic).__name__ == "PICSum" and len(pic.inputs) == len(rg.root.children), "partitions of the root do not become components of a sum")
    qpc = pic2qpc(pic, q)
    judge_qpc(ctx, qpc, pic, q, kinds, f"region-graph PIC n={n} K={K} sharing={sharing}", rng, f64=sharing == "none")
    if norm:
        with torch.no_grad():
            t = float(qpc.log_likelihood(torch.full((1, n), float("nan"), dtype=q.points.dtype)).reshape(-1)[0])
        ctx.check(abs(t) < 1e-3, f"conditionally normalised integral functions, but the total mass is exp({t})")
    ctx.check(all(u.calls == 1 for u in leafs), f"input units were materialised {[u.calls for u in leafs]} times")


def f_sample(ctx):
    from spflow.zoo.pic import pic2qpc

    rng = ctx.rng
    n = int(rng.integers(2, 5))
    q = rule(rng, 3)
    K = len(q.points)
    b = Builder(rng, n, K)
    b.dtype = q.points.dtype
    torch.manual_seed(int(rng.integers(2**31)))
    pic = b.unit(list(range(n)), [])
    qpc = pic2qpc(pic, q)
    ctx.key("sample", n, K, tuple(sorted(b.ops)), str(q.points.dtype))
    vs = variables(b.kinds)
    D = mon.domain(vs)
    p = value(pic, D, q)[1]
    if p.sum() < 1e-12:
        raise Skip("vanishing circuit")
    dt = q.points.dtype
    p = p / p.sum()

    def free(N):
        return qpc.sample(data=torch.full((N, n), float("nan"), dtype=dt))

    mon.check_samples(ctx, qpc, vs, N=2500, what=f"QPC {sorted(b.ops)}", D=D, p=p, draw=free)
    mon.check_cond_samples(ctx, qpc, vs, rng, N=2400, what=f"QPC {sorted(b.ops)}", D=D, L=np.log(np.maximum(p, 1e-300))[:, None, None, None],
                           draw=lambda d: qpc.sample_with_evidence(d.to(dt)))
    miss = [int(v) for v in np.flatnonzero(rng.random(n) < 0.4)]
    if miss and len(miss) < n:
        try:
            m2 = qpc.marginalize(miss)
        except NotImplementedError:
            ctx.count("marginalize_unsupported")
            return
        keep = [v for v in range(n) if v not in miss]
        X = data_for(rng, b.kinds, 4, nan=0.1)
        X[:, miss] = np.nan
        ctx.check(m2 is not None and set(m2.scope.query) == set(keep), f"marginalised circuit has scope {getattr(m2, 'scope', None)}")
        with torch.no_grad():
            g = m2.log_likelihood(torch.tensor(X, dtype=dt)).double().numpy().reshape(-1)
        mon._close_ll(ctx, g, np.log(value(pic, X, q)[1]), "structurally marginalised QPC", 5e-4)


def f_weighted(ctx):
    from spflow.meta.data.scope import Scope
    from spflow.modules.leaves import Categorical
    from spflow.zoo.pic import WeightedSum

    rng = ctx.rng
    f, C, O, R, S = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.choice([1, 1, 2, 3])), int(rng.integers(2, 4))
    dt = torch.float64 if rng.random() < 0.5 else torch.float32
    P = rng.dirichlet(np.ones(S), size=(f, C, 1 if R > 1 and rng.random() < 0.3 else R))  # inputs without repetitions serve all of them
    mk = lambda P: Categorical(scope=Scope(list(range(f))), out_channels=P.shape[1], num_repetitions=P.shape[2], probs=torch.tensor(P, dtype=dt))  # noqa: E731
    W = rng.random((f, C, O, R)) * rng.choice([0.01, 1.0, 50.0]) + 1e-3
    if rng.random() < 0.4 and C > 1:
        W[rng.random(W.shape) < 0.25] = 0.0
        W[:, 0] += 1e-2
    split = C > 1 and rng.random() < 0.4
    k = int(rng.integers(1, C)) if split else 0
    inp = [mk(P[:, :k]), mk(P[:, k:])] if split else mk(P)
    m = WeightedSum(inputs=inp, weights=torch.tensor(W, dtype=dt), num_repetitions=R)
    ctx.key("weighted", f, C, O, R, S, split, str(dt))
    # inputs can themselves be unnormalised
    nested = rng.random() < 0.4
    Q = np.einsum("fcrs,fcor->fors", np.broadcast_to(P, (f, C, R, S)), W)
    if nested:
        O2 = int(rng.integers(1, 4))
        W2 = rng.random((f, O, O2, R)) + 0.05
        m = WeightedSum(inputs=m, weights=torch.tensor(W2, dtype=dt), num_repetitions=R)
        Q = np.einsum("fcrs,fcor->fors", Q, W2)
        O = O2
    B = int(rng.integers(1, 6))
    X = rng.integers(0, S, (B, f)).astype(float)
    X[rng.random(X.shape) < 0.3] = np.nan
    ref = np.where(np.isnan(X)[:, :, None, None], Q.sum(-1)[None], np.stack([Q[j][..., np.nan_to_num(X[:, j]).astype(int)].transpose(2, 0, 1) for j in range(f)], 1))
    with torch.no_grad():
        got = m.log_likelihood(torch.tensor(X, dtype=dt)).double().numpy()
    ctx.check(got.shape == ref.shape, f"weighted sum: shape {got.shape}, expected {ref.shape}")
    mon._close_ll(ctx, got, np.log(ref), "weighted sum", 1e-4)
    if f > 1:  # structural marginalisation: the rows of the remaining features, with their own weights
        keep = np.sort(rng.choice(f, int(rng.integers(1, f)), replace=False))
        mm = m.marginalize([j for j in range(f) if j not in keep])
        with torch.no_grad():
            g = mm.log_likelihood(torch.tensor(X, dtype=dt)).double().numpy()
        ctx.check(g.shape == ref[:, keep].shape, f"marginalised weighted sum: shape {g.shape}, expected {ref[:, keep].shape}")
        mon._close_ll(ctx, g, np.log(ref[:, keep]), f"weighted sum marginalised to features {keep.tolist()} of {f}", 1e-4)
        ctx.check(m.marginalize(list(range(f))) is None, "a weighted sum with nothing left is not None")
    if P.shape[2] != R:
        return  # sampling below a sum with more repetitions than its input is refused
    # one feature, chosen slot: samples proportional to the slot's (unnormalised) values; evidence of another feature is ignored
    from spmon.circ import Var

    vs = [Var("categorical", K=S) for _ in range(f)]
    slots = 3
    N = 2400
    ch = [rng.integers(0, O, f) for _ in range(slots)]
    rp = [int(rng.integers(0, R)) for _ in range(slots)]
    own = rng.permutation(np.repeat(np.arange(slots), N // slots))
    Sm = mon.slot_draw(m, torch.full((len(own), f), float("nan"), dtype=dt), np.array([ch[o] for o in own], dtype=np.int64), np.array([rp[o] for o in own], dtype=np.int64)).detach().numpy()
    ctx.check(Sm.shape == (len(own), f) and not np.isnan(Sm).any(), "weighted sum: samples incomplete")
    for o in range(slots):
        for j in range(f):
            mon.chi2_cells(ctx, np.bincount(Sm[own == o, j].astype(int), minlength=S), Q[j, ch[o][j], rp[o]] / Q[j, ch[o][j], rp[o]].sum(), f"weighted sum: slot {ch[o].tolist()}/{rp[o]} feature {j}")
    ctx.count("slots_sampled", slots)


def f_group(ctx):
    """Shared function groups: every unit's function is its own head, with the activation asked for."""
    from spflow.zoo.pic.functional_sharing import FunctionGroup, MultiHeadedMLP, SharedMLP

    rng = ctx.rng
    torch.manual_seed(int(rng.integers(1 << 30)))
    zd, yd, units = int(rng.integers(0, 3)), int(rng.integers(1, 3)), int(rng.integers(1, 5))
    sharing = "c" if rng.random() < 0.6 else "f"
    hidden, layers = int(rng.integers(2, 7)), int(rng.integers(1, 4))
    g = FunctionGroup(sharing_type=sharing, input_dim=zd + yd, hidden_dim=hidden, num_layers=layers)
    ids = [g.add_unit(object()) for _ in range(units)]
    ctx.check(ids == list(range(units)), f"unit indices {ids}")
    g.finalize()
    lead = tuple(int(v) for v in rng.integers(1, 4, int(rng.integers(1, 3))))
    z, y = torch.rand(lead + (zd,)), torch.rand(lead + (yd,))
    if rng.random() < 0.5 and len(lead) == 2:
        z = z[:, :1]
    Z, Y = np.broadcast_to(z.numpy(), lead + (zd,)).astype(float), y.numpy().astype(float)
    with torch.no_grad():
        both = g.evaluate_batched(z, y).numpy()
        for u in ids:
            want = group_np(g, u, Z, Y)
            got = g.get_function(u)(z, y).numpy()
            ctx.check(got.shape == lead, f"unit function of shape {got.shape} for points {lead}")
            ctx.close(got, want, f"function of unit {u} of {units} (sharing {sharing})", 1e-4, 1e-5)
            ctx.close(both[u if sharing == "c" else 0], want, f"batched value of unit {u} of {units} (sharing {sharing})", 1e-4, 1e-5)
            ctx.count("unit_functions")
        act = [None, torch.nn.Sigmoid(), torch.nn.Identity()][int(rng.integers(3))]
        shared = SharedMLP(zd + yd, hidden, layers)
        mh = MultiHeadedMLP(shared, units, output_activation=act)
        x = torch.rand(5, zd + yd)
        h = shared(x)
        raw = np.concatenate([(h @ q.weight.T + q.bias).numpy() for q in mh.heads], 1).astype(float)
        ref = {None: np.logaddexp(0, raw), torch.nn.Sigmoid: 1 / (1 + np.exp(-raw)), torch.nn.Identity: raw}[type(act) if act is not None else None]
        ctx.close(mh(x).numpy(), ref, f"all heads with activation {act}", 1e-4, 1e-5)
        for u in ids:
            ctx.close(mh(x, head_idx=u).numpy()[:, 0], ref[:, u], f"head {u} with activation {act}", 1e-4, 1e-5)
    ctx.key("group", sharing, zd, yd, units, layers, str(type(act)))


def dense(fn, arrs):
    return fn(*[np.asarray(a, dtype=np.float64) for a in arrs])


def f_layers(ctx):
    from spflow.zoo.pic.tensorized import CPLayer, MixingSumLayer, TuckerLayer

    rng = ctx.rng
    Fo, H, I, O, B = int(rng.integers(1, 4)), int(rng.integers(1, 5)), int(rng.integers(1, 5)), int(rng.integers(1, 4)), int(rng.integers(1, 5))
    kind = str(rng.choice(["tucker", "collapsed", "uncollapsed", "shared", "mixing"]))
    dt = torch.float64 if rng.random() < 0.6 else torch.float32
    H = 2 if kind == "tucker" else H
    O = I if kind == "mixing" else O
    mask = None
    if kind in ("collapsed", "uncollapsed", "mixing") and H > 1 and rng.random() < 0.6:
        mask = rng.random((Fo, H)) < 0.6
        mask[np.arange(Fo), rng.integers(0, H, Fo)] = True
    tm = None if mask is None else torch.tensor(mask, dtype=torch.bool if rng.random() < 0.5 else dt)
    kw = dict(num_input_units=I, num_output_units=O, arity=H, num_folds=Fo)
    torch.manual_seed(int(rng.integers(2**31)))
    if kind == "tucker":
        layer = TuckerLayer(**kw)
    elif kind == "mixing":
        layer = MixingSumLayer(**kw, fold_mask=tm)
    else:
        R = int(rng.integers(1, 4))
        layer = CPLayer(**kw, fold_mask=tm, rank=R, collapsed=kind != "uncollapsed", shared=kind == "shared")
    layer = layer.to(dt)
    if rng.random() < 0.5:
        with torch.no_grad():
            for p in layer.parameters():
                p.copy_(torch.tensor(rng.random(tuple(p.shape)) + 1e-3, dtype=dt))
    scale = float(rng.choice([1.0, 30.0, 2000.0]))
    x = -np.abs(rng.normal(size=(Fo, H, I, B))) * scale
    style = str(rng.choice(["plain", "some", "slice", "offset"]))
    if style == "some":
        x[rng.random(x.shape) < 0.3] = -np.inf
    elif style == "slice":
        x[:, int(rng.integers(H)), :, int(rng.integers(B))] = -np.inf
    elif style == "offset":
        x[:, int(rng.integers(H))] -= 5000.0
    if mask is not None:
        pad = float(rng.choice([0.0, -np.inf, 50.0]))
        x[~mask] = pad
    ctx.key("layer", kind, style, mask is not None, scale, str(dt), Fo, H, I, O)
    xt = torch.tensor(x, dtype=dt)
    xs = xt.double().numpy()
    M = np.ones((Fo, H), bool) if mask is None else mask
    g = lambda t: t.detach().double().numpy()  # noqa: E731

    def lse(a, w, axis):
        with np.errstate(divide="ignore", invalid="ignore"):
            a = a + np.log(w)
            m = a.max(axis, keepdims=True)
            m = np.where(np.isneginf(m), 0, m)
            return np.log(np.exp(a - m).sum(axis)) + m.squeeze(axis)

    if kind == "tucker":
        a = xs[:, 0][:, :, None, None, :] + xs[:, 1][:, None, :, None, :]
        ref = lse(a.reshape(Fo, I * I, 1, B), g(layer.params).reshape(Fo, I * I, O, 1), 1)
    elif kind == "mixing":
        ref = lse(np.where(M[:, :, None, None], xs, -np.inf), g(layer.params)[..., None], 1)
    elif kind == "uncollapsed":
        h = lse(xs[:, :, :, None, :], g(layer.params_in)[..., None], 2)
        h = np.where(M[:, :, None, None], h, 0).sum(1)
        ref = lse(h[:, :, None, :], g(layer.params_out)[..., None], 1)
    else:
        p = g(layer.params)
        p = np.broadcast_to(p[None], (Fo,) + p.shape) if kind == "shared" else p
        h = lse(xs[:, :, :, None, :], p[..., None], 2)
        ref = np.where(M[:, :, None, None], h, 0).sum(1)
    out = layer(xt)
    got = out.detach().double().numpy()
    ctx.check(got.shape == ref.shape, f"{kind} layer: shape {got.shape}, expected {ref.shape}")
    # with inputs spread over a huge range the layer may only claim what its declared per-tensor maximum keeps representable
    lim = 600 if dt == torch.float64 else 80
    ok = np.isclose(got, ref, rtol=1e-7 if dt == torch.float64 else 1e-4, atol=1e-7 if dt == torch.float64 else 1e-3) | (np.isneginf(got) & np.isneginf(ref))
    ctx.obs["verdicts"] += ref.size
    if kind == "tucker":
        top = xs[:, 0].max(1)[:, None] + xs[:, 1].max(1)[:, None]
        ok |= np.isneginf(got) & (ref < top - lim)
    if kind == "uncollapsed":
        top = h.max(1, keepdims=True)
        ok |= np.isneginf(got) & (ref < top - lim)
    if not ok.all():
        i = tuple(int(v) for v in np.argwhere(~ok)[0])
        ctx.fail(f"{kind} layer ({style}, mask={mask is not None}): output {got[i]} where the log of the weighted sum is {ref[i]}")


def tqpc(ctx, sharing=None):
    from spflow.zoo.pic.tensorized.qpc import TensorizedQPC, TensorizedQPCConfig

    rng = ctx.rng
    n = int(rng.integers(2, 7))
    binary = rng.random() < 0.5
    rg = rand_rg(rng, n, nary=not binary, multi_inner=True)
    q = rule(rng, 4)
    q = type(q)(points=q.points, weights=q.weights + 1e-3)
    leaf = str(rng.choice(["normal", "bernoulli", "categorical"]))
    S = int(rng.integers(2, 5))
    dt = torch.float64 if rng.random() < 0.5 else torch.float32
    cfg = TensorizedQPCConfig(leaf_type=leaf, num_categories=S if leaf == "categorical" else None, net_dim=int(rng.choice([2, 4, 6])), bias=bool(rng.random() < 0.5),
                              input_sharing=str(rng.choice(["none", "f", "c"])), inner_sharing=sharing or str(rng.choice(["none", "f", "c"])),
                              ff_dim=None if rng.random() < 0.5 else int(rng.choice([2, 4])), sigma=float(rng.choice([0.3, 1.0])), learn_ff=bool(rng.random() < 0.3),
                              n_chunks=int(rng.integers(1, 4)), layer_cls=str(rng.choice(["auto", "cp", "tucker"])))
    torch.manual_seed(int(rng.integers(2**31)))
    m = TensorizedQPC.from_region_graph(rg, quadrature_rule=q, config=cfg).to(dt)
    with torch.no_grad():
        for l in m._mixing_logits:
            l.copy_(torch.tensor(rng.normal(size=l.shape[1:])[None].repeat(len(l), 0) if sharing else rng.normal(size=tuple(l.shape)), dtype=l.dtype))
    kinds = ["normal" if leaf == "normal" else "bernoulli" if leaf == "bernoulli" else f"cat{S}"] * n
    return m, rg, q, cfg, kinds, dt


def f_tensor(ctx):
    """Exact recursion over the region graph with the layer parameters the networks produce (shared across folds)."""
    rng = ctx.rng
    m, rg, q, cfg, kinds, dt = tqpc(ctx, "f")
    n, K = len(kinds), len(q.points)
    ctx.key("tensor", n, K, cfg.leaf_type, cfg.layer_cls, cfg.input_sharing, tuple(p.kind for p in m.partition_layers), len(m.mixing_layers), str(dt))
    with torch.no_grad():
        z, w = q.points.to(dt), q.weights.to(dt)
        params = [net(z, w, n_chunks=1).double().numpy() for net in m.inner_nets]
        lp = m.input_net(z, n_chunks=1).double().numpy()
    ctx.check(lp.shape[:2] == (n, K), f"leaf parameters have shape {lp.shape}")
    X = data_for(rng, kinds, int(rng.integers(1, 7)))
    X = X.astype(np.float32).astype(float)
    V = {}
    for v in range(n):
        x, P = X[:, v][:, None], lp[v][None]
        if cfg.leaf_type == "normal":
            s = np.logaddexp(0, P[..., 1]) + 1e-6
            L = -0.5 * ((x - P[..., 0]) / s) ** 2 - np.log(s) - 0.5 * math.log(2 * math.pi)
        elif cfg.leaf_type == "bernoulli":
            L = np.where(x == 1, -np.logaddexp(0, -P[..., 0]), -np.logaddexp(0, P[..., 0]))
        else:
            ls = P - np.logaddexp.reduce(P, axis=-1, keepdims=True)
            L = ls[0].T[np.nan_to_num(x[:, 0]).astype(int)]
        V[v] = np.where(np.isnan(x), 0.0, L)
    height, memo = {}, {}
    for r in rg.post_order():
        height[r] = 1 + max((height[c] for p in r.children for c in p), default=-1) if r.children else 0
    # masked softmax of the (fold-independent) mixing logits over the region's own number of partitions
    mix_of = {}
    levels = sorted({height[r] for r in height if r.children})
    ms = iter(range(len(m.mixing_layers)))
    for h in levels:
        if any(height[r] == h and len(r.children) > 1 for r in height):
            mix_of[h] = m._mixing_logits[next(ms)].detach().double().numpy()[0]

    def ev(r):
        if id(r) in memo:
            return memo[id(r)]
        if not r.children:
            out = V[r.scope.query[0]]
        else:
            h = height[r]
            li = levels.index(h)
            pl, W = m.partition_layers[li], params[li]
            outs = []
            for part in r.children:
                kids = [ev(c) for c in part]
                if pl.kind == "tucker":
                    T = W.reshape(pl.num_folds, K, K, -1)[0]
                    with np.errstate(divide="ignore"):
                        a = kids[0][:, :, None, None] + kids[1][:, None, :, None] + np.log(T)[None]
                    outs.append(np.logaddexp.reduce(a.reshape(len(X), K * K, -1), axis=1))
                else:
                    T = W.reshape(pl.num_folds, pl.arity, K, -1)[0, 0]
                    with np.errstate(divide="ignore"):
                        outs.append(sum(np.logaddexp.reduce(k[:, :, None] + np.log(T)[None], axis=1) for k in kids))
            if len(outs) == 1:
                out = outs[0]
            else:
                a = mix_of[h][:len(outs)]
                a = a - np.logaddexp.reduce(a, axis=0, keepdims=True)
                out = np.logaddexp.reduce(np.stack(outs) + a[:, None, :], axis=0)
        memo[id(r)] = out
        return out

    for pl, W in zip(m.partition_layers, params):
        tot = W.reshape(pl.num_folds, K * K, -1).sum(1) if pl.kind == "tucker" else W.reshape(pl.num_folds * pl.arity, K, -1).sum(1)
        ctx.check(np.allclose(tot, 1, atol=1e-3) and W.min() >= 0, f"{pl.kind} layer: integral functions times quadrature weights do not sum to one ({tot.min()}..{tot.max()})")
    ref = ev(rg.root)[:, 0]
    with torch.no_grad():
        got = m.log_likelihood(torch.tensor(X, dtype=dt))
    ctx.check(tuple(got.shape) == (len(X), 1, 1, 1), f"output shape {tuple(got.shape)}")
    mon._close_ll(ctx, got.double().numpy().reshape(-1), ref, "tensorised circuit against the recursion over its region graph", 1e-6 if dt == torch.float64 else 1e-3)


def f_mass(ctx):
    rng = ctx.rng
    m, rg, q, cfg, kinds, dt = tqpc(ctx)
    n = len(kinds)
    ctx.key("mass", n, len(q.points), cfg.leaf_type, cfg.layer_cls, cfg.input_sharing, cfg.inner_sharing, cfg.n_chunks)
    T = lambda X: torch.tensor(X, dtype=dt)  # noqa: E731

    def L(X):
        with torch.no_grad():
            return m.log_likelihood(T(X)).double().numpy().reshape(-1)

    tol = 1e-6 if dt == torch.float64 else 5e-4
    t = L(np.full((2, n), np.nan))
    ctx.check(np.allclose(t, 0, atol=tol * 5), f"total mass is exp({t[0]})")
    if cfg.leaf_type != "normal":
        vs = variables(kinds)
        D = mon.domain(vs)
        p = np.exp(L(D))
        ctx.check(abs(p.sum() - 1) < tol * 10, f"densities sum to {p.sum()}")
        mask = rng.random(n) < 0.5
        x = D[rng.integers(len(D))].copy()
        sel = (D[:, ~mask] == x[~mask]).all(1)
        x[mask] = np.nan
        mon._close_ll(ctx, L(x[None]), np.log(p[sel].sum(keepdims=True)), "missing values of a tensorised circuit", tol * 5)
    X = data_for(rng, kinds, 6, nan=0.15)
    a = L(X)
    ctx.check(not np.isnan(a).any(), "NaN density")
    parts = np.concatenate([L(X[:2]), L(X[2:3]), L(X[3:])])
    mon._close_ll(ctx, parts, a, "batch split", tol)
    m2 = copy.deepcopy(m)
    import dataclasses

    m2.config = dataclasses.replace(cfg, n_chunks=int(rng.integers(1, 6)))
    with torch.no_grad():
        b = m2.log_likelihood(T(X)).double().numpy().reshape(-1)
    mon._close_ll(ctx, b, a, "number of chunks", tol)
    if cfg.leaf_type != "normal":
        Xi = data_for(rng, kinds, 5, nan=0.0)
        with torch.no_grad():
            for cast in (torch.int64, torch.float64, torch.float32):
                c = m.log_likelihood(torch.tensor(Xi).to(cast)).double().numpy().reshape(-1)
                mon._close_ll(ctx, c, L(Xi), f"data of type {cast}", 5e-4)


def f_reject(ctx):
    from spflow.meta.data.scope import Scope
    from spflow.meta.region_graph import Region, RegionGraph
    from spflow.zoo.pic import Integral, MergeStrategy, PICProduct, PICSum, QuadratureRule, WeightedSum, pic2qpc, rg2pic

    rng = ctx.rng
    Leaf = leaf_class()
    mk = lambda v, z: Leaf(rng, "bernoulli", Scope([v]), Scope(z))  # noqa: E731
    q = rule(rng, 3)
    K = len(q.points)
    rg = rand_rg(rng, 3)
    w1 = torch.full((1, 1, 1, 1), -0.5)
    leaf = mk(0, [5]).materialize(q)
    bad = {
        "overlapping product": lambda: PICProduct(mk(0, [5]), mk(0, [6])),
        "sum over different scopes": lambda: PICSum([mk(0, [5]), mk(1, [5])], torch.tensor([0.5, 0.5]), Scope([5])),
        "sum weights not normalised": lambda: PICSum([mk(0, [5]), mk(0, [5])], torch.tensor([0.5, 0.9]), Scope([5])),
        "negative sum weight": lambda: PICSum([mk(0, [5]), mk(0, [5])], torch.tensor([1.5, -0.5]), Scope([5])),
        "sum weight count": lambda: PICSum([mk(0, [5]), mk(0, [5])], torch.tensor([1.0]), Scope([5])),
        "empty sum": lambda: PICSum([], torch.tensor([]), Scope([5])),
        "quadrature lengths": lambda: pic2qpc(mk(0, []), QuadratureRule(points=torch.zeros(3), weights=torch.ones(2))),
        "negative quadrature weight": lambda: pic2qpc(mk(0, []), QuadratureRule(points=torch.zeros(2), weights=torch.tensor([1.5, -0.5]))),
        "quadrature shape": lambda: pic2qpc(mk(0, []), QuadratureRule(points=torch.zeros(2, 1), weights=torch.ones(2, 1))),
        "integral without function": lambda: pic2qpc(Integral(input_module=mk(0, [5]), latent_scope=Scope([]), integrated_latent_scope=Scope([5]), function=None), q),
        "CP of different latents": lambda: rg2pic(rand_rg(rng, 3), merge_strategy=MergeStrategy.CP, leaf_factory=lambda x, z: Leaf(rng, "bernoulli", x, z), function_factory=lambda a, b: Wave(rng, a, b)),
        "leaf with the wrong latent": lambda: rg2pic(rg, leaf_factory=lambda x, z: Leaf(rng, "bernoulli", x, Scope([99])), function_factory=lambda a, b: Wave(rng, a, b)),
        "unknown mode": lambda: pic2qpc(mk(0, []), q, mode="dense"),
        "tensorised without configuration": lambda: pic2qpc(mk(0, []), q, mode="tensorized"),
        "negative weight": lambda: WeightedSum(inputs=leaf, weights=w1.expand(1, K, 1, 1).clone()),
        "weight channel mismatch": lambda: WeightedSum(inputs=leaf, weights=torch.ones(1, K + 1, 1, 1)),
        "weight feature mismatch": lambda: WeightedSum(inputs=leaf, weights=torch.ones(2, K, 1, 1)),
        "density of a symbolic circuit": lambda: PICProduct(mk(0, [5]), mk(1, [6])).log_likelihood(torch.zeros(1, 2)),
    }
    if K > 1:
        bad["integrating fewer latents than the child has"] = lambda: pic2qpc(
            Integral(input_module=PICProduct(mk(0, [5]), mk(1, [6])), latent_scope=Scope([]), integrated_latent_scope=Scope([5]), function=Wave(rng, 0, 1)), q)
    ctx.key("reject", K)
    for name, f in bad.items():
        try:
            r = f()
        except Exception:  # noqa: BLE001
            ctx.count("rejected")
        else:
            ctx.fail(f"malformed request accepted: {name} gave {type(r).__name__}")


FAMILIES = [
    Family("hand", f_hand, 200, 6000, timeout=60),
    Family("rg", f_rg, 120, 3000, timeout=60),
    Family("sample", f_sample, 60, 1000, timeout=90),
    Family("weighted", f_weighted, 60, 1500, timeout=60),
    Family("group", f_group, 60, 1500, timeout=60),
    Family("layers", f_layers, 300, 8000, timeout=60),
    Family("tensor", f_tensor, 100, 2500, timeout=60),
    Family("mass", f_mass, 80, 2000, timeout=60),
    Family("reject", f_reject, 6, 60, timeout=60),
]
