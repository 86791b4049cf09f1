"""C22: inner and triple products of circuits equal the integrals of the products of their functions."""
from __future__ import annotations

import copy
import itertools
import time

import numpy as np
import torch

from spmon import leafref as LR
from spmon import mon, quad
from spmon.runner import Family, Skip

PID = "C22"
RULE = "distinct = distinct (families, shapes, structure) configuration"
ASSUMPTIONS = ["integrals of products of densities are computed by composite Gauss-Legendre quadrature (12 nodes per piece) or exhaustive summation",
               "circuits mix at most one unbounded variable with small discrete ones"]
KINDS = ["normal", "bernoulli", "categorical", "exponential", "laplace", "lognormal", "poisson", "gamma", "uniform", "geometric", "binomial", "hypergeometric", "negbin"]
TRIPLE = ["categorical", "normal", "bernoulli", "uniform", "geometric", "binomial", "hypergeometric", "negbin"]
SMALL = ["bernoulli", "categorical", "binomial", "hypergeometric", "signedcat"]


def params(kind, rng, shape, K=None, like=None, wide=False):
    p = LR.rand_params(kind, rng, shape, K=K)
    if kind == "binomial":
        p["total_count"] = np.full(shape, float(np.asarray(like["total_count"]).flat[0])) if like and "total_count" in like else rng.integers(1, 7, shape).astype(float)
    if kind == "negbin":
        p["total_count"] = rng.integers(1, 12, shape).astype(float)
        if wide:
            p["probs"] = np.asarray(rng.uniform(0.1, 0.998, shape), np.float32).astype(float)
            p["total_count"] = rng.integers(1, 30, shape).astype(float)
            if rng.random() < 0.6:  # every channel far out: the series has most of its mass beyond the first few hundred terms
                p["probs"] = np.asarray(1 - 10 ** -rng.uniform(1.5, 2.7, shape), np.float32).astype(float)
    if kind == "poisson" and wide:
        p["rate"] = np.asarray(np.exp(rng.uniform(-3, 7.5, shape)), np.float32).astype(float)
    if kind == "hypergeometric":
        N = float(like["N"].flat[0]) if like else float(rng.integers(4, 12))
        per = lambda: np.full(shape, float(rng.integers(1, int(N) + 1)))  # noqa: E731
        fix = lambda k: np.full(shape, like[k]) if like and k in like and like[k].size == 1 else per()  # noqa: E731
        p = {"N": np.full(shape, N), "K": fix("K"), "n": fix("n")}
    if kind == "gamma":
        p["concentration"] = np.asarray(rng.uniform(0.55 if rng.random() < 0.3 else 1.0, 4.0, shape), np.float32).astype(float)
    if kind == "uniform" and rng.random() < 0.5:  # nested, touching and disjoint supports
        lo = rng.integers(-4, 5, shape) / 2
        p = {"low": lo, "high": lo + rng.integers(1, 4, shape) / 2}
    if kind in ("normal", "lognormal", "laplace") and rng.random() < 0.2 and p["scale"].size > 1:
        p["scale"] = np.full(shape, float(p["scale"].flat[0]))
    return p


def dens(leaf, x):
    """exp(log_likelihood) of every channel of a univariate leaf at the nodes x -> (n, 1, C, R)."""
    with torch.no_grad():
        return np.exp(leaf.log_likelihood(torch.as_tensor(np.asarray(x, float))[:, None]).numpy())


def ref(kind, x, p):
    return np.exp(LR.logpdf(kind, np.asarray(x)[:, None, None, None], p))


def f_leaf(ctx):
    """Pairs and triples of leaves of one family."""
    from spflow.utils.cache import Cache
    from spflow.utils.inner_product import inner_product_matrix, leaf_inner_product, triple_product_tensor

    rng = ctx.rng
    arity = 2 if rng.random() < 0.65 else 3
    kinds = KINDS if arity == 2 else TRIPLE
    kind = kinds[ctx.idx % len(kinds)]
    F, R = int(rng.integers(1, 4)), int(rng.integers(1, 3))
    Cs = [int(rng.integers(1, 4)) for _ in range(arity)]
    K = int(rng.integers(2, 6))
    cols = [int(c) for c in rng.permutation(5)[:F]]
    wide = rng.random() < (0.6 if kind == "negbin" else 0.3)
    ps, leaves = [], []
    for C in Cs:
        ps.append(params(kind, rng, (F, C, R), K=K, like=ps[0] if ps else None, wide=wide))
        leaves.append(LR.build(kind, cols, ps[-1]))
    if rng.random() < 0.25:
        leaves[1], ps[1], Cs[1] = leaves[0], ps[0], Cs[0]
    ctx.key(kind, arity, F, R, tuple(Cs), wide)
    ctx.note(f"{kind} arity {arity} F={F} C={Cs} R={R} {str(ps)[:250]}")
    dbl = [copy.deepcopy(m).double() for m in leaves]
    if rng.random() < 0.7:
        leaves, tol = dbl if leaves[0] is not leaves[1] else [dbl[0], dbl[0]] + dbl[2:], 1e-5
    else:
        tol = 3e-3 if wide else 1e-3
    if kind == "gamma" and min(p["concentration"].min() for p in ps[:2]) + max(p["concentration"].min() for p in ps[:2]) <= 1.05:
        raise Skip("nearly non-integrable")
    x, w = quad.rule(kind, ps)
    if wide and len(x) > 60000:
        raise Skip("too many terms")
    D = [ref(kind, x, p) for p in ps]
    sd = [{k: v.clone() for k, v in m.state_dict().items()} for m in leaves]
    if arity == 2:
        want = np.einsum("n,nfir,nfjr->fijr", w, *D)
        fns = [lambda a, b: leaf_inner_product(a, b), lambda a, b: inner_product_matrix(a, b), lambda a, b: inner_product_matrix(a, b, cache=Cache())]
        got = fns[int(rng.integers(3))](*leaves).detach().double().numpy()
        c = Cache()
        inner_product_matrix(leaves[0], leaves[1], cache=c)
        back = inner_product_matrix(leaves[1], leaves[0], cache=c).detach().double().numpy()
        ctx.close(np.log(back.transpose(0, 2, 1, 3) + 1e-290), np.log(want + 1e-290), f"{kind}: transposed inner product from a shared cache", tol, 10 * tol)
    else:
        want = np.einsum("n,nfir,nfjr,nfkr->fijkr", w, *D)
        got = triple_product_tensor(*leaves, cache=Cache() if rng.random() < 0.5 else None).detach().double().numpy()
        c = Cache()
        for perm in list(itertools.permutations(range(3)))[:int(rng.integers(2, 7))]:
            t = triple_product_tensor(*[leaves[i] for i in perm], cache=c).detach().double().numpy()
            tw = want.transpose([0] + [1 + i for i in perm] + [4])
            ctx.close(np.log(t + 1e-290), np.log(tw + 1e-290), f"{kind}: triple product in order {perm} from a shared cache", tol, 10 * tol)
    ctx.check(got.shape == want.shape, f"{kind}: shape {got.shape}, expected {want.shape}")
    ctx.close(np.log(got + 1e-290), np.log(want + 1e-290), f"{kind}: log of the {'inner' if arity == 2 else 'triple'} product", tol, 10 * tol)
    for m, s in zip(leaves, sd):
        ctx.check(all(torch.equal(v, m.state_dict()[k]) for k, v in s.items()), f"{kind}: parameters changed")
    ctx.count("integrals", int(want.size))
    ctx.count("family:" + kind)


def f_special(ctx):
    """Histograms, piecewise-linear leaves, Chow-Liu trees and signed categoricals."""
    from spflow.meta.data.scope import Scope
    from spflow.modules.leaves import Categorical, CLTree, Histogram, PiecewiseLinear
    from spflow.utils.cache import Cache
    from spflow.utils.domain import Domain
    from spflow.utils.inner_product import inner_product_matrix, triple_product_tensor
    from spflow.zoo.sos import SignedCategorical

    rng = ctx.rng
    which = ["hist", "pwl", "cltree", "signed"][ctx.idx % 4]
    R = int(rng.integers(1, 3))
    Cs = [int(rng.integers(1, 4)) for _ in range(3)]
    cache = lambda: Cache() if rng.random() < 0.5 else None  # noqa: E731
    if which == "hist":
        ms, es = [], []
        shared = rng.random() < 0.3
        for C in Cs:
            B = int(rng.integers(1, 6))
            e = np.cumsum(np.r_[rng.integers(-3, 2), rng.choice([0.5, 1.0, 1.5, 2.0], B)]) if rng.random() < 0.5 else np.cumsum(np.r_[rng.normal(0, 1.5), rng.uniform(0.2, 3.0, B)])
            if shared and es:
                e, B = es[0], len(es[0]) - 1
            e = e.astype(np.float32).astype(float)
            es.append(e)
            pr = rng.dirichlet(np.ones(B) * 1.5, (1, C, R)).astype(np.float32) + np.float32(1e-3)
            ms.append(Histogram(scope=Scope([0]), bin_edges=torch.tensor(e, dtype=torch.float32), probs=torch.tensor(pr / pr.sum(-1, keepdims=True))).double())
        x, w = quad.pieces(np.concatenate(es))
        D = []
        for m, e in zip(ms, es):
            d = dens(m, x)
            inside = (x >= e[0]) & (x <= e[-1])
            # min_prob: outside its bins a histogram keeps a negligible density floor
            D.append(np.where(inside[:, None, None, None], d, 0.0))
        tol, atol = 1e-5, 1e-7
    elif which == "pwl":
        ms, es, D = [], [], []
        for C in Cs[:]:
            T = torch.tensor(rng.normal(rng.normal(0, 1), rng.uniform(0.5, 2), (60, 1)), dtype=torch.float32)
            m = PiecewiseLinear(scope=Scope([0]), out_channels=C, num_repetitions=R, alpha=float(rng.choice([0.0, 0.5])))
            m.initialize(T, [Domain.continuous_range(float(T.min()), float(T.max()))])
            ms.append(m)
            for r in range(R):
                for c in range(C):
                    es.append(m.xs[r][c][0][0].double().numpy())
        x, w = quad.pieces(np.concatenate(es))
        for m, C in zip(ms, Cs):
            D.append(np.stack([np.stack([np.interp(x, m.xs[r][c][0][0].double().numpy(), m.ys[r][c][0][0].double().numpy(), left=0.0, right=0.0) for r in range(R)], -1) for c in range(C)], 1)[:, None])
        tol, atol = 1e-4, 1e-6
    elif which == "signed":
        F, K = int(rng.integers(1, 4)), int(rng.integers(1, 5))
        x, w = np.arange(float(K)), np.ones(K)
        ms, D = [], []
        for C in Cs:
            if rng.random() < 0.7 or K == 1:
                W = rng.normal(0, 1.2, (F, C, R, K)).astype(np.float32)
                W[rng.random(W.shape) < 0.1] = 0
                ms.append(SignedCategorical(scope=Scope(list(range(F))), out_channels=C, num_repetitions=R, weights=torch.tensor(W)))
            else:
                W = rng.dirichlet(np.ones(K), (F, C, R)).astype(np.float32) * 0.97 + 0.03 / K
                ms.append(Categorical(scope=Scope(list(range(F))), K=K, probs=torch.tensor(W, dtype=torch.float32)))
            D.append(np.moveaxis(W.astype(float), -1, 0))
        tol, atol = 1e-5, 1e-5
    else:
        n, K = int(rng.integers(2, 6)), int(rng.integers(2, 4))
        par, order = -np.ones(n, int), rng.permutation(n)
        for i in range(1, n):
            par[order[i]] = order[rng.integers(0, i)]
        ms, D = [], []
        X = np.array(list(itertools.product(range(K), repeat=n)), float)
        for C in Cs[:2]:
            cpt = rng.dirichlet(np.ones(K) * 1.3, (n, C, R, K)).swapaxes(-1, -2)
            m = CLTree(scope=Scope(list(range(n))), K=K, out_channels=C, num_repetitions=R, parents=torch.tensor(par), log_cpt=torch.tensor(np.log(cpt + 1e-9), dtype=torch.float32)).double()
            ms.append(m)
            with torch.no_grad():
                D.append(np.exp(m.log_likelihood(torch.tensor(X)).numpy()))
        got = inner_product_matrix(ms[0], ms[1], cache=cache()).detach().numpy()
        joint = [d.prod(1) for d in D]
        want = np.einsum("nir,njr->ijr", *joint)
        ctx.key("cltree", n, K, R, tuple(Cs[:2]))
        ctx.close(got.prod(0), want, "CLTree inner product", 1e-5, 1e-7)
        ctx.count("integrals", int(want.size))
        ctx.count("family:cltree")
        return
    ctx.key(which, R, tuple(Cs))
    got = inner_product_matrix(ms[0], ms[1], cache=cache()).detach().numpy()
    ctx.close(got, np.einsum("n,nfir,nfjr->fijr", w, D[0], D[1]), f"{which}: inner product", tol, atol)
    got = inner_product_matrix(ms[2], ms[2], cache=cache()).detach().numpy()
    ctx.close(got, np.einsum("n,nfir,nfjr->fijr", w, D[2], D[2]), f"{which}: inner product with itself", tol, atol)
    got = triple_product_tensor(*ms, cache=cache()).detach().numpy()
    want = np.einsum("n,nfir,nfjr,nfkr->fijkr", w, *D)
    ctx.close(got, want, f"{which}: triple product", tol, atol)
    ctx.count("integrals", int(want.size))
    ctx.count("family:" + which)


# ---------------------------------------------------------------- circuits

class Struct:
    """Structure shared by compatible circuits: ('leaf', vars) | ('prod', [..]) | ('sum', s) | ('cat', s, s)."""

    def __init__(self, rng, signed=True, allow=None, nmax=4, hyp_n=None, depth=2, fixed=False):
        self.rng = rng
        n = int(rng.integers(1, nmax + 1))
        small = [k for k in SMALL if signed or k != "signedcat"]
        if allow:
            small = [k for k in small if k in allow]
        kinds = [str(rng.choice(small)) for _ in range(n)]
        big = [k for k in KINDS if k not in SMALL and (not allow or k in allow)]
        if big and rng.random() < 0.5:
            kinds[int(rng.integers(n))] = str(rng.choice(big))
        self.kinds, self.n = kinds, n
        self.K = [int(rng.integers(2, 4)) for _ in range(n)]
        self.hyp = {v: {"N": np.array([float(rng.integers(3, 7))])} for v in range(n)}
        if fixed:  # same support for all leaves of a variable, so that every point of the grid can be evaluated
            for h in self.hyp.values():
                h["total_count"] = float(rng.integers(1, 6))
                h["K"], h["n"] = (np.array([float(rng.integers(1, int(h["N"][0]) + 1))]) for _ in range(2))
        self.tree = self.grow(list(range(n)), depth)

    def grow(self, vs, depth):
        rng = self.rng
        if len(vs) == 1:
            t = ("leaf", tuple(vs))
        else:
            rng.shuffle(vs)
            groups = {}
            k = int(rng.integers(2, min(len(vs), 3) + 1))
            cut = sorted(rng.choice(np.arange(1, len(vs)), k - 1, replace=False))
            parts = [sorted(p) for p in np.split(np.array(vs), cut)]
            kids = []
            for p in parts:
                kids.append(self.grow([int(v) for v in p], depth))
            # a leaf over several variables of the same kind
            same = [i for i, p in enumerate(parts) if len(p) == 1]
            del groups, same
            t = ("prod", kids)
        u = rng.random()
        if depth > 0 and u < 0.55:
            if u < 0.15:
                t = ("cat", t, self.copy_kind(t))
            t = ("sum", t)
        return t

    def copy_kind(self, vs):
        """The same sub-structure again (cross terms of a mixture need compatible parts)."""
        if vs[0] == "prod":
            return ("prod", [self.copy_kind(k) for k in vs[1]])
        return tuple(self.copy_kind(x) if isinstance(x, tuple) and x and isinstance(x[0], str) else x for x in vs)


class Inst:
    """One circuit with the given structure: module plus an independent evaluator."""

    def __init__(self, st, rng, signed, C=1, R=1, Cin=None):
        self.st, self.rng, self.signed, self.R = st, rng, signed, R
        self.pars = [[] for _ in range(st.n)]
        self.leaves = []
        self.memo = {}
        m, ev = self.make(st.tree, C if st.tree[0] == "sum" else C)
        if m.out_shape.features != 1:
            from spflow.modules.products import Product
            inner = ev
            m, ev = Product(m), (lambda X, f=inner: f(X).prod(1, keepdims=True))
        self.m, self.ev = m.double(), ev

    def make(self, t, C):
        key = (id(t), C)
        if key in self.memo and self.rng.random() < 0.5:
            return self.memo[key]
        r = self.build(t, C)
        self.memo[key] = r
        return r

    def build(self, t, C):
        from spflow.meta.data.scope import Scope
        from spflow.modules.ops.cat import Cat
        from spflow.modules.products import Product
        from spflow.modules.sums import Sum
        from spflow.modules.sums.signed_sum import SignedSum
        from spflow.zoo.sos import SignedCategorical

        rng, st = self.rng, self.st
        if t[0] == "leaf":
            v = t[1][0]
            kind, K = st.kinds[v], st.K[v]
            if kind == "signedcat" and self.signed:
                W = rng.normal(0, 1, (1, C, self.R, K)).astype(np.float32)
                leaf = SignedCategorical(scope=Scope([v]), out_channels=C, num_repetitions=self.R, weights=torch.tensor(W))
                return leaf, (lambda X, W=W.astype(float), v=v: np.moveaxis(W[0][..., X[:, v].astype(int)], -1, 0)[:, None])
            kind = "categorical" if kind == "signedcat" else kind
            p = params(kind, rng, (1, C, self.R), K=K, like=st.hyp[v])
            if kind == "gamma":
                p["concentration"] = np.maximum(p["concentration"], np.float32(1.1)).astype(np.float32).astype(float)
            leaf = LR.build(kind, [v], p)
            self.pars[v].append(p)
            def ev(X, p=p, kind=kind, v=v):
                return ref(kind, X[:, v], p)
            self.leaves.append(leaf)
            return leaf, ev
        if t[0] == "prod":
            kids = [self.make(k, C) for k in t[1]]
            kids = [k if k[0].out_shape.features == 1 else (Product(k[0]), lambda X, f=k[1]: f(X).prod(1, keepdims=True)) for k in kids]
            return Product([k[0] for k in kids]), (lambda X: np.prod(np.concatenate([k[1](X) for k in kids], 1), 1, keepdims=True))
        if t[0] == "cat":
            c1 = int(rng.integers(1, C))
            a, b = self.make(t[1], c1), self.make(t[2], C - c1)
            return Cat([a[0], b[0]], dim=2), (lambda X: np.concatenate([a[1](X), b[1](X)], 2))
        child, cev = self.make(t[1], int(rng.integers(2 if t[1][0] == "cat" else 1, 4)))
        Ci = child.out_shape.channels
        if self.signed and rng.random() < 0.75:
            W = rng.normal(0, 1, (1, Ci, C, self.R)).astype(np.float32)
            W[rng.random(W.shape) < 0.08] = 0.0
            m = SignedSum(inputs=child, out_channels=C, num_repetitions=self.R, weights=torch.tensor(W))
        else:
            if self.signed and any(_signed(x) for x in child.modules()):
                W = np.abs(rng.normal(0, 1, (1, Ci, C, self.R))).astype(np.float32) + np.float32(0.01)
                m = SignedSum(inputs=child, out_channels=C, num_repetitions=self.R, weights=torch.tensor(W))
            else:
                W = rng.dirichlet(np.ones(Ci), (1, C, self.R)).transpose(0, 3, 1, 2) * 0.97 + 0.03 / Ci
                m = Sum(inputs=child, weights=torch.tensor(W / W.sum(1, keepdims=True), dtype=torch.float32))
        return m, (lambda X, m=m: np.einsum("bfir,fior->bfor", cev(X), m.weights.detach().double().numpy()))


def _signed(m):
    return type(m).__name__ in ("SignedSum", "SignedCategorical")


def grid(st, insts, cap=60000):
    xs, ws = [], []
    for v in range(st.n):
        k = st.kinds[v]
        ps = [p for i in insts for p in i.pars[v]]
        if k in ("signedcat", "categorical"):
            x = np.arange(float(st.K[v]))
            w = np.ones_like(x)
        else:
            x, w = quad.rule(k, ps)
            if k == "hypergeometric":
                ok = np.any([np.isfinite(LR.logpdf(k, x[:, None, None, None], p)).any((1, 2, 3)) for p in ps], 0)
                x, w = x[ok], w[ok]
        xs.append(x)
        ws.append(w)
    n = int(np.prod([len(x) for x in xs]))
    if n > cap:
        raise Skip("grid too large")
    X = np.stack([g.ravel() for g in np.meshgrid(*xs, indexing="ij")], 1)
    W = np.ones(1)
    for w in ws:
        W = np.outer(W, w).ravel()
    return X, W


def f_circuit(ctx):
    """Compatible circuits: sums, signed sums, products, concatenations, shared parts."""
    from spflow.utils.cache import Cache
    from spflow.utils.inner_product import inner_product_matrix, log_self_inner_product_scalar, triple_product_scalar, triple_product_tensor

    rng = ctx.rng
    triple = rng.random() < 0.4
    st = Struct(rng, allow=TRIPLE + ["signedcat"] if triple else None)
    R = int(rng.integers(1, 3))
    ins = [Inst(st, rng, signed=rng.random() < 0.7, C=int(rng.integers(1, 3)), R=R) for _ in range(3 if triple else 2)]
    ctx.key("circuit", str(st.tree), tuple(st.kinds), R, triple)
    ctx.note(f"{st.tree} {st.kinds} R={R}")
    X, W = grid(st, ins)
    V = [i.ev(X) for i in ins]
    absV = [np.abs(v) for v in V]
    ms = [i.m for i in ins]
    c = Cache()
    use = lambda: c if rng.random() < 0.6 else None  # noqa: E731
    for i, j in [(0, 1), (1, 0), (0, 0), (1, 1), (0, 1)]:
        got = inner_product_matrix(ms[i], ms[j], cache=use()).detach().numpy()
        want = np.einsum("n,nfir,nfjr->fijr", W, V[i], V[j])
        mag = np.einsum("n,nfir,nfjr->fijr", W, absV[i], absV[j]).max() or 1.0
        ctx.close(got / mag, want / mag, f"inner product of circuits {i},{j}", 1e-5, 1e-5)
        ctx.count("integrals", int(want.size))
    if triple:
        for perm in [(0, 1, 2), (1, 0, 2), (2, 2, 0), (0, 0, 1), (2, 1, 0)]:
            got = triple_product_tensor(*[ms[k] for k in perm], cache=use()).detach().numpy()
            want = np.einsum("n,nfir,nfjr,nfkr->fijkr", W, *[V[k] for k in perm])
            mag = np.einsum("n,nfir,nfjr,nfkr->fijkr", W, *[absV[k] for k in perm]).max() or 1.0
            ctx.close(got / mag, want / mag, f"triple product of circuits {perm}", 1e-5, 1e-5)
            if all(tuple(ms[k].out_shape) == (1, 1, 1) for k in perm):
                ctx.close(float(triple_product_scalar(*[ms[k] for k in perm], cache=use())) / mag, want.item() / mag, "scalar triple product", 1e-5, 1e-5)
    for i, m in enumerate(ms):
        if tuple(m.out_shape) == (1, 1, 1):
            z = float(np.einsum("n,n->", W, V[i][:, 0, 0, 0] ** 2))
            got = float(log_self_inner_product_scalar(m, cache=use()))
            if z > 1e-20:
                ctx.close(got, np.log(z), "log of the self inner product", 1e-5, 2e-4)
            else:  # zero up to rounding
                ctx.check(got < -35, f"log of the self inner product of a vanishing function is {got}")
        else:
            try:
                log_self_inner_product_scalar(m)
            except Exception:  # noqa: BLE001
                ctx.count("rejected")
            else:
                ctx.fail(f"scalar self inner product of a circuit of shape {tuple(m.out_shape)} accepted")


def f_grad(ctx):
    """Derivatives of inner and triple products (what training squared circuits relies on)."""
    from spflow.utils.inner_product import inner_product_matrix, triple_product_tensor

    rng = ctx.rng
    triple = rng.random() < 0.3
    if rng.random() < 0.5:
        kind = (TRIPLE if triple else KINDS)[ctx.idx % len(TRIPLE if triple else KINDS)]
        F, R, C, K = int(rng.integers(1, 3)), 1, int(rng.integers(1, 3)), 3
        p = params(kind, rng, (F, C, R), K=K)
        if kind == "gamma":
            p["concentration"] = np.maximum(p["concentration"], 1.1).astype(np.float32)
        a = LR.build(kind, list(range(F)), p).double()
        b = a if rng.random() < 0.5 else LR.build(kind, list(range(F)), p if rng.random() < 0.5 or kind == "hypergeometric" else params(kind, rng, (F, 2, R), K=K)).double()
        if kind == "gamma" and b is not a and float(b.concentration.min()) < 0.3:
            raise Skip("nearly non-integrable")
        ctx.key("grad", kind, F, C, triple)
        ctx.note(f"{kind} {str(p)[:200]} self={a is b}")
    else:
        st = Struct(rng, allow=TRIPLE + ["signedcat"] if triple else None)
        a, b = (Inst(st, rng, signed=True, C=1, R=1).m for _ in range(2))
        ctx.key("grad", str(st.tree), tuple(st.kinds), triple)
        ctx.note(f"{st.tree} {st.kinds}")
        kind = "circuit"
    if kind == "laplace" and rng.random() < 0.5:
        with torch.no_grad():
            a.loc += 0.37 * torch.arange(a.loc.numel(), dtype=torch.float64).reshape(a.loc.shape)
    G = None

    def f():
        nonlocal G
        k = triple_product_tensor(a, a, b) if triple else inner_product_matrix(a, b)
        if G is None:
            G = torch.tensor(rng.normal(size=tuple(k.shape)))
        return (k * G).sum()

    ps = [q for q in {id(q): q for m in (a, b) for q in m.parameters()}.values() if q.requires_grad]
    if not ps:
        raise Skip("no trainable parameters")
    gs = torch.autograd.grad(f(), ps, allow_unused=True)
    t0 = time.monotonic()
    for q, g in sorted(zip(ps, gs), key=lambda _: rng.random()):
        g = torch.zeros_like(q) if g is None else g
        ctx.check(bool(torch.isfinite(g).all()), f"{kind}: derivative of the {'triple' if triple else 'inner'} product is not finite")
        flat = q.data
        for n in rng.choice(flat.numel(), size=min(3, flat.numel()), replace=False):
            if time.monotonic() - t0 > 15:
                break
            i = np.unravel_index(int(n), tuple(flat.shape)) if flat.dim() else ()
            old, h = float(flat[i]), 1e-5
            flat[i] = old + h
            up = float(f())
            flat[i] = old - h
            dn = float(f())
            flat[i] = old
            num = (up - dn) / (2 * h)
            half = [0.0, 0.0]
            for s, sign in enumerate((1, -1)):
                flat[i] = old + sign * h / 2
                half[s] = float(f())
                flat[i] = old
            num2 = (half[0] - half[1]) / h
            if abs(num - num2) > 1e-4 * (1 + abs(num)):
                continue  # kink (Laplace with coinciding locations, uniform edges)
            if kind in ("laplace", "uniform"):
                mid = float(f())
                if abs((up - mid) - (mid - dn)) > 1e-7 + 1e-3 * abs(up - dn):
                    continue
            ctx.close(float(g[i]), num, f"{kind}: derivative of the {'triple' if triple else 'inner'} product", 2e-4, 1e-5)
            ctx.count("derivatives")


def f_reject(ctx):
    """Products that are not defined are refused, not silently computed."""
    from spflow.meta.data.scope import Scope
    from spflow.modules import leaves as L
    from spflow.modules.products import Product
    from spflow.modules.sums import Sum
    from spflow.utils.inner_product import inner_product_matrix, leaf_inner_product, triple_product_tensor

    rng = ctx.rng
    kinds = list(rng.choice(KINDS, 2, replace=False))
    R = int(rng.integers(1, 3))
    mk = lambda k, cols, C=1, R=R, K=3: LR.build(k, cols, params(k, rng, (len(cols), C, R), K=K))  # noqa: E731
    a = mk(kinds[0], [0, 1])
    cases = {
        "other variables": (a, mk(kinds[0], [0, 2])),
        "fewer variables": (a, mk(kinds[0], [0])),
        "another family": (a, mk(kinds[1], [0, 1])),
        "another number of repetitions": (a, mk(kinds[0], [0, 1], R=3)),
        "another number of categories": (mk("categorical", [0], K=3), mk("categorical", [0], K=4)),
        "another order of the variables": (a, mk(kinds[0], [1, 0])),
        "a product": (a, Product(mk(kinds[0], [0, 1]))),
        "a sum": (a, Sum(inputs=mk(kinds[0], [0, 1]), out_channels=1, num_repetitions=R)),
        "products grouped differently": (Product([mk("normal", [0]), mk("normal", [1, 2])]), Product([mk("normal", [0, 1]), mk("normal", [2])])),
        "products listed in another order": (Product([mk("normal", [0]), mk("normal", [1])]), Product([mk("normal", [1]), mk("normal", [0])])),
        "another arity": (Product([mk("normal", [0]), mk("normal", [1]), mk("normal", [2])]), Product([mk("normal", [0]), mk("normal", [1, 2])])),
        "integrability": (L.Gamma(scope=[0], concentration=torch.tensor([[[0.4]]]), rate=torch.ones(1, 1, 1)), L.Gamma(scope=[0], concentration=torch.tensor([[[0.5]]]), rate=torch.ones(1, 1, 1))),
        "another population": (mk("hypergeometric", [0]), None),
    }
    h = cases["another population"][0]
    N = float(h.N.flatten()[0]) + 1
    cases["another population"] = (h, L.Hypergeometric(scope=[0], N=torch.full((1, 1, R), N), K=torch.full((1, 1, R), 2.0), n=torch.full((1, 1, R), 2.0)))
    del Scope
    for what, (p, q) in cases.items():
        fns = [("inner", lambda: inner_product_matrix(p, q)), ("triple", lambda: triple_product_tensor(p, q, p))]
        if isinstance(p, L.leaf.LeafModule) and isinstance(q, L.leaf.LeafModule):
            fns.append(("leaf", lambda: leaf_inner_product(p, q)))
        for name, f in fns:
            try:
                f()
            except Exception:  # noqa: BLE001
                ctx.count("rejected")
                continue
            ctx.soft(f"{name} product with {what} accepted ({kinds[0]}/{kinds[1]})")
    ctx.key("reject", *kinds, R)


FAMILIES = [
    Family("leaf", f_leaf, 130, 5000, timeout=60),
    Family("special", f_special, 60, 2000, timeout=60),
    Family("circuit", f_circuit, 120, 4000, timeout=60),
    Family("grad", f_grad, 70, 2500, timeout=60),
    Family("reject", f_reject, 12, 200, timeout=30),
]
