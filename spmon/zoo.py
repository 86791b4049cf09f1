"""Builders for every model family SPFlow ships, over finite domains (so that every query can be
checked against exhaustive enumeration)."""
from __future__ import annotations

from dataclasses import dataclass, field

import numpy as np

from . import leafref as lr
from .circ import Var, t


@dataclass
class Model:
    name: str
    m: object
    vs: list
    cfg: str = ""
    flags: set = field(default_factory=set)  # e.g. {"nosample", "nomarg", "nonan"}


def dvar(rng, kinds=("bernoulli", "categorical", "binomial")):
    k = kinds[rng.integers(len(kinds))]
    return Var(k, K=int(rng.integers(2, 4)) if k == "categorical" else None,
               total=int(rng.integers(1, 3)) if k == "binomial" else None)


def group_leaves(rng, vs, C, R):
    """One leaf layer per run of identical variable types, in column order (so Cat order = column order)."""
    out, i = [], 0
    n = len(vs)
    while i < n:
        j = i
        while j + 1 < n and vs[j + 1].group == vs[i].group:
            j += 1
        v = vs[i]
        prm = lr.rand_params(v.kind, rng, (j - i + 1, C, R), K=v.K, total=v.total)
        out.append(lr.build(v.kind, list(range(i, j + 1)), prm))
        i = j + 1
    return out


def mixed_vars(rng, n, homog=0.4):
    if rng.random() < homog:
        v = dvar(rng)
        return [Var(v.kind, v.K, v.total) for _ in range(n)]
    base = [dvar(rng) for _ in range(int(rng.integers(2, 4)))]
    out = [base[rng.integers(len(base))] for _ in range(n)]
    return [Var(v.kind, v.K, v.total) for v in out]


def scramble_weights(m, rng, conc=1.0):
    """Give every sum-type layer non-uniform random weights through the public setters."""
    import torch

    for s in m.modules():
        if type(s).__name__ in ("Sum", "ElementwiseSum", "SumConv", "EinsumLayer", "LinsumLayer", "RepetitionMixingLayer"):
            lw = s.log_weights.detach().numpy()
            dims = {"Sum": (1,), "EinsumLayer": (-2, -1), "LinsumLayer": (-1,), "RepetitionMixingLayer": (2,)}.get(type(s).__name__)
            if type(s).__name__ in ("ElementwiseSum", "SumConv"):
                dims = (s.sum_dim,)
            w = rng.gamma(conc, 1.0, lw.shape) + 0.03
            w = w / w.sum(axis=dims, keepdims=True)
            with torch.no_grad():
                if type(s).__name__ == "SumConv":
                    s.logits.data = torch.log(t(w))
                else:
                    s.log_weights = torch.log(t(w))
    return m


def joint(m):
    """One joint distribution out of a module whose features are independent factors."""
    if m.out_shape.features > 1:
        from spflow.modules.products import Product

        return Product(inputs=m)
    return m


def rat(rng, big=False, n=None, classes=None):
    from spflow.modules.ops.split import SplitMode
    from spflow.zoo.rat import RatSPN

    n = n or int(rng.integers(4, 9))
    depth = int(rng.integers(1, int(np.log2(n)) + 1))
    vs = mixed_vars(rng, n) if n <= 6 else [Var("bernoulli") for _ in range(n)]
    R = int(rng.integers(1, 4))
    C = int(rng.integers(1, 4))
    cls = classes or int(rng.integers(1, 4))
    outer = bool(rng.random() < 0.4)
    smk = int(rng.integers(0, 3))
    sm = None if smk == 0 else (SplitMode.consecutive(2) if smk == 1 else SplitMode.interleaved(2))
    m = RatSPN(leaf_modules=group_leaves(rng, vs, C, R), n_root_nodes=cls, n_region_nodes=int(rng.integers(1, 4)),
               num_repetitions=R, depth=depth, outer_product=outer, split_mode=sm)
    scramble_weights(m, rng)
    return Model("rat", m, vs, f"n={n} depth={depth} R={R} C={C} classes={cls} outer={outer} split={smk}",
                 {f"classes{cls}"})


def einet(rng, n=None, classes=None):
    from spflow.zoo.einet import Einet

    n = n or int(rng.integers(3, 9))
    structure = "top-down" if rng.random() < 0.6 else "bottom-up"
    lt = "einsum" if rng.random() < 0.5 else "linsum"
    maxd = int(np.log2(n))
    depth = int(rng.integers(0, maxd + 1))
    vs = mixed_vars(rng, n) if n <= 6 else [Var("bernoulli") for _ in range(n)]
    R = int(rng.integers(1, 4))
    C = int(rng.integers(1, 4))
    cls = classes or int(rng.integers(1, 4))
    m = Einet(leaf_modules=group_leaves(rng, vs, C, R), num_classes=cls, num_sums=int(rng.integers(1, 4)), num_leaves=C,
              depth=depth, num_repetitions=R, layer_type=lt, structure=structure)
    scramble_weights(m, rng)
    return Model("einet", m, vs, f"n={n} {structure} {lt} depth={depth} R={R} C={C} classes={cls}", {f"classes{cls}"})


def convpc(rng, side=None, sum_conv=None):
    from spflow.zoo.conv import ConvPc

    k = 2
    if side is None and rng.random() < 0.5:  # image sizes that need padding
        side, depth, k = [(1, 1, 2), (2, 2, 2), (2, 1, 3), (3, 1, 2), (3, 2, 2), (3, 1, 3), (3, 2, 3), (4, 1, 3)][int(rng.integers(8))]
        v = Var("bernoulli") if side > 2 else dvar(rng)
        vs = [Var(v.kind, v.K, v.total) for _ in range(side * side)]
    elif (side := int(rng.choice([2, 4])) if side is None else side) == 4:
        vs = [Var("bernoulli") for _ in range(16)]
        depth = int(rng.integers(1, 3))
    else:
        v = dvar(rng)
        vs = [Var(v.kind, v.K, v.total) for _ in range(side * side)]
        depth = 1
    C = int(rng.integers(1, 4))
    sc = bool(rng.random() < 0.5) if sum_conv is None else sum_conv
    leaf = group_leaves(rng, vs, C, 1)[0]
    m = ConvPc(leaf=leaf, input_height=side, input_width=side, channels=int(rng.integers(1, 4)), depth=depth, kernel_size=k,
               use_sum_conv=sc)
    scramble_weights(m, rng)
    return Model("convpc", m, vs, f"side={side} depth={depth} kernel={k} C={C} sumconv={sc}")


def rand_table_data(rng, vs, N):
    """Correlated discrete data."""
    n = len(vs)
    X = np.zeros((N, n))
    h = rng.integers(0, 2, N)
    for i, v in enumerate(vs):
        K = len(v.domain)
        pa = rng.dirichlet(np.ones(K), size=2)
        for k in (0, 1):
            X[h == k, i] = rng.choice(K, size=int((h == k).sum()), p=pa[k])
    for i in range(1, n):
        cp = rng.random(N) < 0.4
        X[cp, i] = np.minimum(X[cp, i - 1], len(vs[i].domain) - 1)
    return X


def hclt(rng, n=None):
    from spflow.zoo.hclt import learn_hclt_binary, learn_hclt_categorical

    n = n or int(rng.integers(2, 7))
    H = int(rng.integers(1, 4))
    trees = int(rng.integers(1, 3)) if n > 2 else 1
    init = "random" if rng.random() < 0.5 else "uniform"
    if rng.random() < 0.5:
        vs = [Var("bernoulli") for _ in range(n)]
        m = learn_hclt_binary(t(rand_table_data(rng, vs, 60)), num_hidden_cats=H, num_trees=trees, init=init)
        nm = "binary"
    else:
        K = int(rng.integers(2, 4))
        n = min(n, 5)
        vs = [Var("categorical", K=K) for _ in range(n)]
        m = learn_hclt_categorical(t(rand_table_data(rng, vs, 60)), num_hidden_cats=H, num_cats=K, num_trees=min(trees, 2 if n > 2 else 1), init=init)
        nm = f"cat{K}"
    if rng.random() < 0.6:
        scramble_weights(m, rng)
    return Model("hclt", m, vs, f"{nm} n={n} H={H} trees={trees} init={init}")


def cltree(rng, n=None, learned=None, C=None, R=None):
    from spflow.modules.leaves import CLTree

    n = n or int(rng.integers(2, 6))
    K = int(rng.integers(2, 4))
    vs = [Var("categorical", K=K) for _ in range(n)]
    learned = bool(rng.random() < 0.4) if learned is None else learned
    if learned:
        m = CLTree(scope=list(range(n)), out_channels=C or 1, K=K, alpha=float(rng.choice([0.01, 0.5, 1.0])))
        m.maximum_likelihood_estimation(t(rand_table_data(rng, vs, 80)))
        return Model("cltree", joint(m), vs, f"learned n={n} K={K}")
    C = C or int(rng.integers(1, 3))
    R = R or int(rng.integers(1, 3))
    import torch

    perm = rng.permutation(n)
    parents = np.full(n, -1)
    for i in range(1, n):
        parents[perm[i]] = perm[rng.integers(0, i)]
    cpt = rng.dirichlet(np.ones(K) * 1.2, size=(n, C, R, K)).swapaxes(-1, -2) + 0.0  # [f,c,r,xi,xp]
    root = perm[0]
    cpt[root] = cpt[root][..., :1]
    m = CLTree(scope=list(range(n)), out_channels=C, num_repetitions=R, K=K, parents=torch.as_tensor(parents),
               log_cpt=torch.log(t(cpt + 1e-9)))
    return Model("cltree", joint(m), vs, f"given n={n} K={K} C={C} R={R} parents={parents.tolist()}")


def cltmix(rng):
    """Mixture over the channels and repetitions of one Chow-Liu tree leaf."""
    from spflow.modules.sums import RepetitionMixingLayer, Sum

    C, R = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    z = cltree(rng, n=int(rng.integers(2, 5)), learned=False, C=C, R=R)
    m = Sum(z.m, out_channels=1, num_repetitions=R)
    m = RepetitionMixingLayer(m, out_channels=1, num_repetitions=R)
    scramble_weights(m, rng)
    return Model("cltmix", m, z.vs, z.cfg)


def naive_bayes(rng, classes=None):
    from spflow.zoo.naive_bayes import NaiveBayes

    n = int(rng.integers(2, 6))
    cls = classes or int(rng.integers(1, 4))
    vs = mixed_vars(rng, n)
    prior = rng.dirichlet(np.ones(cls)) if cls > 1 and rng.random() < 0.7 else None
    m = NaiveBayes(group_leaves(rng, vs, cls, 1), num_classes=cls, class_prior=None if prior is None else list(prior),
                   learnable_prior=bool(cls > 1 and rng.random() < 0.5))
    return Model("naive_bayes", m, vs, f"n={n} classes={cls}", {f"classes{cls}"})


def cnet(rng, n=None):
    from spflow.learn.cnet import learn_cnet

    n = n or int(rng.integers(2, 6))
    K = int(rng.integers(2, 4))
    vs = [Var("categorical", K=K) for _ in range(n)]
    X = rand_table_data(rng, vs, int(rng.integers(20, 200)))
    cond = "naive_mle" if rng.random() < 0.5 else "random"
    alpha = float(rng.choice([0.01, 0.3, 1.0]))
    mi = int(rng.choice([5, 20, 60]))
    mf = int(rng.integers(1, 3))
    m = learn_cnet(t(X), cardinalities=K, cond=cond, min_instances_slice=mi, min_features_slice=mf, alpha=alpha,
                   seed=int(rng.integers(1 << 30)))
    return Model("cnet", joint(m), vs, f"n={n} K={K} N={len(X)} {cond} mi={mi} mf={mf} alpha={alpha}")


def _cluster(rng):
    import torch

    def f(data, n_clusters=2):
        y = torch.as_tensor(rng.integers(0, 2, data.shape[0]))
        y[0], y[-1] = 0, 1
        return y

    return f


def learned_spn(rng):
    from spflow.learn.learn_spn import learn_spn
    from spflow.modules.leaves import Bernoulli

    import torch

    n = int(rng.integers(2, 6))
    vs = [Var("bernoulli") for _ in range(n)]
    X = rand_table_data(rng, vs, int(rng.integers(60, 200)))
    for i in range(n):  # no degenerate columns
        X[0, i], X[1, i] = 0, 1

    def part(d):
        k = d.shape[1]
        if k > 1 and rng.random() < 0.5:
            y = torch.as_tensor(rng.integers(0, 2, k))
            y[0], y[-1] = 0, 1
            return y
        return torch.zeros(k, dtype=torch.int)

    C = int(rng.integers(1, 3))
    oc = int(rng.integers(1, 3))
    m = learn_spn(t(X), leaf_modules=Bernoulli(scope=list(range(n)), out_channels=C), out_channels=oc, min_instances_slice=40,
                  clustering_method=_cluster(rng), partitioning_method=part)
    return Model("learn_spn", joint(m), vs, f"n={n} leafC={C} out={oc}")


def prometheus(rng):
    from spflow.learn.prometheus import learn_prometheus
    from spflow.modules.leaves import Bernoulli

    n = int(rng.integers(2, 6))
    vs = [Var("bernoulli") for _ in range(n)]
    X = rand_table_data(rng, vs, int(rng.integers(80, 200)))
    X[:2] = [[0] * n, [1] * n]
    oc = int(rng.integers(1, 3))
    m = learn_prometheus(t(X), leaf_modules=Bernoulli(scope=list(range(n)), out_channels=1), out_channels=oc,
                         min_instances_slice=40, clustering_method=_cluster(rng))
    return Model("prometheus", joint(m), vs, f"n={n} out={oc}")


def cms(rng):
    from spflow.zoo.cms import learn_continuous_mixture_cltree, learn_continuous_mixture_factorized

    n = int(rng.integers(2, 6))
    kw = dict(latent_dim=2, num_points_train=8, num_points_eval=int(rng.choice([4, 8])), num_epochs=3, batch_size=32,
              seed=int(rng.integers(1000)))
    if rng.random() < 0.5:
        vs = [Var("bernoulli") for _ in range(n)]
        m = learn_continuous_mixture_factorized(t(rand_table_data(rng, vs, 60)), leaf="bernoulli", **kw)
        nm = "factorized-bernoulli"
    elif rng.random() < 0.5:
        vs = [Var("categorical", K=3) for _ in range(min(n, 4))]
        m = learn_continuous_mixture_factorized(t(rand_table_data(rng, vs, 60)), leaf="categorical", num_cats=3, **kw)
        nm = "factorized-categorical"
    else:
        vs = [Var("categorical", K=2) for _ in range(n)]
        m = learn_continuous_mixture_cltree(t(rand_table_data(rng, vs, 60)), leaf="categorical", num_cats=2, **kw)
        nm = "cltree"
    return Model("cms", m, vs, f"{nm} n={n}", {nm})


BUILDERS = dict(rat=rat, einet=einet, convpc=convpc, hclt=hclt, cltree=cltree, cltmix=cltmix, naive_bayes=naive_bayes, cnet=cnet,
                learn_spn=learned_spn, prometheus=prometheus, cms=cms)


def masked(rng, modes=("consecutive", "interleaved")):
    """Element-wise mixtures of products over split layers: every output feature of a product is reached, or
    not, on its own, so that routing masks have to find the right variables."""
    from spflow.modules.ops.split import SplitMode
    from spflow.modules.products import ElementwiseProduct, OuterProduct, Product
    from spflow.modules.sums import ElementwiseSum, Sum

    k = int(rng.integers(2, 4))  # splits
    n = k * (int(rng.integers(2, 4)) if k == 2 else 2)
    v = Var("bernoulli") if n > 4 else dvar(rng)
    vs = [Var(v.kind, v.K, v.total) for _ in range(n)]
    C, R = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    mode = modes[int(rng.integers(len(modes)))]  # sampling below products over by_index splits is refused, loudly
    if mode == "by_index":
        perm = [int(i) for i in rng.permutation(n)]
        sm = lambda: SplitMode.by_index([sorted(perm[i::k]) for i in range(k)])
    else:
        sm = lambda: getattr(SplitMode, mode)(k)
    outer = bool(rng.random() < 0.6)
    kids = []
    for _ in range(int(rng.integers(2, 4))):
        base = group_leaves(rng, vs, C, R)[0]
        if rng.random() < 0.3:
            base = Sum(inputs=base, out_channels=C, num_repetitions=R)
        p = (OuterProduct if outer else ElementwiseProduct)(base, num_splits=k, split_mode=sm())
        if rng.random() < 0.3:
            p = Sum(inputs=p, out_channels=p.out_shape.channels, num_repetitions=R)
        kids.append(p)
    e = ElementwiseSum(inputs=kids, out_channels=int(rng.integers(1, 3)), num_repetitions=R)
    m = Sum(inputs=Product(inputs=e), out_channels=1, num_repetitions=R)
    if R > 1:
        from spflow.modules.sums import RepetitionMixingLayer

        m = RepetitionMixingLayer(inputs=m, out_channels=1, num_repetitions=R)
    scramble_weights(m, rng)
    return Model("masked", m, vs, f"n={n} {v.kind} C={C} R={R} {mode}({k}) {'outer' if outer else 'element-wise'} kids={len(kids)}")

BUILDERS["masked"] = masked
BUILDERS["by_index"] = lambda rng: masked(rng, ("by_index",))
