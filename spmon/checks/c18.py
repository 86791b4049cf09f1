"""C18: copies, pickles, saved and loaded models, and dtype conversions are the same distribution - and independent of each other."""
import copy
import io
import pickle

import numpy as np

from spmon import circ, leafref as lr, mon, zoo
from spmon.circ import Var, t
from spmon.runner import Family, Skip
from spmon.checks import common
from spmon.checks.c17 import ZOO, data, evidence, some_model

PID = "C18"
RULE = "distinct = distinct circuit signature / zoo configuration / leaf setting together with the way it was copied, stored or converted"
ASSUMPTIONS = ["a state is loaded into a model of the same architecture (same constructor arguments, other random choices and parameters)"]


def torch_roundtrip(m):
    import torch

    b = io.BytesIO()
    torch.save(m, b)
    b.seek(0)
    return torch.load(b, weights_only=False)


def file_roundtrip(m):
    """The library's own model files."""
    import os
    import tempfile

    from spflow.utils.model_manager import load_model, save_model

    fd, path = tempfile.mkstemp(prefix="spmon_model_")
    os.close(fd)
    try:
        save_model(m, path)
        out = load_model(path)
        again = load_model(path)
    finally:
        os.unlink(path)
    assert again is not out
    return out


WAYS = {"save_model/load_model": file_roundtrip, "deepcopy": copy.deepcopy, "pickle": lambda m: pickle.loads(pickle.dumps(m)), "torch.save": torch_roundtrip,
        "deepcopy of pickle": lambda m: copy.deepcopy(pickle.loads(pickle.dumps(m)))}


def mode_of(rng, m):
    m.eval() if rng.random() < 0.5 else m.train()


def storages(m):
    return {p.data_ptr() for p in list(m.parameters()) + list(m.buffers()) if p.numel()}


def perturb(rng, m):
    import torch

    with torch.no_grad():
        for p in m.parameters():
            p.add_(t(rng.normal(size=tuple(p.shape)) * 0.7).to(p.dtype))


def same_queries(ctx, a, b, vs, X, E, what, seed):
    import torch

    ctx.check(type(a) is type(b), f"{what}: type {type(b).__name__}")
    ctx.check([type(q).__name__ for q in a.modules()] == [type(q).__name__ for q in b.modules()], f"{what}: module tree differs")
    ctx.check(a.scope == b.scope and tuple(a.out_shape) == tuple(b.out_shape), f"{what}: scope or shape differs")
    ctx.check(np.array_equal(a.feature_to_scope, b.feature_to_scope), f"{what}: feature_to_scope differs")
    ctx.close(mon.ll(b, X), mon.ll(a, X), f"{what}: log-likelihoods", rtol=1e-6, atol=1e-6)
    ctx.check(a.training == b.training and [p.requires_grad for p in a.parameters()] == [p.requires_grad for p in b.parameters()], f"{what}: mode or requires_grad differs")
    ctx.check(np.array_equal(a.mpe(data=mon.tt(E)).detach().numpy(), b.mpe(data=mon.tt(E)).detach().numpy()), f"{what}: MPE answers differ")

    def draw(m):
        torch.manual_seed(seed)
        np.random.seed(seed)
        return m.sample_with_evidence(mon.tt(E)).detach().numpy()

    ctx.check(np.array_equal(draw(a), draw(b)), f"{what}: samples under the same seed differ")
    ctx.count("copies_compared")


def f_copy(ctx):
    """Copies answer like the original; changing one never changes the other."""
    import torch

    rng = ctx.rng
    m, vs, name = some_model(ctx)
    mode_of(rng, m)
    if rng.random() < 0.3:
        for p in m.parameters():
            p.requires_grad_(bool(rng.random() < 0.5))
    X, E = data(rng, vs, 8), evidence(rng, m, vs, 5)
    if rng.random() < 0.5:
        mon.ll(m, X)  # warm any per-module caches
    way = str(rng.choice(list(WAYS)))
    what = f"{name}, {way}"
    ctx.key("way", way, name)
    c = WAYS[way](m)
    ctx.check(not (storages(m) & storages(c)), f"{what}: shares parameter memory with the original")
    ids = {id(q) for q in m.modules()} & {id(q) for q in c.modules()}
    ctx.check(not ids, f"{what}: shares modules with the original")
    ctx.check(len({id(q) for q in m.modules()}) == len({id(q) for q in c.modules()}), f"{what}: node sharing was lost or invented")
    same_queries(ctx, m, c, vs, X, E, what, int(rng.integers(1 << 30)))
    L = mon.ll(m, X)
    perturb(rng, c)
    ctx.close(mon.ll(m, X), L, f"{what}: original after changing the copy", rtol=0, atol=0)
    back = {k: v.clone() for k, v in m.state_dict().items()}
    Lc = mon.ll(c, X)
    perturb(rng, m)
    ctx.close(mon.ll(c, X), Lc, f"{what}: copy after changing the original", rtol=0, atol=0)
    c.load_state_dict(back)
    ctx.close(mon.ll(c, X), L, f"{what}: copy after loading the original's former state", rtol=1e-6, atol=1e-6)


def f_state(ctx):
    """state_dict -> (memory or file) -> a model of the same architecture with other parameters."""
    import torch

    rng = ctx.rng
    sd0 = int(rng.integers(1 << 31))
    name = str(rng.choice(["ast", "mixed"] + [z for z in ZOO if z not in ("cnet", "learn_spn", "prometheus", "hclt", "cms")] * 2 + ["hclt", "cms", "cnet"]))

    def mk():
        r = np.random.default_rng(sd0)
        np.random.seed(sd0 % (1 << 31))
        torch.manual_seed(sd0)
        if name in ("ast", "mixed"):
            kw = dict(families=circ.CONTINUOUS + circ.COUNTS + circ.DISCRETE) if name == "mixed" else {}
            node, vs = circ.random_circuit(r, sampleable=True, **kw)
            ctx.key(name, node.sig())
            return node.build(), vs
        z = zoo.BUILDERS[name](r)
        ctx.key(name, z.cfg)
        return z.m, z.vs

    a, vs = mk()
    b, _ = mk()
    perturb(rng, a)
    perturb(rng, b)
    mode_of(rng, a)
    b.train(a.training)
    X, E = data(rng, vs, 8), evidence(rng, a, vs, 5)
    mon.ll(a, X)
    if rng.random() < 0.7:
        mon.ll(b, X)  # warm caches of the receiving model
    state = a.state_dict()
    if rng.random() < 0.5:
        f = io.BytesIO()
        torch.save(state, f)
        f.seek(0)
        state = torch.load(f, weights_only=True)
    L = mon.ll(a, X)
    res = b.load_state_dict(state)
    ctx.check(not res.missing_keys and not res.unexpected_keys, f"{name}: keys differ {res}")
    same_queries(ctx, a, b, vs, X, E, f"{name}: loaded state", int(rng.integers(1 << 30)))
    ctx.check(not (storages(a) & storages(b)), f"{name}: loading aliases the memory of the source")
    perturb(rng, b)
    ctx.close(mon.ll(a, X), L, f"{name}: source after changing the loaded model", rtol=0, atol=0)


def f_random_structure(ctx):
    """Models with random variable decompositions: the decomposition travels with the state."""
    import torch
    from spflow.zoo.einet import Einet
    from spflow.zoo.rat import RatSPN

    rng = ctx.rng
    n = int(rng.integers(4, 9))
    which = str(rng.choice(["rat", "top-down", "bottom-up"]))
    R, S, C = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 4))
    depth = int(rng.integers(1, int(np.log2(n)) + 1))
    lt = str(rng.choice(["einsum", "linsum"]))
    outer = bool(rng.random() < 0.5)
    v = Var("bernoulli")
    vs = [Var("bernoulli") for _ in range(n)]

    def mk():
        lv = [lr.build("bernoulli", list(range(n)), lr.rand_params("bernoulli", rng, (n, C, R)))]
        torch.manual_seed(int(rng.integers(1 << 30)))
        np.random.seed(int(rng.integers(1 << 30)))
        if which == "rat":
            return RatSPN(leaf_modules=lv, n_root_nodes=1, n_region_nodes=S, num_repetitions=R, depth=depth, outer_product=outer)
        return Einet(leaf_modules=lv, num_classes=1, num_sums=S, num_leaves=C, depth=depth, num_repetitions=R, layer_type=lt, structure=which)

    a, b = mk(), mk()
    perturb(rng, a)
    D = mon.domain(vs)
    L = mon.ll(a, D)
    if rng.random() < 0.5:
        b.eval()
        a.eval()
        mon.ll(b, D)
    E = evidence(rng, a, vs, 6)
    mon.ll(b, E)
    b.sample(num_samples=2)
    b.load_state_dict(a.state_dict())
    what = f"{which} n={n} depth={depth} R={R}"
    ctx.key("rs", what, S, C, lt, outer)
    same_queries(ctx, a, b, vs, D, E, f"{what}: state loaded into a model with another random decomposition", int(rng.integers(1 << 30)))
    mon.check_samples(ctx, b, vs, what=f"{what}: samples after loading", N=1500, D=D, p=np.exp(L[:, 0, 0, 0])) if n <= 6 else None


LEAVES = ["bernoulli", "categorical", "binomial", "geometric", "negbin", "poisson", "hypergeometric", "normal", "lognormal", "laplace", "exponential",
          "gamma", "uniform", "histogram", "cltree"]


def f_leaf(ctx):
    """Every leaf family: all its parameters, fixed ones included, travel with its state."""
    import torch
    from spflow.meta.data.scope import Scope
    from spflow.modules import leaves as LV

    rng = ctx.rng
    kind = LEAVES[ctx.idx % len(LEAVES)]
    F, C, R = (int(v) for v in rng.integers(1, 3, 3))
    K, total = int(rng.integers(2, 4)), int(rng.integers(1, 5))
    if kind == "histogram":
        edges = np.sort(rng.normal(size=5)) + np.arange(5) * 0.1

        def mk():
            p = rng.dirichlet(np.ones(4), size=(1, C, R))
            e = edges + rng.normal() * 0.5
            return LV.Histogram(scope=Scope([0]), bin_edges=t(e), probs=t(p))

        F = 1
        X = rng.normal(size=(8, 1))
    elif kind == "cltree":
        F = int(rng.integers(2, 5))

        def mk():
            par = [-1] + [int(rng.integers(0, i)) for i in range(1, F)]
            lf = LV.CLTree(scope=list(range(F)), out_channels=C, num_repetitions=R, K=K, parents=torch.tensor(par))
            with torch.no_grad():
                for p in lf.parameters():
                    p.copy_(t(np.log(rng.dirichlet(np.ones(K), size=tuple(p.shape)[:-1]).reshape(p.shape))) if p.shape[-1] == K else p)
            return lf

        X = rng.integers(0, K, (8, F)).astype(float)
    else:
        def mk():
            if kind == "hypergeometric":  # 0 and 1 possible under both parameter sets
                N = int(rng.integers(6, 12))
                return lr.build(kind, list(range(F)), {"N": np.full((F, C, R), float(N)), "K": np.full((F, C, R), float(rng.integers(1, 4))),
                                                       "n": np.full((F, C, R), float(rng.integers(1, 4)))})
            total_ = int(rng.integers(1, 5))
            return lr.build(kind, list(range(F)), lr.rand_params(kind, rng, (F, C, R), K=K, total=total_))

        if kind in ("hypergeometric",):
            X = rng.integers(0, 2, (8, F)).astype(float)
        elif kind == "uniform":
            X = rng.uniform(-2, 2, (8, F))
        else:
            X = lr.sample_data(kind, rng, 8 * F, K=K, total=1).reshape(8, F)
    a, b = mk(), mk()
    ctx.key("leaf", kind, F, C, R)
    La = mon.ll(a, X)
    mon.ll(b, X)
    b.load_state_dict(a.state_dict())
    ctx.close(mon.ll(b, X), La, f"{kind}: log-likelihood after loading a state", rtol=1e-6, atol=1e-6)
    chan, rep = rng.integers(0, C, (40, F)), rng.integers(0, R, 40)
    if kind == "cltree":
        chan = np.repeat(chan[:, :1], F, 1)

    def draw(m, mpe):
        torch.manual_seed(5)
        return mon.slot_draw(m, mon.tt(np.full((40, F), np.nan)), chan, rep, is_mpe=mpe).detach().numpy()

    for mpe in (False, True):
        ctx.check(np.array_equal(draw(a, mpe), draw(b, mpe)), f"{kind}: {'modes' if mpe else 'samples'} after loading a state differ")
    for way, f in WAYS.items():
        c = f(a)
        ctx.close(mon.ll(c, X), La, f"{kind}: {way}", rtol=1e-6, atol=1e-6)
        ctx.check(np.array_equal(draw(a, False), draw(c, False)), f"{kind}: samples of {way}")
        ctx.check(not (storages(a) & storages(c)), f"{kind}: {way} shares memory")
    ctx.check(mon.ll(copy.deepcopy(a).double(), X).shape == La.shape, f"{kind}: double")


def f_dtype(ctx):
    """Converting a model to double precision and back keeps the distribution; results have the model's precision."""
    import torch

    rng = ctx.rng
    m, vs, name = some_model(ctx)
    if name == "cms":
        raise Skip("components are compiled lazily in the default dtype")
    X = data(rng, vs, 8, missing=0.3)
    L = mon.ll(m, X)
    d = copy.deepcopy(m).double()
    with torch.no_grad():
        o = d.log_likelihood(torch.as_tensor(X, dtype=torch.float64))
    ctx.check(o.dtype == torch.float64, f"{name}: a double model returned {o.dtype}")
    ctx.close(o.numpy(), L, f"{name}: log-likelihood in double precision", rtol=2e-4, atol=2e-4)
    f = d.float()
    ctx.close(mon.ll(f, X), L, f"{name}: converted to double and back", rtol=1e-5, atol=1e-5)
    ctx.count("conversions")


FAMILIES = [
    Family("copy", f_copy, 110, 2600, timeout=60),
    Family("state", f_state, 90, 2400, timeout=60),
    Family("random_structure", f_random_structure, 40, 900, timeout=60),
    Family("leaf", f_leaf, 60, 1500, timeout=30),
    Family("dtype", f_dtype, 50, 1000, timeout=60),
]
