"""C14: constructors accept valid structures only; declared scopes and shapes are what evaluation yields."""
import itertools

import numpy as np

from spmon import circ, leafref as lr, mon, zoo
from spmon.circ import Var
from spmon.runner import Family, Skip
from spmon.checks import common

PID = "C14"
RULE = ("distinct = distinct (operation, feature scopes, channels, repetitions of every operand, defect planted in the composition); "
        "every accepted composition is evaluated on its whole finite domain")
ASSUMPTIONS = ["validity of a composition is decided by our own predicate (smoothness per feature, decomposability, equal feature counts, equal or single channels), "
               "soundness of an accepted one by enumeration: declared shape, every variable modelled once, unit mass"]


class Val:
    """Operand: real module plus what it should be (variables of each feature, channels, repetitions)."""

    def __init__(self, m, fs, C, R):
        self.m, self.fs, self.C, self.R = m, [frozenset(f) for f in fs], C, R

    @property
    def scope(self):
        return frozenset().union(*self.fs)

    @property
    def F(self):
        return len(self.fs)

    def sig(self):
        return (tuple(tuple(sorted(f)) for f in self.fs), self.C, self.R)


def leaf(rng, cols, vs, C, R):
    v = vs[cols[0]]
    return Val(lr.build(v.kind, [int(c) for c in cols], lr.rand_params(v.kind, rng, (len(cols), C, R), K=v.K, total=v.total)),
               [{c} for c in cols], C, R)


def operand(rng, cols, F, vs, C, R, deep=True):
    """F features over exactly the given columns (all features get at least one column)."""
    from spflow.modules.ops.cat import Cat
    from spflow.modules.products import Product
    from spflow.modules.sums import Sum

    cols = [int(c) for c in cols]
    if F == len(cols):
        if deep and rng.random() < 0.3:
            C0 = int(rng.integers(1, 3))
            base = leaf(rng, cols, vs, C0, R)
            return Val(Sum(inputs=base.m, out_channels=C, num_repetitions=R), base.fs, C, R)
        if F > 1 and rng.random() < 0.3:
            k = int(rng.integers(1, F))
            a, b = leaf(rng, cols[:k], vs, C, R), leaf(rng, cols[k:], vs, C, R)
            return Val(Cat([a.m, b.m], dim=1), a.fs + b.fs, C, R)
        return leaf(rng, cols, vs, C, R)
    cuts = np.sort(rng.choice(np.arange(1, len(cols)), F - 1, replace=False)) if F > 1 else np.array([], int)
    parts = [list(p) for p in np.split(np.array(cols), cuts)]
    ms = []
    for p in parts:
        l = leaf(rng, p, vs, C, R)
        ms.append(Product(l.m) if len(p) > 1 or rng.random() < 0.5 else l.m)
    m = ms[0] if len(ms) == 1 else Cat(ms, dim=1)
    return Val(m, [set(map(int, p)) for p in parts], C, R)


def evaluate(ctx, make, D):
    """(module, table) or the exception type; a rejection may come at construction or at first evaluation."""
    try:
        m = make()
    except Exception as e:  # noqa: BLE001
        return None, e
    try:
        return m, mon.ll(m, D)
    except Exception as e:  # noqa: BLE001
        return None, e


def sound(ctx, m, L, D, allcols, what, mech=None, fs=None, meta=True):
    """The composition behaves like a distribution over its declared scope with its declared shape."""
    if isinstance(L, list):
        raise Skip("list output")
    s = m.out_shape
    scope = set(int(v) for v in m.scope.query)
    ctx.check(L.shape == (len(D), s.features, s.channels, s.repetitions), f"{what}: evaluation gives shape {L.shape[1:]} but the module declares {tuple(s)}", mech=mech)
    ctx.check(not np.isnan(L).any(), f"{what}: NaN log-likelihood on complete in-domain rows", mech=mech)
    # which variables does each feature react to?
    lead = {tuple(r): i for i, r in enumerate(D)}
    deps = [set() for _ in range(L.shape[1])]
    for v in range(D.shape[1]):
        E = D.copy()
        E[:, v] = 0
        base = np.array([lead[tuple(r)] for r in E])
        with np.errstate(invalid="ignore"):
            d = np.abs(np.exp(L) - np.exp(L[base])).max(axis=(0, 2, 3))
        for f in np.nonzero(d > 1e-6)[0]:
            deps[f].add(v)
    for i, j in itertools.combinations(range(len(deps)), 2):
        ctx.check(not (deps[i] & deps[j]), f"{what}: features {i} and {j} both depend on variables {sorted(deps[i] & deps[j])}", mech=mech)
    ctx.check(set().union(*deps) <= scope, f"{what}: output depends on {sorted(set().union(*deps) - scope)} outside the declared scope {sorted(scope)}", mech=mech)
    # mass over the declared scope: each variable modelled exactly once
    rest = [v for v in range(D.shape[1]) if v not in scope]
    sel = (D[:, rest] == 0).all(1) if rest else np.ones(len(D), bool)
    tot = mon.lse(L[sel].sum(1), 0)
    ctx.count("assignments_summed", int(sel.sum()))
    ctx.count("distributions_summed", tot.size)
    ctx.close(tot, np.zeros_like(tot), f"{what}: log mass over the declared scope {sorted(scope)}", rtol=0, atol=5e-4, mech=mech)
    if fs is not None:
        ctx.check(scope == set().union(*fs), f"{what}: declared scope {sorted(scope)}, inputs cover {sorted(set().union(*fs))}", mech=mech)
        for f, want in enumerate(fs):
            ctx.check(deps[f] <= set(want), f"{what}: feature {f} depends on {sorted(deps[f])}, expected only {sorted(want)}", mech=mech)
        if meta:
            f2s = m.feature_to_scope
            ctx.check(f2s.shape == (len(fs), s.repetitions), f"{what}: feature_to_scope has shape {f2s.shape}", mech=mech)
            for f, want in enumerate(fs):
                for r in range(s.repetitions):
                    ctx.check(set(f2s[f, r].query) == set(want), f"{what}: feature_to_scope[{f},{r}] = {f2s[f, r]}, expected {sorted(want)}", mech=mech)


OPS = ["Sum", "ElementwiseSum", "Cat1", "Cat2", "Product", "ElementwiseProduct", "OuterProduct", "EinsumLayer", "LinsumLayer"]
MIX = ("Sum", "ElementwiseSum", "Cat2")


def build(op, ins, oc, R):
    from spflow.modules.einsum import EinsumLayer, LinsumLayer
    from spflow.modules.ops.cat import Cat
    from spflow.modules.products import ElementwiseProduct, OuterProduct, Product
    from spflow.modules.sums import ElementwiseSum, Sum

    ms = [v.m for v in ins]
    return {
        "Sum": lambda: Sum(inputs=ms, out_channels=oc, num_repetitions=R),
        "ElementwiseSum": lambda: ElementwiseSum(inputs=ms, out_channels=oc, num_repetitions=R),
        "Cat1": lambda: Cat(ms, dim=1),
        "Cat2": lambda: Cat(ms, dim=2),
        "Product": lambda: Product(ms),
        "ElementwiseProduct": lambda: ElementwiseProduct(ms),
        "OuterProduct": lambda: OuterProduct(ms),
        "EinsumLayer": lambda: EinsumLayer(ms, out_channels=oc, num_repetitions=R),
        "LinsumLayer": lambda: LinsumLayer(ms, out_channels=oc, num_repetitions=R),
    }[op]()


def expected(op, ins):
    """Feature scopes of the result."""
    if op in MIX:
        return ins[0].fs
    if op == "Cat1":
        return [f for v in ins for f in v.fs]
    if op == "Product":
        return [set().union(*[v.scope for v in ins])]
    return [set().union(*[v.fs[f] for v in ins]) for f in range(ins[0].F)]


def valid(op, ins):
    one = lambda xs: len(set(xs)) == 1  # noqa: E731
    if not one(v.R for v in ins):
        return False
    if op in MIX:
        if not all(v.fs == ins[0].fs for v in ins):
            return False
        if op == "ElementwiseSum":
            big = {v.C for v in ins if v.C != 1}
            return len(big) <= 1
        return True
    if not all(a.scope.isdisjoint(b.scope) for a, b in itertools.combinations(ins, 2)):
        return False
    if op in ("Cat1", "Product"):
        return one(v.C for v in ins)
    if not one(v.F for v in ins):
        return False
    if op == "ElementwiseProduct":
        return len({v.C for v in ins if v.C != 1}) <= 1
    if op == "LinsumLayer":
        return one(v.C for v in ins)
    return True


def f_combine(ctx):
    rng = ctx.rng
    op = OPS[ctx.idx % len(OPS)]
    R = int(rng.choice([1, 1, 2, 3]))
    k = 2 if op in ("EinsumLayer", "LinsumLayer") else int(rng.integers(2, 4))
    C = int(rng.integers(1, 4))
    v0 = zoo.dvar(rng)
    if op in MIX:
        n = int(rng.integers(1, 4))
        F = int(rng.integers(1, n + 1))
    else:
        F = int(rng.integers(1, 3))
        n = F * k + int(rng.integers(0, 2))
    if (n + 1) * np.log(len(v0.domain)) > np.log(3000):
        v0 = Var("bernoulli")
    vs = [Var(v0.kind, v0.K, v0.total) for _ in range(n + 1)]  # one spare variable
    cols = rng.permutation(n)
    # feature layout of each operand
    ins_spec = []
    if op in MIX:
        cuts = [0] + sorted(rng.choice(np.arange(1, n), F - 1, replace=False).tolist() if F > 1 else []) + [n]
        for _ in range(k):
            ins_spec.append(dict(cols=list(map(int, cols)), F=F, C=C, R=R, cuts=cuts))
    else:
        own = np.array_split(cols, k)
        for p in own:
            ins_spec.append(dict(cols=list(map(int, p)), F=min(F, len(p)), C=C, R=R))
    defect = str(rng.choice(["none", "none", "none", "channels", "overlap", "order", "missing", "extra", "features", "reps", "single"]))
    j = int(rng.integers(k))
    d = ins_spec[j]
    if defect == "channels":
        d["C"] = C + 1
    elif defect == "single":
        d["C"] = 1
    elif defect == "overlap":
        other = ins_spec[(j + 1) % k]["cols"]
        d["cols"][int(rng.integers(len(d["cols"])))] = int(other[rng.integers(len(other))])
    elif defect == "order":
        d["cols"] = [int(c) for c in rng.permutation(d["cols"])]
    elif defect == "missing" and len(d["cols"]) > 1:
        d["cols"] = d["cols"][:-1]
    elif defect == "extra":
        d["cols"] = d["cols"] + [n]
    elif defect == "features":
        d["F"] = max(1, d["F"] - 1) if d["F"] > 1 else min(2, len(d["cols"]))
    elif defect == "reps":
        d["R"] = R + 1
    ins = []
    for s in ins_spec:
        if len(set(s["cols"])) < len(s["cols"]):
            raise Skip("duplicate variable inside a leaf")
        if op in MIX and s["F"] < len(s["cols"]) and "cuts" in s and s["F"] == F and len(s["cols"]) == n:
            # same cut positions for all mixture operands
            from spflow.modules.ops.cat import Cat
            from spflow.modules.products import Product

            parts = [s["cols"][a:b] for a, b in zip(s["cuts"], s["cuts"][1:])]
            ms = [Product(leaf(rng, p, vs, s["C"], s["R"]).m) for p in parts]
            ins.append(Val(ms[0] if len(ms) == 1 else Cat(ms, dim=1), [set(p) for p in parts], s["C"], s["R"]))
        else:
            ins.append(operand(rng, s["cols"], min(s["F"], len(s["cols"])), vs, s["C"], s["R"]))
    oc = int(rng.integers(1, 4))
    what = f"{op}({'; '.join(str(v.sig()) for v in ins)}, {defect})"
    ctx.key("combine", op, tuple(v.sig() for v in ins), oc)
    ctx.note(what)
    D = mon.domain(vs)
    ok = valid(op, ins)
    if not ok and op == "OuterProduct" and len({v.F for v in ins}) > 1:
        raise Skip("known: outer product broadcasts features (probe_outer)")
    if op in ("Sum", "Cat2") and len({v.scope for v in ins}) == 1 and len({v.F for v in ins}) == 1 and ins[0].F < len(ins[0].scope) and not ok:
        raise Skip("known: mixtures do not compare how several variables are grouped into features (probe_groups)")
    maxR = max(v.R for v in ins)
    m, L = evaluate(ctx, lambda: build(op, ins, oc, maxR), D)
    ctx.count("valid" if ok else "invalid")
    ctx.count(f"op:{op}")
    if ok:
        ctx.check(m is not None, f"{what}: valid composition rejected: {type(L).__name__}: {L}")
        sound(ctx, m, L, D, None, what, fs=expected(op, ins), meta=op != "OuterProduct" or ins[0].F == 1)
    elif m is None:
        ctx.count("rejected")
        ctx.check(isinstance(L, Exception) and not isinstance(L, (AttributeError, NameError, RecursionError)), f"{what}: rejected by accident: {L!r}")
    else:
        ctx.count("accepted_anyway")
        sound(ctx, m, L, D, None, what + " [invalid, accepted]")


def f_split(ctx):
    """Splits partition the features of their input; products over splits model every variable once."""
    from spflow.modules.einsum import EinsumLayer, LinsumLayer
    from spflow.modules.ops import SplitConsecutive, SplitInterleaved
    from spflow.modules.ops.split_by_index import SplitByIndex
    from spflow.modules.products import ElementwiseProduct, OuterProduct

    rng = ctx.rng
    k = int(rng.integers(2, 4))
    n = int(rng.integers(k, 7))
    C, R = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    vs = [Var("bernoulli") for _ in range(n)]
    x = leaf(rng, rng.permutation(n), vs, C, R)
    kind = str(rng.choice(["consecutive", "interleaved", "index"]))
    perm = [int(i) for i in rng.permutation(n)]
    size = n // k
    groups = [perm[i * size:(i + 1) * size] for i in range(k)]
    groups[-1] += perm[k * size:]
    mk = {"consecutive": lambda: SplitConsecutive(x.m, num_splits=k), "interleaved": lambda: SplitInterleaved(x.m, num_splits=k),
          "index": lambda: SplitByIndex(x.m, indices=groups)}[kind]
    D = mon.domain(vs)
    ctx.key("split", kind, n, k, C, R)
    what = f"{kind} split of {n} features into {k}"
    ctx.note(what)
    m = mk()
    import torch

    with torch.no_grad():
        parts = [p.numpy().astype(float) for p in m.log_likelihood(mon.tt(D))]
    whole = mon.ll(x.m, D)
    ctx.check(len(parts) == k, f"{what}: {len(parts)} parts")
    ctx.check(sum(p.shape[1] for p in parts) == n, f"{what}: parts have {[p.shape[1] for p in parts]} features")
    order = []
    for p in parts:
        for f in range(p.shape[1]):
            hit = [i for i in range(n) if np.array_equal(p[:, f], whole[:, i])]
            ctx.check(len(hit) == 1, f"{what}: a part's feature is not one of the input's")
            order += hit
    ctx.check(sorted(order) == list(range(n)), f"{what}: features {order} instead of each once")
    if kind == "index":
        ctx.check(order == [i for g in groups for i in g], f"{what}: got features {order}, asked for {groups}")
    ctx.count("splits")
    if kind == "interleaved" and n % k:
        parts = []
    back = whole if not parts else m.merge_split_tensors(*[torch.as_tensor(p) for p in parts]).numpy()
    ctx.check(back.shape == whole.shape and np.array_equal(back, whole), f"{what}: merging the parts does not restore the input")
    ops = [("ElementwiseProduct", lambda: ElementwiseProduct(mk(), num_splits=k)), ("OuterProduct", lambda: OuterProduct(mk(), num_splits=k))]
    if k == 2:
        ops += [("EinsumLayer", lambda: EinsumLayer(mk(), out_channels=2, num_repetitions=R)),
                ("LinsumLayer", lambda: LinsumLayer(mk(), out_channels=2, num_repetitions=R))]
    for name, f in ops:
        p, L = evaluate(ctx, f, D)
        w = f"{name} over {what} (C={C}, R={R})"
        if p is None:
            ctx.check(n % k != 0, f"{w}: valid composition rejected: {type(L).__name__}: {L}")
            ctx.count("rejected")
            continue
        ctx.count(f"op:{name}")
        per = n // k
        fs = None
        if n % k == 0:
            fs = [{order[s * per + i] for s in range(k)} for i in range(per)]
            cols = [int(c) for c in x.m.scope.query]
            fs = [{cols[i] for i in f_} for f_ in fs]
        sound(ctx, p, L, D, None, w, fs=fs, meta=False)


def f_nest(ctx):
    """Random valid circuits: every inner module's declared shape, scope and feature scopes are what evaluation yields."""
    node, m, vs = common.ast(ctx, C=int(ctx.rng.integers(1, 3)))
    D = mon.domain(vs)
    D = D[ctx.rng.permutation(len(D))[:60]]
    from spflow.modules.module import Module
    from spflow.modules.ops.split import Split

    seen = 0
    for nd in list(node.walk().values()) if isinstance(node.walk(), dict) else node.walk():
        sub = getattr(nd, "_mod", None)
        if not isinstance(sub, Module) or isinstance(sub, Split):
            continue
        L = mon.ll(sub, D)
        s = sub.out_shape
        if type(sub).__name__ == "RepetitionMixingLayer" or any(type(x).__name__ == "RepetitionMixingLayer" for x in sub.modules()):
            continue
        ctx.check(L.shape == (len(D), s.features, s.channels, s.repetitions), f"{type(sub).__name__}: evaluation gives {L.shape[1:]}, declared {tuple(s)}")
        ctx.check(set(sub.scope.query) == set(nd.scope), f"{type(sub).__name__}: declares scope {sub.scope}, models {sorted(nd.scope)}")
        ctx.check((nd.F, nd.C, nd.R) == tuple(s), f"{type(sub).__name__}: declares {tuple(s)}, built as {(nd.F, nd.C, nd.R)}")
        seen += 1
    ctx.count("modules_checked", seen)


def f_zoo(ctx):
    name = ["rat", "einet", "convpc", "hclt", "cltree", "naive_bayes", "cnet", "learn_spn", "prometheus", "cms"][ctx.idx % 10]
    z = common.model(ctx, name)
    n = len(z.vs)
    x = np.array([[v.domain[ctx.rng.integers(len(v.domain))] for v in z.vs] for _ in range(5)])
    L = mon.ll(z.m, x)
    s = z.m.out_shape
    ctx.check(sorted(z.m.scope.query) == list(range(n)), f"{name}: declared scope {z.m.scope}, data has {n} variables")
    ctx.check(L.shape[:3] == (5, s.features, s.channels), f"{name}: evaluation gives {L.shape}, declared {tuple(s)}")
    ctx.count("models")


def rparams(kind, rng, shape, K=None, total=None):
    prm = lr.rand_params(kind, rng, shape, K=K, total=total)
    if kind == "hypergeometric":  # 1 is in every slot's support
        prm = {"K": rng.integers(2, 5, shape), "N": np.full(shape, 9), "n": rng.integers(2, 5, shape)}
        prm = {k: np.repeat(v[:1], shape[0], 0).astype(float) for k, v in prm.items()}
    return prm


def rdata(kind, rng, n, F, K=None, total=None):
    if kind in ("hypergeometric", "uniform"):
        return np.ones((n, F))
    return lr.sample_data(kind, rng, n * F, K=K, total=total).reshape(n, F)


BAD = {
    "bernoulli": [("probs", -0.2), ("probs", 1.3), ("probs", np.nan)],
    "binomial": [("probs", -0.2), ("probs", 1.3), ("probs", np.nan), ("total_count", -1.0), ("total_count", 1.5)],
    "geometric": [("probs", 1.2), ("probs", -0.1), ("probs", np.nan)],
    "negbin": [("probs", 1.2), ("probs", -0.1), ("total_count", -1.0)],
    "poisson": [("rate", -1.0), ("rate", np.nan)],
    "normal": [("scale", 0.0), ("scale", -1.0), ("scale", np.nan), ("loc", np.nan), ("loc", np.inf)],
    "lognormal": [("scale", 0.0), ("scale", -1.0), ("loc", np.nan)],
    "laplace": [("scale", -1.0), ("scale", np.nan), ("loc", np.nan)],
    "exponential": [("rate", -1.0), ("rate", np.nan)],
    "gamma": [("concentration", -1.0), ("rate", -1.0), ("rate", np.nan)],
    "uniform": [("low", 1e9)],
    "categorical": [("probs", -0.5), ("probs", np.nan)],
    "hypergeometric": [("K", -1.0), ("n", 99.0), ("K", 99.0)],
}


def f_params(ctx):
    """One invalid parameter entry anywhere in the tensor is refused, at the latest when the leaf is evaluated."""
    rng = ctx.rng
    kind = sorted(BAD)[ctx.idx % len(BAD)]
    F, C, R = int(rng.integers(1, 3)), int(rng.integers(1, 3)), int(rng.integers(1, 3))
    K = 3 if kind == "categorical" else None
    total = 3 if kind in ("binomial", "negbin") else None
    prm = rparams(kind, rng, (F, C, R), K=K, total=total)
    x = rdata(kind, rng, 4, F, K, total)
    good = lr.build(kind, list(range(F)), prm)
    if kind != "uniform":
        L = mon.ll(good, x)
        ctx.check(L.shape == (4, F, C, R), f"{kind}: shape {L.shape}")
    for name, val in BAD[kind]:
        bad = {k: np.array(v, dtype=float, copy=True) for k, v in prm.items()}
        if np.ndim(bad[name]) == 0:
            bad[name] = np.asarray(val)
        else:
            i = tuple(int(rng.integers(s)) for s in bad[name].shape)
            bad[name][i] = val
        try:
            m = lr.build(kind, list(range(F)), bad)
            L = mon.ll(m, x)
        except Exception:  # noqa: BLE001
            ctx.count("rejected")
            continue
        ctx.fail(f"{kind}: {name} entry {val} accepted, log-likelihoods {np.unique(np.round(L, 3))[:4]}")
    # wrong shapes
    for name in prm:
        if np.ndim(prm[name]) < 3:
            continue
        bad = dict(prm)
        bad[name] = np.concatenate([prm[name], prm[name][:1]], 0)
        try:
            mon.ll(lr.build(kind, list(range(F)), bad), x)
        except Exception:  # noqa: BLE001
            ctx.count("rejected")
            continue
        ctx.fail(f"{kind}: {F} variables but {name} has {F + 1} rows; accepted")
    for kw in (dict(out_channels=0), dict(num_repetitions=0)):
        from spflow.modules.leaves import Normal

        try:
            Normal(scope=[0], **kw)
        except Exception:  # noqa: BLE001
            ctx.count("rejected")
            continue
        ctx.fail(f"Normal accepts {kw}")
    ctx.key("params", kind, F, C, R)


def f_scopetypes(ctx):
    """A leaf means the same whichever way its scope is written down."""
    import torch
    from spflow.meta.data.scope import Scope
    from spflow.modules.products import Product

    rng = ctx.rng
    n = int(rng.integers(1, 5))
    cols = [int(c) for c in rng.permutation(6)[:n]]
    kind = ["bernoulli", "normal", "categorical", "poisson"][ctx.idx % 4]
    K = 3 if kind == "categorical" else None
    prm = lr.rand_params(kind, rng, (n, 2, 1), K=K)
    x = lr.sample_data(kind, rng, 30, K=K).reshape(5, 6)
    forms = {"list": cols, "tuple": tuple(cols), "Scope": Scope(cols), "array": np.array(cols), "tensor": torch.tensor(cols),
             "generator": (c for c in cols), "int64s": [np.int64(c) for c in cols]}
    if n == 1:
        forms["int"] = cols[0]
    want = None
    for f, s in forms.items():
        m = lr.build(kind, s, prm)
        L = mon.ll(m, x)
        want = L if want is None else want
        ctx.check(np.array_equal(L, want), f"{kind} leaf with scope {cols} given as {f}: different log-likelihoods")
        ctx.check(m.scope == Scope(cols) and all(type(v) is int for v in m.scope.query), f"{kind} leaf with scope given as {f}: scope {m.scope!r}")
        ctx.check(Product(m).scope == Scope(cols), f"product over a leaf with scope given as {f}: {Product(m).scope!r}")
        ctx.count("forms")
    ctx.key("scopetypes", kind, n)


def f_short(ctx):
    """Parameters given per feature, or per feature and channel, mean the same value along the axes left out."""
    rng = ctx.rng
    kinds = ["bernoulli", "categorical", "normal", "laplace", "lognormal", "exponential", "gamma", "poisson", "geometric", "uniform", "hypergeometric",
             "binomial", "negbin"]
    kind = kinds[ctx.idx % len(kinds)]
    F, C, R = int(rng.integers(1, 4)), int(rng.integers(2, 4)), int(rng.integers(1, 3))
    nd = int(rng.integers(1, 3))
    if kind in ("uniform", "hypergeometric", "categorical"):
        R = 1
    K = 3 if kind == "categorical" else None
    full = rparams(kind, rng, (F, C if nd == 2 else 1, 1), K=K)
    if "total_count" in full:
        full["total_count"] = rng.integers(3, 8, full["total_count"].shape).astype(np.float64)
    short = {k: (v[:, :, 0] if nd == 2 else v[:, 0, 0]) for k, v in full.items()}
    wide = {k: np.repeat(v, R, 2) for k, v in full.items()}
    kw = {} if kind in ("uniform", "hypergeometric", "categorical") else {"num_repetitions": R}
    x = rdata(kind, rng, 4, F, K, 3)
    a = lr.build(kind, list(range(F)), wide)
    b = lr.build(kind, list(range(F)), short, **kw)
    what = f"{kind} leaf with parameters of {nd} axes (F={F}, C={C}, R={R})"
    ctx.key("short", kind, F, C, R, nd)
    ctx.check(tuple(b.out_shape) == tuple(a.out_shape), f"{what}: declares {tuple(b.out_shape)}, with full axes {tuple(a.out_shape)}")
    with np.errstate(all="ignore"):
        ctx.close(mon.ll(b, x), mon.ll(a, x), f"{what}: log-likelihood", rtol=1e-5, atol=1e-5)


def f_enlarge(ctx):
    """A later parameter cannot carry more features, channels or repetitions than the leaf declares."""
    rng = ctx.rng
    kind = ["normal", "gamma", "uniform", "laplace", "lognormal", "hypergeometric"][ctx.idx % 6]
    F, C, R = int(rng.integers(1, 3)), int(rng.integers(1, 3)), int(rng.integers(1, 3))
    prm = rparams(kind, rng, (F, C, R))
    ax = int(rng.integers(3))
    i = [k for k in prm][1:]
    name = i[int(rng.integers(len(i)))]
    bad = {k: (np.concatenate([v, np.take(v, [0], ax)], ax) if k == name else v) for k, v in prm.items()}
    x = rdata(kind, rng, 4, F)
    try:
        m = lr.build(kind, list(range(F)), bad)
        L = mon.ll(m, x)
    except Exception:  # noqa: BLE001
        ctx.count("rejected")
        return
    s = m.out_shape
    ctx.check(L.shape == (4, *tuple(s)), f"{kind}: {name} has shape {bad[name].shape}, the others {(F, C, R)}: declares {tuple(s)}, evaluates to {L.shape[1:]}")


def probe_outer(ctx):
    """Outer product of inputs with different feature counts."""
    from spflow.modules.products import OuterProduct

    vs = [Var("bernoulli") for _ in range(3)]
    a, b = leaf(ctx.rng, [0, 1], vs, 2, 1), leaf(ctx.rng, [2], vs, 2, 1)
    D = mon.domain(vs)
    m, L = evaluate(ctx, lambda: OuterProduct([a.m, b.m]), D)
    if m is not None:
        sound(ctx, m, L, D, None, "OuterProduct of 2 and 1 features", mech="outer-feature-broadcast")


def probe_groups(ctx):
    """Mixture of inputs over the same variables, grouped differently into features."""
    from spflow.modules.ops.cat import Cat
    from spflow.modules.products import Product
    from spflow.modules.sums import Sum

    vs = [Var("bernoulli") for _ in range(3)]
    ins = [Cat([Product(leaf(ctx.rng, a, vs, 1, 1).m), Product(leaf(ctx.rng, b, vs, 1, 1).m)], dim=1) for a, b in (([0], [1, 2]), ([1], [0, 2]))]
    D = mon.domain(vs)
    m, L = evaluate(ctx, lambda: Sum(inputs=ins, out_channels=1), D)
    if m is not None:
        sound(ctx, m, L, D, None, "Sum of features {0},{1,2} and {1},{0,2}", mech="mixture-feature-groups")


def f_repmix(ctx):
    """Sums over inputs with another number of repetitions: refused, or every value a mixture of the input's."""
    import torch

    from spflow.modules.leaves import Categorical
    from spflow.modules.sums import ElementwiseSum, RepetitionMixingLayer, Sum

    rng = ctx.rng
    Ri, R, C, S = int(rng.integers(1, 4)), int(rng.integers(1, 4)), int(rng.integers(1, 3)), int(rng.integers(2, 4))
    kind = ["mix", "mix", "sum", "elem"][ctx.idx % 4]
    mk = lambda: Categorical(scope=[0], out_channels=C, num_repetitions=Ri, K=S)  # noqa: E731
    weights = rng.random() < 0.3
    W = rng.dirichlet(np.ones(R), C) if kind == "mix" else rng.dirichlet(np.ones(C), (1, R)).transpose(0, 2, 1)[:, :, None]
    ctx.key("repmix", kind, Ri, R, C, weights)
    ctx.note(f"{kind} with {R} repetitions over an input with {Ri}, C={C}, weights given: {weights}")
    X = torch.arange(S).float()[:, None]
    try:
        if kind == "mix":
            m = RepetitionMixingLayer(mk(), weights=torch.tensor(W).float()) if weights else RepetitionMixingLayer(mk(), out_channels=C, num_repetitions=R)
        elif kind == "sum":
            m = Sum(mk(), weights=torch.tensor(W).float()) if weights else Sum(mk(), out_channels=2, num_repetitions=R)
        else:
            m = ElementwiseSum([mk(), mk()], out_channels=1, num_repetitions=R)
        with torch.no_grad():
            L = m.log_likelihood(X).double().numpy()
    except Exception:  # noqa: BLE001
        ctx.check(Ri not in (1, R) or kind == "elem" and Ri != R, f"{kind} with {R} repetitions over an input with {Ri} is refused")
        ctx.count("rejected")
        return
    Z = np.exp(L).sum(0)
    ctx.close(Z, np.ones_like(Z), f"{kind} with {R} repetitions over an input with {Ri}: mass of every channel", 0, 1e-4)


def probe_reps(ctx):
    """Sums over inputs with repetitions, declared with one."""
    from spflow.modules.sums import RepetitionMixingLayer, Sum

    vs = [Var("bernoulli")]
    a = leaf(ctx.rng, [0], vs, 2, 2)
    D = mon.domain(vs)
    ctx.mech = "repetition-metadata"
    for what, f in (("Sum with num_repetitions=1 over 2 repetitions", lambda: Sum(inputs=a.m, out_channels=2)),
                    ("RepetitionMixingLayer", lambda: RepetitionMixingLayer(a.m, out_channels=2, num_repetitions=2))):
        m, L = evaluate(ctx, f, D)
        if m is not None:
            sound(ctx, m, L, D, None, what, mech="repetition-metadata")


def probe_split_meta(ctx):
    """Feature scopes of products over a split."""
    from spflow.modules.ops import SplitInterleaved
    from spflow.modules.products import ElementwiseProduct, OuterProduct

    vs = [Var("bernoulli") for _ in range(4)]
    x = leaf(ctx.rng, [0, 1, 2, 3], vs, 2, 1)
    D = mon.domain(vs)
    for f in (lambda: ElementwiseProduct(SplitInterleaved(x.m, num_splits=2)), lambda: OuterProduct(SplitInterleaved(x.m, num_splits=2))):
        m = f()
        sound(ctx, m, mon.ll(m, D), D, None, type(m).__name__ + " over an interleaved split", mech="split-scope-metadata", fs=[{0, 1}, {2, 3}], meta=True)


def f_latent(ctx):
    """Joint convolutional circuits with a latent branch: every node of the branch reacts to the variables it declares, and no others."""
    from spflow.modules.module import Module
    from spmon.checks import c27

    rng = ctx.rng
    q = c27._encoder(ctx, xk=("normal",), zk=("normal",), conv=True)
    row = np.round(rng.normal(size=(1, q.nx + q.nz)), 2)
    D = np.concatenate([row] + [row + 0.0 for _ in range(q.nx + q.nz)])
    for j in range(q.nx + q.nz):
        D[1 + j, j] += rng.choice([-1.5, 1.5])
    seen = 0
    for m in q.e.pc.modules():
        if not isinstance(m, Module) or not type(m).__module__.startswith("spflow.zoo.apc"):
            continue
        L = mon.ll(m, D)
        s, f2s = m.out_shape, m.feature_to_scope
        ctx.check(L.shape[1:] == (s.features, s.channels, s.repetitions), f"{type(m).__name__}: evaluates to {L.shape[1:]}, declares {tuple(s)}")
        ctx.check(f2s.shape == (s.features, s.repetitions), f"{type(m).__name__}: feature_to_scope of shape {f2s.shape}")
        dep = np.abs(L[1:] - L[:1]).max(2) > 1e-7
        for f in range(s.features):
            for r in range(s.repetitions):
                got = set(int(v) for v in np.nonzero(dep[:, f, r])[0])
                ctx.check(got == set(f2s[f, r].query), f"{type(m).__name__}: feature {f} of repetition {r} reacts to variables {sorted(got)}, declares {sorted(f2s[f, r].query)}")
        seen += 1
    ctx.count("latent_nodes", seen)


FAMILIES = [
    Family("combine", f_combine, 540, 9000, timeout=60),
    Family("split", f_split, 60, 1500, timeout=60),
    Family("nest", f_nest, 30, 600, timeout=60),
    Family("zoo", f_zoo, 20, 200, timeout=60),
    Family("params", f_params, 26, 260, timeout=60),
    Family("short", f_short, 44, 440, timeout=60),
    Family("enlarge", f_enlarge, 24, 240, timeout=60),
    Family("repmix", f_repmix, 40, 400, timeout=60),
    Family("latent", f_latent, 24, 300, timeout=60),
    Family("scopetypes", f_scopetypes, 12, 100, timeout=60),
    Family("probe_outer", probe_outer, 1, 1, probe=True),
    Family("probe_groups", probe_groups, 1, 1, probe=True),
    Family("probe_reps", probe_reps, 1, 1, probe=True),
    Family("probe_split_meta", probe_split_meta, 1, 1, probe=True),
]
