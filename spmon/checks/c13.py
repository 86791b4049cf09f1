"""C13: Chow-Liu trees are optimal, top-k enumeration is exact, HCLTs follow the learned trees."""
import itertools

import numpy as np
import torch

from spmon import mon, zoo
from spmon.circ import Var, t
from spmon.runner import Family, Skip

PID = "C13"
RULE = "distinct = distinct problem (number of variables, categories, weighting, smoothing, number of trees, direction) whose trees were compared with the exhaustive enumeration of all spanning trees"
ASSUMPTIONS = ["all spanning trees of up to six vertices are enumerated through Pruefer sequences"]

_TREES = {}


def all_trees(n):
    """All labelled trees on n vertices as sorted edge tuples (Pruefer decoding)."""
    if n in _TREES:
        return _TREES[n]
    out = []
    if n == 1:
        out = [()]
    elif n == 2:
        out = [((0, 1),)]
    else:
        for seq in itertools.product(range(n), repeat=n - 2):
            deg = [1 + seq.count(i) for i in range(n)]
            e = []
            for a in seq:
                b = next(i for i in range(n) if deg[i] == 1)
                e.append((min(a, b), max(a, b)))
                deg[a] -= 1
                deg[b] -= 1
            u = [i for i in range(n) if deg[i] == 1]
            e.append((u[0], u[1]))
            out.append(tuple(sorted(e)))
    _TREES[n] = out
    return out


def is_tree(n, edges):
    lab = list(range(n))
    for a, b in edges:
        if not (0 <= a < n and 0 <= b < n) or lab[a] == lab[b]:
            return False
        lab = [lab[a] if q == lab[b] else q for q in lab]
    return len(edges) == n - 1


def total(W, edges):
    return float(sum(W[a, b] for a, b in edges))


def _data(rng, n, K, N):
    vs = [Var("categorical", K=K)] * n
    return zoo.rand_table_data(rng, vs, N).astype(int)


def ref_joint(X, w, K, pc):
    """Smoothed pairwise distribution tables (pc spread over the K*K cells)."""
    N, n = X.shape
    Z = w.sum() + pc
    P = np.zeros((n, n, K, K))
    for i in range(n):
        for j in range(n):
            T = np.zeros((K, K))
            np.add.at(T, (X[:, i], X[:, j]), w)
            T += pc / K / K if i != j else np.eye(K) * (pc / K)
            P[i, j] = T / Z
    return P


def ref_mi(P):
    n, K = P.shape[0], P.shape[2]
    M = np.zeros((n, n))
    for i in range(n):
        for j in range(n):
            p = P[i, j]
            a, b = np.diag(P[i, i]), np.diag(P[j, j])
            q = a[:, None] * b[None]
            M[i, j] = float((p[p > 0] * (np.log(p[p > 0]) - np.log(q[p > 0]))).sum())
    return M


# ------------------------------------------------------------------ families
def f_mi(ctx):
    from spflow.zoo.hclt.mi import pairwise_marginal_binary, pairwise_mi_binary, pairwise_mi_categorical

    rng = ctx.rng
    binary = rng.random() < 0.5
    n, K, N = int(rng.integers(1, 7)), 2 if binary else int(rng.integers(2, 5)), int(rng.integers(1, 150))
    X = _data(rng, n, K, N)
    if rng.random() < 0.2:
        X[:, 0] = 0
    if n > 1 and rng.random() < 0.2:
        X[:, 1] = X[:, 0]
    pc = float(rng.choice([0.0, 0.5, 1.0, 5.0]))
    kind = ["none", "ones", "real", "zeros"][int(rng.integers(4))]
    w = np.ones(N) if kind in ("none", "ones") else rng.gamma(1, 1, N) + 0.01
    if kind == "zeros":
        w[rng.random(N) < 0.5] = 0
        w[0] = 1.0
    if kind in ("real", "zeros"):
        w = w * float(rng.choice([1.0, 0.05, 30.0]))
    W = None if kind == "none" else torch.tensor(w)
    ctx.note(f"mi binary={binary} n={n} K={K} N={N} pc={pc} weights={kind}")
    ctx.key("mi", binary, n, K, N > 20, pc, kind)
    # documented: the categorical estimator scales the pseudo-count with the total weight, the binary one adds it as it is
    P = ref_joint(X, w, K, pc if binary else pc * w.sum() / N)
    M = ref_mi(P)
    T = torch.tensor(X)
    if binary:
        T = [T, T.bool(), T.float(), T.double()][int(rng.integers(4))]
        got = pairwise_mi_binary(T, weights=W, pseudocount=pc).numpy()
        pm = pairwise_marginal_binary(T, weights=W, pseudocount=pc).numpy()
        ctx.close(pm.reshape(n, n, 2, 2), P, "pairwise_marginal_binary", rtol=1e-6, atol=1e-9)
    else:
        T = [T, T.float()][int(rng.integers(2))]
        nc = K if rng.random() < 0.7 or X.max() + 1 != K else None
        kw = {"num_cats": nc}
        if rng.random() < 0.5:
            kw["chunk_size_pairs"] = int(rng.integers(1, 8))
        got = pairwise_mi_categorical(T, weights=W, pseudocount=pc, **kw).numpy()
    ctx.count("mi_values", got.size)
    ctx.close(got, M, "mutual information", rtol=1e-6, atol=1e-8)
    ctx.close(got, got.T, "symmetry of the mutual information", rtol=0, atol=1e-12)


def f_mst(ctx):
    from spflow.zoo.hclt.topk_mst import kruskal_mst_complete, topk_mst

    rng = ctx.rng
    n = int(rng.integers(1, 7))
    W = rng.normal(0, 1, (n, n))
    style = ["real", "ties", "ints", "positive"][int(rng.integers(4))]
    if style in ("ties", "ints"):
        W = rng.integers(-2, 3, (n, n)).astype(float)
    W = np.triu(W, 1)
    W = W + W.T
    if style == "positive":
        W = np.abs(W)
    mini = rng.random() < 0.6
    Wi = W.astype(int) if style == "ints" and rng.random() < 0.5 else W
    trees = all_trees(n)
    tot = np.sort([total(W, e) for e in trees])
    if not mini:
        tot = tot[::-1]
    k = int(rng.integers(1, min(len(trees) + 3, 60)))
    ctx.note(f"mst n={n} {style} minimize={mini} k={k}")
    ctx.key("mst", n, style, mini, k)
    keep = Wi.copy()
    one = kruskal_mst_complete(Wi, minimize=mini)
    ctx.check(is_tree(n, one), f"kruskal_mst_complete returned {one}, no spanning tree")
    ctx.close(total(W, one), tot[0], "weight of the spanning tree against the best of all trees", rtol=0, atol=1e-9)
    got = topk_mst(Wi, num_trees=k, minimize=mini)
    ctx.check((Wi == keep).all(), "topk_mst changed the weights")
    ctx.check(len(got) == min(k, len(trees)), f"topk_mst returned {len(got)} of {min(k, len(trees))} trees")
    canon = [tuple(sorted((min(a, b), max(a, b)) for a, b in e)) for e in got]
    ctx.check(all(is_tree(n, e) for e in canon), "topk_mst returned an edge set that is no spanning tree")
    ctx.check(len(set(canon)) == len(canon), "topk_mst returned the same tree twice")
    ctx.count("trees_enumerated", len(trees))
    ctx.count("trees_compared", len(canon))
    ctx.close(np.array([total(W, e) for e in canon]), tot[: len(canon)], "weights of the top-k trees in order", rtol=0, atol=1e-9)
    if n > 2 and rng.random() < 0.5:
        d = topk_mst(W, num_trees=min(k, 5), minimize=mini, dropout_prob=float(rng.uniform(0.1, 0.9)), rng=np.random.default_rng(int(rng.integers(1000))))
        ctx.check(1 <= len(d) <= k and all(is_tree(n, e) for e in d), "dropout: no spanning trees")
        c = [tuple(sorted(tuple(sorted(q)) for q in e)) for e in d]
        ctx.check(len(set(c)) == len(c), "dropout: the same tree twice")


def f_constraints(ctx):
    from spflow.zoo.hclt.topk_mst import mst_with_constraints

    rng = ctx.rng
    n = int(rng.integers(2, 6))
    W = np.triu(rng.normal(0, 1, (n, n)), 1)
    W = W + W.T
    mini = rng.random() < 0.6
    pairs = [(i, j) for i in range(n) for j in range(i + 1, n)]
    rng.shuffle(pairs)
    a, b = int(rng.integers(0, 3)), int(rng.integers(0, 3))
    inc = [tuple(int(x) for x in (p if rng.random() < 0.5 else p[::-1])) for p in pairs[:a]]
    exc = [tuple(int(x) for x in (p if rng.random() < 0.5 else p[::-1])) for p in pairs[a:a + b]]
    ci, ce = {tuple(sorted(e)) for e in inc}, {tuple(sorted(e)) for e in exc}
    ok = [e for e in all_trees(n) if ci <= set(e) and not ce & set(e)]
    got, tot = mst_with_constraints(W, inc, exc, reuse=np.empty_like(W), minimize=mini)
    ctx.note(f"constraints n={n} inc={inc} exc={exc} minimize={mini}")
    ctx.key("con", n, len(inc), len(exc), mini, bool(ok))
    if not ok:
        ctx.check(got is None, f"a tree {got} although no spanning tree satisfies the constraints")
        return
    ctx.check(got is not None, "no tree although the constraints can be satisfied")
    e = tuple(sorted(tuple(sorted(q)) for q in got))
    ctx.check(e in ok, f"{e} violates the constraints or is no tree")
    best = (min if mini else max)(total(W, q) for q in ok)
    ctx.close(np.array([total(W, e), tot]), np.array([best, best]), "weight of the constrained spanning tree", rtol=0, atol=1e-9)


def _edges_of(parents):
    return tuple(sorted((min(i, p), max(i, p)) for i, p in enumerate(parents) if p >= 0))


def f_cltree(ctx):
    """The tree a CLTree leaf learns maximises the (weighted) log-likelihood over all trees."""
    from spflow.meta.data.scope import Scope
    from spflow.modules.leaves import CLTree

    rng = ctx.rng
    n, K = int(rng.integers(2, 6)), int(rng.integers(2, 4))
    N = int(rng.integers(30, 200))
    X = _data(rng, n, K, N)
    extra = int(rng.integers(0, 3))
    cols = np.sort(rng.permutation(n + extra)[:n])
    full = rng.normal(0, 1, (N, n + extra))
    full[:, cols] = X
    C, R = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    alpha = 1e-4 if rng.random() < 0.6 else float(rng.choice([0.5, 2.0]))
    w = np.ones(N)
    style = ["none", "int", "real", "missing"][int(rng.integers(4))]
    if style == "int":
        w = rng.integers(0, 4, N).astype(float)
        w[0] = 1
    elif style == "real":
        w = rng.gamma(1, 1, N) + 0.01
    if style == "missing":
        rows = rng.random(N) < 0.2
        full[rows, cols[0]] = np.nan
        w[rows] = 0
    W = None if style in ("none", "missing") else torch.tensor(np.broadcast_to(w[:, None, None, None], (N, n, C, R)).copy(), dtype=torch.float32)
    ctx.note(f"cltree n={n} K={K} N={N} alpha={alpha} weights={style} cols={cols.tolist()}/{n + extra}")
    ctx.key("cltree", n, K, C, R, alpha, style)
    m = CLTree(scope=Scope([int(c) for c in cols]), out_channels=C, num_repetitions=R, K=K, alpha=alpha)
    if style == "none" and rng.random() < 0.5:
        m.fit_structure(t(full))
    m.maximum_likelihood_estimation(t(full), weights=W, nan_strategy="ignore")
    par = m.parents.tolist()
    e = _edges_of(par)
    ctx.check(is_tree(n, e) and par.count(-1) == 1, f"learned parents {par} are no tree")
    for o, rev in ((m.pre_order.tolist(), False), (m.post_order.tolist(), True)):
        pos = {v: i for i, v in enumerate(o)}
        ctx.check(sorted(o) == list(range(n)), f"order {o}")
        ctx.check(all((pos[p] > pos[i]) if rev else (pos[p] < pos[i]) for i, p in enumerate(par) if p >= 0), f"order {o} does not fit parents {par}")
    ww = w * ((w > 0).sum() if style == "missing" else N) / w.sum()
    P = ref_joint(X, ww, K, alpha * K * K)
    M = ref_mi(P)
    trees = all_trees(n)
    best = max(total(M, q) for q in trees)
    ctx.count("trees_enumerated", len(trees))
    ctx.close(total(M, e), best, f"total mutual information of the learned tree {e} against the best of {len(trees)} trees", rtol=0, atol=1e-6)
    if alpha < 1e-3 and style != "missing":
        L = mon.ll(m, full)[:, 0, 0, 0]
        mine = float((ww * L).sum())
        for q in [trees[int(i)] for i in rng.integers(0, len(trees), 4)]:
            pr = np.full(n, -1)
            todo = [0]
            while todo:
                a = todo.pop()
                for x, y in q:
                    for u, v in ((x, y), (y, x)):
                        if u == a and pr[v] < 0 and v != 0 and pr[a] != v:
                            pr[v] = a
                            todo.append(v)
            alt = CLTree(scope=Scope([int(c) for c in cols]), out_channels=1, K=K, alpha=alpha, parents=torch.tensor(pr))
            W1 = None if W is None else W[:, :, :1, :1]
            alt.maximum_likelihood_estimation(t(full), weights=W1)
            other = float((ww * mon.ll(alt, full)[:, 0, 0, 0]).sum())
            ctx.count("trees_fitted")
            ctx.check(mine >= other - 1e-2 - 1e-4 * abs(other), f"tree {q} explains the training data better ({other}) than the learned {e} ({mine})")


def _skeleton(ctx, m, H, n, what):
    """Recover the tree over the observed variables from one learned HCLT and check the channel counts."""
    from spflow.modules.leaves.leaf import LeafModule
    from spflow.modules.products import ElementwiseProduct
    from spflow.modules.sums import Sum

    ctx.check(isinstance(m, Sum) and m.out_shape.channels == 1, f"{what}: root is {type(m).__name__} with {m.out_shape.channels} channels")
    edges, seen = [], []

    def kids(q):
        k = q.inputs
        return list(k) if isinstance(k, (list, torch.nn.ModuleList)) else [k]

    def node(q, parent):
        ctx.check(q.out_shape.channels == H, f"{what}: a node has {q.out_shape.channels} channels instead of {H} hidden categories")
        if isinstance(q, LeafModule):
            parts = [q]
        else:
            ctx.check(isinstance(q, ElementwiseProduct), f"{what}: unexpected {type(q).__name__}")
            parts = kids(q)
        em = [p for p in parts if isinstance(p, LeafModule)]
        tr = [p for p in parts if not isinstance(p, LeafModule)]
        ctx.check(len(em) == 1 and len(em[0].scope.query) == 1, f"{what}: a node with {len(em)} emissions")
        v = int(em[0].scope.query[0])
        seen.append(v)
        if parent is not None:
            edges.append((min(v, parent), max(v, parent)))
        for s in tr:
            ctx.check(isinstance(s, Sum) and s.out_shape.channels == H, f"{what}: transition with {s.out_shape.channels} output channels instead of {H}")
            node(kids(s)[0], v)

    node(kids(m)[0], None)
    ctx.check(sorted(seen) == list(range(n)), f"{what}: variables {sorted(seen)}")
    return tuple(sorted(edges))


def f_hclt(ctx):
    from spflow.modules.sums import Sum
    from spflow.zoo.hclt import learn_hclt_binary, learn_hclt_categorical
    from spflow.zoo.hclt.chow_liu import learn_chow_liu_tree_binary, learn_chow_liu_tree_categorical, learn_chow_liu_trees_binary, learn_chow_liu_trees_categorical

    rng = ctx.rng
    binary = rng.random() < 0.5
    n, K, N, H = int(rng.integers(2, 6)), 2 if binary else int(rng.integers(2, 5)), int(rng.integers(20, 150)), int(rng.integers(1, 5))
    X = _data(rng, n, K, N)
    X[0], X[1] = 0, K - 1
    k = int(rng.integers(1, 5))
    pc = float(rng.choice([0.0, 0.5, 1.0, 3.0]))
    weighted = rng.random() < 0.4
    w = np.ones(N)
    if weighted:
        w = (rng.gamma(1, 1, N) + 0.01) * float(rng.choice([1.0, 0.05, 30.0]))
    W = torch.tensor(w) if weighted else None
    init = "uniform" if rng.random() < 0.5 else "random"
    ctx.note(f"hclt binary={binary} n={n} K={K} N={N} H={H} trees={k} pc={pc} weighted={weighted} init={init}")
    ctx.key("hclt", binary, n, K, H, k, pc, weighted, init)
    M = ref_mi(ref_joint(X, w, K, pc if binary else pc * w.sum() / N))
    trees = all_trees(n)
    tot = np.sort([total(M, e) for e in trees])[::-1]
    kw = dict(weights=W, pseudocount=pc)
    if not binary:
        kw["num_cats"] = K if rng.random() < 0.5 else None
    got = (learn_chow_liu_trees_binary if binary else learn_chow_liu_trees_categorical)(torch.tensor(X), num_trees=k, **kw)
    one = (learn_chow_liu_tree_binary if binary else learn_chow_liu_tree_categorical)(torch.tensor(X), **kw)
    kk = min(k, len(trees))
    ctx.check(len(got) == kk and all(is_tree(n, e) for e in got) and is_tree(n, one), f"{len(got)} Chow-Liu trees instead of {kk}")
    ctx.close(np.array([total(M, e) for e in got]), tot[:kk], "total mutual information of the Chow-Liu trees", rtol=0, atol=1e-7)
    ctx.close(total(M, one), tot[0], "total mutual information of the Chow-Liu tree", rtol=0, atol=1e-7)
    m = (learn_hclt_binary if binary else learn_hclt_categorical)(t(X), num_hidden_cats=H, num_trees=k, init=init, **kw)
    parts = [m]
    if kk > 1:
        ctx.check(isinstance(m, Sum), f"a mixture of {kk} trees is a {type(m).__name__}")
        q = m.inputs
        from spflow.modules.ops.cat import Cat

        q = list(q.inputs) if isinstance(q, Cat) else list(q)
        parts = q
        wt = m.weights.detach().numpy().reshape(-1)
        ctx.check(len(parts) == kk and len(wt) == kk, f"{len(parts)} components instead of {kk}")
        if init == "uniform":
            ctx.close(wt, np.full(kk, 1 / kk), "mixture weights of the trees", rtol=0, atol=1e-6)
    es = [_skeleton(ctx, p, H, n, "HCLT") for p in parts]
    ctx.check(all(is_tree(n, e) for e in es) and len(set(es)) == len(es), f"HCLT skeletons {es}")
    ctx.close(np.array([total(M, e) for e in es]), tot[:kk], "total mutual information of the HCLT skeletons", rtol=0, atol=1e-7)
    if K ** n <= 700:
        vs = [Var("categorical", K=K)] * n
        mon.check_normalized(ctx, m, vs, "HCLT")


def f_reject(ctx):
    from spflow.zoo.hclt import learn_hclt_binary, learn_hclt_categorical
    from spflow.zoo.hclt.mi import pairwise_mi_binary, pairwise_mi_categorical
    from spflow.zoo.hclt.topk_mst import kruskal_mst_complete, topk_mst
    from spflow.meta.data.scope import Scope
    from spflow.modules.leaves import CLTree

    rng = ctx.rng
    X = t(rng.integers(0, 2, (20, 3)))
    nan = X.clone()
    nan[2, 1] = float("nan")
    big = X.clone()
    big[3, 0] = 5
    neg = X.clone()
    neg[3, 0] = -1
    half = X.clone()
    half[3, 0] = 0.5
    cl = lambda **k: CLTree(scope=Scope([0, 1, 2]), K=2, **k)  # noqa: E731

    def cyc():
        m = cl(parents=torch.tensor([-1, 2, 1]))
        return m.log_likelihood(X)

    cases = [
        ("binary NaN", lambda: learn_hclt_binary(nan, num_hidden_cats=2)),
        ("categorical NaN", lambda: learn_hclt_categorical(nan, num_hidden_cats=2)),
        ("categorical value too large", lambda: learn_hclt_categorical(big, num_hidden_cats=2, num_cats=3)),
        ("categorical negative value", lambda: learn_hclt_categorical(neg, num_hidden_cats=2, num_cats=3)),
        ("no hidden categories", lambda: learn_hclt_binary(X, num_hidden_cats=0)),
        ("no trees", lambda: learn_hclt_binary(X, num_hidden_cats=2, num_trees=0)),
        ("negative pseudocount", lambda: learn_hclt_categorical(X, num_hidden_cats=2, pseudocount=-1.0)),
        ("negative pseudocount binary", lambda: learn_hclt_binary(X, num_hidden_cats=2, pseudocount=-1.0)),
        ("unknown init", lambda: learn_hclt_binary(X, num_hidden_cats=2, init="x")),
        ("unknown init categorical", lambda: learn_hclt_categorical(X, num_hidden_cats=2, init="x")),
        ("1-D data", lambda: learn_hclt_binary(X[:, 0], num_hidden_cats=2)),
        ("weights of the wrong length", lambda: pairwise_mi_binary(X, weights=torch.ones(3))),
        ("infinite weights", lambda: pairwise_mi_categorical(X, weights=torch.full((20,), float("inf")))),
        ("no mass", lambda: pairwise_mi_binary(X, weights=torch.zeros(20))),
        ("dropout 1", lambda: topk_mst(np.ones((3, 3)), num_trees=2, dropout_prob=1.0)),
        ("no MST trees", lambda: topk_mst(np.ones((3, 3)), num_trees=0)),
        ("non-square", lambda: topk_mst(np.ones((3, 2)))),
        ("NaN weights", lambda: kruskal_mst_complete(np.full((3, 3), np.nan))),
        ("CLTree NaN structure data", lambda: cl().fit_structure(nan)),
        ("CLTree value too large", lambda: cl().fit_structure(big)),
        ("CLTree fraction", lambda: cl().fit_structure(half)),
        ("CLTree negative", lambda: cl().fit_structure(neg)),
        ("CLTree without structure", lambda: cl().log_likelihood(X)),
        ("CLTree sampling without structure", lambda: cl().sample(3)),
        ("CLTree cyclic parents", cyc),
        ("CLTree two roots", lambda: cl(parents=torch.tensor([-1, -1, 0]))),
        ("CLTree parent out of range", lambda: cl(parents=torch.tensor([-1, 3, 0]))),
        ("CLTree parents of the wrong length", lambda: cl(parents=torch.tensor([-1, 0]))),
        ("CLTree alpha 0", lambda: cl(alpha=0.0)),
        ("CLTree K 1", lambda: CLTree(scope=Scope([0, 1]), K=1)),
        ("CLTree one variable", lambda: CLTree(scope=Scope([0]), K=2)),
    ]
    nm, fn = cases[int(rng.integers(len(cases)))]
    ctx.note(nm)
    ctx.key("reject", nm)
    try:
        fn()
    except (ValueError, TypeError, RuntimeError):
        ctx.count("rejections")
        return
    ctx.fail(f"{nm} was accepted")


FAMILIES = [
    Family("mi", f_mi, 400, 6000),
    Family("mst", f_mst, 500, 8000),
    Family("constraints", f_constraints, 400, 6000),
    Family("cltree", f_cltree, 260, 4000),
    Family("hclt", f_hclt, 260, 4000),
    Family("reject", f_reject, 150, 400),
]
_ = Skip
