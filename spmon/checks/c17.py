"""C17: queries are pure - per row, repeatable, without side effects, reentrant, and linear in the size of a DAG."""
import gc
import io
import sys
import threading

import numpy as np

from spmon import circ, leafref as lr, mon, zoo
from spmon.circ import Var, t
from spmon.runner import Family, Skip
from spmon.checks import common

PID = "C17"
RULE = "distinct = distinct circuit signature / zoo configuration together with the sequence of queries run on it"
ASSUMPTIONS = ["sampling functions may fill the missing entries of the tensor they are given (documented); nothing else of the caller's may change",
               "values of one row are compared across batches with tolerance 2e-5 (floating-point summation order may differ)"]
ZOO = ["rat", "einet", "convpc", "hclt", "cltree", "naive_bayes", "cnet", "learn_spn", "prometheus", "cms"]


def some_model(ctx):
    rng = ctx.rng
    r = rng.random()
    if r < 0.35:
        node, vs = circ.random_circuit(rng, sampleable=True)
        ctx.key("ast", node.sig())
        ctx.note(node.describe()[:300])
        return node.build(), vs, "random circuit"
    if r < 0.55:
        node, vs = circ.random_circuit(rng, n=int(rng.integers(1, 5)), families=circ.CONTINUOUS + circ.COUNTS + ["bernoulli", "categorical"], sampleable=True)
        ctx.key("mixed", node.sig())
        ctx.note(node.describe()[:300])
        return node.build(), vs, "mixed circuit"
    name = ZOO[int(rng.integers(len(ZOO)))]
    z = common.model(ctx, name)
    return z.m, z.vs, name


def data(rng, vs, n, missing=0.3):
    return circ.rand_data(rng, vs, n, missing=missing)


def evidence(rng, m, vs, n, missing=0.5):
    """Partial rows of positive probability (conditioning on an impossible row is undefined)."""
    E = data(rng, vs, n, missing)
    E[~np.isfinite(mon.ll(m, E)).reshape(n, -1).all(1)] = np.nan
    return E


def same(ctx, a, b, what):
    ctx.close(a, b, what, rtol=2e-5, atol=2e-5)


def f_rows(ctx):
    """The value of a row depends on that row only."""
    rng = ctx.rng
    m, vs, name = some_model(ctx)
    n = int(rng.integers(2, 14))
    X = data(rng, vs, n)
    if rng.random() < 0.5:
        X[int(rng.integers(n))] = np.nan
    L = mon.ll(m, X)
    ctx.check(L.shape[0] == n, f"{name}: {L.shape[0]} results for {n} rows")
    p = rng.permutation(n)
    same(ctx, mon.ll(m, X[p]), L[p], f"{name}: log-likelihoods after reordering the rows")
    for i in rng.choice(n, size=min(n, 4), replace=False):
        same(ctx, mon.ll(m, X[i:i + 1]), L[i:i + 1], f"{name}: row {X[i].tolist()} alone and within a batch of {n}")
    i = int(rng.integers(n))
    same(ctx, mon.ll(m, np.repeat(X[i:i + 1], 3, 0)), np.repeat(L[i:i + 1], 3, 0), f"{name}: a repeated row")
    c = int(rng.integers(1, n))
    same(ctx, np.concatenate([mon.ll(m, X[:c]), mon.ll(m, X[c:])]), L, f"{name}: batch cut at row {c}")
    # other rows, whatever they hold, do not matter
    Y = data(rng, vs, n, missing=float(rng.choice([0.0, 0.5, 1.0])))
    Z = np.concatenate([Y, X, Y[:1]])
    same(ctx, mon.ll(m, Z)[n:2 * n], L, f"{name}: rows among other rows")
    ctx.check(mon.ll(m, X[:0]).shape == (0,) + L.shape[1:], f"{name}: an empty batch")
    # layout of the tensor does not matter
    import torch

    x = mon.tt(X)
    with torch.no_grad():
        wide = torch.full((n, 2 * x.shape[1]), 7.0)
        wide[:, ::2] = x
        same(ctx, m.log_likelihood(wide[:, ::2]).numpy(), L, f"{name}: strided view of the data")
        same(ctx, m.log_likelihood(x.t().contiguous().t()).numpy(), L, f"{name}: column-major data")
        same(ctx, m(x).numpy(), L, f"{name}: forward()")
        same(ctx, m.probability(x).numpy(), np.exp(L), f"{name}: probability()")
    with torch.enable_grad():
        same(ctx, m.log_likelihood(x).detach().numpy(), L, f"{name}: with gradients enabled")
    ctx.count("rows_compared", 6 * n)


def snap(m):
    return {k: v.detach().clone() for k, v in m.state_dict().items()}, [(p.requires_grad, None if p.grad is None else p.grad.clone()) for p in m.parameters()], \
        [(type(q).__name__, q.training) for q in m.modules()]


def unchanged(ctx, m, before, what):
    import torch

    sd, req, tr = before
    now, req2, tr2 = snap(m)
    ctx.check(list(now) == list(sd), f"{what}: changed the set of stored tensors")
    for k in sd:
        ctx.check(now[k].dtype == sd[k].dtype and now[k].shape == sd[k].shape and torch.equal(torch.nan_to_num(now[k].double(), nan=1e30), torch.nan_to_num(sd[k].double(), nan=1e30)),
                  f"{what}: changed {k}")
    ctx.check([a for a, _ in req] == [a for a, _ in req2], f"{what}: changed requires_grad")
    ctx.check(all((g is None) == (h is None) and (g is None or torch.equal(g, h)) for (_, g), (_, h) in zip(req, req2)), f"{what}: changed gradients")
    ctx.check(tr == tr2, f"{what}: changed training flags or the module tree")


def f_history(ctx):
    """A random history of queries leaves model, inputs and settings untouched, and every query keeps its answer."""
    import torch

    rng = ctx.rng
    m, vs, name = some_model(ctx)
    D = len(vs)
    X = data(rng, vs, 7)
    x = mon.tt(X)
    if rng.random() < 0.5:
        m.eval() if rng.random() < 0.5 else m.train()
    if rng.random() < 0.3:
        for p in m.parameters():
            if rng.random() < 0.3:
                p.requires_grad_(False)
    L = mon.ll(m, X)
    E = evidence(rng, m, vs, 5)
    mp = None
    before = snap(m)
    dt, gr = torch.get_default_dtype(), torch.is_grad_enabled()
    ops = []
    for _ in range(8 if ctx.tier == "quick" else 16):
        op = str(rng.choice(["ll", "ll_grad", "forward", "prob", "sample", "swe", "mpe", "mpe_n", "marg", "str", "stats", "scope", "sample_data"]))
        ops.append(op)
        what = f"{name} after {'>'.join(ops)}"
        if op in ("ll", "ll_grad", "forward", "prob"):
            y = x.clone()
            with torch.set_grad_enabled(op == "ll_grad"):
                out = {"ll": m.log_likelihood, "ll_grad": m.log_likelihood, "forward": m, "prob": m.probability}[op](y)
            ctx.check(torch.equal(torch.nan_to_num(y, nan=1e30), torch.nan_to_num(x, nan=1e30)), f"{what}: the data were changed")
            same(ctx, out.detach().numpy(), np.exp(L) if op == "prob" else L, f"{what}: value")
        elif op == "sample":
            s = m.sample(num_samples=4)
            ctx.check(tuple(s.shape) == (4, D) and torch.isfinite(s).all(), f"{what}: sample {tuple(s.shape)}")
        elif op in ("swe", "sample_data"):
            e = mon.tt(E)
            keep = e.clone()
            s = m.sample_with_evidence(e) if op == "swe" else m.sample(data=e)
            ob = ~torch.isnan(keep)
            ctx.check(torch.equal(s[ob], keep[ob]) and torch.equal(e[ob], keep[ob]), f"{what}: observed entries were changed")
            ctx.check(not torch.isnan(s).any(), f"{what}: entries left missing")
        elif op == "mpe":
            s = m.mpe(data=mon.tt(E)).detach().numpy()
            if mp is not None:
                ctx.check(np.array_equal(s, mp), f"{what}: MPE answer changed")
            mp = s
        elif op == "mpe_n":
            a, b = m.mpe(num_samples=2).detach().numpy(), m.mpe(num_samples=1).detach().numpy()
            ctx.check(np.array_equal(a[0], a[1]) and np.array_equal(a[:1], b), f"{what}: unconditional MPE answers differ")
        elif op == "marg":
            if name in ("einet", "cltree", "cnet", "hclt", "convpc", "cms", "rat", "naive_bayes") or "einsum" in str(ctx.desc) or "linsum" in str(ctx.desc):
                continue  # structural marginals of these are judged (and their findings recorded) by C04
            try:
                m.marginalize([int(rng.integers(D))])
            except NotImplementedError:
                pass
        elif op == "str":
            s = m.to_str()
            ctx.check(isinstance(s, str) and s == m.to_str(), f"{what}: to_str differs between calls")
        elif op == "stats":
            m.print_structure_stats()
        elif op == "scope":
            ctx.check(sorted(m.scope.query) == list(range(D)), f"{what}: scope {m.scope}")
        unchanged(ctx, m, before, what)
        ctx.check(torch.get_default_dtype() == dt and torch.is_grad_enabled() == gr, f"{what}: global torch settings changed")
        ctx.count("queries")
    same(ctx, mon.ll(m, X), L, f"{name} after {'>'.join(ops)}: log-likelihood")


def f_seed(ctx):
    """Random results depend on the seed only, and go on from the generator's state instead of resetting it."""
    import random as pyr

    import torch

    rng = ctx.rng
    m, vs, name = some_model(ctx)
    E = evidence(rng, m, vs, 60, missing=0.6)
    E[:20] = np.nan
    s0 = int(rng.integers(1 << 30))

    def seed():
        torch.manual_seed(s0)
        np.random.seed(s0 % (1 << 31))
        pyr.seed(s0)

    def draw():
        return m.sample(num_samples=60).detach().numpy(), m.sample_with_evidence(mon.tt(E)).detach().numpy()

    seed()
    a = draw()
    b = draw()
    seed()
    c = draw()
    ctx.check(all(np.array_equal(u, v) for u, v in zip(a, c)), f"{name}: the same seed gave different samples")
    L = mon.ll(m, a[0])[:, 0, 0, 0]
    if len(set(map(tuple, a[0].tolist()))) > 6 and np.exp(L).max() < 0.5:
        ctx.check(not np.array_equal(a[0], b[0]) and not np.array_equal(a[1][:20], b[1][:20]), f"{name}: two successive draws are identical")
    # likelihood and MPE do not reset or advance the generators in a way that correlates later draws
    seed()
    u = torch.rand(5)
    seed()
    mon.ll(m, E)
    m.mpe(data=mon.tt(E))
    v1 = m.sample(num_samples=60).detach().numpy()
    mon.ll(m, E)
    m.mpe(data=mon.tt(E))
    v2 = m.sample(num_samples=60).detach().numpy()
    if len(set(map(tuple, v1.tolist()))) > 6 and np.exp(L).max() < 0.5:
        ctx.check(not np.array_equal(v1, v2), f"{name}: a query between two draws makes them identical (generator reset)")
    ctx.count("draws_compared", 4)


def f_threads(ctx):
    """Concurrent queries on one model give the sequential answers."""
    rng = ctx.rng
    m, vs, name = some_model(ctx)
    m.eval() if rng.random() < 0.5 else m.train()
    batches = [data(rng, vs, int(rng.integers(1, 9))) for _ in range(6)]
    ev = [evidence(rng, m, vs, 4) for _ in range(3)]
    want = [mon.ll(m, b) for b in batches]
    wmpe = [m.mpe(data=mon.tt(e)).detach().numpy() for e in ev]
    out, errs = [], []
    barrier = threading.Barrier(4)
    seeds = [int(s) for s in rng.integers(1 << 30, size=4)]

    def work(k):
        import torch

        r = np.random.default_rng(seeds[k])
        try:
            with torch.set_grad_enabled(bool(k % 2)):
                barrier.wait(10)
                for _ in range(10):
                    if r.random() < 0.7:
                        i = int(r.integers(len(batches)))
                        out.append(("ll", i, m.log_likelihood(mon.tt(batches[i])).detach().numpy().astype(float)))
                    elif r.random() < 0.5:
                        i = int(r.integers(len(ev)))
                        out.append(("mpe", i, m.mpe(data=mon.tt(ev[i])).detach().numpy()))
                    else:
                        s = m.sample(num_samples=3).detach().numpy()
                        out.append(("sample", 0, s))
        except Exception as e:  # noqa: BLE001
            errs.append(f"{type(e).__name__}: {e}")

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-5)
    try:
        th = [threading.Thread(target=work, args=(k,)) for k in range(4)]
        [x.start() for x in th]
        [x.join(60) for x in th]
    finally:
        sys.setswitchinterval(old)
    ctx.check(not errs, f"{name}: query raised in a thread: {errs[:1]}")
    ctx.check(len(out) == 40, f"{name}: {len(out)} of 40 queries answered")
    for kind, i, v in out:
        if kind == "ll":
            same(ctx, v, want[i], f"{name}: log-likelihood of batch {i} computed concurrently")
        elif kind == "mpe":
            ctx.check(np.array_equal(v, wmpe[i]), f"{name}: MPE {i} computed concurrently differs")
        else:
            ctx.check(v.shape == (3, len(vs)) and np.isfinite(v).all(), f"{name}: concurrent sample is malformed")
    ctx.count("concurrent_queries", len(out))


def dag(rng, depth, two=True):
    """Layered DAG with 2**depth paths; returns (root, reference log-likelihood function)."""
    from spflow.modules.products import Product
    from spflow.modules.sums import ElementwiseSum, Sum

    n, C = 2, int(rng.integers(1, 3))
    base = []
    for _ in range(2):
        ls = [lr.build("bernoulli", [j], lr.rand_params("bernoulli", rng, (1, C, 1))) for j in range(n)]
        base.append(Product(ls))
    a, b = base
    fa, fb = [(lambda x, q=q: mon.ll(q, x)[:, :, :, 0]) for q in base]
    nodes = []
    kinds = []
    for _ in range(depth):
        new, kind = [], str(rng.choice(["Sum", "ElementwiseSum"]))
        kinds.append(kind)
        for _k in range(2):
            new.append(Sum([a, b], out_channels=C) if kind == "Sum" else ElementwiseSum([a, b], out_channels=1))
        nodes.append((kind, new, (a, b)))
        a, b = new
    root = Sum([a, b], out_channels=1)

    def ref(x):
        cur = [fa(x), fb(x)]
        for kind, new, _ in nodes + [("Sum", [root], None)]:
            nxt = []
            for q in new:
                w = q.weights.detach().numpy().astype(float)
                if kind == "Sum":
                    v = np.concatenate(cur, 2)
                    nxt.append(mon.lse(v[:, :, :, None] + np.log(w[None, :, :, :, 0]), 2))
                else:
                    v = np.stack(cur, 3)  # b f ci 2
                    o = mon.lse(v[:, :, :, None, :] + np.log(w[None, ..., 0]), 4)
                    nxt.append(o.reshape(o.shape[0], o.shape[1], -1))
            cur = nxt if len(nxt) > 1 else nxt * 2
        return cur[0][..., None]

    return root, ref, kinds


def f_dag(ctx):
    """Likelihood, gradients and EM on DAGs with exponentially many paths: right values, each node once."""
    import torch
    from spflow.learn.expectation_maximization import expectation_maximization

    rng = ctx.rng
    depth = int(rng.integers(26, 40))
    m, ref, kinds = dag(rng, depth)
    ctx.key("dag", tuple(kinds))
    X = np.array([[0, 0], [0, 1], [1, 0], [1, 1], [1, np.nan], [np.nan, np.nan]], float)
    same(ctx, mon.ll(m, X), ref(X), f"DAG of depth {depth}")
    counts = {}

    def prof(frame, event, arg):
        if event == "call" and frame.f_code.co_name == "log_likelihood" and "spflow" in frame.f_code.co_filename:
            k = (id(frame.f_locals.get("self")), frame.f_code)
            counts[k] = counts.get(k, 0) + 1

    sys.setprofile(prof)
    try:
        with torch.no_grad():
            m.log_likelihood(mon.tt(X))
    finally:
        sys.setprofile(None)
    ctx.check(not counts or max(counts.values()) == 1, f"a node of the DAG was evaluated {max(counts.values() or [0])} times in one query")
    ctx.count("nodes_observed", len(counts))
    m.log_likelihood(mon.tt(X)).sum().backward()
    ctx.check(all(p.grad is not None and torch.isfinite(p.grad).all() for p in m.parameters()), "gradient on the DAG missing or not finite")
    m.zero_grad()
    before = mon.ll(m, X[:4]).sum()
    expectation_maximization(m, mon.tt(X[:4]), max_steps=1)
    after = mon.ll(m, X[:4]).sum()
    ctx.check(after >= before - 1e-3, f"EM on a DAG lowered the likelihood {before} -> {after}")
    tot = mon.lse(mon.ll(m, X[:4])[:, 0, 0, 0], 0)
    ctx.close(tot, 0.0, "total mass after EM on a DAG", rtol=0, atol=1e-3)
    s = m.scope, m.feature_to_scope, m.out_shape
    ctx.check(sorted(s[0].query) == [0, 1], "scope of the DAG")


def f_leak(ctx):
    """Queries do not hold on to their intermediate results."""
    import torch

    rng = ctx.rng
    m, vs, name = some_model(ctx)
    if name == "cms":
        raise Skip("component recompilation keeps per-call leaf objects alive until collected")
    X, E = data(rng, vs, 6), evidence(rng, m, vs, 4)

    def round_():
        mon.ll(m, X)
        m.log_likelihood(mon.tt(X))
        m.sample(num_samples=3)
        m.mpe(data=mon.tt(E))

    def live():
        gc.collect()
        return sum(1 for o in gc.get_objects() if type(o) in (torch.Tensor, torch.nn.Parameter))

    for _ in range(2):
        round_()
    a = live()
    for _ in range(6):
        round_()
    b = live()
    ctx.check(b - a < 6, f"{name}: {b - a} tensors more alive after six rounds of queries")
    ctx.count("rounds_watched", 6)


def f_cache(ctx):
    """Cache objects against a dictionary model: sequential histories, then hammered by threads."""
    import torch
    from spflow.utils.cache import Cache

    rng = ctx.rng
    mods = [lr.build("bernoulli", [i], lr.rand_params("bernoulli", rng, (1, 1, 1))) for i in range(4)]
    names = ["log_likelihood", "marginalize", "x"]
    c, ref = Cache(), {}
    for _ in range(40):
        nm, k = names[int(rng.integers(3))], int(rng.integers(4))
        r = rng.random()
        if r < 0.4:
            v = float(rng.integers(100))
            c.set(nm, mods[k], v)
            ref[nm, k] = v
        elif r < 0.8:
            got = c.get(nm, mods[k])
            ctx.check(got == ref.get((nm, k)), f"Cache.get({nm}, module {k}) is {got}, expected {ref.get((nm, k))}")
        else:
            ctx.check((nm in c) == any(a == nm for a, _ in ref), f"'{nm}' in Cache")
    # equal-looking modules are different keys; collected modules disappear
    n0 = len(c["x"])
    tmp = lr.build("bernoulli", [0], lr.rand_params("bernoulli", rng, (1, 1, 1)))
    ctx.check(c.get("x", tmp) is None, "value of another module returned")
    c.set("x", tmp, 1.0)
    ctx.check(len(c["x"]) == n0 + 1, "entry not stored")
    del tmp
    gc.collect()
    ctx.check(len(c["x"]) == n0, "the cache keeps a collected module alive")
    # the result stored in a cache is the one a later call with that cache gets; separate caches do not mix
    m, vs, name = some_model(ctx)
    X, Y = data(rng, vs, 4), data(rng, vs, 4)
    c1, c2 = Cache(), Cache()
    a, b = mon.ll(m, X, cache=c1), mon.ll(m, Y, cache=c2)
    same(ctx, a, mon.ll(m, X), f"{name}: log-likelihood with a cache")
    same(ctx, b, mon.ll(m, Y), f"{name}: log-likelihood with a second cache")
    same(ctx, mon.ll(m, X, cache=c1), a, f"{name}: repeated query with the same cache")
    # threads
    c = Cache()
    errs = []
    barrier = threading.Barrier(6)

    def work(k):
        try:
            barrier.wait(10)
            for i in range(60):
                nm = f"m{(i + k) % 5}"
                c.set(nm, mods[k % 4], (nm, k % 4))
                for j in range(4):
                    v = c.get(nm, mods[j])
                    if v is not None and v != (nm, j):
                        errs.append(f"{nm}/{j} gave {v}")
                c[f"n{i % 7}"]
                nm in c
        except Exception as e:  # noqa: BLE001
            errs.append(f"{type(e).__name__}: {e}")

    old = sys.getswitchinterval()
    sys.setswitchinterval(1e-6)
    try:
        th = [threading.Thread(target=work, args=(k,)) for k in range(6)]
        [x.start() for x in th]
        [x.join(60) for x in th]
    finally:
        sys.setswitchinterval(old)
    ctx.check(not errs, f"concurrent use of one cache: {errs[:2]}")
    ctx.check(all(c.get(f"m{i}", mods[j]) == (f"m{i}", j) for i in range(5) for j in range(4)), "an entry set by a thread was lost")
    ctx.count("cache_operations", 6 * 60 * 6)


FAMILIES = [
    Family("rows", f_rows, 90, 2500, timeout=60),
    Family("history", f_history, 90, 2500, timeout=60),
    Family("seed", f_seed, 60, 1200, timeout=60),
    Family("threads", f_threads, 50, 900, timeout=90),
    Family("dag", f_dag, 12, 120, timeout=25),
    Family("leak", f_leak, 40, 500, timeout=60),
    Family("cache", f_cache, 40, 800, timeout=60),
]
