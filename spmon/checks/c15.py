"""C15: scopes behave like pairs of sets; region graphs only hold decompositions."""
import copy
import itertools
import pickle

import numpy as np

from spmon.runner import Family

PID = "C15"
RULE = "distinct = distinct (query, evidence) tuples of the scopes involved / distinct region-graph shape"
ASSUMPTIONS = ["reference: python frozensets of (query, evidence); region graphs: our own record of which regions and partitions were added"]


def rscope(rng, n=6, cond=True):
    from spflow.meta.data.scope import Scope

    k = int(rng.integers(1, n))
    perm = [int(i) for i in rng.permutation(n)]
    q = perm[:k]
    e = perm[k:k + int(rng.integers(0, n - k + 1))] if cond and rng.random() < 0.5 else []
    wrap = [list, tuple, np.array, set, lambda x: iter(list(x))][int(rng.integers(5))]
    s = Scope(wrap(q), wrap(e) if e else None)
    return s, frozenset(q), frozenset(e)


def same(ctx, s, q, e, what):
    ctx.check(set(s.query) == set(q) and len(s.query) == len(q), f"{what}: query {s.query}, expected {sorted(q)}")
    ctx.check(set(s.evidence) == set(e) and len(s.evidence) == len(e), f"{what}: evidence {s.evidence}, expected {sorted(e)}")
    ctx.check(len(s) == len(q) and s.empty() == (not q) and s.is_conditional() == bool(e), f"{what}: len/empty/is_conditional disagree with {s!r}")
    ctx.check(all(type(v) is int for v in s.query + s.evidence), f"{what}: entries are not plain integers: {s.query} {s.evidence}")


def f_scope(ctx):
    from spflow.meta.data.scope import Scope

    rng = ctx.rng
    S = [rscope(rng, n=int(rng.integers(2, 7))) for _ in range(int(rng.integers(2, 6)))]
    ctx.key(tuple((s.query, s.evidence) for s, _, _ in S))
    for s, q, e in S:
        before = (s.query, s.evidence, hash(s))
        same(ctx, s, q, e, "constructor")
        perm = Scope([int(v) for v in rng.permutation(sorted(q))], [int(v) for v in rng.permutation(sorted(e))])
        ctx.check(s == perm and perm == s and not (s != perm), f"{s!r} is not equal to its reordering {perm!r}")
        ctx.check(hash(s) == hash(perm) and perm in {s} and {s: 1}.get(perm) == 1, f"{s!r} and {perm!r} are equal but not interchangeable as keys")
        c = s.copy()
        ctx.check(c == s and c.query == s.query, f"copy of {s!r} is {c!r}")
        for d in (copy.deepcopy(s), pickle.loads(pickle.dumps(s)), Scope.as_scope(s)):
            ctx.check(d == s and d.query == s.query and d.evidence == s.evidence, f"copied/pickled {s!r} is {d!r}")
        ctx.check(Scope.as_scope(list(s.query)) == Scope(s.query), "as_scope of a list")
        for other in (None, 3, "x", s.query, object()):
            ctx.check((s == other) is False and (s != other) is True, f"{s!r} compared with {other!r}")
        v = int(rng.choice(sorted(q)))
        if len(q) > 1 or not e:
            same(ctx, s.remove_from_query(v), q - {v}, e, f"remove_from_query({v})")
        try:
            s.query = (1,)
            ctx.fail("a scope can be modified")
        except (AttributeError, TypeError):
            pass
        ctx.check((s.query, s.evidence, hash(s)) == before, f"operations changed the scope {before} to {s!r}")
    for (a, qa, ea), (b, qb, eb) in itertools.product(S, S):
        ctx.check(a.isdisjoint(b) == qa.isdisjoint(qb), f"isdisjoint({a!r}, {b!r})")
        ctx.check((a == b) == ((qa, ea) == (qb, eb)), f"{a!r} == {b!r}")
        ctx.check(a.equal_query(b) == (qa == qb) and a.equal_evidence(b) == (ea == eb), f"equal_query/evidence({a!r}, {b!r})")
        if a == b:
            ctx.check(hash(a) == hash(b), f"equal scopes {a!r}, {b!r} with different hashes")
        j = a.join(b)
        same(ctx, j, qa | qb, (ea | eb) - (qa | qb), f"join({a!r}, {b!r})")
        ctx.check(j == b.join(a), "join is not commutative")
        ctx.count("pairs")
    allq = frozenset().union(*[q for _, q, _ in S])
    alle = frozenset().union(*[e for _, _, e in S]) - allq
    for order in (S, S[::-1]):
        sc = [s for s, _, _ in order]
        same(ctx, Scope.join_all(sc), allq, alle, "join_all")
        same(ctx, Scope.join_all(iter(sc)), allq, alle, "join_all over an iterator")
        ctx.check(Scope.all_pairwise_disjoint(sc) == all(a.isdisjoint(b) for a, b in itertools.combinations([q for _, q, _ in order], 2)),
                  f"all_pairwise_disjoint({sc})")
        ctx.check(Scope.all_equal(sc) == (len({(q, e) for _, q, e in order}) == 1), f"all_equal({sc})")
    # equal / disjoint collections (rare among random ones)
    q0 = sorted(allq)
    eq = [Scope([int(v) for v in rng.permutation(q0)]) for _ in range(3)]
    ctx.check(Scope.all_equal(eq), f"all_equal({eq})")
    ctx.check(not Scope.all_equal(eq + [Scope(q0 + [50])]) and not Scope.all_equal([Scope(q0 + [50])] + eq), "all_equal of different scopes")
    parts = [Scope([v]) for v in q0]
    ctx.check(Scope.all_pairwise_disjoint(parts), "singletons are pairwise disjoint")
    i = int(rng.integers(len(parts)))
    dup = parts + [parts[i]]
    dup = [dup[k] for k in rng.permutation(len(dup))]
    ctx.check(not Scope.all_pairwise_disjoint(dup), f"all_pairwise_disjoint({dup})")


def f_reject(ctx):
    from spflow.meta.data.scope import Scope

    rng = ctx.rng
    base = [int(v) for v in rng.permutation(6)[: int(rng.integers(1, 5))]]
    bad = {
        "duplicate query": (base + [base[0]], None), "negative query": (base + [-1], None), "evidence without query": ([], base),
        "query and evidence overlap": (base, [base[-1]]), "duplicate evidence": (base, [7, 8, 7]), "negative evidence": (base, [-2]),
        "fraction": (base + [0.5], None), "text": ("ab", None), "duplicate tensor entries": (np.array(base + [base[-1]]), None),
    }
    for name, (q, e) in bad.items():
        try:
            s = Scope(q, e)
        except (ValueError, TypeError):
            ctx.count("rejected")
            continue
        ctx.fail(f"{name}: Scope({q}, {e}) accepted as {s!r}")
    import torch

    for f in (lambda q: torch.tensor(q), np.array, tuple, list, set, iter):
        ctx.check(Scope(f(base)) == Scope(base) and Scope(f(base)).isdisjoint(Scope([v + 10 for v in base])) and not Scope(f(base)).isdisjoint(Scope(base)),
                  f"Scope given as {f(base)!r} differs from Scope({base})")
        ctx.check(Scope([9], f(base)) == Scope([9], base), f"evidence given as {f(base)!r}")
    ctx.check(Scope(3) == Scope([3]) and Scope(3, 4) == Scope([3], [4]) and Scope().empty() and Scope(None) == Scope([]), "single integers / no arguments")
    ctx.key("reject", tuple(base))


def f_region(ctx):
    from spflow.meta.data.scope import Scope
    from spflow.meta.region_graph import Region, RegionGraph

    rng = ctx.rng
    n = int(rng.integers(2, 7))
    made = {}

    def grow(vars_, depth):
        key = frozenset(vars_)
        if key in made and rng.random() < 0.7:
            return made[key]
        r = Region(Scope([int(v) for v in rng.permutation(sorted(vars_))]))
        made.setdefault(key, r)
        regs.append((r, key))
        if len(vars_) > 1 and depth > 0:
            for _ in range(int(rng.integers(1, 3))):
                k = int(rng.integers(2, min(3, len(vars_)) + 1))
                perm = [int(v) for v in rng.permutation(sorted(vars_))]
                cuts = np.sort(rng.choice(np.arange(1, len(perm)), k - 1, replace=False))
                kids = tuple(grow(p.tolist(), depth - 1) for p in np.split(np.array(perm), cuts))
                r.add_partition(kids)
                parts.append((r, kids))
        return r

    regs, parts = [], []
    root = grow(list(range(n)), 3)
    rg = RegionGraph(root)
    ctx.key("region", n, len(regs), len(parts), tuple(sorted(len(k) for _, k in regs)))
    # reference: reachable regions by identity
    reach, stack = {}, [root]
    while stack:
        r = stack.pop()
        if id(r) in reach:
            continue
        reach[id(r)] = r
        for p, kids in parts:
            if p is r:
                stack += list(kids)
    got = rg.regions
    ctx.count("regions", len(reach))
    ctx.check({frozenset(r.scope.query) for r in got} == {frozenset(r.scope.query) for r in reach.values()},
              f"regions has scopes {[r.scope for r in got]}, reachable are {[r.scope for r in reach.values()]}")
    ctx.check(all(any(g is r for r in reach.values()) for g in got), "regions holds a region outside the graph")
    ctx.check(all(any(g == r for g in got) for r in reach.values()), "regions misses a reachable region")
    order = rg.post_order()
    ctx.check(len(order) == len(got) and len({id(r) for r in order}) == len(order), f"post_order visits {len(order)} regions, the graph has {len(got)}")
    ctx.check(order[-1] == root, "post_order does not end at the root")
    pos = {id(r): i for i, r in enumerate(order)}
    for r in order:
        for p in r.children:
            for c in p:
                at = [i for i, o in enumerate(order) if o == c]
                ctx.check(at and min(at) < pos[id(r)], f"post_order lists {r.scope} before its child {c.scope}")
    for p, kids in parts:
        ctx.check(any(tuple(k) == tuple(kids) for k in p.children), "an added partition is missing")
    # invalid partitions are refused and leave the region unchanged
    if n >= 2:
        q = list(range(n))
        target = Region(Scope(q))
        cut = int(rng.integers(1, n))
        A, B = q[:cut], q[cut:]
        bads = [("overlap", [A + [B[0]], B]), ("gap", [A, B[1:]] if len(B) > 1 else [A]), ("outside", [A, B + [n]]), ("other", [[v + n for v in A], B])]
        for name, sc in bads:
            try:
                target.add_partition(tuple(Region(Scope(s)) for s in sc))
            except ValueError:
                ctx.count("rejected")
                ctx.check(target.children == [], f"a refused partition ({name}) was stored")
                continue
            ctx.fail(f"partition of {q} into {sc} accepted ({name})")
        target.add_partition((Region(Scope(A)), Region(Scope(B))))
        ctx.check(len(target.children) == 1, "a valid partition was not stored")


FAMILIES = [
    Family("scope", f_scope, 200, 6000),
    Family("reject", f_reject, 30, 600),
    Family("region", f_region, 150, 4000),
]
