"""Shared sources of models for the check modules."""
from __future__ import annotations

import numpy as np

from spmon import circ, mon, zoo
from spmon.runner import Skip

DOMAIN_CAP = 700


def ast(ctx, cap=DOMAIN_CAP, **kw):
    """Random circuit through public constructors; returns (node, module, vars)."""
    node, vs = circ.random_circuit(ctx.rng, **kw)
    size = 1
    for v in vs:
        size *= len(v.domain) if v.domain else 1
    if size > cap:
        raise Skip("domain larger than the enumeration cap")
    ctx.note(f"vars={vs} circuit={node.describe()[:400]}")
    m = node.build()
    for q in node.walk():
        ctx.count("nodes:" + q.op + ("/" + q.p["split"] if q.p.get("split") else ""))
    if len(node.walk()) > 1:
        ctx.key("ast", node.sig())
    return node, m, vs


def model(ctx, name, **kw):
    z = zoo.BUILDERS[name](ctx.rng, **kw)
    ctx.note(f"{z.name}: {z.cfg}")
    ctx.key(name, z.cfg)
    ctx.count("models:" + name)
    return z


MARG_OPS = ["leafn", "sum", "sumlist", "prod", "prodlist", "cat1", "cat2", "esum"]
SAMP_ZOO = ["rat", "einet", "convpc", "cnet", "learn_spn", "prometheus", "hclt", "cltree", "naive_bayes", "cms"]


def leaf_circuit(rng, families, n, C=None, depth=None, **kw):
    return circ.random_circuit(rng, n=n, families=families, depth=depth, **kw)


def loader(batches):
    """A DataLoader that yields exactly ``batches`` (own generator: the global random stream is left alone)."""
    import torch
    from torch.utils.data import DataLoader

    rows = [(i, j) for i, b in enumerate(batches) for j in range(len(b if torch.is_tensor(b) else b[0]))]
    ids, k = [], 0
    for b in batches:
        n = len(b if torch.is_tensor(b) else b[0])
        ids.append(list(range(k, k + n)))
        k += n
    return DataLoader(rows, batch_sampler=ids, collate_fn=lambda items: batches[items[0][0]], generator=torch.Generator())
