"""C30: reports, traces and temporary replacements describe the circuit and leave it alone."""
import contextlib
import io
import json
import os
import re
import shutil
import tempfile

import numpy as np

from spmon import circ, mon, zoo
from spmon.runner import Family, Skip
from spmon.checks import common

PID = "C30"
RULE = "distinct = circuit signature or architecture configuration x report options"
ASSUMPTIONS = ["a concatenation directly below a layer is shown as the layer's inputs (documented)",
               "the reference graph follows inputs, root_node, wrapped modules and components"]


def children(m):
    """Structural children, recomputed from the public attributes."""
    import torch
    from spflow.modules.leaves.leaf import LeafModule
    from spflow.modules.module import Module
    from spflow.modules.ops import Cat

    if isinstance(m, LeafModule):
        return []
    root = getattr(m, "root_node", None)
    if isinstance(root, Module):
        return [root]
    try:
        inp = m.inputs
    except Exception:
        inp = None
    if inp is None:
        out = []
        for c in m.children():
            out += [q for q in (c if isinstance(c, torch.nn.ModuleList) else [c]) if isinstance(q, Module)]
        return out
    if isinstance(inp, Module):
        return list(inp.inputs) if isinstance(inp, Cat) else [inp]
    return [q for q in inp if isinstance(q, Module)]


def graph(m):
    seen, order, edges = {}, [], []
    stack = [m]
    while stack:
        q = stack.pop()
        if id(q) in seen:
            continue
        seen[id(q)] = q
        order.append(q)
        for c in children(q):
            edges.append((q, c))
            stack.append(c)
    return order, edges


def depth(m, memo):
    if id(m) not in memo:
        memo[id(m)] = 1 + max([depth(c, memo) for c in children(m)], default=0)
    return memo[id(m)]


def paths(m, limit, d=0, cap=4000):
    """Pre-order unfolding: (depth, module)."""
    out = [(d, m)]
    if limit is None or d < limit:
        for c in children(m):
            out += paths(c, limit, d + 1, cap)
            if len(out) > cap:
                raise Skip("large unfolding")
    return out


def pick(ctx):
    rng = ctx.rng
    r = ctx.idx % 3
    if r == 0:
        node, vs = circ.random_circuit(rng, C=int(rng.integers(1, 4)), share=0.5, depth=int(rng.integers(2, 6)))
        ctx.note(node.describe()[:300])
        ctx.key("ast", node.sig())
        return node.build(), vs, "circuit"
    if r == 1:
        name = common.SAMP_ZOO[(ctx.idx // 3) % len(common.SAMP_ZOO)]
        z = common.model(ctx, name)
        return z.m, z.vs, name
    return sos(ctx)


def sos(ctx):
    import torch
    from spflow.meta.data.scope import Scope
    from spflow.modules.leaves import Normal
    from spflow.modules.products import Product
    from spflow.modules.sums import Sum
    from spflow.zoo.cms import JointLogLikelihood

    rng = ctx.rng
    kind = ctx.idx // 3 % 3
    d = int(rng.integers(1, 4))
    if kind == 2:
        inner = Normal(scope=list(range(d)), out_channels=int(rng.integers(1, 3)))
        ctx.key("wrapped", d)
        return JointLogLikelihood(inner), [circ.Var("normal")] * d, "wrapper"

    def comp():
        return Sum(inputs=Product(inputs=Normal(scope=list(range(d)), out_channels=2)), out_channels=1)

    n = int(rng.integers(1, 4))
    if kind == 0:
        from spflow.modules.sos.socs import SOCS

        ctx.key("socs", d, n)
        return SOCS([comp() for _ in range(n)]), [circ.Var("normal")] * d, "socs"
    from spflow.zoo.sos import ExpSOCS

    ctx.key("expsocs", d, n)
    return ExpSOCS(monotone=comp(), components=[comp() for _ in range(n)]), [circ.Var("normal")] * d, "expsocs"


@contextlib.contextmanager
def untouched(ctx, m, vs, what):
    import torch

    sd = {k: v.clone() for k, v in m.state_dict().items()}
    hooks = {n: len(q._forward_hooks) for n, q in m.named_modules()}
    st, nst, mode = torch.get_rng_state(), np.random.get_state()[1].copy(), m.training
    yield
    ctx.check(torch.equal(st, torch.get_rng_state()) and np.array_equal(nst, np.random.get_state()[1]), f"{what} moved a global random stream")
    new = m.state_dict()
    ctx.check(list(new) == list(sd) and all(torch.equal(v, new[k]) or bool((torch.isnan(v) == torch.isnan(new[k])).all()) for k, v in sd.items()),
              f"{what} changed the model's state")
    ctx.check(hooks == {n: len(q._forward_hooks) for n, q in m.named_modules()} and m.training == mode, f"{what} left hooks or another mode behind")


def f_stats(ctx):
    from spflow.utils.structure_stats import get_structure_stats, structure_stats_to_str

    m, vs, what = pick(ctx)
    order, edges = graph(m)
    with untouched(ctx, m, vs, "structure statistics"):
        s = get_structure_stats(m)
        text = structure_stats_to_str(s)
    par = {p.data_ptr() if p.numel() else id(p): p.numel() for p in m.parameters()}
    ctx.check(s.num_parameters_total == sum(par.values()), f"{what}: {s.num_parameters_total} parameters reported, the model has {sum(par.values())}")
    ctx.check(s.num_nodes_total == len(order), f"{what}: {s.num_nodes_total} nodes reported, {len(order)} reachable")
    ctx.check(s.num_edges_total == len(edges), f"{what}: {s.num_edges_total} edges reported, {len(edges)} exist")
    cnt = {}
    for q in order:
        cnt[type(q).__name__] = cnt.get(type(q).__name__, 0) + 1
    ctx.check(dict(s.node_type_counts) == cnt, f"{what}: node types {s.node_type_counts}, expected {cnt}")
    pt = {}
    for q in order:
        for n, _ in q.named_parameters(recurse=False):
            pt[n] = pt.get(n, 0) + 1
    ctx.check(dict(s.parameter_type_counts) == pt, f"{what}: parameter types {s.parameter_type_counts}, expected {pt}")
    ctx.check(s.max_depth == depth(m, {}), f"{what}: depth {s.max_depth}, longest path {depth(m, {})}")
    deg = {}
    for _, c in edges:
        deg[id(c)] = deg.get(id(c), 0) + 1
    sh = sum(v > 1 for v in deg.values())
    ctx.check(s.num_shared_nodes == sh and s.is_dag == (sh > 0), f"{what}: {s.num_shared_nodes} shared nodes (dag={s.is_dag}), expected {sh}")
    sizes = [len(q.scope.query) for q in order]
    hist = {k: sizes.count(k) for k in set(sizes)}
    ctx.check(dict(s.scope_size_histogram) == hist and s.scope_size_min == min(sizes) and s.scope_size_max == max(sizes),
              f"{what}: scope sizes {s.scope_size_histogram}, expected {hist}")
    ctx.close(s.scope_size_mean, np.mean(sizes), "mean scope size", rtol=1e-9)
    dd = json.loads(json.dumps(s.to_dict()))
    ctx.check(dd["num_nodes_total"] == s.num_nodes_total and dd["num_parameters_total"] == s.num_parameters_total and dd["max_depth"] == s.max_depth
              and dd["num_edges_total"] == s.num_edges_total and {int(k): v for k, v in dd["scope_size_histogram"].items()} == hist, "to_dict differs")
    for k, v in (("nodes", s.num_nodes_total), ("edges", s.num_edges_total), ("parameters", s.num_parameters_total), ("max_depth", s.max_depth)):
        ctx.check(re.search(rf"{k}: {v}\b", text) is not None, f"text report does not say {k}: {v}")
    ctx.count("nodes", len(order))


def f_tree(ctx):
    from spflow.utils.module_display import module_to_str

    rng = ctx.rng
    m, vs, what = pick(ctx)
    limit = None if rng.random() < 0.5 else int(rng.integers(0, 5))
    scope, params = bool(rng.random() < 0.7), bool(rng.random() < 0.7)
    want = paths(m, limit)
    with untouched(ctx, m, vs, "the tree view"):
        lines = module_to_str(m, max_depth=limit, show_scope=scope, show_params=params).split("\n")
        ctx.check(module_to_str(m, format="pytorch") == repr(m), "the pytorch format is not the module's repr")
    ctx.check(len(lines) == len(want), f"{what}: {len(lines)} lines for {len(want)} nodes (max_depth={limit})")
    for line, (d, q) in zip(lines, want):
        body = line.lstrip("│├└─ ")
        ctx.check((len(line) - len(body)) == 3 * d, f"{what}: indentation {len(line) - len(body)} at depth {d}: {line!r}")
        ctx.check(body.startswith(type(q).__name__ + " ["), f"{what}: line {line!r} for a {type(q).__name__}")
        ctx.check(f"D={q.out_shape.features}," in body and re.search(rf"C={q.out_shape.channels}\b", body) is not None, f"{what}: {line!r} for shape {q.out_shape}")
        cols = sorted(q.scope.query)
        txt = f"{cols[0]}-{cols[-1]}" if cols[-1] - cols[0] + 1 == len(cols) else "{" + ", ".join(map(str, cols)) + "}"
        ctx.check(("scope: " in body) == scope and (not scope or body.endswith("scope: " + txt)), f"{what}: {line!r}, scope {txt}")
        if not params:
            ctx.check("weights:" not in body, f"{line!r} shows parameters")
    try:
        module_to_str(m, format="html")
    except ValueError:
        pass
    else:
        ctx.fail("an unknown format was accepted")
    ctx.count("lines", len(lines))


def f_vis(ctx):
    try:
        from spflow.utils.visualization import visualize
    except Exception as e:
        raise Skip(f"visualisation is unavailable: {e}")
    from spflow.exceptions import GraphvizError
    from spflow.modules import ops

    rng = ctx.rng
    m, vs, what = pick(ctx)
    skip = bool(rng.random() < 0.6)
    order, _ = full_graph(m)
    if len(order) > 60:
        raise Skip("large picture")
    d = tempfile.mkdtemp(prefix="spmon_vis_")
    try:
        with untouched(ctx, m, vs, "visualisation"):
            try:
                visualize(m, os.path.join(d, "g"), format="dot", skip_ops=skip)
            except GraphvizError as e:
                raise Skip(f"graphviz: {str(e)[:60]}")
        ctx.check(os.listdir(d) == ["g.dot"], f"files written: {os.listdir(d)}")
        text = open(os.path.join(d, "g.dot")).read()
    finally:
        shutil.rmtree(d)
    text = text.replace("\\\n", "")
    import pydot

    g = pydot.graph_from_dot_data(text)[0]
    label = {q.get_name().strip('"'): str(q.get_label()) for q in g.get_nodes() if q.get_name().strip('"').isdigit()}
    edges = {(e.get_source().strip('"'), e.get_destination().strip('"')) for e in g.get_edges()}
    hidden = (ops.Cat, ops.Split, ops.SplitByIndex, ops.SplitConsecutive, ops.SplitInterleaved) if skip else ()
    kept = [q for q in order if not isinstance(q, hidden) or q is m]
    ctx.check(set(label) == {str(id(q)) for q in kept}, f"{what}: picture shows {len(label)} nodes, the circuit has {len(kept)} (skip_ops={skip})")

    def below(q):
        out = []
        for c in raw_children(q):
            out += below(c) if isinstance(c, hidden) else [c]
        return out

    want = {(str(id(c)), str(id(q))) for q in kept for c in below(q)}
    ctx.check(edges == want, f"{what}: {len(edges)} edges drawn, {len(want)} expected; missing {len(want - edges)}, extra {len(edges - want)}")
    for q in kept:
        lab = label[str(id(q))]
        ctx.check(type(q).__name__ in lab, f"{what}: node of type {type(q).__name__} is labelled {lab[:80]}")
        k = re.search(r"Out:\s*D=(\d+)\s+C=(\d+)\s+R=(\d+)", lab)
        ctx.check(k is not None and tuple(map(int, k.groups())) == (q.out_shape.features, q.out_shape.channels, q.out_shape.repetitions), f"{what}: shape label {lab[:160]} for {q.out_shape}")
        if not raw_children(q):
            n = sum(p.numel() for p in q.parameters())
            k = re.search(r"Params:\s*(\d+)\b", lab)
            ctx.check((k is None) == (n == 0) and (n == 0 or n >= 1000 or int(k.group(1)) == n), f"{what}: {lab[-120:]} for {n} parameters")
        k = re.search(r"Scope:\s*([0-9., ]+)", lab)
        got = set()
        for part in k.group(1).split(","):
            a = [int(v) for v in part.strip().split("...")]
            got |= set(range(a[0], a[-1] + 1))
        ctx.check(got == set(q.scope.query), f"{what}: scope label {k.group(1)} for {sorted(q.scope.query)}")
    ctx.count("nodes_drawn", len(kept))
    ctx.count("edges_drawn", len(edges))


def raw_children(m):
    from spflow.modules.module import Module
    from spflow.modules.leaves.leaf import LeafModule

    if isinstance(m, LeafModule):
        return []
    try:
        inp = m.inputs
    except Exception:
        inp = None
    if isinstance(inp, Module) and not isinstance(getattr(m, "root_node", None), Module):
        return [inp]
    return children(m)


def full_graph(m):
    seen, stack = {}, [m]
    edges = []
    while stack:
        q = stack.pop()
        if id(q) in seen:
            continue
        seen[id(q)] = q
        for c in raw_children(q):
            edges.append((q, c))
            stack.append(c)
    return list(seen.values()), edges


def f_trace(ctx):
    """Trace output states the traced tensors' statistics and never changes a result."""
    import torch
    from spflow.utils import debug as dbg

    rng = ctx.rng
    node, vs = circ.random_circuit(rng, C=int(rng.integers(1, 3)))
    ctx.note(node.describe()[:200])
    ctx.key("trace", node.sig())
    m = node.build()
    X = mon.tt(circ.rand_data(rng, vs, 9, missing=0.3))
    with torch.no_grad():
        base = m(X)
    for v in ("SPFLOW_TRACE", "APC_TRACE"):
        if os.environ.get(v):
            raise Skip("tracing is on from outside")
    try:
        dbg.configure_trace(enabled=False)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf), untouched(ctx, m, vs, "disabled tracing"), torch.no_grad():
            h = dbg.attach_module_trace_hooks(m, "m", recurse=True)
            a = m(X)
            dbg.trace_tensor("x", X)
            dbg.trace_module_state("m", m)
            dbg.remove_trace_hooks(h)
        ctx.check(buf.getvalue() == "", "disabled tracing printed something")
        ctx.check(torch.equal(a, base), "disabled tracing changed the result")
        cap = int(rng.integers(1, 60))
        dbg.configure_trace(enabled=True, prefix="TT", max_events=cap, max_values=3)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf), untouched(ctx, m, vs, "tracing"), torch.no_grad():
            h = dbg.attach_module_trace_hooks(m, "m", recurse=True)
            a = m(X)
            dbg.remove_trace_hooks(h)
            dbg.trace_module_state("state", m)
            b = m(X)
        ctx.check(torch.equal(a, base) and torch.equal(b, base), "tracing changed a result")
        out = [q for q in buf.getvalue().split("\n") if q]
        ctx.check(1 <= len(out) <= cap and all(q.startswith("[TT][TRACE]") for q in out), f"{len(out)} lines for at most {cap} events")
        ctx.count("trace_lines", len(out))
        dbg.configure_trace(enabled=True, prefix="TT", max_events=50, max_values=3)
        x = torch.as_tensor(rng.normal(0, 3, int(rng.integers(1, 12))), dtype=torch.float32)
        x[torch.as_tensor(rng.random(len(x)) < 0.2)] = float("nan")
        x[torch.as_tensor(rng.random(len(x)) < 0.2)] = float("inf")
        y = torch.as_tensor(rng.normal(0, 3, len(x)), dtype=torch.float32)
        z = torch.as_tensor(rng.normal(0, 3, len(x)), dtype=torch.float32)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf):
            dbg.trace_tensor("x", x)
            dbg.trace_tensor_delta("d", y, z)
        l1, l2 = buf.getvalue().strip().split("\n")
        fin = x[torch.isfinite(x)].numpy().astype(float)
        k = re.search(r"finite=(\d+)/(\d+) nan=(\d+) inf=(\d+)", l1)
        ctx.check(k is not None and list(map(int, k.groups())) == [len(fin), len(x), int(torch.isnan(x).sum()), int(torch.isinf(x).sum())], f"counts in {l1!r}")
        if len(fin):
            k = re.search(r"min=(\S+) max=(\S+) mean=(\S+)", l1)
            ctx.close(np.array([float(v) for v in k.groups()]), np.array([fin.min(), fin.max(), fin.mean()]), "traced statistics", rtol=1e-4, atol=1e-5)
        dl = (z - y).numpy().astype(float)
        k = re.search(r"max_abs=(\S+) mean_abs=(\S+) rms=(\S+)", l2)
        ctx.close(np.array([float(v) for v in k.groups()]), np.array([abs(dl).max(), abs(dl).mean(), np.sqrt((dl**2).mean())]), "traced difference", rtol=1e-4, atol=1e-5)
    finally:
        dbg.configure_trace(enabled=False)


def f_replace(ctx):
    """Replacement acts on every instance inside the block only, nests, and is undone after errors."""
    import torch
    from spflow.modules.products import ElementwiseProduct, Product
    from spflow.modules.sums import Sum
    from spflow.utils.replace import replace

    rng = ctx.rng
    node, vs = circ.random_circuit(rng, depth=4, ops=None)
    ctx.key("replace", node.sig())
    m = node.build()
    X = mon.tt(circ.rand_data(rng, vs, 6, missing=0.2))
    target = [Sum, Product, ElementwiseProduct][ctx.idx % 3]
    ctx.note(f"{target.__name__} in {node.describe()[:200]}")
    orig = target.__dict__.get("log_likelihood")
    with torch.no_grad():
        base = m.log_likelihood(X)
    calls = []
    ref = target.log_likelihood
    real = ref.__wrapped__

    def spy(self, data, cache=None):
        calls.append(id(self))
        return real(self, data, cache=cache)

    def shifted(self, data, cache=None):
        return real(self, data, cache=cache) + 1.0

    n = sum(type(q) is target for q in m.modules())
    with torch.no_grad(), replace(ref, spy):
        a = m.log_likelihood(X)
        ctx.check(len(calls) == n, f"{n} {target.__name__} layers, {len(calls)} replaced evaluations")
        calls.clear()
        with replace(ref, shifted):
            b = m.log_likelihood(X)
        ctx.check(not calls, "the inner replacement did not take effect")
        c = m.log_likelihood(X)
        ctx.check(len(calls) == n, "the outer replacement was not restored")
    calls.clear()
    with torch.no_grad():
        d = m.log_likelihood(X)
    ctx.check(not calls and target.__dict__.get("log_likelihood") is orig, f"{target.__name__}.log_likelihood was not restored")
    ctx.check(torch.equal(a, base) and torch.equal(c, base) and torch.equal(d, base), "a transparent replacement changed the result")
    if type(m) is target:
        inner = sum(type(q) is target for q in m.modules()) > 1
        ctx.check(inner or bool(torch.allclose(b, base + 1.0, atol=1e-5)), "the replaced layer's result was not used")
    try:
        with replace(ref, shifted):
            raise KeyError("boom")
    except KeyError:
        pass
    ctx.check(target.__dict__.get("log_likelihood") is orig, "an error inside the block left the replacement in place")
    ctx.count("replaced_layers", n)
    for bad in (3, None, "Sum.log_likelihood", lambda x: x, len):
        try:
            with replace(bad, spy):
                pass
        except Exception:
            continue
        if bad is len or callable(bad):
            ctx.count("accepted_callable")
            continue
        ctx.fail(f"replace({bad!r}) was accepted")


FAMILIES = [
    Family("stats", f_stats, 90, 1500),
    Family("tree", f_tree, 90, 1500),
    Family("vis", f_vis, 45, 400),
    Family("trace", f_trace, 25, 300),
    Family("replace", f_replace, 30, 400),
]
