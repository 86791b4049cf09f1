"""Random smooth & decomposable circuits.

A circuit is generated as our own expression DAG (class Node).  From one Node we obtain
 * the real SPFlow module (``build``), constructed through public constructors, and
 * an independent float64 evaluation (``ref``) written from the textbook semantics
   (mixture = weighted sum, product = independent factors, leaf = density), with missing
   values handled as "integrates to one" at the leaves.
"""
from __future__ import annotations

import itertools

import numpy as np
from scipy.special import logsumexp

from . import leafref as lr


class Var:
    """Data column description."""

    def __init__(self, kind, K=None, total=None):
        self.kind, self.K, self.total = kind, K, total

    @property
    def group(self):
        return (self.kind, self.K, self.total)

    @property
    def domain(self):
        if self.kind == "bernoulli":
            return [0.0, 1.0]
        if self.kind == "categorical":
            return [float(i) for i in range(self.K)]
        if self.kind == "binomial":
            return [float(i) for i in range(self.total + 1)]
        return None

    def __repr__(self):
        return self.kind + (f"[{self.K}]" if self.K else "") + (f"[{self.total}]" if self.total else "")


def rand_vars(rng, n, families):
    out = []
    for _ in range(n):
        k = families[rng.integers(len(families))]
        out.append(
            Var(k, K=int(rng.integers(2, 4)) if k == "categorical" else None,
                total=int(rng.integers(1, 4)) if k in ("binomial", "negbin") else None)
        )
    return out


DISCRETE = ["bernoulli", "categorical", "binomial"]
CONTINUOUS = ["normal", "laplace", "exponential", "gamma", "lognormal"]
COUNTS = ["poisson", "geometric", "negbin"]


def t(a):
    import torch

    return torch.as_tensor(np.ascontiguousarray(a), dtype=torch.get_default_dtype())


class Node:
    def __init__(self, op, feats, C, R, kids=(), **prm):
        self.op, self.feats, self.C, self.R, self.kids, self.p = op, tuple(feats), C, R, list(kids), prm
        self._mod = None

    @property
    def F(self):
        return len(self.feats)

    @property
    def scope(self):
        return frozenset().union(*self.feats)

    def walk(self, seen=None):
        seen = {} if seen is None else seen
        if id(self) not in seen:
            seen[id(self)] = self
            for k in self.kids:
                k.walk(seen)
        return list(seen.values())

    def sig(self):
        return (self.op, self.F, self.C, self.R, tuple(k.sig() for k in self.kids), self.p.get("split"), self.p.get("kind"))

    def describe(self, d=0):
        s = f"{self.op}(F={self.F},C={self.C},R={self.R}"
        if self.op == "leaf":
            s += f",{self.p['kind']}@{self.p['cols']}"
        if "split" in self.p:
            s += f",{self.p['split']}"
        s += ")"
        if self.kids:
            s += "[" + ", ".join(k.describe(d + 1) for k in self.kids) + "]"
        return s

    # ---------------------------------------------------------------- build
    def build(self):
        if self._mod is None:
            self._mod = self._build()
        return self._mod

    def _build(self):
        from spflow.modules.einsum import EinsumLayer, LinsumLayer
        from spflow.modules.ops import Cat, SplitConsecutive, SplitInterleaved
        from spflow.modules.ops.split import SplitMode
        from spflow.modules.products import ElementwiseProduct, OuterProduct, Product
        from spflow.modules.sums import ElementwiseSum, Sum

        op, p = self.op, self.p
        kids = [k.build() for k in self.kids]
        if op == "leaf":
            return lr.build(p["kind"], list(p["cols"]), p["params"])
        if op == "cat1":
            return Cat(kids, dim=1)
        if op == "cat2":
            return Cat(kids, dim=2)
        if op == "sum":
            if p.get("aslist"):
                return Sum(inputs=kids, weights=t(p["w"]))
            return Sum(inputs=kids[0], weights=t(p["w"]))
        if op == "prod":
            return Product(inputs=kids if p.get("aslist") else kids[0])
        if op == "esum":
            return ElementwiseSum(inputs=kids, weights=t(p["w"]))
        if op in ("eprod", "oprod"):
            cls = ElementwiseProduct if op == "eprod" else OuterProduct
            sp = p.get("split")
            if sp is None:
                return cls(inputs=kids)
            ns = p["nsplit"]
            how = p.get("how", 0)
            if sp == "consecutive":
                if how == 0:
                    return cls(inputs=SplitConsecutive(kids[0], num_splits=ns), num_splits=ns)
                if how == 1:
                    return cls(inputs=kids[0], num_splits=ns)
                return cls(inputs=kids[0], num_splits=ns, split_mode=SplitMode.consecutive(ns))
            if sp == "interleaved":
                if how == 0:
                    return cls(inputs=SplitInterleaved(kids[0], num_splits=ns), num_splits=ns)
                return cls(inputs=kids[0], num_splits=ns, split_mode=SplitMode.interleaved(ns))
            return cls(inputs=kids[0], num_splits=ns, split_mode=SplitMode.by_index(p["groups"]))
        if op in ("einsum", "linsum"):
            cls = EinsumLayer if op == "einsum" else LinsumLayer
            sp = p.get("split")
            if sp is None:
                return cls(inputs=kids, out_channels=self.C, weights=t(p["w"]))
            if sp == "consecutive":
                sm = SplitMode.consecutive(2) if p.get("how", 0) else None
            elif sp == "interleaved":
                sm = SplitMode.interleaved(2)
            else:
                sm = SplitMode.by_index(p["groups"])
            return cls(inputs=kids[0], out_channels=self.C, weights=t(p["w"]), split_mode=sm)
        if op == "repmix":
            from spflow.modules.sums.repetition_mixing_layer import RepetitionMixingLayer

            m = RepetitionMixingLayer(inputs=kids[0], out_channels=self.C, num_repetitions=self.p["Rin"])
            import torch

            with torch.no_grad():
                m.log_weights = torch.log(t(p["w"]))
            return m
        raise KeyError(op)

    # ------------------------------------------------------------ reference
    def ref(self, X, memo=None):
        """log density (B, F, C, R) in float64, missing = NaN."""
        memo = {} if memo is None else memo
        if id(self) not in memo:
            with np.errstate(all="ignore"):
                memo[id(self)] = self._ref(X, memo)
        return memo[id(self)]

    def _halves(self, L):
        """Split a child array along features into the groups this op multiplies together."""
        ns, sp = self.p["nsplit"], self.p["split"]
        F = L.shape[1]
        if sp == "consecutive":
            q = F // ns
            return [L[:, i * q:(i + 1) * q] for i in range(ns)]
        if sp == "interleaved":
            return [L[:, i::ns] for i in range(ns)]
        return [L[:, g] for g in self.p["groups"]]

    def _ref(self, X, memo):
        op, p = self.op, self.p
        if op == "leaf":
            cols = list(p["cols"])
            x = X[:, cols][:, :, None, None]
            ll = lr.logpdf(p["kind"], np.where(np.isnan(x), 0.0, x), p["params"])
            ll = np.where(np.isnan(x), 0.0, ll)
            return ll
        L = [k.ref(X, memo) for k in self.kids]
        if op == "cat1":
            return np.concatenate(L, 1)
        if op == "cat2":
            return np.concatenate(L, 2)
        if op == "sum":
            x = np.concatenate(L, 2) if p.get("aslist") else L[0]
            return _lse(x[:, :, :, None, :] + np.log(p["w"])[None], 2)
        if op == "prod":
            x = np.concatenate(L, 1) if p.get("aslist") else L[0]
            return x.sum(1, keepdims=True)
        if op == "esum":
            ci = max(k.C for k in self.kids)
            st = np.stack([np.broadcast_to(l, l.shape[:2] + (ci,) + l.shape[3:]) for l in L], 3)  # b f ci i r
            o = _lse(st[:, :, :, None] + np.log(p["w"])[None], 4)  # b f ci co r
            return o.reshape(o.shape[0], o.shape[1], -1, o.shape[-1])
        if op in ("eprod", "oprod"):
            parts = L if p.get("split") is None else self._halves(L[0])
            if op == "eprod":
                out = parts[0]
                for q in parts[1:]:
                    out = out + q
                return np.broadcast_to(out, out.shape[:2] + (self.C,) + out.shape[3:])
            out = parts[0]
            for q in parts[1:]:
                out = out[:, :, :, None, :] + q[:, :, None, :, :]
                out = out.reshape(out.shape[0], out.shape[1], -1, out.shape[-1])
            return out
        if op in ("einsum", "linsum"):
            a, b = L if p.get("split") is None else self._halves(L[0])
            if op == "linsum":
                s = (a + b).transpose(0, 1, 3, 2)[:, :, None]  # b f 1 r c
                return _lse(s + np.log(p["w"])[None], 4)
            s = a[:, :, :, None, :] + b[:, :, None, :, :]  # b f i j r
            s = s.transpose(0, 1, 4, 2, 3)[:, :, None]  # b f 1 r i j
            s = s + np.log(p["w"])[None]
            return _lse(s.reshape(s.shape[:4] + (-1,)), 4)
        if op == "repmix":
            return _lse(L[0] + np.log(p["w"])[None], 3)[..., None]
        raise KeyError(op)

    # ---------------------------------------------------------- reference MPE
    def mpe(self, X, slot=(0, 0, 0)):
        """Decision-by-decision most probable completion (argmax posterior at every mixture, mode at every leaf).

        Returns (completed rows, margin per row); margin = smallest gap between best and second-best choice met.
        """
        memo = {}
        self.ref(X, memo)
        out = np.array(X, dtype=float)
        margin = np.full(len(X), np.inf)
        for b in range(len(X)):
            self._route(b, *slot, memo, out, margin)
        return out, margin

    def _pick(self, b, scores, margin):
        scores = np.asarray(scores, float)
        if scores.size > 1:
            top = np.sort(scores)[-2:]
            margin[b] = min(margin[b], top[1] - top[0])
        return int(scores.argmax())

    def _part(self, f, i):
        """Child feature index of part i of output feature f for a split layer."""
        ns, F = self.p["nsplit"], self.F
        if self.p["split"] == "consecutive":
            return i * F + f
        if self.p["split"] == "interleaved":
            return f * ns + i
        return self.p["groups"][i][f]

    def _route(self, b, f, c, r, memo, out, margin):
        op, p = self.op, self.p
        kids = self.kids
        L = [memo[id(k)] for k in kids]
        go = lambda k, f_, c_, r_: kids[k]._route(b, f_, min(c_, kids[k].C - 1) if kids[k].C == 1 else c_, r_, memo, out, margin)  # noqa: E731
        if op == "leaf":
            col = p["cols"][f]
            if np.isnan(out[b, col]):
                q = {k: v[f, c, r] for k, v in p["params"].items()}
                out[b, col], m = lr.mode(p["kind"], q)
                margin[b] = min(margin[b], m)
            return
        if op == "cat1":
            for k in range(len(kids)):
                if f < kids[k].F:
                    return go(k, f, c, r)
                f -= kids[k].F
        if op == "cat2":
            for k in range(len(kids)):
                if c < kids[k].C:
                    return go(k, f, c, r)
                c -= kids[k].C
        if op == "sum":
            x = np.concatenate(L, 2)
            ci = self._pick(b, x[b, f, :, r] + np.log(p["w"][f, :, c, r]), margin)
            for k in range(len(kids)):
                if ci < kids[k].C:
                    return go(k, f, ci, r)
                ci -= kids[k].C
        if op == "prod":
            for k in range(len(kids)):
                for f_ in range(kids[k].F):
                    go(k, f_, c, r)
            return
        if op == "esum":
            co = p["w"].shape[2]
            ci, cs = c // co, c % co
            sc = [L[i][b, f, 0 if kids[i].C == 1 else ci, r] + np.log(p["w"][f, ci, cs, i, r]) for i in range(len(kids))]
            return go(self._pick(b, sc, margin), f, ci, r)
        if op == "eprod":
            if p.get("split") is None:
                for k in range(len(kids)):
                    go(k, f, c, r)
            else:
                for i in range(p["nsplit"]):
                    go(0, self._part(f, i), c, r)
            return
        if op == "oprod":
            dims = [k.C for k in kids] if p.get("split") is None else [kids[0].C] * p["nsplit"]
            cs = np.unravel_index(c, dims)
            for i, ci in enumerate(cs):
                if p.get("split") is None:
                    go(i, f, int(ci), r)
                else:
                    go(0, self._part(f, i), int(ci), r)
            return
        if op in ("einsum", "linsum"):
            if p.get("split") is None:
                a, d = L[0][b, f, :, r], L[1][b, f, :, r]
            else:
                a, d = L[0][b, self._part(f, 0), :, r], L[0][b, self._part(f, 1), :, r]
            if op == "linsum":
                i = j = self._pick(b, a + d + np.log(p["w"][f, c, r]), margin)
            else:
                s = a[:, None] + d[None] + np.log(p["w"][f, c, r])
                i, j = np.unravel_index(self._pick(b, s.ravel(), margin), s.shape)
            if p.get("split") is None:
                go(0, f, int(i), r)
                go(1, f, int(j), r)
            else:
                go(0, self._part(f, 0), int(i), r)
                go(0, self._part(f, 1), int(j), r)
            return
        if op == "repmix":
            return go(0, f, c, self._pick(b, L[0][b, f, c] + np.log(p["w"][f, c]), margin))
        raise KeyError(op)


def _lse(a, axis):
    m = a.max(axis=axis, keepdims=True)
    m = np.where(np.isfinite(m), m, 0.0)
    with np.errstate(all="ignore"):
        return np.log(np.exp(a - m).sum(axis=axis)) + np.squeeze(m, axis)


def _f32w(w, axes):
    """float32-exact strictly positive weights normalised over ``axes``."""
    w = np.asarray(w, dtype=np.float64)
    return w / w.sum(axis=axes, keepdims=True)


class Gen:
    """Random circuit generator over the given variables."""

    def __init__(self, rng, vars_, R=1, maxC=3, share=0.25, sampleable=False, ops=None, max_nodes=40, maxR_w=True):
        self.rng, self.vars, self.R, self.maxC, self.share = rng, vars_, R, maxC, share
        self.sampleable = sampleable  # avoid constructs for which sampling is declared unsupported
        self.ops = ops
        self.pool: dict = {}
        self.n = 0
        # Output-feature/scope metadata of multi-feature split products is a recorded finding
        # (split-scope-metadata); layers that consult it are only put above nodes that carry it correctly.
        self.need_meta = False
        self.max_nodes = max_nodes

    def _w(self, shape, axes):
        w = self.rng.gamma(0.9, 1.0, shape) + 0.05
        return _f32w(w, axes)

    def _c(self):
        return int(self.rng.integers(1, self.maxC + 1))

    def _split_scope(self, s, k):
        s = list(s)
        self.rng.shuffle(s)
        cuts = sorted(self.rng.choice(np.arange(1, len(s)), size=k - 1, replace=False))
        out, prev = [], 0
        for c in list(cuts) + [len(s)]:
            out.append(frozenset(int(v) for v in s[prev:c]))
            prev = c
        return out

    def leaf(self, feats, C):
        cols = [next(iter(f)) for f in feats]
        groups = [self.vars[c].group for c in cols]
        if len(set(groups)) == 1:
            v = self.vars[cols[0]]
            prm = lr.rand_params(v.kind, self.rng, (len(cols), C, self.R), K=v.K, total=v.total)
            return Node("leaf", feats, C, self.R, kind=v.kind, cols=tuple(cols), params=prm)
        kids = []
        i = 0
        while i < len(cols):
            j = i
            while j + 1 < len(cols) and groups[j + 1] == groups[i]:
                j += 1
            kids.append(self.leaf(feats[i:j + 1], C))
            i = j + 1
        return Node("cat1", feats, C, self.R, kids)

    def gen(self, feats, C, depth):
        feats = tuple(feats)
        key = (feats, C, self.need_meta)
        if key in self.pool and self.rng.random() < self.share:
            return self.pool[key][self.rng.integers(len(self.pool[key]))]
        self.n += 1
        outer = self.need_meta
        try:
            node = self._gen(feats, C, depth)
        finally:
            self.need_meta = outer
        self.pool.setdefault(key, []).append(node)
        return node

    def _allowed(self, op):
        return self.ops is None or op in self.ops

    def _gen(self, feats, C, depth):
        rng, R = self.rng, self.R
        comp = [len(f) > 1 for f in feats]
        F = len(feats)
        opts = []
        small = self.n > self.max_nodes
        if all(not c for c in comp):
            opts.append(("leafn", 4.0 if depth > 0 and not small else 1e6))
        if depth > 0 and not small:
            opts += [("sum", 2.5), ("esum", 1.2), ("cat2", 0.8 if C > 1 else 0)]
            opts.append(("sumlist", 1.0))
        if F > 1:
            opts.append(("cat1", 1.2 if any(comp) and not all(comp) else 0.5))
        if all(comp):
            opts += [("eprod", 1.5), ("linsum", 1.5), ("einsum", 1.5), ("oprod", 1.2),
                     ("eprod_s", 1.5), ("linsum_s", 1.2), ("einsum_s", 1.2), ("oprod_s", 1.0)]
            if F == 1:
                opts += [("prod", 3.0), ("prodlist", 1.0)]
        elif any(comp):
            opts = [(o, w) for o, w in opts if o not in ("leafn",)]
            opts.append(("cat1", 3.0))
        opts = [(o, w) for o, w in opts if w > 0 and self._allowed(o)]
        if not opts:
            opts = [("cat1", 1.0)] if F > 1 else ([("prod", 1.0)] if comp[0] else [("leafn", 1.0)])
        if self.need_meta and F > 1:
            opts = [(o, w) for o, w in opts if o != "oprod" and not o.endswith("_s")] or [("cat1", 1.0)]
        names = [o for o, _ in opts]
        ws = np.array([w for _, w in opts])
        op = names[rng.choice(len(names), p=ws / ws.sum())]
        d = depth - 1
        if op in ("esum", "cat1", "cat2", "sumlist", "prodlist"):
            self.need_meta = True
        if op == "leafn":
            return self.leaf(feats, C)
        if op == "sum":
            ci = self._c()
            kid = self.gen(feats, ci, d)
            return Node("sum", feats, C, R, [kid], w=self._w((F, ci, C, R), 1))
        if op == "sumlist":
            cs = [self._c() for _ in range(int(rng.integers(2, 4)))]
            kids = [self.gen(feats, c, d) for c in cs]
            return Node("sum", feats, C, R, kids, aslist=True, w=self._w((F, sum(cs), C, R), 1))
        if op == "esum":
            divs = [c for c in range(1, C + 1) if C % c == 0]
            ci = divs[rng.integers(len(divs))]
            k = int(rng.integers(2, 4))
            one = int(rng.integers(k)) if ci > 1 and rng.random() < 0.3 else None
            kids = [self.gen(feats, 1 if i == one else ci, d) for i in range(k)]
            return Node("esum", feats, C, R, kids, w=self._w((F, ci, C // ci, k, R), 3))
        if op == "cat2":
            c1 = int(rng.integers(1, C))
            return Node("cat2", feats, C, R, [self.gen(feats, c1, d), self.gen(feats, C - c1, d)])
        if op == "cat1":
            cut = int(rng.integers(1, F))
            return Node("cat1", feats, C, R, [self.gen(feats[:cut], C, d), self.gen(feats[cut:], C, d)])
        if op in ("prod", "prodlist"):
            k = int(rng.integers(2, len(feats[0]) + 1))
            parts = self._split_scope(feats[0], k)
            if op == "prod":
                return Node("prod", feats, C, R, [self.gen(parts, C, d)])
            return Node("prod", feats, C, R, [self.gen((q,), C, d) for q in parts], aslist=True)
        maxk = min(len(f) for f in feats)
        k = 2 if op.startswith(("einsum", "linsum")) else int(rng.integers(2, min(3, maxk) + 1))
        parts = [self._split_scope(f, k) for f in feats]  # parts[f][i]
        base = op.split("_")[0]
        if op.endswith("_s"):
            kinds = ["consecutive", "interleaved"]
            if not self.sampleable or base in ("einsum", "linsum"):
                kinds.append("by_index")
            sp = kinds[rng.integers(len(kinds))]
            prm = {"split": sp, "nsplit": k, "how": int(rng.integers(0, 3))}
            if sp == "consecutive":
                order = [(f, i) for i in range(k) for f in range(F)]
            elif sp == "interleaved":
                order = [(f, i) for f in range(F) for i in range(k)]
            else:
                order = [(f, i) for f in range(F) for i in range(k)]
                rng.shuffle(order)
                order = [tuple(int(v) for v in o) for o in order]
                pos = {o: j for j, o in enumerate(order)}
                prm["groups"] = [[pos[(f, i)] for f in range(F)] for i in range(k)]
            cf = [parts[f][i] for f, i in order]
            if base == "eprod":
                return Node("eprod", feats, C, R, [self.gen(cf, C, d)], **prm)
            if base == "oprod":
                root = round(C ** (1.0 / k))
                if root ** k == C and root >= 1:
                    return Node("oprod", feats, C, R, [self.gen(cf, root, d)], **prm)
                # wrap: outer product of 2 channels then a sum to C channels
                c0 = 2 if k == 2 else 1
                inner = Node("oprod", feats, c0 ** k, R, [self.gen(cf, c0, d)], **prm)
                return Node("sum", feats, C, R, [inner], w=self._w((F, c0 ** k, C, R), 1))
            ci = self._c()
            kid = self.gen(cf, ci, d)
            if base == "linsum":
                return Node("linsum", feats, C, R, [kid], w=self._w((F, C, R, ci), -1), **prm)
            return Node("einsum", feats, C, R, [kid], w=self._w((F, C, R, ci, ci), (-2, -1)), **prm)
        kf = [[parts[f][i] for f in range(F)] for i in range(k)]
        if op == "eprod":
            one = int(rng.integers(0, k)) if C > 1 and rng.random() < 0.3 else None
            return Node("eprod", feats, C, R, [self.gen(kf[i], 1 if i == one else C, d) for i in range(k)])
        if op == "oprod":
            cs = _factor(rng, C, k)
            return Node("oprod", feats, C, R, [self.gen(kf[i], cs[i], d) for i in range(k)])
        if op == "linsum":
            ci = self._c()
            return Node("linsum", feats, C, R, [self.gen(kf[i], ci, d) for i in range(2)],
                        w=self._w((F, C, R, ci), -1))
        c1, c2 = self._c(), self._c()
        return Node("einsum", feats, C, R, [self.gen(kf[0], c1, d), self.gen(kf[1], c2, d)],
                    w=self._w((F, C, R, c1, c2), (-2, -1)))

    def root(self, C=1, depth=4, repmix=True):
        feats = (frozenset(range(len(self.vars))),)
        if len(self.vars) == 1:
            n = self.gen(feats, C, depth)
        else:
            n = self.gen(feats, C, depth)
        if self.R > 1 and repmix:
            n = Node("repmix", feats, C, 1, [n], Rin=self.R, w=self._w((1, C, self.R), 2))
        return n


def _factor(rng, C, k):
    cs = [1] * k
    rem = C
    for q in (2, 3, 5, 7):
        while rem % q == 0:
            cs[rng.integers(k)] *= q
            rem //= q
    cs[rng.integers(k)] *= rem
    return cs


def random_circuit(rng, n=None, families=None, R=None, C=1, depth=None, sampleable=False, share=0.25, ops=None, maxC=3,
                   max_nodes=40, shuffle_cols=True):
    n = int(rng.integers(2, 6)) if n is None else n
    fam = families or DISCRETE
    vs = rand_vars(rng, n, fam)
    R = R if R is not None else (1 if rng.random() < 0.65 else int(rng.integers(2, 4)))
    g = Gen(rng, vs, R=R, maxC=maxC, share=share, sampleable=sampleable, ops=ops, max_nodes=max_nodes)
    node = g.root(C=C, depth=int(rng.integers(2, 6)) if depth is None else depth)
    return node, vs


def full_domain(vs):
    return np.array(list(itertools.product(*[v.domain for v in vs])), dtype=np.float64)


def rand_data(rng, vs, n, missing=0.0):
    X = np.stack([lr.sample_data(v.kind, rng, n, K=v.K, total=v.total) for v in vs], 1)
    if missing:
        X[rng.random(X.shape) < missing] = np.nan
    return X


def random_multi(rng, n=None, families=None, R=None, C=None, depth=None, sampleable=True, ops=None, maxC=3, max_nodes=40):
    """Circuit whose root has several features (independent factors), channels and repetitions."""
    n = int(rng.integers(2, 6)) if n is None else n
    vs = rand_vars(rng, n, families or DISCRETE)
    R = R if R is not None else int(rng.integers(1, 4))
    C = C if C is not None else int(rng.integers(1, 4))
    g = Gen(rng, vs, R=R, maxC=maxC, sampleable=sampleable, ops=ops, max_nodes=max_nodes)
    feats = g._split_scope(range(n), int(rng.integers(1, n + 1))) if n > 1 else [frozenset([0])]
    return g.gen(tuple(feats), C, int(rng.integers(1, 5)) if depth is None else depth), vs
