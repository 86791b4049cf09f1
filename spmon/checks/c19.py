"""C19: a circuit written in the expression language is the distribution the expression denotes."""
import numpy as np

from spmon import leafref as lr, mon, circ
from spmon.circ import t
from spmon.runner import Family, Skip

PID = "C19"
RULE = "distinct = distinct expression (written form, scopes, channels, repetitions)"
ASSUMPTIONS = ["denotation: '*' between models = independent product, 'w1*x1 + w2*x2 + ...' = mixture with weights divided by their sum, a mixture used as a term keeps "
               "its own (normalised) weights; evaluated independently in float64 from the leaves' log-likelihoods"]


class E:
    """An expression under construction: the real object, its text, its reference value, scope, features, channels."""

    def __init__(self, obj, txt, ref, vars_, F, C):
        self.obj, self.txt, self.ref, self.vars, self.F, self.C = obj, txt, ref, frozenset(vars_), F, C


class Maker:
    def __init__(self, rng, R):
        self.rng, self.R, self.n = rng, R, 0
        self.pool = []

    def leaf(self, vs, C):
        from spflow import dsl

        rng = self.rng
        cols = sorted(int(v) for v in vs)
        kind = str(rng.choice(["bernoulli", "categorical", "normal"]))
        if self.kind.get(tuple(cols)):
            kind = self.kind[tuple(cols)]
        m = lr.build(kind, cols, lr.rand_params(kind, rng, (len(cols), C, self.R), K=2))
        self.n += 1
        e = E(m, f"x{self.n}", lambda X: mon.ll(m, X), cols, len(cols), C)
        if rng.random() < 0.4:
            e = E(dsl.term(m), f"term({e.txt})", e.ref, cols, len(cols), C)
        return e

    kind: dict = {}

    def prod(self, vs, C, depth):
        from spflow import dsl

        rng = self.rng
        vs = [int(v) for v in rng.permutation(sorted(vs))]
        k = int(rng.integers(2, min(4, len(vs)) + 1))
        cuts = np.sort(rng.choice(np.arange(1, len(vs)), k - 1, replace=False))
        fs = [self.expr(p.tolist(), C, depth - 1, weighted_ok=False) for p in np.split(np.array(vs), cuts)]
        # any association of the factors
        items = list(fs)
        while len(items) > 1:
            i = int(rng.integers(len(items) - 1))
            a, b = items[i], items[i + 1]
            o = a.obj * b.obj
            items[i:i + 2] = [E(o, f"({a.txt} * {b.txt})", None, a.vars | b.vars, 1, C)]
        out = items[0]
        refs = [f.ref for f in fs]
        out.ref = lambda X: sum(r(X).sum(1, keepdims=True) for r in refs)
        return out

    def mix(self, vs, depth, F=None):
        from spflow import dsl

        rng = self.rng
        k = int(rng.integers(2, 5))
        terms, ws = [], []
        first = self.expr(vs, 1, depth - 1)
        Fw = first.F
        xs = [first]
        while len(xs) < k:
            if rng.random() < 0.2:
                xs.append(xs[int(rng.integers(len(xs)))])  # the same model twice
                continue
            c = self.expr(vs, 1, depth - 1, F=Fw)
            xs.append(c)
        items, reuse = [], rng.random() < 0.5
        for j, x in enumerate(xs):
            i = next((i for i in range(j) if xs[i] is x), None)
            if i is not None and reuse:  # the very same term once more: it counts twice
                ws.append(ws[i])
                items.append(items[i] if rng.random() < 0.5 else (ws[i] * x.obj, f"{ws[i]:.3g}*{x.txt}"))
                continue
            w = float(rng.choice([0.3, 1, 2, 7, 0.05])) if rng.random() < 0.5 else float(rng.gamma(1.0) + 1e-3)
            if rng.random() < 0.2:
                w = int(max(1, round(w)))
            form = int(rng.integers(3))
            o = w * x.obj if form == 0 else x.obj * w if form == 1 else dsl.w(w, x.obj)
            items.append((o, [f"{w:.3g}*{x.txt}", f"{x.txt}*{w:.3g}", f"w({w:.3g},{x.txt})"][form]))
            ws.append(float(w))
        while len(items) > 1:  # any association of '+'
            i = int(rng.integers(len(items) - 1))
            (a, s), (b, u) = items[i], items[i + 1]
            items[i:i + 2] = [(a + b, f"({s} + {u})")]
        w = np.array(ws) / np.sum(ws)
        refs = [x.ref for x in xs]
        return E(items[0][0], items[0][1], lambda X: mon.lse(np.stack([r(X) + np.log(v) for r, v in zip(refs, w)]), 0), vs, Fw, 1)

    def expr(self, vs, C, depth, weighted_ok=True, F=None):
        rng = self.rng
        if F is not None and F > 1:  # same feature arrangement: a leaf layer over all variables
            return self.leaf(vs, C)
        if F == 1 and len(vs) > 1:
            return self.prod(vs, C, depth)
        if depth <= 0 or rng.random() < 0.2:
            return self.leaf(vs, C) if F is None or len(vs) == F else self.prod(vs, C, depth)
        if C == 1 and rng.random() < 0.55:
            return self.mix(vs, depth)
        if len(vs) > 1:
            return self.prod(vs, C, depth)
        return self.leaf(vs, C)


def f_expr(ctx):
    from spflow import dsl

    rng = ctx.rng
    R = int(rng.integers(1, 4)) if rng.random() < 0.4 else 1
    mk = Maker(rng, R)
    n = int(rng.integers(1, 5))
    mk.kind = {}
    C = 1 if rng.random() < 0.75 else int(rng.integers(2, 4))
    depth = int(rng.integers(1, 5))
    with dsl.dsl():
        e = mk.expr(list(range(n)), C, depth)
        # expressions are values: using one in a larger expression does not change it
        if not isinstance(e.obj, dsl.Buildable):
            e = E(dsl.term(e.obj), e.txt, e.ref, e.vars, e.F, e.C)
        m0 = dsl.build(e.obj)
        extra = lr.build("bernoulli", [n], lr.rand_params("bernoulli", rng, (1, C, R)))
        _ = e.obj * extra, 0.5 * e.obj
        if C == 1:
            _ = 0.2 * e.obj + 0.8 * e.obj
        m = e.obj.build() if rng.random() < 0.5 else dsl.build(e.obj)
    ctx.note(e.txt[:300])
    ctx.key(e.txt, n, R, C)
    ctx.check(sorted(m.scope.query) == list(range(n)), f"{e.txt}: scope {m.scope}")
    X = rng.integers(0, 2, (7, n)).astype(float)
    X[rng.random(X.shape) < 0.2] = np.nan
    want = e.ref(X)
    ctx.close(mon.ll(m, X), want, f"{e.txt[:200]}", rtol=1e-4, atol=1e-4)
    ctx.close(mon.ll(m0, X), want, f"{e.txt[:200]}: first build", rtol=1e-4, atol=1e-4)
    ctx.check(tuple(m.out_shape) == want.shape[1:], f"{e.txt[:200]}: shape {tuple(m.out_shape)} vs {want.shape[1:]}")
    # the built circuit uses the very modules of the expression
    ctx.count("leaves_in_expression", mk.n)


def f_reject(ctx):
    """Ill-formed expressions never build a circuit, and the operators exist only inside the context."""
    from spflow import dsl
    from spflow.modules.module import Module

    rng = ctx.rng
    C, R = int(rng.integers(1, 3)), int(rng.integers(1, 3))
    L = lambda v, c=1, r=1: lr.build("bernoulli", list(v), lr.rand_params("bernoulli", rng, (len(v), c, r)))  # noqa: E731
    a, b, ab, a2, cc, rr = L([0]), L([1]), L([0, 1]), L([0]), L([0], 2), L([1], 1, 2)
    bad = float(rng.choice([0.0, -0.5, np.nan, np.inf, -np.inf, -1]))
    with dsl.dsl():
        B = dsl.build
        cases = {
            "overlapping factors": lambda: B(a * a2), "same factor twice": lambda: B(a * b * a), "nested overlap": lambda: B((a * b) * ab),
            "different scopes in a mixture": lambda: B(0.5 * a + 0.5 * b), "subset scope in a mixture": lambda: B(0.5 * a + 0.5 * ab),
            "bad weight": lambda: B(bad * a + 0.5 * a2), "bad weight right": lambda: B(a * bad + 0.5 * a2), "bad weight w()": lambda: B(dsl.w(bad, a) + dsl.w(1.0, a2)),
            "bad weight of a product": lambda: B(bad * (a * b) + 1.0 * (a2 * b)), "bad weight of a mixture": lambda: B(bad * (0.5 * a + 0.5 * a2) + 1.0 * a),
            "unweighted sum": lambda: B(a + a2), "half-weighted sum": lambda: B(0.5 * a + a2), "half-weighted sum 2": lambda: B(a2 + 0.5 * a),
            "weighted term alone": lambda: B(0.5 * a), "weight inside a product": lambda: B((a * b) * (0.5 * L([2]))),
            "several channels in a mixture": lambda: B(0.5 * cc + 0.5 * L([0], 2)), "different channels in a product": lambda: B(cc * b),
            "different repetitions in a product": lambda: B(a * rr), "different repetitions in a mixture": lambda: B(0.5 * b + 0.5 * rr),
            "different features in a mixture": lambda: B(0.5 * ab + 0.5 * (a * b)), "product with text": lambda: B(a * "x"), "term of a number": lambda: B(dsl.as_expr(3)),
            "weight given as text": lambda: B(dsl.w("1", a) + dsl.w(1.0, a2)),
        }
        for what, f in cases.items():
            try:
                m = f()
            except (TypeError, ValueError, ArithmeticError, AttributeError):
                ctx.count("rejected")
                continue
            except Exception as e:  # noqa: BLE001
                ctx.check("spflow" in type(e).__module__, f"{what}: {type(e).__name__}")
                ctx.count("rejected")
                continue
            ctx.fail(f"{what} ({bad}) was accepted: {type(m).__name__} over {m.scope}")
        with dsl.dsl():
            ctx.check(isinstance(dsl.build(a * b), Module), "nested context")
        ctx.check(isinstance(dsl.build(a * b), Module), "leaving a nested context switched the outer one off")
    ctx.key("reject", bad, C, R)

    class Boom(Exception):
        pass

    try:
        with dsl.dsl():
            raise Boom()
    except Boom:
        pass
    for what, f in {"*": lambda: a * b, "scalar *": lambda: 0.5 * a, "* scalar": lambda: a * 0.5, "+": lambda: a + a2}.items():
        try:
            f()
        except TypeError:
            ctx.count("rejected")
            continue
        ctx.fail(f"operator {what} still works outside the context")
    ctx.check(not any(k in vars(Module) for k in ("__mul__", "__rmul__", "__add__", "__radd__")), "operators left on Module after the context")
    ctx.check(isinstance((dsl.term(a) * b).build(), Module), "term(a) * b works outside the context")


FAMILIES = [
    Family("expr", f_expr, 1000, 6000, timeout=30),
    Family("reject", f_reject, 30, 400, timeout=30),
]
