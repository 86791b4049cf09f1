"""C36: an operation that fails midway leaves nothing behind - model, settings and later answers are those of a model it never ran on."""
import copy

import numpy as np
import torch
from torch.overrides import TorchFunctionMode

from spmon import circ, mon, zoo
from spmon.checks import common
from spmon.runner import CaseTimeout, Family, Skip, Violation

PID = "C36"
RULE = "distinct = distinct (model, operation, kind of fault, crash point) - the operation really stopped at that tensor operation"
ASSUMPTIONS = ["faults strike at tensor operations (out-of-memory, interrupt) or come from callables the caller handed in",
               "sampling into the caller's table may leave missing entries partly filled",
               "an interrupted update may keep the steps and parameters already written; what it keeps must still be a valid model"]
ZOO = ["rat", "einet", "convpc", "hclt", "cltree", "naive_bayes", "cnet", "learn_spn", "prometheus", "cms"]


class Fault(RuntimeError):
    pass


class Interrupt(KeyboardInterrupt):
    pass


SETTERS = {"set_grad_enabled", "_set_grad_enabled", "set_default_dtype", "manual_seed", "set_rng_state", "get_rng_state"}


class Crash(TorchFunctionMode):
    """Counts tensor operations and raises at number ``at``."""

    def __init__(self, at=None, exc=Fault):
        super().__init__()
        self.n, self.at, self.exc, self.hit = 0, at, exc, None

    def __torch_function__(self, func, types, args=(), kwargs=None):
        if getattr(func, "__name__", "") in SETTERS:  # switching a setting (back) does not fail
            return func(*args, **(kwargs or {}))
        self.n += 1
        if self.at is not None and self.n == self.at:
            self.hit = getattr(func, "__name__", str(func))
            raise self.exc(f"injected at tensor operation {self.n} ({self.hit})")
        return func(*args, **(kwargs or {}))


def settings():
    return (torch.get_default_dtype(), torch.is_grad_enabled(), torch.is_inference_mode_enabled(), torch.is_autocast_enabled(),
            torch.are_deterministic_algorithms_enabled(), torch.get_num_threads(), torch.is_anomaly_enabled())


def class_attrs():
    from spflow.meta.data.scope import Scope
    from spflow.modules.leaves import leaf
    from spflow.modules.leaves import Normal
    from spflow.modules.module import Module
    from spflow.modules.products.product import Product
    from spflow.modules.sums.sum import Sum

    return [(c.__name__, n, id(v)) for c in (Module, Sum, Product, leaf.LeafModule, Normal, Scope) for n, v in sorted(vars(c).items()) if callable(v)]


def snap(m):
    return dict(sd={k: (v, v.detach().clone()) for k, v in m.state_dict(keep_vars=True).items()},
                req=[p.requires_grad for p in m.parameters()], grad=[None if p.grad is None else p.grad.clone() for p in m.parameters()],
                mods=[(id(q), q.training, len(q._forward_hooks), len(q._forward_pre_hooks), len(q._backward_hooks)) for q in m.modules()])


def bits(a, b):
    return a.dtype == b.dtype and a.shape == b.shape and torch.equal(torch.nan_to_num(a.detach().double(), nan=1e30), torch.nan_to_num(b.detach().double(), nan=1e30))


def same_model(ctx, m, s, what, values=True):
    now = m.state_dict(keep_vars=True)
    ctx.check(list(now) == list(s["sd"]), f"{what}: the set of stored tensors changed")
    if values:
        for k, (obj, val) in s["sd"].items():
            ctx.check(bits(now[k], val), f"{what}: {k} changed")
        ctx.check(all((g.grad is None) == (h is None) and (h is None or bits(g.grad, h)) for g, h in zip(m.parameters(), s["grad"])), f"{what}: gradients changed")
        ctx.check([q[1] for q in s["mods"]] == [q.training for q in m.modules()], f"{what}: training flags changed")
    ctx.check([p.requires_grad for p in m.parameters()] == s["req"], f"{what}: requires_grad changed")
    ctx.check([q[0] for q in s["mods"]] == [id(q) for q in m.modules()], f"{what}: the module tree changed")
    ctx.check([q[2:] for q in s["mods"]] == [(len(q._forward_hooks), len(q._forward_pre_hooks), len(q._backward_hooks)) for q in m.modules()], f"{what}: hooks left behind")


def some_model(ctx, families=None):
    rng = ctx.rng
    r = rng.random()
    if r < 0.55:
        kw = dict(families=families) if families else {}
        node, vs = circ.random_circuit(rng, n=int(rng.integers(1, 5)), sampleable=True, **kw)
        ctx.note(f"vars={vs} {node.describe()[:300]}")
        return node.build(), vs, "circuit"
    name = ZOO[int(rng.integers(len(ZOO)))]
    z = common.model(ctx, name)
    return z.m, z.vs, name


def as_np(v):
    if torch.is_tensor(v):
        return torch.nan_to_num(v.detach().double(), nan=1e30).numpy()
    if isinstance(v, (tuple, list)):
        return np.concatenate([as_np(q).reshape(-1) for q in v])
    return np.zeros(0)


def agree(ctx, a, b, what):
    ctx.check(a.shape == b.shape, f"{what}: shape {a.shape} instead of {b.shape}")
    ctx.close(a, b, what, 1e-5, 1e-6)


def queries(ctx, m, vs, name):
    """(label, callable, deterministic inputs to watch) - each callable returns the answer."""
    from spflow.measures.information_theory import entropy
    from spflow.utils.structure_stats import get_structure_stats

    rng = ctx.rng
    X = circ.rand_data(rng, vs, 6, missing=0.3)
    E = circ.rand_data(rng, vs, 4, missing=0.5)
    E[~np.isfinite(mon.ll(m, E)).reshape(len(E), -1).all(1)] = np.nan
    x, e = mon.tt(X), mon.tt(E)
    keep = x.clone(), e.clone()

    def intact(what):
        ctx.check(bits(x, keep[0]) and bits(e, keep[1]), f"{what}: the caller's data changed")

    def run(f, grad):
        def g():
            torch.manual_seed(11)
            np.random.seed(11)
            with torch.set_grad_enabled(grad):
                return as_np(f())
        return g

    q = [("log_likelihood", lambda: m.log_likelihood(x)), ("forward", lambda: m(x)), ("probability", lambda: m.probability(x)),
         ("sample", lambda: m.sample(num_samples=3)), ("sample_with_evidence", lambda: m.sample_with_evidence(e.clone())),
         ("sample(data)", lambda: m.sample(data=e.clone())), ("mpe", lambda: m.mpe(data=e.clone())), ("mpe(n)", lambda: m.mpe(num_samples=2)),
         ("to_str", lambda: m.to_str() and None), ("stats", lambda: get_structure_stats(m) and None)]
    sub = sorted(m.scope.query)
    if name not in ("cms",):
        q.append(("entropy", lambda: entropy(m, scope=sub, method="mc", num_samples=8, seed=5)))
    if name in ("circuit", "rat", "learn_spn", "prometheus"):
        q.append(("marginalize", lambda: _marg(m, vs, keep[0])))
    grad = bool(rng.random() < 0.5)
    return [(k, run(f, grad)) for k, f in q], intact


def _marg(m, vs, x):
    mm = m.marginalize([len(vs) - 1])
    y = x.clone()
    y[:, len(vs) - 1] = float("nan")
    return None if mm is None else mm.log_likelihood(y)


def f_queries(ctx):
    """A query struck by a fault at any tensor operation changes nothing and can be asked again."""
    rng = ctx.rng
    m, vs, name = some_model(ctx)
    X = circ.rand_data(rng, vs, 5)
    L = mon.ll(m, X)
    qs, intact = queries(ctx, m, vs, name)
    if rng.random() < 0.5:
        (m.train if rng.random() < 0.5 else m.eval)()
    s, cfg, attrs = snap(m), settings(), class_attrs()
    for k, f in qs:
        with Crash() as c:
            try:
                want = f()
            except (NotImplementedError, ValueError, RuntimeError, TypeError) as err:
                if k in ("marginalize", "entropy"):  # structural marginals and measures are judged by their own properties
                    continue
                raise AssertionError(f"{name}.{k}: {type(err).__name__}: {err}") from err
        if not c.n:
            continue
        points = {1, c.n} | set(int(i) for i in rng.integers(1, c.n + 1, size=3 if ctx.tier == "quick" else 8))
        for at in sorted(points):
            exc = Interrupt if rng.random() < 0.4 else Fault
            what = f"{name}.{k} failing with {exc.__name__} at tensor operation {at}/{c.n}"
            try:
                with Crash(at, exc) as d:
                    got = f()
            except (Fault, Interrupt):
                ctx.count("crashes")
                ctx.key(name, k, d.hit, exc.__name__, at)
            except CaseTimeout:
                raise
            except Exception as err:  # translated into another exception: as good as any
                ctx.count("crashes:translated")
                ctx.key(name, k, d.hit, type(err).__name__, at)
            else:
                if d.hit is not None:
                    ctx.count("crashes:absorbed")
                    agree(ctx, got, want, f"{what}: absorbed, answer")
            same_model(ctx, m, s, what)
            intact(what)
            ctx.check(settings() == cfg, f"{what}: global settings {settings()} instead of {cfg}")
            ctx.check(class_attrs() == attrs, f"{what}: class attributes changed")
            agree(ctx, f(), want, f"{what}: the same query afterwards")
            ctx.count("queries repeated")
    agree(ctx, mon.ll(m, X), L, f"{name}: log-likelihood after all faults")


def valid(ctx, m, vs, what):
    for k, v in m.state_dict().items():
        if v.is_floating_point():
            ctx.check(not torch.isnan(v).any(), f"{what}: {k} is NaN")
    for q in m.modules():
        try:
            w = q.log_weights if hasattr(type(q), "log_weights") else None
        except Exception:
            w = None
        if torch.is_tensor(w):
            ctx.check(not torch.isnan(w).any(), f"{what}: weights of {type(q).__name__} are NaN")
    size = 1
    for v in vs:
        size *= len(v.domain) if v.domain else 10 ** 9
    if size <= 700:
        mon.check_normalized(ctx, m, vs, what)


def f_updates(ctx):
    """An update struck by a fault leaves a valid model that goes on exactly like a fresh model with the same parameters."""
    from spflow.learn import expectation_maximization, train_gradient_descent
    from spflow.learn.expectation_maximization import expectation_maximization_batched
    from torch.utils.data import DataLoader, TensorDataset

    rng = ctx.rng
    m, vs, name = some_model(ctx, families=["bernoulli", "categorical", "binomial", "geometric", "poisson", "normal", "exponential", "lognormal"])
    if name in ("cltree", "cms", "hclt", "cnet"):
        raise Skip("no EM / gradient training of this model is judged here")
    X = circ.rand_data(rng, vs, 16)
    if not np.isfinite(mon.ll(m, X)).all():
        raise Skip("data outside the support")
    x = mon.tt(X)
    fresh = copy.deepcopy(m)

    def em(q):
        return expectation_maximization(q, x, max_steps=2, bias_correction=False)

    def emb(q):
        return expectation_maximization_batched(q, DataLoader(TensorDataset(x), batch_size=8), num_epochs=1)

    def gd(q):
        return train_gradient_descent(q, DataLoader(TensorDataset(x), batch_size=8), epochs=1, lr=0.01)

    ops = {"em": em, "em_batched": emb, "gradient": gd}
    k = str(rng.choice(list(ops)))
    f = ops[k]

    def go(q):
        torch.manual_seed(3)
        with torch.enable_grad():
            return f(q)

    probe = copy.deepcopy(m)
    with Crash() as c:
        go(probe)
    cfg, attrs, keep = settings(), class_attrs(), x.clone()
    for at in sorted(set(int(i) for i in rng.integers(1, c.n + 1, size=4 if ctx.tier == "quick" else 10))):
        m = copy.deepcopy(fresh)
        s = snap(m)
        exc = Interrupt if rng.random() < 0.4 else Fault
        what = f"{name} {k} failing with {exc.__name__} at tensor operation {at}/{c.n}"
        try:
            with Crash(at, exc) as d:
                go(m)
        except (Fault, Interrupt):
            ctx.count("crashes")
            ctx.key(name, k, d.hit, at)
        except Exception:
            ctx.count("crashes:translated")
        same_model(ctx, m, s, what, values=False)
        ctx.check(settings() == cfg and class_attrs() == attrs, f"{what}: global settings or classes changed")
        ctx.check(bits(x, keep), f"{what}: the caller's data changed")
        valid(ctx, m, vs, what)
        other = copy.deepcopy(fresh)
        other.load_state_dict(m.state_dict())
        other.train(m.training)
        agree(ctx, mon.ll(m, X), mon.ll(other, X), f"{what}: log-likelihood against a fresh model with the same parameters")
        ha, hb = go(m), go(other)
        if torch.is_tensor(ha):
            agree(ctx, as_np(ha), as_np(hb), f"{what}: history of the run afterwards")
        for (n1, a), (_, b) in zip(m.state_dict().items(), other.state_dict().items()):
            agree(ctx, as_np(a), as_np(b), f"{what}: {n1} after running it again, against a fresh model with the same parameters")
        valid(ctx, m, vs, what + " and running it again")
        ctx.count("updates resumed")


def f_globals(ctx):
    """Contexts, learners and seeded measures put global state back when what runs inside them fails."""
    from spflow import dsl as D
    from spflow.learn import learn_spn
    from spflow.learn.learn_spn import partition_by_rdc
    from spflow.measures.information_theory import entropy
    from spflow.modules.module import Module
    from spflow.modules.sums.sum import Sum
    from spflow.utils.replace import replace

    rng = ctx.rng
    cfg, attrs = settings(), class_attrs()

    def back(what):
        ctx.check(settings() == cfg, f"{what}: global settings {settings()} instead of {cfg}")
        ctx.check(class_attrs() == attrs, f"{what}: methods of the library's classes were left replaced")
        ctx.count("contexts left by a fault")

    for depth in (1, 2):
        try:
            if depth == 1:
                with D.dsl():
                    ctx.check(class_attrs() != attrs, "dsl() installs its operators")
                    raise Interrupt() if rng.random() < 0.5 else Fault()
            else:
                with D.dsl():
                    with D.dsl():
                        raise Fault()
        except (Fault, Interrupt):
            pass
        ctx.key("dsl", depth)
        back(f"dsl() left by a fault at depth {depth}")
    node, vs = circ.random_circuit(rng, n=int(rng.integers(1, 4)))
    m = node.build()
    X = circ.rand_data(rng, vs, 5)
    L = mon.ll(m, X)

    def bad(self, *a, **k):
        raise Fault("replacement")

    for target in (Sum.log_likelihood, Module.probability if hasattr(Module, "probability") else Sum.log_likelihood, Sum.sample if hasattr(Sum, "sample") else Sum.log_likelihood):
        try:
            with replace(target, bad):
                mon.ll(m, X)
                m.probability(mon.tt(X))
                raise Fault("body")
        except Fault:
            pass
        ctx.key("replace", target.__qualname__)
        back(f"replace({target.__qualname__}) left by a fault")
    agree(ctx, mon.ll(m, X), L, "log-likelihood after replace() was left by a fault")

    # a static method: stand-in used inside, the original (still callable from class and instance) afterwards
    from spflow.meta.data.scope import Scope

    scopes = [Scope([int(v)]) for v in rng.permutation(6)[:3]]
    want = tuple(sorted(q for s in scopes for q in s.query))
    for fault in (False, True):
        try:
            with replace(Scope.join_all, lambda scopes: "stand-in"):
                ctx.check(Scope.join_all(scopes) == "stand-in", "replace() of a static method: the stand-in answers")
                if fault:
                    raise Fault("body")
        except Fault:
            pass
        back("replace(Scope.join_all) left " + ("by a fault" if fault else "normally"))
        ctx.check(tuple(Scope.join_all(scopes).query) == want, "Scope.join_all after replace()")
        ctx.check(tuple(scopes[0].join_all(scopes).query) == want, "Scope.join_all on an instance after replace()")
    ctx.key("replace", "static")

    # learners: a fault at a tensor operation or in a callable of the caller
    n = int(rng.integers(3, 5))
    data = torch.tensor(rng.normal(size=(60, n)) @ rng.normal(size=(n, n)), dtype=torch.get_default_dtype())
    from spflow.modules.leaves import Normal

    from spflow.meta import Scope
    leaf = Normal(scope=Scope(list(range(n))), out_channels=1)

    def learn():
        torch.manual_seed(5)
        np.random.seed(5)
        return learn_spn(data, leaf, min_instances_slice=20, min_features_slice=2)

    def rdc():
        torch.manual_seed(5)
        return partition_by_rdc(data, threshold=0.3)

    keep = data.clone()
    s = snap(leaf)
    for k, f in (("learn_spn", learn), ("partition_by_rdc", rdc)):
        with Crash() as c:
            ref = f()
        for at in sorted(set(int(i) for i in rng.integers(1, c.n + 1, size=4))):
            try:
                with Crash(at) as d:
                    f()
            except Fault:
                ctx.key(k, d.hit, at)
                ctx.count("crashes")
            except Exception:
                ctx.count("crashes:translated")
            back(f"{k} failing at tensor operation {at}/{c.n}")
            ctx.check(bits(data, keep), f"{k} failing at tensor operation {at}: the caller's data changed")
            same_model(ctx, leaf, s, f"{k} failing at tensor operation {at}: the caller's leaf template")
        again = f()
        if torch.is_tensor(ref):
            agree(ctx, as_np(again), as_np(ref), f"{k} after faults")
        else:
            agree(ctx, mon.ll(again, data.numpy()), mon.ll(ref, data.numpy()), f"{k} after faults: log-likelihood")

    calls = {"n": 0}
    stop = int(rng.integers(1, 4))

    def partition(x, **k):
        calls["n"] += 1
        if calls["n"] >= stop:
            raise Fault("user partitioning")
        return torch.zeros(x.shape[1], dtype=torch.int)

    def cluster(x, **k):
        calls["n"] += 1
        if calls["n"] >= stop:
            raise Fault("user clustering")
        return torch.arange(x.shape[0]) % 2

    try:
        learn_spn(data, leaf, min_instances_slice=20, min_features_slice=2, partitioning_method=partition, clustering_method=cluster)
    except Fault:
        ctx.count("crashes:callback")
    back("learn_spn with a failing callable of the caller")
    same_model(ctx, leaf, s, "learn_spn with a failing callable: the caller's leaf template")

    # measures with a seed run on a private random stream - also when they fail
    mm, vv, nm = some_model(ctx)
    torch.manual_seed(int(rng.integers(1 << 30)))
    st = torch.get_rng_state()

    def h():
        return entropy(mm, scope=sorted(mm.scope.query), method="mc", num_samples=6, seed=9)

    with Crash() as c:
        try:
            want = h()
        except (NotImplementedError, ValueError, RuntimeError):
            return
    ctx.check(torch.equal(st, torch.get_rng_state()), "seeded entropy used the global random stream")
    for at in sorted(set(int(i) for i in rng.integers(1, c.n + 1, size=5))):
        try:
            with Crash(at) as d:
                h()
        except Fault:
            ctx.key("entropy", d.hit, at)
            ctx.count("crashes")
        except Exception:
            ctx.count("crashes:translated")
        ctx.check(torch.equal(st, torch.get_rng_state()), f"seeded entropy failing at tensor operation {at}/{c.n} ({d.hit}): the global random stream was left elsewhere")
    agree(ctx, as_np(h()), as_np(want), "seeded entropy after faults")


def f_refused(ctx):
    """Requests that cannot be served raise, and change nothing."""
    rng = ctx.rng
    m, vs, name = some_model(ctx)
    D = len(vs)
    X = circ.rand_data(rng, vs, 5)
    L = mon.ll(m, X)
    x = mon.tt(X)
    s, cfg = snap(m), settings()
    from spflow.learn import expectation_maximization

    bad = [("log_likelihood of a 1-D tensor", lambda: m.log_likelihood(x[:, 0])),
           ("sample into a table with too few columns", lambda: m.sample(data=torch.full((2, D - 1), float("nan"))) if D > 1 else None),
           ("log_likelihood of a table with too few columns", lambda: m.log_likelihood(x[:, :D - 1]) if D > 1 else None),
           ("marginalize of an unknown variable", lambda: m.marginalize(["a"])),
           ("load_state_dict of a wrong tensor", lambda: m.load_state_dict({**m.state_dict(), next(iter(m.state_dict())): torch.zeros(99)})),
           ("EM on a table with too few columns", lambda: expectation_maximization(m, x[:, :D - 1], max_steps=1) if D > 1 else None)]
    for what, f in bad:
        try:
            torch.manual_seed(1)
            with torch.enable_grad():
                f()
        except Exception:
            ctx.count("refused:" + what.split(" of ")[0])
            ctx.key(name, what)
            same_model(ctx, m, s, f"{name}: refused {what}")
            ctx.check(settings() == cfg, f"{name}: refused {what}: global settings changed")
            agree(ctx, mon.ll(m, X), L, f"{name}: log-likelihood after the refused {what}")


def tasks(ctx, kind):
    """(models to watch, tensors to watch, operation, stream): operation(seeded) -> answer; stream = the global random stream must not move."""
    rng = ctx.rng
    if kind == "interval":
        from spflow.meta.data.interval_evidence import IntervalEvidence

        node, vs = circ.random_circuit(rng, n=int(rng.integers(1, 4)), families=["normal", "bernoulli", "categorical", "exponential"])
        m = node.build()
        X = circ.rand_data(rng, vs, 4)
        lo, hi = mon.tt(X - 0.7), mon.tt(X + 0.6)
        return [m], [lo, hi], lambda: m.log_likelihood(IntervalEvidence(lo, hi)), True
    if kind in ("mi", "cmi", "woe"):
        from spflow.measures.information_theory import conditional_mutual_information, mutual_information
        from spflow.measures.weight_of_evidence import weight_of_evidence_leave_one_out

        node, vs = circ.random_circuit(rng, n=4, families=["bernoulli", "categorical"], sampleable=True)
        m = node.build()
        X = mon.tt(circ.rand_data(rng, vs, 3))
        if kind == "mi":
            return [m], [X], lambda: mutual_information(m, [0, 1], [2, 3], method="mc", num_samples=8, seed=3), True
        if kind == "cmi":
            return [m], [X], lambda: conditional_mutual_information(m, [0], [2], [1], method="mc", num_samples=8, seed=3), True
        return [m], [X], lambda: weight_of_evidence_leave_one_out(m, y_index=0, y_value=1, x_instance=X, n=50), True
    if kind == "inner":
        from spflow.utils.inner_product import log_self_inner_product_scalar

        from spmon.checks.c22 import Inst, Struct

        m = Inst(Struct(rng, allow=["bernoulli", "categorical", "normal"], nmax=3, fixed=True), rng, signed=bool(rng.random() < 0.5)).m
        return [m], [], lambda: log_self_inner_product_scalar(m), True
    if kind == "sos":
        from spflow.zoo.sos import ExpSOSModel, SOSModel

        nv = int(rng.integers(2, 5))
        kw = dict(num_input_units=2, num_sum_units=2, input_layer="categorical", region_graph=str(rng.choice(["rnd-bt", "rnd-lt", "lt"])), seed=int(rng.integers(100)),
                  input_layer_kwargs={"num_categories": 2})
        m = SOSModel(nv, num_squares=2, **kw) if rng.random() < 0.5 else ExpSOSModel(nv, mono_num_input_units=1, mono_num_sum_units=1, **kw)
        X = mon.tt(rng.integers(0, 2, size=(4, nv)).astype(float))
        return [m], [X], lambda: m.log_likelihood(X), True
    if kind.startswith("apc"):
        from spmon.checks import c27

        q = c27._encoder(ctx)
        X = mon.tt(c27._randx(q, rng, 3))
        Z = mon.tt(c27._randz(q, rng, 3))
        f = {"apc_ll": lambda: q.e.joint_log_likelihood(X, Z), "apc_encode": lambda: q.e.encode(X, tau=0.8), "apc_decode": lambda: q.e.decode(Z, tau=0.8)}[kind]
        return [q.e], [X, Z], f, kind == "apc_ll"
    if kind == "bayes":
        z = common.model(ctx, "naive_bayes")
        X = circ.rand_data(rng, z.vs, 4)
        feats = mon.tt(X)
        return [z.m], [feats], lambda: z.m.log_likelihood(feats), True
    if kind == "sk_sample":
        from spflow.interfaces.sklearn import SPFlowDensityEstimator

        node, vs = circ.random_circuit(rng, n=3, families=["bernoulli", "normal"], sampleable=True)
        m = node.build()
        est = SPFlowDensityEstimator(model=m, fit_params=False).fit(np.zeros((1, 3), np.float32))
        return [m], [], lambda: torch.as_tensor(est.sample(4, random_state=7)), True
    if kind == "sk_score":
        from spflow.interfaces.sklearn import SPFlowDensityEstimator

        node, vs = circ.random_circuit(rng, n=3, families=["bernoulli", "normal"], sampleable=True)
        m = node.build()
        X = circ.rand_data(rng, vs, 4).astype(np.float32)
        est = SPFlowDensityEstimator(model=m, fit_params=False).fit(X)
        return [m], [torch.as_tensor(X)], lambda: torch.as_tensor(est.score_samples(X)), True
    vs = [circ.Var("bernoulli") for _ in range(4)]
    data = mon.tt(zoo.rand_table_data(rng, vs, 70))
    data[0], data[1] = 0, 1
    if kind == "cnet":
        from spflow.learn.cnet import learn_cnet

        sd = int(rng.integers(100))
        return [], [data], lambda: learn_cnet(data, cardinalities=2, cond=str("random"), min_instances_slice=20, min_features_slice=2, alpha=0.3, seed=sd).log_likelihood(data), False
    if kind == "hclt":
        from spflow.zoo.hclt import learn_hclt_binary

        return [], [data], lambda: learn_hclt_binary(data, num_hidden_cats=2, init="uniform").log_likelihood(data), False
    if kind == "prometheus":
        from spflow.learn.prometheus import learn_prometheus
        from spflow.modules.leaves import Bernoulli

        leaf = Bernoulli(scope=list(range(4)), out_channels=1)
        half = torch.arange(70) % 2
        return [leaf], [data], lambda: learn_prometheus(data, leaf_modules=leaf, min_instances_slice=30,
                                                        clustering_method=lambda d, **k: half[:d.shape[0]]).log_likelihood(data), False
    raise KeyError(kind)


TASKS = ["interval", "mi", "cmi", "woe", "inner", "sos", "apc_ll", "apc_encode", "apc_decode", "bayes", "sk_sample", "sk_score", "cnet", "hclt", "prometheus"]


def f_tasks(ctx):
    """Measures, products, learners, interfaces and zoo models struck by faults."""
    rng = ctx.rng
    kind = TASKS[ctx.idx % len(TASKS)]
    ms, xs, f, stream = tasks(ctx, kind)

    def go():
        torch.manual_seed(21)
        np.random.seed(21)
        st = torch.get_rng_state()
        try:
            return as_np(f())
        finally:
            if stream:
                ctx.check(torch.equal(st, torch.get_rng_state()), f"{kind}: the global random stream was used or left elsewhere")

    with Crash() as c:
        want = go()
    ss, keep, cfg, attrs = [snap(m) for m in ms], [x.clone() for x in xs], settings(), class_attrs()
    for at in sorted({c.n} | set(int(i) for i in rng.integers(1, c.n + 1, size=6 if ctx.tier == "quick" else 25))):
        exc = Interrupt if rng.random() < 0.4 else Fault
        what = f"{kind} failing with {exc.__name__} at tensor operation {at}/{c.n}"
        try:
            with Crash(at, exc) as d:
                got = go()
        except (Fault, Interrupt):
            ctx.count("crashes")
            ctx.count("crashes in " + kind)
            ctx.key(kind, d.hit, exc.__name__, at)
        except (Violation, CaseTimeout):
            raise
        except Exception as e:
            ctx.count("crashes:translated")
            ctx.key(kind, d.hit, type(e).__name__, at)
        else:
            if d.hit is not None:
                ctx.count("crashes:absorbed")
                if stream:
                    agree(ctx, got, want, f"{what}: absorbed, answer")
        for m, s in zip(ms, ss):
            same_model(ctx, m, s, what)
        ctx.check(all(bits(x, k) for x, k in zip(xs, keep)), f"{what}: the caller's data changed")
        ctx.check(settings() == cfg and class_attrs() == attrs, f"{what}: global settings or classes changed: {settings()}")
    agree(ctx, go(), want, f"{kind}: the same operation after the faults")


FAMILIES = [Family("queries", f_queries, 60, 400), Family("updates", f_updates, 60, 400), Family("globals", f_globals, 16, 60),
            Family("refused", f_refused, 50, 200), Family("tasks", f_tasks, 45, 300)]
