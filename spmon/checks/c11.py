"""C11: gradient training: gradients are the derivatives of the log-likelihood, and the training loop performs the updates it documents."""
import copy
import warnings

import numpy as np
import torch

from spmon import circ, mon
from spmon.checks import common
from spmon.checks.c10 import FAM, SUMS, axes
from spmon.runner import Family, Skip

PID = "C11"
RULE = "distinct = distinct circuit structure or model configuration whose gradients or training trajectory were compared with an independent computation"
ASSUMPTIONS = ["derivatives are compared with central differences of the model's own float64 log-likelihood (whose values C01 checks independently)",
               "the reference training loop is re-implemented from the documented semantics with the same optimiser class"]

GFAM = FAM + ["gamma"]
ZOO = ["rat", "einet", "convpc", "hclt", "naive_bayes", "learn_spn", "prometheus", "cltree", "cms", "cnet"]
CLS = ["rat", "einet", "naive_bayes"]


def _any(ctx, zoo_p=0.5, fam=GFAM, names=ZOO, **kw):
    rng = ctx.rng
    if rng.random() < zoo_p:
        z = common.model(ctx, names[int(rng.integers(len(names)))])
        return z.m, z.vs
    node, vs = circ.random_circuit(rng, n=int(rng.integers(2, 6)), families=fam, depth=int(rng.integers(1, 5)), share=0.35, **kw)
    ctx.note(f"vars={vs} circuit={node.describe()[:400]}")
    ctx.key("ast", node.sig())
    return node.build(), vs


def _data(rng, vs, n, missing=0.0):
    return circ.rand_data(rng, vs, n, missing).astype(np.float32).astype(float)


def f_grad(ctx):
    rng = ctx.rng
    m, vs = _any(ctx)
    X = _data(rng, vs, int(rng.integers(3, 8)), 0.2 if rng.random() < 0.5 else 0.0)
    m = m.double()
    if rng.random() < 0.5:
        m.eval()
    T = torch.tensor(X, dtype=torch.float64)
    L0 = m.log_likelihood(T)
    if not torch.isfinite(L0).all():
        raise Skip("data outside the support")
    C = torch.tensor(rng.normal(0, 1, tuple(L0.shape)), dtype=torch.float64)
    ps = [(k, p) for k, p in m.named_parameters() if p.requires_grad]
    if not ps:
        raise Skip("no parameters")
    for _, p in ps:
        p.grad = None
    (m.log_likelihood(T) * C).sum().backward()
    f = lambda: (m.log_likelihood(T).detach() * C).sum().item()  # noqa: E731
    for k, p in ps:
        g = torch.zeros_like(p) if p.grad is None else p.grad
        g = g.detach().clone().reshape(-1)
        flat = p.detach().reshape(-1)
        idx = rng.permutation(flat.numel())[:6]
        scale = max(1.0, float(g.abs().max()))
        for i in idx:
            old = flat[i].item()
            if not np.isfinite(old):
                continue  # a probability pinned to zero
            h = 1e-5 * max(1.0, abs(old))
            v = []
            for s in (h, -h):
                with torch.no_grad():
                    q = p.detach().clone().reshape(-1)
                    q[i] = old + s
                    p.copy_(q.reshape(p.shape))
                v.append(f())
            with torch.no_grad():
                q[i] = old
                p.copy_(q.reshape(p.shape))
            d = (v[0] - v[1]) / (2 * h)
            ctx.count("derivatives")
            if abs(d - g[i].item()) > 1e-3 * scale:
                if type(m).__name__ and _kink(v, f(), h, d, g[i].item()):
                    ctx.count("derivatives at a kink")
                    continue
                ctx.fail(f"d LL/d {k}[{int(i)}] is {d:.6g} by central differences but backward gives {g[i].item():.6g}")
    ctx.check(True, "")


def _kink(v, mid, h, d, g):
    """A one-sided derivative agrees (Laplace location on a data point)."""
    return min(abs((v[0] - mid) / h - g), abs((mid - v[1]) / h - g)) <= 1e-3 * max(1.0, abs(g)) or abs((v[0] - mid) - (mid - v[1])) > 0.5 * abs(v[0] - v[1] - 2 * h * g)


def f_valid(ctx):
    """Whatever raw parameters an optimiser arrives at, the model stays a normalised, finite distribution."""
    rng = ctx.rng
    if rng.random() < 0.5:
        z = common.model(ctx, [k for k in ZOO if k != "cltree"][int(rng.integers(len(ZOO) - 1))])
        m, vs = z.m, z.vs
        if any(type(q).__name__ == "CLTree" and q.log_cpt.requires_grad for q in m.modules()):
            raise Skip("trainable CLTree tables: recorded finding, see the probe")
    else:
        node, m, vs = common.ast(ctx, families=["bernoulli", "categorical", "binomial"])
    size = int(np.prod([len(v.domain) for v in vs]))
    X = _data(rng, vs, 12)
    lr = float(10 ** rng.uniform(-1, 1.5))
    ps = [p for p in m.parameters() if p.requires_grad]
    if not ps:
        raise Skip("no parameters")
    opt = (torch.optim.SGD if rng.random() < 0.5 else torch.optim.Adam)(ps, lr=lr)
    for _ in range(3):
        opt.zero_grad()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            loss = -m.log_likelihood(mon.tt(X)).mean()
        if not torch.isfinite(loss):
            if torch.isnan(loss):
                ctx.fail(f"loss is NaN after finite gradient steps with lr={lr}")
            raise Skip("a probability underflowed to zero")
        loss.backward()
        for k, p in m.named_parameters():
            if p.grad is not None:
                ctx.check(torch.isfinite(p.grad).all(), f"gradient of {k} is not finite at a finite loss {loss.item()}")
        opt.step()
        ctx.count("optimiser steps")
    for s in m.modules():
        if type(s).__name__ in SUMS:
            w = s.weights.detach().double().numpy()
            t = w.sum(axis=axes(s))
            ctx.close(t, np.ones_like(t), f"{type(s).__name__} weights after training", 1e-4, 1e-4)
            ctx.check((w >= 0).all(), "negative weight")
    if size <= 700 and "cms" not in ctx.desc[0]:
        D = circ.full_domain(vs)
        L = mon.ll(m, D)
        tot = np.exp(L.astype(float)).sum(0)
        ctx.close(tot, np.ones_like(tot), "total probability after training", 2e-3, 2e-3)
        ctx.count("enumerated points", len(D))


def _loss(m, b, cls, nllw, loss_fn=None):
    if cls:
        x, y = b
        lp = m.log_posterior(x)
        lp = lp.reshape(len(x), -1)
        return -lp[torch.arange(len(x)), y].mean() - nllw * m.log_likelihood(x).mean()
    x = b if torch.is_tensor(b) else b[0]
    return loss_fn(m, x) if loss_fn else -m.log_likelihood(x).mean()


def _ref_train(m, batches, epochs, lr, opt, sched, cls, nllw, loss_fn=None):
    losses = []
    ps = list(m.parameters())
    if opt is None:
        opt = torch.optim.Adam(ps, lr=lr)
        sched = torch.optim.lr_scheduler.MultiStepLR(opt, milestones=[int(epochs * 0.5), int(epochs * 0.75)], gamma=0.1)
    for _ in range(epochs):
        for b in batches:
            opt.zero_grad()
            loss = _loss(m, b, cls, nllw, loss_fn)
            loss.backward()
            opt.step()
            losses.append(loss.item())
        sched.step()
    return losses


def f_train(ctx):
    from spflow.learn import train_gradient_descent

    rng = ctx.rng
    cls = rng.random() < 0.4
    if cls:
        z = common.model(ctx, CLS[int(rng.integers(len(CLS)))], classes=int(rng.integers(2, 5)))
        m, vs = z.m, z.vs
        from spflow.interfaces.classifier import Classifier

        if not isinstance(m, Classifier):
            raise Skip("not a classifier")
    else:
        m, vs = _any(ctx, 0.4, fam=FAM, names=["rat", "einet", "convpc", "hclt", "naive_bayes"])
    n = int(rng.integers(8, 40))
    X = torch.tensor(_data(rng, vs, n), dtype=torch.float32)
    if not torch.isfinite(m.log_likelihood(X)).all():
        raise Skip("data outside the support")
    y = torch.tensor(rng.integers(0, 2, n))
    nb = int(rng.integers(1, 4))
    if cls:
        batches = [(X[i::nb], y[i::nb]) for i in range(nb)]
    else:
        batches = [X[i::nb] if rng.random() < 0.5 else (X[i::nb],) for i in range(nb)]
        if rng.random() < 0.3:
            batches = [(b if torch.is_tensor(b) else b[0], torch.zeros(1)) for b in batches]
    epochs = int(rng.integers(1, 6)) if rng.random() < 0.85 else int(rng.integers(11, 14))
    lr = float(10 ** rng.uniform(-3, -1.3))
    nllw = float(rng.choice([1.0, 0.0, 0.3])) if cls else 1.0
    a, b = m, copy.deepcopy(m)
    kw, opt, sched = {}, None, None
    if rng.random() < 0.5:
        mk = lambda q: torch.optim.SGD(q.parameters(), lr=lr)  # noqa: E731
        ms = lambda o: torch.optim.lr_scheduler.StepLR(o, 1, 0.5)  # noqa: E731
        oa = mk(a)
        kw = {"optimizer": oa, "scheduler": ms(oa)}
        opt = mk(b)
        sched = ms(opt)
    else:
        kw = {"lr": lr}
    lf = None
    if not cls and rng.random() < 0.3:
        lf = lambda q, d: -2.0 * q.log_likelihood(d).mean() + 0.1  # noqa: E731
        kw["loss_fn"] = lf
    val = None
    if rng.random() < 0.5:
        ks = [rng.permutation(n)[: int(rng.integers(2, n + 1))] for _ in range(int(rng.integers(1, 4)))]
        val = [(X[k], y[k]) if cls else X[k] for k in ks]
        kw["validation_dataloader"] = common.loader(val)
    seen, ends = [], []
    train_flags = []
    vwant = []

    def on_batch(loss, step):
        seen.append((float(loss.detach()), step, a.training))
        if not a.training and val is not None:  # the validation loss of the model as it is now
            with torch.no_grad():
                vwant.append(float(_loss(a, val[len(vwant) % len(val)], cls, nllw, lf)))

    kw["callback_batch"] = on_batch
    kw["callback_epoch"] = lambda ls, e: ends.append((e, len(ls)))
    if cls:
        kw["nll_weight"] = nllw
    X0 = X.clone()
    train_gradient_descent(a, common.loader(batches), epochs=epochs, is_classification=cls, **kw)
    want = _ref_train(b, batches, epochs, lr, opt, sched, cls, nllw, lf)
    ctx.count("training steps", len(want))
    ctx.check(torch.equal(X, X0), "training changed the data")
    tr = [s for s in seen if s[2]]
    va = [s for s in seen if not s[2]]
    ctx.check(a.training, "the model is left in evaluation mode after training")
    ctx.check(len(tr) == len(want), f"batch callback called {len(tr)} times for {len(want)} training batches")
    nval = 0 if val is None else len(val) * len([e for e in range(epochs) if e % 10 == 0])
    ctx.check(len(va) == nval, f"{len(va)} validation callbacks, expected {nval}")
    ctx.close([s[0] for s in tr], want, "training losses", 2e-3, 2e-3)
    ctx.close([s[0] for s in va], vwant, "validation losses", 1e-4, 1e-4)
    ctx.count("validation losses", len(va))
    ctx.check([e for e, _ in ends] == list(range(epochs)), f"epoch callbacks {ends}")
    ctx.check(all(k == nb for _, k in ends), f"epoch callback got {ends} losses for {nb} batches")
    La, Lb = mon.ll(a, X.numpy()), mon.ll(b, X.numpy())
    ctx.close(La, Lb, "model after train_gradient_descent vs the documented loop", 5e-3, 5e-3)
    ctx.count("classification" if cls else "density")


def f_improve(ctx):
    """Small full-batch gradient steps increase the training likelihood."""
    from spflow.learn import train_gradient_descent

    rng = ctx.rng
    m, vs = _any(ctx, 0.5, fam=FAM, names=["rat", "einet", "convpc", "hclt", "naive_bayes", "cltree"])
    X = torch.tensor(_data(rng, vs, int(rng.integers(20, 60))), dtype=torch.float32)
    L0 = m.log_likelihood(X)
    if not torch.isfinite(L0).all():
        raise Skip("data outside the support")
    ps = [p for p in m.parameters() if p.requires_grad]
    if not ps:
        raise Skip("no parameters")
    m.zero_grad()
    L0.mean().backward()
    g = float(np.sqrt(sum(float((p.grad ** 2).sum()) for p in ps if p.grad is not None)))
    if g < 1e-2:
        raise Skip("already stationary")
    if g > 1e3:
        raise Skip("too steep for the fixed step length")
    before = L0.detach().double().mean().item()
    lr = 5e-3 / g
    o = torch.optim.SGD(ps, lr=lr)
    train_gradient_descent(m, common.loader([X]), epochs=8, optimizer=o, scheduler=torch.optim.lr_scheduler.StepLR(o, 1000))
    after = m.log_likelihood(X).detach().double().mean().item()
    ctx.count("training steps", 8)
    ctx.check(after >= before - 1e-4 * (1 + abs(before)), f"8 small gradient steps moved the average log-likelihood from {before} to {after}")


def f_reject(ctx):
    from spflow.exceptions import InvalidTypeError
    from spflow.learn import train_gradient_descent

    rng = ctx.rng
    m, vs = _any(ctx, 0.0, fam=FAM)
    X = torch.tensor(_data(rng, vs, 8), dtype=torch.float32)
    sd = {k: v.clone() for k, v in m.state_dict().items()}
    bad = [lambda: train_gradient_descent(m, common.loader([X]), epochs=0), lambda: train_gradient_descent(m, common.loader([X]), epochs=-int(rng.integers(1, 5))),
           lambda: train_gradient_descent(m, common.loader([(X, X, X)]), epochs=1),
           lambda: train_gradient_descent(m, common.loader([(X, torch.zeros(8))]), epochs=1, is_classification=True)]
    for i, f in enumerate(bad):
        try:
            f()
        except (ValueError, InvalidTypeError):
            ctx.count("rejected")
        else:
            ctx.fail(f"invalid training request {i} was accepted")
    for k, v in m.state_dict().items():
        ctx.check(torch.equal(torch.nan_to_num(v), torch.nan_to_num(sd[k])), f"rejected training request changed {k}")
    ctx.key("reject", len(sd))


def probe_cltree(ctx):
    """Recorded finding: CLTree.log_cpt is an unconstrained parameter, so gradient steps leave the simplex."""
    z = common.model(ctx, "cltree")
    m, vs = z.m, z.vs
    opt = torch.optim.SGD(m.parameters(), lr=1.0)
    X = mon.tt(_data(ctx.rng, vs, 12))
    for _ in range(3):
        opt.zero_grad()
        (-m.log_likelihood(X).mean()).backward()
        opt.step()
    tot = np.exp(mon.ll(m, circ.full_domain(vs)).astype(float)).sum(0)
    ctx.mech = "cltree-tables-unconstrained"
    ctx.close(tot, np.ones_like(tot), "total probability of a CLTree after gradient steps", 2e-3, 2e-3)


FAMILIES = [
    Family("grad", f_grad, 90, 1500),
    Family("valid", f_valid, 60, 800),
    Family("train", f_train, 70, 900),
    Family("improve", f_improve, 50, 600),
    Family("reject", f_reject, 8, 40),
    Family("probe_cltree", probe_cltree, 2, 4, probe=True),
]
