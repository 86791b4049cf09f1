"""C32: an image view answers like the flat circuit it wraps, pixel by pixel."""
import copy
import io

import numpy as np
import torch

from spmon import circ, leafref as lr, mon, zoo
from spmon.runner import Family, Skip
from spmon.checks import common

PID = "C32"
RULE = "distinct = image shape together with the circuit signature or architecture configuration"
ASSUMPTIONS = ["the flat circuit over columns 0..c*h*w-1 (channel, row, column order) is the reference; its own answers are judged by the other properties",
               "samples are compared under one seed, falling back to membership in the support when the draw order differs"]
NAN = np.nan
SHAPES = [(1, 2, 2), (1, 1, 4), (1, 3, 1), (2, 1, 2), (2, 2, 1), (3, 1, 2), (1, 2, 3), (2, 1, 3), (1, 1, 1), (3, 2, 1)]


def wrap(ctx, fam=None, name=None, ops=None, C=1):
    from spflow.modules.wrapper import ImageWrapper

    rng = ctx.rng
    if name:
        z = common.model(ctx, name)
        n, vs, m = len(z.vs), z.vs, z.m
        fits = [(c, h, n // c // h) for c in (1, 2, 3) for h in range(1, n + 1) if n % (c * h) == 0]
        shape = fits[int(rng.integers(len(fits)))]
        if name == "convpc":
            s = int(round(n ** 0.5))
            shape = (1, s, s)
    else:
        shape = SHAPES[int(rng.integers(len(SHAPES)))]
        node, vs = circ.random_circuit(rng, n=int(np.prod(shape)), families=fam, sampleable=True, ops=ops, C=C)
        ctx.note(f"vars={vs} circuit={node.describe()[:400]}")
        m = node.build()
        ctx.key("ast", node.sig(), shape)
    shape = tuple(int(v) for v in shape)
    ctx.note(f"image {shape}")
    ctx.key(name or "ast", shape)
    return ImageWrapper(m, num_channel=shape[0], height=shape[1], width=shape[2]), m, vs, shape


def rows(ctx, vs, n=16, missing=0.4):
    rng = ctx.rng
    X = circ.rand_data(rng, vs, n)
    M = X.copy()
    M[rng.random(M.shape) < missing] = NAN
    M[0] = NAN
    return X, M


def image(rng, X, shape):
    """The rows as images (channel, row, column), in a random memory layout."""
    t = mon.tt(X).reshape(len(X), *shape)
    k = int(rng.integers(4))
    if k == 1:
        t = t.to(memory_format=torch.channels_last)
    elif k == 2:
        t = t.permute(0, 3, 2, 1).contiguous().permute(0, 3, 2, 1)
    elif k == 3:
        big = torch.zeros(len(X), shape[0], shape[1], shape[2] + 2)
        big[..., 1:-1] = t
        t = big[..., 1:-1]
    return t


def eq(ctx, got, want, what):
    got, want = got.detach(), want.detach()
    ctx.check(got.shape == want.shape, f"{what}: shape {tuple(got.shape)}, expected {tuple(want.shape)}")
    ctx.close(np.nan_to_num(got.numpy().astype(float), neginf=-1e6), np.nan_to_num(want.numpy().astype(float), neginf=-1e6), what, rtol=1e-5, atol=1e-5)


def pixels(img, shape):
    return img.detach().reshape(len(img), -1).numpy().astype(float)


def same_draw(ctx, got, want, shape, what, flat):
    ctx.check(tuple(got.shape) == (len(want),) + shape, f"{what}: image shape {tuple(got.shape)}, expected {(len(want),) + shape}")
    a, b = pixels(got, shape), want.detach().numpy().astype(float)
    ctx.check(not np.isnan(a).any(), f"{what}: missing pixels left")
    ctx.count("images_drawn", len(a))
    if np.array_equal(a, b):
        ctx.count("seeded_draws_equal")
        return
    ctx.count("seeded_draws_differ")
    la = mon.ll(flat, a)
    ctx.check(np.isfinite(la).all(), f"{what}: drawn image has no density")
    if what.lower().startswith("mpe"):  # nothing random in these: equally probable completions at most
        ctx.close(la, mon.ll(flat, b), f"{what}: log-density of the completed images", 1e-4, 1e-3)


def test_likelihood(ctx):
    fam = [None, ["normal", "bernoulli"], ["gamma", "exponential", "categorical"]][int(ctx.rng.integers(3))]
    name = [None, None, "rat", "einet", "convpc", "naive_bayes", "learn_spn"][int(ctx.rng.integers(7))]
    w, m, vs, shape = wrap(ctx, fam, name)
    X, M = rows(ctx, vs)
    for Z, nm in ((X, "complete images"), (M, "missing pixels")):
        img = image(ctx.rng, Z, shape)
        keep = img.clone()
        want = m.log_likelihood(mon.tt(Z))
        eq(ctx, w.log_likelihood(img), want, f"log-likelihood of {nm}")
        eq(ctx, w(img), want, f"forward of {nm}")
        eq(ctx, w.probability(img), want.exp(), f"probability of {nm}")
        ctx.check(torch.equal(torch.nan_to_num(img, 7.5), torch.nan_to_num(keep, 7.5)), "log_likelihood changed the image")
        flat = w.flatten(img)
        ctx.check(np.array_equal(flat.numpy(), mon.tt(Z).numpy(), equal_nan=True), "flatten is not channel, row, column order")
        ctx.check(torch.equal(torch.nan_to_num(w.to_image_format(flat), 7.5), torch.nan_to_num(img, 7.5)), "to_image_format does not undo flatten")
        ctx.check(torch.equal(torch.nan_to_num(w.to_image_format(flat[0], batch=False), 7.5), torch.nan_to_num(img[0], 7.5)), "to_image_format of one image")
        ctx.count("images_compared", len(Z))
    ctx.check(w.scope == m.scope and str(w.out_shape) == str(m.out_shape), "scope or output shape differ")
    ctx.check((np.vectorize(str)(w.feature_to_scope) == np.vectorize(str)(m.feature_to_scope)).all(), "feature_to_scope differs")
    # pixel and parameter gradients
    if all(v.domain is None for v in vs):
        a, b = image(ctx.rng, X, shape).clone().requires_grad_(True), mon.tt(X).requires_grad_(True)
        ga, = torch.autograd.grad(w.log_likelihood(a).sum(), a)
        gb, = torch.autograd.grad(m.log_likelihood(b).sum(), b)
        eq(ctx, ga.reshape(len(X), -1), gb, "pixel gradient")
        ctx.count("gradients_compared")
    bad = [torch.zeros(3, *shape[:2]), torch.zeros(3, shape[0] + 1, *shape[1:]), torch.zeros(3, shape[0], shape[1] + 1, shape[2]),
           torch.zeros(3, shape[0], shape[1], shape[2] + 1), torch.zeros(3, int(np.prod(shape)))]
    if shape[1] != shape[2]:
        bad.append(torch.zeros(3, shape[0], shape[2], shape[1]))
    for b in bad:
        try:
            w.log_likelihood(b)
        except Exception:
            ctx.count("bad_images_rejected")
            continue
        ctx.fail(f"an image of shape {tuple(b.shape)} was accepted where {shape} is modelled")
    from spflow.exceptions import StructureError
    from spflow.modules.wrapper import ImageWrapper

    try:
        ImageWrapper(m, num_channel=shape[0], height=shape[1] + 1, width=shape[2])
    except StructureError:
        ctx.count("bad_images_rejected")
    else:
        ctx.fail("a wrapper with more pixels than variables was accepted")


def test_sampling(ctx):
    fam = [None, ["normal", "bernoulli"], ["gamma", "categorical"]][int(ctx.rng.integers(3))]
    name = [None, None, "rat", "einet", "convpc", "naive_bayes", "socs"][int(ctx.rng.integers(7))]
    if name == "socs":
        return socs(ctx)
    w, m, vs, shape = wrap(ctx, fam, name)
    if m.out_shape.channels > 1:
        w, m, vs, shape = wrap(ctx, fam)
    s = int(ctx.rng.integers(1 << 30))
    X, M = rows(ctx, vs, missing=0.5)
    o = ~np.isnan(M)

    def pair(fw, fm, what):
        torch.manual_seed(s)
        want = fm()
        torch.manual_seed(s)
        got = fw()
        if isinstance(got, tuple):
            got, rg = got
            want, rw = want
            ctx.check(len(rg) == len(rw), f"{what}: {len(rg)} leaf records instead of {len(rw)}")
            ctx.count("leaf_records", len(rg))
        same_draw(ctx, got, want, shape, what, m)
        return got

    N = 50
    pair(lambda: w.sample(num_samples=N), lambda: m.sample(num_samples=N), "sample")
    pair(lambda: w.sample(), lambda: m.sample(), "sample()")
    pair(lambda: w.mpe(num_samples=3), lambda: m.mpe(num_samples=3), "mpe")
    pair(lambda: w.sample(num_samples=N, return_leaf_params=True), lambda: m.sample(num_samples=N, return_leaf_params=True), "sample with leaf parameters")
    img = lambda: image(ctx.rng, M, shape)
    for mpe in (False, True):
        what = "MPE completion" if mpe else "conditional sample"
        for fw, fm in ((lambda: w.sample_with_evidence(img(), is_mpe=mpe), lambda: m.sample_with_evidence(mon.tt(M), is_mpe=mpe)),
                       (lambda: w.sample(data=img(), is_mpe=mpe), lambda: m.sample(data=mon.tt(M), is_mpe=mpe))):
            g = pair(fw, fm, what)
            ctx.check(np.array_equal(pixels(g, shape)[o], mon.tt(M).numpy().astype(float)[o]), f"{what}: observed pixel changed")
    pair(lambda: w.mpe(data=img()), lambda: m.mpe(data=mon.tt(M)), "mpe(data)")
    if all(v.domain for v in vs) and np.prod([len(v.domain) for v in vs]) <= 300:
        D = mon.domain(vs)
        P = np.exp(mon.ll(m, D)[:, 0, 0, 0])
        S = pixels(w.sample(num_samples=2000), shape)
        ix = mon.index_rows(D, S)
        ctx.check((ix >= 0).all(), "pixel outside its domain")
        mon.chi2_cells(ctx, np.bincount(ix, minlength=len(D)), P, "image samples")
        row = M[1]
        sel = (D[:, ~np.isnan(row)] == row[~np.isnan(row)]).all(1)
        q = np.where(sel, P, 0)
        S = pixels(w.sample_with_evidence(image(ctx.rng, np.repeat(row[None], 2000, 0), shape)), shape)
        mon.chi2_cells(ctx, np.bincount(mon.index_rows(D, S), minlength=len(D)), q / q.sum(), "conditional image samples")
    for bad in (lambda: w.sample(num_samples=3, data=image(ctx.rng, M, shape)), lambda: w.sample(data=torch.zeros(2, shape[0] + 1, *shape[1:]))):
        try:
            bad()
        except Exception:
            ctx.count("bad_images_rejected")
            continue
        ctx.fail("a sampling request of the wrong shape was accepted")


def socs(ctx):
    """A wrapped model that returns new rows instead of filling the ones it was given."""
    from spflow.modules.sos import SOCS
    from spflow.modules.wrapper import ImageWrapper

    rng = ctx.rng
    shape = [(1, 1, 2), (1, 2, 1), (2, 1, 1), (1, 1, 3)][int(rng.integers(4))]
    node, vs = circ.random_circuit(rng, n=int(np.prod(shape)), R=1, ops=["leafn", "sum", "prod", "cat1"])
    m = SOCS([node.build()])
    w = ImageWrapper(m, *shape)
    ctx.key("socs", shape, node.sig())
    X, _ = rows(ctx, vs)
    eq(ctx, w.log_likelihood(image(rng, X, shape)), m.log_likelihood(mon.tt(X)), "SOCS image log-likelihood")
    s = int(rng.integers(1 << 30))
    torch.manual_seed(s)
    want = m.sample(num_samples=8)
    torch.manual_seed(s)
    same_draw(ctx, w.sample(num_samples=8), want, shape, "SOCS image sample", m)


def test_marginal(ctx):
    rng = ctx.rng
    from spflow.modules.wrapper.image_wrapper import MarginalizationContext

    fam = [None, ["normal", "bernoulli"]][int(rng.integers(2))]
    name = "naive_bayes" if rng.random() < 0.2 else None
    w, m, vs, shape = wrap(ctx, fam, name, ops=common.MARG_OPS)
    X, M = rows(ctx, vs, missing=0.25)
    keep = np.ones(shape, bool)  # pixels still modelled
    cur, cshape = w, shape
    for step in range(int(rng.integers(1, 3))):
        arg, drop = {}, np.zeros(cshape, bool)
        for ax, nm in enumerate("chw"):
            if rng.random() < 0.5:
                k = int(rng.integers(0, cshape[ax] + (rng.random() < 0.15)))
                arg[nm] = [int(i) for i in rng.choice(cshape[ax], k, replace=False)]
                sl = [slice(None)] * 3
                sl[ax] = arg[nm]
                drop[tuple(sl)] = True
        new = tuple(cshape[ax] - len(arg.get(nm, [])) for ax, nm in enumerate("chw"))
        ctx.note(f"marginalize {arg} from {cshape}")
        ctx.key("marg", cshape, str(arg))
        nxt = cur.marginalize(MarginalizationContext(**arg), prune=bool(rng.random() < 0.6))
        left = keep.copy()
        left[keep] = ~drop.reshape(-1)
        keep = left
        ctx.count("marginalizations")
        if 0 in new:
            ctx.check(nxt is None, f"marginalising every pixel left {type(nxt).__name__}")
            break
        ctx.check(nxt is not None, f"marginalising {arg} of image {cshape} left nothing")
        ctx.check((nxt.num_channel, nxt.height, nxt.width) == new, f"image shape after marginalising {arg}: {(nxt.num_channel, nxt.height, nxt.width)}, expected {new}")
        cur, cshape = nxt, new
        cols = [int(c) for c in np.flatnonzero(keep.reshape(-1))]
        ctx.check(set(map(int, cur.scope.query)) == set(cols), f"variables {sorted(cur.scope.query)} left, expected {cols}")
        for Z, nm in ((X, "complete"), (M, "missing pixels")):
            F = np.where(keep.reshape(1, -1), Z, NAN)
            img = image(rng, Z[:, cols], cshape)
            eq(ctx, cur.log_likelihood(img), m.log_likelihood(mon.tt(F)), f"log-likelihood after marginalising {arg} ({nm})")
            ctx.count("images_compared", len(Z))
        if m.out_shape.channels == 1:
            draw(ctx, cur, m, vs, M, cols, cshape, keep)
        if rng.random() < 0.4:
            buf = io.BytesIO()
            torch.save(cur, buf)
            buf.seek(0)
            again = torch.load(buf, weights_only=False)
            img = image(rng, X[:, cols], cshape)
            eq(ctx, again.log_likelihood(img), cur.log_likelihood(img), "saved and reloaded view")
    eq(ctx, w.log_likelihood(image(rng, X, shape)), m.log_likelihood(mon.tt(X)), "the original view after marginalising")


def draw(ctx, w, m, vs, M, cols, shape, keep):
    rng = ctx.rng
    Z = M[:, cols]
    o = ~np.isnan(Z)
    N = 30
    S = w.sample(num_samples=N)
    ctx.check(tuple(S.shape) == (N,) + shape, f"sample of the marginal view has shape {tuple(S.shape)}")
    for S in (S, w.sample_with_evidence(image(rng, Z, shape)), w.sample_with_evidence(image(rng, Z, shape), is_mpe=True)):
        P = pixels(S, shape)
        ctx.check(not np.isnan(P).any(), "the marginal view left pixels missing")
        F = np.full((len(P), len(vs)), NAN)
        F[:, cols] = P
        ctx.check(np.isfinite(mon.ll(m, F)).all(), "the marginal view drew an impossible image")
        ctx.count("images_drawn", len(P))
        if len(P) == len(Z):
            ctx.check(np.array_equal(P[o], mon.tt(Z).numpy().astype(float)[o]), "the marginal view changed an observed pixel")
    sub = [vs[c] for c in cols]
    if all(v.domain for v in sub) and np.prod([len(v.domain) for v in sub]) <= 200:
        D = mon.domain(sub)
        F = np.full((len(D), len(vs)), NAN)
        F[:, cols] = D
        P = np.exp(mon.ll(m, F)[:, 0, 0, 0])
        S = pixels(w.sample(num_samples=1500), shape)
        mon.chi2_cells(ctx, np.bincount(mon.index_rows(D, S), minlength=len(D)), P / P.sum(), "samples of the marginal view")


def test_learning(ctx):
    rng = ctx.rng
    from spflow.learn import expectation_maximization, expectation_maximization_batched, train_gradient_descent
    from spflow.modules.wrapper.image_wrapper import MarginalizationContext

    fam = [None, ["normal", "bernoulli"]][int(rng.integers(2))]
    name = [None, None, "rat", "einet", "convpc"][int(rng.integers(5))]
    w, m, vs, shape = wrap(ctx, fam, name, ops=None if rng.random() < 0.5 or name else common.MARG_OPS)
    if m.out_shape.channels > 1:
        raise Skip("single-output circuits only")
    flat = copy.deepcopy(m)
    X, _ = rows(ctx, vs, n=32)
    how = str(rng.choice(["em", "emb", "gd"]))
    ctx.note(how)
    img, tab = image(rng, X, shape), mon.tt(X)
    if how == "em":
        a = expectation_maximization(w, img, max_steps=2)
        b = expectation_maximization(flat, tab, max_steps=2)
        ctx.close(a.detach().numpy(), b.detach().numpy(), "EM history", rtol=1e-4, atol=1e-4)
    elif how == "emb":
        expectation_maximization_batched(w, common.loader([img[:16], img[16:]]), num_epochs=1)
        expectation_maximization_batched(flat, common.loader([tab[:16], tab[16:]]), num_epochs=1)
    else:
        for q, t in ((w, img), (flat, tab)):
            train_gradient_descent(q, common.loader([t[:16], t[16:]]), epochs=2, optimizer=torch.optim.SGD(q.parameters(), lr=0.01))
    pa, pb = dict(m.named_parameters()), dict(flat.named_parameters())
    for k in pa:
        ctx.close(pa[k].detach().numpy(), pb[k].detach().numpy(), f"{how}: parameter {k}", rtol=2e-3, atol=2e-4)
        ctx.count("parameters_compared", pa[k].numel())
    eq(ctx, w.log_likelihood(img), flat.log_likelihood(tab), f"log-likelihood after {how}")


FAMILIES = [
    Family("likelihood", test_likelihood, quick=50, thorough=1200, timeout=60),
    Family("sampling", test_sampling, quick=36, thorough=800, timeout=60),
    Family("marginal", test_marginal, quick=60, thorough=1500, timeout=60),
    Family("learning", test_learning, quick=24, thorough=500, timeout=60),
]
