"""Quadrature rules for one variable, from the parameters of the leaves involved.

``rule(kind, ps)`` returns nodes x and weights w with sum(w * f(x)) equal to the integral (or sum) of f
for f a product of up to three densities of that family with the given parameter dictionaries.
"""
from __future__ import annotations

import numpy as np

_GX, _GW = np.polynomial.legendre.leggauss(12)


def pieces(edges):
    e = np.unique(np.asarray(edges, float))
    a, b = e[:-1, None], e[1:, None]
    x = (a + b) / 2 + (b - a) / 2 * _GX
    w = (b - a) / 2 * _GW
    return x.ravel(), w.ravel()


DISCRETE = {"bernoulli", "categorical", "binomial", "geometric", "negbin", "poisson", "hypergeometric"}


def rule(kind, ps, fine=60):
    cat = lambda k: np.concatenate([np.asarray(p[k], float).ravel() for p in ps])  # noqa: E731
    if kind == "bernoulli":
        x = np.arange(2.0)
    elif kind == "categorical":
        x = np.arange(float(ps[0]["probs"].shape[-1]))
    elif kind == "binomial":
        x = np.arange(cat("total_count").max() + 1)
    elif kind == "hypergeometric":
        x = np.arange(max(cat("n").max(), cat("K").max()) + 1)
    elif kind == "geometric":
        x = np.arange(np.ceil(60 / cat("probs").min()) + 2)
    elif kind == "negbin":
        r, p = cat("total_count"), cat("probs")
        x = np.arange(np.ceil((r.max() * p.max() + 12 * np.sqrt(r.max() * p.max()) + 60) / (1 - p.max())) + 2)
    elif kind == "poisson":
        r = cat("rate").max()
        x = np.arange(np.ceil(r + 14 * np.sqrt(r) + 40))
    else:
        if kind == "normal":
            lo, hi, kinks = (cat("loc") - 12 * cat("scale")).min(), (cat("loc") + 12 * cat("scale")).max(), cat("loc")
            step = cat("scale").min()
        elif kind == "laplace":
            lo, hi, kinks = (cat("loc") - 30 * cat("scale")).min(), (cat("loc") + 30 * cat("scale")).max(), cat("loc")
            step = cat("scale").min() * 2
        elif kind == "uniform":
            k = np.concatenate([cat("low"), cat("high")])
            return pieces(k)
        elif kind == "edges":  # piecewise polynomial between the given knots
            return pieces(np.concatenate([np.asarray(p["edges"], float).ravel() for p in ps]))
        elif kind in ("lognormal", "gamma", "exponential"):
            if kind == "lognormal":
                lo, hi = (cat("loc") - 12 * cat("scale")).min() - 3 * cat("scale").max() ** 2, (cat("loc") + 12 * cat("scale")).max()
                step = cat("scale").min()
            elif kind == "gamma":
                m = min(float(np.sort(cat("concentration"))[:1].sum() * 2 - 1), 1.0) if len(ps) > 1 else float(cat("concentration").min())
                lo = -40 / max(m, 0.05)
                hi = np.log(60 / cat("rate").min() + 20 * cat("concentration").max() / cat("rate").min())
                step = 0.5
            else:
                lo, hi, step = -40.0 - np.log(cat("rate").max()), np.log(50 / cat("rate").min()), 0.5
            n = int(min(max((hi - lo) / step * 2, 20), 4000))
            y, w = pieces(np.linspace(lo, hi, n))
            return np.exp(y), w * np.exp(y)
        else:
            raise KeyError(kind)
        n = int(min(max((hi - lo) / step, 20), 4000))
        return pieces(np.concatenate([np.linspace(lo, hi, n), kinks]))
    return x, np.ones_like(x)
