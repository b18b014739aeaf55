"""Independent float64 reference computations (numpy / scipy only)."""
from __future__ import annotations

import numpy as np


def sigmoid(x):
    x = np.asarray(x, dtype=np.float64)
    return np.where(x >= 0, 1 / (1 + np.exp(-np.abs(x))), np.exp(-np.abs(x)) / (1 + np.exp(-np.abs(x))))


def softmax(z):
    z = np.asarray(z, dtype=np.float64)
    m = np.max(z, -1, keepdims=True)
    e = np.exp(z - m)
    return e / e.sum(-1, keepdims=True)


def missing(x):
    return np.isnan(x) | (x == -1)


def pad(probs, kmax):
    return np.pad(probs, [(0, 0)] * (probs.ndim - 1) + [(0, kmax - probs.shape[-1])])


def closed_form(kind, params, theta, cats, latents):
    """Category probabilities from the *documented* formula and the reported item parameters."""
    th = np.asarray(theta, dtype=np.float64)
    n, kmax, items = len(th), max(cats), len(cats)
    out = np.zeros((n, items, kmax))
    P = {c: np.asarray(params[c], dtype=np.float64) for c in params.columns}
    A = None
    if kind != "1PL" and not kind.startswith("NR"):
        A = np.stack([P[f"a{i + 1}"] for i in range(latents)], 1)
    for j, k in enumerate(cats):
        if kind == "1PL":
            p = sigmoid(th[:, 0] + P["d"][j])
            out[:, j, 0], out[:, j, 1] = 1 - p, p
        elif kind == "2PL":
            p = sigmoid(th @ A[j] + P["d"][j])
            out[:, j, 0], out[:, j, 1] = 1 - p, p
        elif kind == "3PL":
            c = P["c"][j]
            p = c + (1 - c) * sigmoid(th @ A[j] + P["d"][j])
            out[:, j, 0], out[:, j, 1] = 1 - p, p
        elif kind == "GPC":
            z = np.stack([m * (th @ A[j]) + P[f"d{m + 1}"][j] for m in range(k)], 1)
            out[:, j, :k] = softmax(z)
        elif kind == "GRM":
            geq = [np.ones(n)] + [sigmoid(th @ A[j] + P[f"d{m}"][j]) for m in range(1, k)] + [np.zeros(n)]
            for m in range(k):
                out[:, j, m] = geq[m] - geq[m + 1]
        elif kind.startswith("NR"):
            z = np.zeros((n, k))
            for m in range(k):
                z[:, m] = P[f"d{m + 1}"][j] + sum(th[:, i] * P[f"a{i + 1}{m + 1}"][j] for i in range(latents))
            out[:, j, :k] = softmax(z)
        else:
            raise ValueError(kind)
    return out


def item_scores(cats, mc):
    """scores[j, m]: item score of category m of item j."""
    s = np.zeros((len(cats), max(cats)))
    for j, k in enumerate(cats):
        s[j, :k] = np.arange(k) if mc is None else (np.arange(k) == mc[j])
    return s


def expected_scores(probs, cats, mc):
    return np.einsum("njk,jk->nj", probs, item_scores(cats, mc))


def picked(probs, data):
    """P(observed category); NaN where missing."""
    miss = missing(data)
    d = np.where(miss, 0, data).astype(int)
    p = np.take_along_axis(probs, d[..., None], -1)[..., 0]
    return np.where(miss, np.nan, p)


def loglik(probs, data):
    with np.errstate(divide="ignore"):
        return np.log(picked(probs, data))


def nanmean(x, axis=None):
    x = np.asarray(x, dtype=np.float64)
    n = (~np.isnan(x)).sum(axis)
    with np.errstate(invalid="ignore", divide="ignore"):
        return np.where(n > 0, np.nansum(x, axis) / np.maximum(n, 1), np.nan)


def numgrad(f, x, h=0.02, uncertainty=False):
    """Richardson-extrapolated central differences of f: (n, d) -> (n, ...) ; returns (n, ..., d).

    With uncertainty also the disagreement of the two step sizes: next to kinks (monotone networks) it is as large
    as the error of the differences, elsewhere negligible.
    """
    x = np.asarray(x, dtype=np.float64)
    cols, errors = [], []
    for i in range(x.shape[1]):
        e = np.zeros(x.shape[1])
        e[i] = 1.0
        d1 = (np.asarray(f(x + h * e)) - np.asarray(f(x - h * e))) / (2 * h)
        d2 = (np.asarray(f(x + h / 2 * e)) - np.asarray(f(x - h / 2 * e))) / h
        cols.append((4 * d2 - d1) / 3)
        errors.append(np.abs(d2 - d1))
    if uncertainty:
        return np.stack(cols, -1), np.stack(errors, -1)
    return np.stack(cols, -1)


def sum_score_dist(p):
    """Distribution of the sum of independent item scores by polynomial convolution. p: list of pmf vectors."""
    d = np.ones(1)
    for q in p:
        d = np.convolve(d, q)
    return d


def log_responses(probs, x):
    """Log-likelihood of every response pattern (rows of x) at every latent point (rows of probs)."""
    with np.errstate(divide="ignore"):
        lp = np.log(np.maximum(probs, 0))
    miss = missing(x)
    d = np.where(miss, 0, x).astype(int)
    tot = np.zeros((len(x), len(probs)))
    for j in range(x.shape[1]):
        tot += np.where(miss[:, j][:, None], 0.0, lp[:, j, :][:, d[:, j]].T)
    return tot


def logsumexp(a, axis):
    m = np.max(a, axis, keepdims=True)
    return np.squeeze(m, axis) + np.log(np.sum(np.exp(a - m), axis))


def marginal_loglik(prob_fn, x, points, logw):
    """log of the integral of the likelihood over a quadrature rule, per respondent"""
    return logsumexp(log_responses(prob_fn(points), x) + logw[None], 1)


def normal_rule(cov, n=41, width=5.5):
    """A fine tensor-product rule for N(0, cov)"""
    import itertools

    from scipy.stats import multivariate_normal

    cov = np.atleast_2d(cov)
    L = np.linalg.cholesky(cov)
    g = np.linspace(-width, width, n)
    Z = np.array(list(itertools.product(*[g] * len(cov))))
    lw = multivariate_normal(np.zeros(len(cov)), np.eye(len(cov))).logpdf(Z) + len(cov) * np.log(g[1] - g[0])
    return Z @ L.T, np.atleast_1d(lw)
