"""Data handling: coding, splitting, scoring, reproducibility; numerical helpers."""
import itertools
import random

import numpy as np
import torch
from scipy import stats

from harness import fits, gen, oracle
from harness.core import scenario
from irtorch._internal_utils import (
    conditional_score_distribution,
    correlation_matrix,
    entropy,
    get_missing_mask,
    linear_regression,
    one_hot_encode_test_data,
    random_guessing_data,
    sum_incorrect_probabilities,
    sum_score,
)
from irtorch.models import GeneralizedPartialCredit, GradedResponse, MonotoneNN, NominalResponse
from irtorch.utils import gauss_hermite, get_item_categories, set_seed, split_data

P = "C36"


def data(c, n=None, items=None, p=0.2):
    rng = c.rng
    cats = gen.categories(rng, items or gen.size(rng, 1, 9, 70, 140, 300), 2, gen.size(rng, 4, 7, 12, 30))
    x = gen.full_support(rng, gen.uniform_responses(rng, cats, n or gen.size(rng, 1, 40, 300, 1200)), cats)
    miss = np.zeros(x.shape, bool)
    if c.round % 4:
        x, miss = gen.with_missing(rng, x, p, code=["mix", "nan", "-1"][c.round % 3], keep_row=False)
    c.feed(x)
    c.note(categories=cats, n=len(x))
    return cats, x, miss


@scenario(P, 80, 800)
def coding(c):
    cats, x, miss = data(c, items=300 if c.round % 20 == 5 else None)
    mc = [int(c.rng.integers(k)) for k in cats]
    if c.round % 2:  # respondents with top scores
        x[0, ~miss[0]] = np.array(mc if c.round % 4 == 1 else [k - 1 for k in cats])[~miss[0]]
    xt = gen.t(x)
    c.equal(get_missing_mask(xt), miss, "-1 and NaN, and nothing else, mean missing")
    oh = one_hot_encode_test_data(xt, cats)
    c.equal(oh, fits.onehot(x, cats), "one-hot coding has one block per item with a one at the response, empty where it is missing")
    c.close(sum_score(xt), np.where(miss, 0, x).sum(1), "sum scores add the observed responses", atol=1e-4)
    c.close(sum_score(xt, mc), (~miss & (x == np.array(mc))).sum(1), "number correct scores count the correct answers", atol=1e-6)
    c.equal(xt, gen.t(x), "the data are left alone")
    c.raises(ValueError, lambda: one_hot_encode_test_data(xt, cats + [2]), "one category count per item")
    c.raises(ValueError, lambda: one_hot_encode_test_data(xt[:, 0], cats), "respondents by items")


@scenario(P, 60, 600)
def item_categories(c):
    """categories found from data, also when constructing models from data"""
    cats, x, miss = data(c, n=int(c.rng.integers(8, 40)))
    seen = np.where(miss, -1, x)
    for j, k in enumerate(cats):
        if seen[:, j].max() < k - 1:
            x[0, j], miss[0, j] = k - 1, False
    xt = gen.t(x)
    got = get_item_categories(xt)
    c.ok([int(g) for g in got] == cats, "the number of categories of an item is its largest response plus one", got=got)
    cls = [GeneralizedPartialCredit, GradedResponse, NominalResponse, MonotoneNN][c.round % 4]
    m = cls(data=xt, latent_variables=1)
    c.ok([int(k) for k in m.item_categories] == cats, f"{cls.__name__} built from data has the data's categories", got=m.item_categories)
    c.ok(m.items == len(cats) and m.max_item_responses == max(cats), "and its items")


@scenario(P, 60, 600)
def splitting(c):
    rng = c.rng
    n = gen.size(rng, 1, 60, 260, 1025, 5000)
    x = np.arange(n * 3).reshape(n, 3).astype(np.float32)
    if c.round % 3 == 0:
        x[:, 1] = np.nan
    r = float(rng.choice([0.0, 0.25, 0.5, 0.8, 1.0]))
    xt = gen.t(x)
    c.feed(x)
    c.note(n=n, ratio=r)
    a, b = split_data(xt, r, shuffle=bool(c.round % 2))
    c.equal(xt, gen.t(x), "the data are left alone")
    c.leq(abs(len(a) - n * r), 1.0, "the training share is as asked for")
    both = np.concatenate([a.numpy(), b.numpy()])
    c.ok(len(both) == n, "no respondent is lost or duplicated", n=len(both))
    c.equal(both[both[:, 0].argsort()], x, "every respondent is in exactly one part, with all responses")
    if c.round % 2 == 0:
        c.equal(both, x, "without shuffling the order is kept")
    elif n > 30:
        c.ok(not np.array_equal(both[:, 0], x[:, 0]), "with shuffling the order changes")


@scenario(P, 24, 200)
def seeds(c):
    s = int(c.rng.integers(0, 2**31 - 1))
    c.note(seed=s)

    def draw():
        set_seed(s)
        return torch.randn(5).numpy(), np.random.rand(5), np.array([random.random() for _ in range(5)])

    a, b = draw(), draw()
    for u, v, what in zip(a, b, ("torch", "numpy", "python")):
        c.equal(u, v, f"the same seed gives the same {what} random numbers")
    set_seed(s + 1)
    c.ok(not np.array_equal(torch.randn(5).numpy(), a[0]), "another seed gives others")
    m, _, kind = gen.any_model(c, kinds=gen.CLOSED)
    th = gen.theta(c.rng, 20, m.latent_variables)
    set_seed(s)
    u = m.sample_test_data(th)
    set_seed(s)
    c.equal(m.sample_test_data(th), u, f"{kind}: the same seed reproduces simulated data")


@scenario(P, 60, 600)
def quadrature(c):
    rng = c.rng
    d, n = 1 + c.round % 3, int(rng.integers(2, 9))
    if c.round % 7 == 6:
        d, n = int(rng.integers(4, 7)), int(rng.integers(2, 5))
    mean = rng.normal(0, 1, d)
    A = rng.normal(0, 0.6, (d, d))
    cov = A @ A.T + 0.3 * np.eye(d)
    c.feed(mean, cov)
    pts, w = gauss_hermite(n, gen.t(mean, torch.float64), gen.t(cov, torch.float64))
    pts, w = pts.numpy(), w.numpy()
    c.ok(pts.shape == (n**d, d) and w.shape == (n**d,), "n points per dimension")
    c.ok((w > 0).all(), "positive weights")
    c.close(w.sum(), 1.0, "weights sum to one", atol=1e-9)
    c.close(w @ pts, mean, "the rule has the mean asked for", atol=1e-8)
    if n >= 2:
        z = pts - mean
        c.close(np.einsum("n,ni,nj->ij", w, z, z), cov, "the rule has the covariance asked for", atol=1e-8)
    if n >= 3:
        u = rng.normal(0, 1, d)
        s2 = u @ cov @ u
        c.close(w @ ((pts - mean) @ u) ** 4, 3 * s2**2, "fourth moments are exact from three points on", rtol=1e-7)


@scenario(P, 60, 600)
def score_distributions(c):
    rng = c.rng
    cats = gen.categories(rng, gen.size(rng, 1, 7, 25, 80), 2, 6)
    q, kmax = int(rng.integers(1, 12)), max(cats)
    p = np.zeros((q, len(cats), kmax))
    for j, k in enumerate(cats):
        p[:, j, :k] = rng.dirichlet(np.ones(k), q)
    c.feed(p)
    c.note(categories=cats)
    got = conditional_score_distribution(gen.t(p), cats)
    want = np.stack([oracle.sum_score_dist([r[j, :k] for j, k in enumerate(cats)]) for r in p])
    c.close(got, want, "sum score distributions are the convolution of the item distributions", atol=1e-5)
    mc = [int(rng.integers(k)) for k in cats]
    two = sum_incorrect_probabilities(gen.t(p), cats, mc)
    right = np.stack([p[:, j, mc[j]] for j in range(len(cats))], 1)
    c.close(two, np.stack([1 - right, right], 2), "incorrect answers are pooled", atol=1e-5)


@scenario(P, 60, 600)
def statistics(c):
    rng = c.rng
    k = gen.size(rng, 2, 7, 12, 40)
    p = rng.dirichlet(np.full(k, rng.choice([0.2, 1.0, 5.0])), gen.size(rng, 1, 30, 700))
    if c.round % 3 == 0:
        p[0] = np.eye(k)[0]
    base = float(rng.choice([2.0, np.e, 10.0]))
    c.feed(p)
    c.close(entropy(gen.t(p), base), stats.entropy(p, base=base, axis=-1), "entropy in the base asked for", atol=2e-5, rtol=1e-4)
    if base == 2.0:
        c.close(entropy(gen.t(p)), stats.entropy(p, base=2, axis=-1), "entropy is in bits by default", atol=2e-5, rtol=1e-4)
    c.raises(RuntimeError, lambda: entropy(gen.t(p) * 1.1), "probabilities must sum to one")
    x = rng.normal(0, 1, (gen.size(rng, 8, 60, 600, 1500), gen.size(rng, 2, 6, 12))) * rng.uniform(0.5, 3) + rng.normal()
    x[:, 1] += x[:, 0] * rng.normal()
    c.close(correlation_matrix(gen.t(x)), np.corrcoef(x.T), "correlations of complete data", atol=1e-4)
    y = x.copy()
    y[rng.random(y.shape) < 0.2] = np.nan
    want = np.eye(x.shape[1])
    for i, j in itertools.permutations(range(x.shape[1]), 2):
        ok = ~np.isnan(y[:, i]) & ~np.isnan(y[:, j])
        want[i, j] = np.corrcoef(y[ok, i], y[ok, j])[0, 1] if ok.sum() > 2 else np.nan
    got = correlation_matrix(gen.t(y)).double().numpy()
    fine = np.isfinite(want)
    c.close(got[fine], want[fine], "correlations over pairs of rows in which both are present", atol=1e-4)
    A = rng.normal(0, 1, (20, 3))
    B = A @ rng.normal(0, 1, (3, 2)) + rng.normal(0, 0.5, (20, 2)) + 1.0
    D = np.c_[np.ones(20), A]
    c.close(linear_regression(gen.t(A), gen.t(B)), np.linalg.lstsq(D, B, rcond=None)[0], "least squares with intercept first", rtol=1e-3, atol=1e-4)


@scenario(P, 30, 300)
def guessing(c):
    rng = c.rng
    mcq = c.round % 3 != 0
    cats = gen.categories(rng, int(rng.integers(2, 6)), 2, 5)
    if not mcq:
        cats = [2 if rng.random() < 0.6 else k for k in cats]
    mc = [int(rng.integers(k)) for k in cats] if mcq else None
    n = 3000
    given = c.round % 2 == 0
    g = [float(x) for x in rng.uniform(0.05, 0.8, len(cats))] if given else None
    c.note(categories=cats, mc=mc, guessing=g)
    x = random_guessing_data(cats, n, guessing_probabilities=g, mc_correct=mc).double().numpy()
    c.ok(x.shape == (n, len(cats)), "one row per guesser")
    for j, k in enumerate(cats):
        want = np.zeros(k)
        if mcq:
            pr = g[j] if given else 1 / k
            want[:] = (1 - pr) / (k - 1)
            want[mc[j]] = pr
        elif k == 2 and given:
            want[:2] = [1 - g[j], g[j]]
        else:
            want[0] = 1.0
        f = np.array([(x[:, j] == a).mean() for a in range(k)])
        c.leq(np.abs(f - want), 6 * np.sqrt(want * (1 - want) / n) + 1e-9, "guessers give the correct answer with the guessing probability and the others equally often")
    c.raises(ValueError, lambda: random_guessing_data(cats, 3, guessing_probabilities=[0.2] * (len(cats) + 1), mc_correct=mc), "one guessing probability per item")
    c.raises(ValueError, lambda: random_guessing_data(cats, 3, guessing_probabilities=[1.5] * len(cats), mc_correct=mc), "guessing probabilities are probabilities")
