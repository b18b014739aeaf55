"""Posterior mean (EAP) scores."""
import itertools

import numpy as np
import torch
from scipy.stats import multivariate_normal

from harness import evals, gen, oracle
from harness.checks.c16 import MMLFit
from harness.core import Skip, scenario

P = "C17"


def grid_posterior(m, x, cov, axes):
    G = np.array(list(itertools.product(*axes)))
    p = gen.probs64(m, gen.t(G))
    with np.errstate(divide="ignore"):
        lp = np.log(p)
    miss = oracle.missing(x)
    d = np.where(miss, 0, x).astype(int)
    tot = np.repeat(multivariate_normal(np.zeros(len(cov)), cov).logpdf(G)[None], len(x), 0)
    for j in range(x.shape[1]):
        tot = tot + np.where(miss[:, j], 0, 1)[:, None] * np.nan_to_num(lp[:, j, :][:, d[:, j]].T, neginf=-1e3)
    w = np.exp(tot - tot.max(1, keepdims=True))
    w /= w.sum(1, keepdims=True)
    return w @ G


def setup(c, kinds, latents):
    rng = c.rng
    d = latents
    m, _, kind = gen.any_model(c, kinds=kinds, latents=d, items=int(rng.integers(3, 12)), hi=4)
    A = rng.normal(0, 1, (d, d))
    cov = A @ A.T * 0.2 + np.diag(rng.uniform(0.4, 1.0, d))
    if d > 1 and rng.random() < 0.4:  # very unequal variances
        s = rng.permutation(np.r_[0.3, 1.6, rng.uniform(0.3, 1.5, d - 2)])
        cov = cov * np.outer(s, s)
    if c.round % 3:
        tr = gen.t(rng.multivariate_normal(np.full(d, rng.choice([0.0, 0.5, 2.0, -1.5])), cov, 100))
        m.algorithm = gen.FakeFit(gen.t(gen.responses(rng, m, tr)), tr)
        q = tr.double().numpy()
        cov = np.atleast_2d(np.cov(q.T))
        lo, hi = q.min(0), q.max(0)
        w = (hi - lo) * 0.25
        lo, hi = lo - w, hi + w
    else:
        if c.round % 2:
            m.algorithm = MMLFit(gen.t(cov), None)
        else:
            cov = np.eye(d)  # nothing fitted: standard normal prior
        sd = np.sqrt(np.diag(cov))
        lo, hi = -3 * sd, 3 * sd
    x = gen.responses(rng, m, gen.theta(rng, 7, d, 1.0))
    if c.round % 2:
        x, _ = gen.with_missing(rng, x, 0.2)
    x[0] = 0
    if c.round % 4 == 0:
        x[1] = np.nan
    c.note(cov=cov, source="training scores" if c.round % 3 else "prior covariance")
    c.feed(x, cov)
    return m, kind, x, cov, lo, hi


@scenario(P, 60, 900)
def posterior_mean(c):
    m, kind, x, cov, lo, hi = setup(c, gen.ALL, 1)
    want = grid_posterior(m, x, cov, [np.linspace(lo[0], hi[0], 1200)])
    got = m.latent_scores(gen.t(x), theta_estimation="EAP", rescale=False)
    c.close(got, want, f"{kind}: EAP scores are posterior means under the centred normal prior", rtol=0, atol=0.02)
    fine = m.latent_scores(gen.t(x), theta_estimation="EAP", eap_theta_integration_points=1200, rescale=False)
    c.close(fine, want, f"{kind}: more integration points converge to the posterior mean", rtol=0, atol=3e-3)
    if c.round % 4 == 0 and c.round % 3 == 0:
        c.close(fine[1], np.zeros(1), "with no responses the score is the prior mean", rtol=0, atol=0.01)
    c.count("EAP scores compared", len(x))


@scenario(P, 36, 400)
def several_latent_variables(c):
    d = 2 + (c.round % 4 in (0, 3))
    m, kind, x, cov, lo, hi = setup(c, ["2PL", "GPC", "GRM", "NR", "3PL", "NNcat", "Poly"], d)
    k = 40 if d == 2 else 17
    got = m.latent_scores(gen.t(x), theta_estimation="EAP", eap_theta_integration_points=k, rescale=False)
    c.ok(tuple(got.shape) == (len(x), d), "one score per respondent and latent variable")
    n = 61 if d == 2 else k
    want = grid_posterior(m, x, cov, [np.linspace(a, b, n) for a, b in zip(lo, hi)])
    c.close(got, want, f"{kind}: EAP scores are posterior means in several dimensions", rtol=0, atol=0.05 if d == 2 else 1e-2)
    coarse = m.latent_scores(gen.t(x), theta_estimation="EAP", rescale=False)
    exact = grid_posterior(m, x, cov, [np.linspace(a, b, 15 if d == 2 else 7) for a, b in zip(lo, hi)])
    c.close(coarse, exact, f"{kind}: the default grid covers the range of the training scores", rtol=0, atol=5e-3)


@scenario(P, 24, 300)
def invariances(c):
    m, kind, x, cov, lo, hi = setup(c, ["2PL", "GPC", "GRM", "NR", "NestNom", "Mix", "Surp"], 1)
    score = lambda q: m.latent_scores(gen.t(q), theta_estimation="EAP", rescale=False).double().numpy()
    base = score(x)
    p = c.rng.permutation(len(x))
    c.close(score(x[p]), base[p], f"{kind}: scores follow the respondents when they are reordered", rtol=0, atol=1e-4)
    c.close(score(x[2:3]), base[2:3], f"{kind}: a respondent scored alone gets the same score", rtol=0, atol=1e-4)
    c.close(score(x[2]), base[2:3], f"{kind}: a single respondent can be given as a vector", rtol=0, atol=1e-4)
    miss = oracle.missing(x)
    c.close(score(np.where(miss, -1, x)), score(np.where(miss, np.nan, x)), f"{kind}: -1 and NaN both mean missing", rtol=0, atol=1e-5)


@scenario(P, 12, 100)
def long_tests(c):
    """No underflow: hundreds of responses per respondent."""
    m, _, kind = gen.build(c.rng, ["2PL", "GPC", "NR"][c.round % 3], latents=1, items=[600, 2500][c.round % 2], hi=[5, 9][c.round % 2])
    tr = gen.theta(c.rng, 60, 1, 1.0)
    m.algorithm = gen.FakeFit(None, tr)
    th = gen.theta(c.rng, 4, 1, 0.8)
    x = gen.responses(c.rng, m, th)
    c.feed(x)
    got = m.latent_scores(gen.t(x), theta_estimation="EAP", eap_theta_integration_points=600, rescale=False)
    c.ok(torch.isfinite(got).all(), f"{kind}: scores of long tests are finite", got=got)
    c.close(got, th, f"{kind}: long tests recover the latent score", rtol=0, atol=0.4)


@scenario(P, 4, 10)
def too_many_dimensions(c):
    m, _, _ = gen.build(c.rng, "2PL", latents=5, items=6)
    c.raises(ValueError, lambda: m.latent_scores(torch.zeros(2, 6), theta_estimation="EAP"), "EAP refuses more than four latent variables")


@scenario(P, 36, 400)
def wide_and_narrow_priors(c):
    """The grid follows the prior: the scores are the exact posterior means (integrated far beyond any grid) unless the posterior lies at the prior's edge."""
    rng = c.rng
    d = 1 + (c.round % 3 == 0)
    kind = ["2PL", "GPC", "GRM", "NR", "3PL", "Poly"][c.round % 6]
    m, _, _ = gen.build(rng, kind, latents=d, items=int(rng.integers(2, 7)), hi=4)
    var = float(rng.choice([0.02, 0.2, 1.0, 4.0, 16.0]))
    A = rng.normal(0, 1, (d, d))
    cov = var * (A @ A.T * 0.15 + np.diag(rng.uniform(0.6, 1.2, d)))
    m.algorithm = MMLFit(gen.t(cov), None)
    x = gen.responses(rng, m, gen.theta(rng, 8, d, np.sqrt(var)))
    x[0] = np.nan
    c.note(variance=var)
    c.feed(x, cov)
    sd = np.sqrt(np.diag(cov))
    n = 1601 if d == 1 else 121
    axes = [np.linspace(-7 * s, 7 * s, n) for s in sd]
    want = grid_posterior(m, x, cov, axes)
    # the posterior's share beyond three prior deviations, by moving everything inside first
    inner = grid_posterior(m, x, cov, [np.linspace(-3 * s, 3 * s, n) for s in sd])
    near = (np.abs(want - inner) < 0.02 * sd).all(1)
    got = m.latent_scores(gen.t(x), theta_estimation="EAP", eap_theta_integration_points=600 if d == 1 else 41, rescale=False).double().numpy()
    c.close((got / sd)[near], (want / sd)[near], f"{kind}: EAP scores are posterior means under wide and narrow priors", rtol=0, atol=0.06 if d == 1 else 0.1)
    c.close(got[0] / sd, np.zeros(d), "with no responses the score is the prior mean", rtol=0, atol=0.01)
    c.count("EAP scores compared", int(near.sum()))


@scenario(P, 12, 120)
def asked_again(c):
    evals.ask_again(c, lambda m, x, th: {"EAP": m.latent_scores(x, theta_estimation="EAP")}, "scores", latents=1 + c.round % 2, tol=1e-3)
