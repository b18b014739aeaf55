"""Latent densities: Gaussian mixtures, quantile normal densities, interpolation."""
import itertools

import numpy as np
import torch
from scipy import stats

from harness import evals, gen
from harness.core import Skip, scenario
from irtorch.latent_variable_functions import interp, quantile_transform
from irtorch.quantile_mv_normal import QuantileMVNormal
from irtorch.torch_modules import GaussianMixtureModel

P = "C33"


def clusters(rng, n, d, k):
    mus = rng.normal(0, 3, (k, d))
    lab = rng.integers(0, k, n)
    sd = rng.uniform(0.4, 1.2, (k, d))
    return mus[lab] + sd[lab] * rng.normal(0, 1, (n, d))


def mixture(g):
    w = g.weights.detach().double().numpy()
    mu = g.means.detach().double().numpy()
    cov = g.covariances.detach().double().numpy()
    return w, mu, cov


def logpdf(g, x):
    w, mu, cov = mixture(g)
    parts = np.stack([np.log(max(w[i], 1e-300)) + stats.multivariate_normal(mu[i], (cov[i] + cov[i].T) / 2, allow_singular=True).logpdf(x).reshape(len(x)) for i in range(len(w))])
    return np.logaddexp.reduce(parts, 0)


def sound(g):
    w, mu, cov = mixture(g)
    return np.isfinite(w).all() and np.isfinite(cov).all() and w.min() > 0.03 and min(np.linalg.eigvalsh(s).min() for s in cov) > 1e-2


def fitted(c, d, k, n, iterations=None):
    x = clusters(c.rng, n, d, max(1, c.round % 4))
    g = GaussianMixtureModel(n_components=k, n_features=d)
    with torch.no_grad():
        # start at data points so that no component starts out of reach
        g.means.copy_(gen.t(x[c.rng.choice(n, k, replace=False)]))
        g.covariances.copy_(gen.t(np.stack([np.cov(x.T).reshape(d, d)] * k)))
    c.feed(x)
    c.note(latents=d, components=k, n=n)
    if iterations is not None:
        g.fit(gen.t(x), iterations=iterations)
    return g, x


@scenario(P, 40, 400)
def mixture_density(c):
    rng = c.rng
    d, k = 1 + c.round % 3, int(rng.integers(1, 5))
    g, x = fitted(c, d, k, 120, iterations=int(rng.integers(1, 30)))
    if not sound(g):
        raise Skip("degenerate mixture")
    xt = gen.t(x)
    want = logpdf(g, xt.double().numpy())
    c.close(float(g(xt)), want.sum(), "calling the mixture gives the log-likelihood of the data", rtol=2e-4, atol=5e-2)
    with torch.no_grad():
        c.close(g.pdf(xt), np.exp(want), "the density is the weighted sum of the component densities", rtol=5e-3, atol=1e-6)
    c.equal(xt, gen.t(x), "the data are left alone")
    far = 5 * np.sqrt(np.einsum("kii->ki", mixture(g)[2]).max())
    ax = [np.linspace(x[:, i].min() - far, x[:, i].max() + far, 3000 if d == 1 else 300) for i in range(d)]
    if d <= 2 and min(np.linalg.eigvalsh(s).min() for s in mixture(g)[2]) ** 0.5 > 1.5 * max(a[1] - a[0] for a in ax):
        grid = np.array(list(itertools.product(*ax)))
        with torch.no_grad():
            p = g.pdf(gen.t(grid)).double().numpy()
        c.close(p.sum() * np.prod([a[1] - a[0] for a in ax]), 1.0, "the density integrates to one", rtol=0, atol=1e-2)
    w, mu, cov = mixture(g)
    c.close(w.sum(), 1.0, "the component weights sum to one", atol=1e-4)
    m = w @ mu
    c.close(m, x.mean(0), "a fitted mixture has the mean of the data", rtol=1e-3, atol=3e-3 * (1 + np.abs(x).max()))
    second = np.einsum("k,kij->ij", w, cov + np.einsum("ki,kj->kij", mu, mu)) - np.outer(m, m)
    c.close(second, np.cov(x.T, bias=True).reshape(d, d), "a fitted mixture has the covariance of the data", rtol=1e-2, atol=1e-2 * (1 + np.abs(x).max() ** 2))


@scenario(P, 30, 300)
def fitting_improves(c):
    rng = c.rng
    d, k = 1 + c.round % 3, int(rng.integers(1, 4))
    g, x = fitted(c, d, k, 200)
    xt = gen.t(x)
    seen = [float(g(xt))]
    for n in (1, 1, 2, 5, 20):
        g.fit(xt, iterations=n)
        if not sound(g):
            raise Skip("degenerate mixture")
        seen.append(float(g(xt)))
    c.leq(np.array(seen[:-1]), np.array(seen[1:]), "more iterations never lower the likelihood of the data", 1e-3 * abs(seen[-1]) * 0.1)
    if k == 1:
        c.close(seen[-1], stats.multivariate_normal(x.mean(0), np.cov(x.T, bias=True).reshape(d, d)).logpdf(x).sum(), "one component is the maximum likelihood normal distribution", rtol=1e-3)
    g.fit(xt, iterations=300)
    if sound(g):
        before = float(g(xt))
        # no nearby mixture is more likely
        for _ in range(6):
            h = GaussianMixtureModel(k, d)
            with torch.no_grad():
                h.weights.copy_(torch.softmax(g.weights.log() + 0.05 * torch.randn(k), 0))
                h.means.copy_(g.means + 0.1 * torch.randn(k, d))
                h.covariances.copy_(g.covariances * float(rng.uniform(0.85, 1.15)))
            c.leq(float(h(xt)), before, "the fitted mixture is a local maximum of the likelihood", 0.02 * len(x) ** 0.5)


@scenario(P, 12, 100)
def number_of_components(c):
    """well separated clusters: the cross-validated mixture finds what one component cannot"""
    rng = c.rng
    d = 1 + c.round % 2
    m, kind, _, _ = evals.problem(c, kinds=["2PL"], latents=d, items=3)
    n = 300
    two = c.round % 3 != 0
    lab = rng.integers(0, 2, n)
    gap = 4.0 if two else 0.0
    x = rng.normal(0, 0.8, (n, d))
    x[:, 0] += np.where(lab == 1, gap, -gap)
    c.feed(x)
    m.evaluate.approximate_latent_density(gen.t(x), "gmm", cv_n_components=[1, 2] if c.round % 2 else [2, 1])
    g = m.evaluate.latent_density
    c.ok(isinstance(g, GaussianMixtureModel), "a mixture is fitted")
    if two:
        c.ok(g.n_components == 2, "cross-validation prefers two components for two clusters", got=g.n_components)
    one = stats.multivariate_normal(x.mean(0), np.cov(x.T, bias=True).reshape(d, d)).logpdf(x).sum()
    c.leq(one - 0.01 * abs(one), float(g(gen.t(x))), "the chosen mixture is at least as likely as a single normal distribution")
    # few observations from one normal distribution: many components fit noise and lose on held-out data
    few = rng.normal(0, 1, (60, 2)) * [1, 2] + [0, 3]
    m.evaluate.approximate_latent_density(gen.t(few), "gmm", cv_n_components=[[1, 10], [10, 1], [1, 8, 12]][c.round % 3])
    c.ok(m.evaluate.latent_density.n_components == 1, "cross-validation does not reward components that only fit noise", got=m.evaluate.latent_density.n_components)
    m.evaluate.approximate_latent_density(gen.t(x), "gmm", cv_n_components=[3])
    c.ok(m.evaluate.latent_density.n_components == 3, "a single candidate is used as given")
    m.evaluate.approximate_latent_density(gen.t(x))
    c.ok(isinstance(m.evaluate.latent_density, QuantileMVNormal), "the quantile normal density is the default")
    c.raises(ValueError, lambda: m.evaluate.approximate_latent_density(gen.t(x), "kde"), "unknown densities are refused")


@scenario(P, 60, 600)
def quantile_normal(c):
    rng = c.rng
    d, n = 1 + c.round % 3, int(rng.integers(30, 200))
    A = rng.normal(0, 1, (d, d)) + np.eye(d)
    x = rng.normal(0, 1, (n, d)) @ A.T
    if c.round % 2:
        x = np.sign(x) * np.abs(x) ** 1.5
    x = x.astype(np.float32)
    if any(len(np.unique(x[:, i])) < n for i in range(d)):
        raise Skip("ties: their order is not determined")
    c.feed(x)
    xt = gen.t(x)
    z = stats.norm.ppf((x.argsort(0).argsort(0) + 1) / (n + 1))
    c.close(quantile_transform(xt), z, "scores become the normal quantiles of their ranks / (n + 1)", atol=1e-4)
    q = QuantileMVNormal()
    q.fit(xt)
    ref = stats.multivariate_normal(z.mean(0), np.cov(z.T).reshape(d, d))
    c.close(q.pdf(xt), ref.pdf(z).reshape(n), "the density at the data is the normal density of the quantile transformed scores", rtol=5e-3, atol=1e-6)
    new = np.stack([rng.uniform(x[:, i].min(), x[:, i].max(), 25) for i in range(d)], 1).astype(np.float32)
    zn = np.stack([np.interp(new[:, i], np.sort(x[:, i]), np.sort(z[:, i])) for i in range(d)], 1)
    c.close(q.pdf(gen.t(new)), ref.pdf(zn).reshape(25), "between the data the quantiles are interpolated", rtol=2e-2, atol=1e-4)
    far = np.stack([np.r_[x[:, i].min() - 1.0, x[:, i].max() + 1.0] for i in range(d)], 1)
    edge = np.stack([np.r_[x[:, i].min(), x[:, i].max()] for i in range(d)], 1)
    zz = np.stack([np.r_[z[:, i].min(), z[:, i].max()] for i in range(d)], 1)
    fp = q.pdf(gen.t(far)).double().numpy()
    c.ok(np.isfinite(fp).all() and (fp >= 0).all(), "the density is finite outside the data", got=fp)
    if d == 1:
        c.leq(fp, ref.pdf(zz), "the density falls outside the data", 1e-7)


@scenario(P, 40, 400)
def interpolation(c):
    rng = c.rng
    n = int(rng.integers(3, 30))
    x = np.cumsum(rng.uniform(0.05, 1, n))
    x -= x.mean()
    ties = c.round % 3 == 2
    if ties:
        x[:2], x[-2:] = x[0], x[-1]
    y = np.sort(rng.normal(0, 2, n)) if c.round % 2 else rng.normal(0, 2, n)
    p = rng.permutation(n)
    x, y = x.astype(np.float32), y.astype(np.float32)
    new = np.r_[rng.uniform(x[0], x[-1], 20), x[2:-2]].astype(np.float32)
    c.feed(x, y, new)
    got = interp(gen.t(new), gen.t(x[p]), gen.t(y[p]))
    if not ties:
        c.close(got, np.interp(new, x, y), "linear interpolation between the sorted points", rtol=1e-4, atol=2e-4)
        c.close(interp(gen.t(x), gen.t(x[p]), gen.t(y[p])), y, "the points themselves are reproduced", rtol=1e-4, atol=2e-4)
        lo, hi = x[0] - np.float32(0.7), x[-1] + np.float32(1.3)
        want = [y[0] - 0.7 * (y[1] - y[0]) / (x[1] - x[0]), y[-1] + 1.3 * (y[-1] - y[-2]) / (x[-1] - x[-2])]
        c.close(interp(gen.t([lo, hi]), gen.t(x[p]), gen.t(y[p])), np.array(want), "linear extrapolation beyond the edges", rtol=2e-3, atol=2e-3)
    else:
        inside = (new > x[0]) & (new < x[-1])
        if n > 5:
            mid = (new >= x[2]) & (new <= x[-3])
            c.close(got.numpy()[mid], np.interp(new[mid], x, y), "linear interpolation between the sorted points", rtol=1e-4, atol=2e-4)
        out = interp(gen.t([x[0] - 2, x[-1] + 2]), gen.t(x[p]), gen.t(y[p]))
        c.ok(torch.isfinite(out).all() and torch.isfinite(got[torch.tensor(inside)]).all(), "finite with ties at the edges", got=out)


@scenario(P, 12, 100)
def tied_scores(c):
    """sum score distributions over a density fitted to scores with ties at the extremes stay distributions"""
    rng = c.rng
    d = 1 + c.round % 2
    m, kind, _, _ = evals.problem(c, kinds=["2PL", "GPC", "NR"], latents=d, items=4, easy=True, hi=3)
    x = np.clip(rng.normal(0, 1, (150, d)), -1.7, 1.7)
    m.algorithm.training_theta_scores = gen.t(x)
    c.feed(x)
    p = m.evaluate.sum_score_probabilities(latent_density_method="qmvn", trapezoidal_segments=60)
    c.ok(torch.isfinite(p).all(), f"{kind}: probabilities are finite", got=p)
    c.close(float(p.sum()), 1.0, f"{kind}: probabilities sum to one", rtol=0, atol=2e-4)


@scenario(P, 2, 4)
def known_qmvn_not_normalised(c):
    def probe():
        x = np.random.default_rng(5).normal(0, 2.0, (400, 1)).astype(np.float32)
        q = QuantileMVNormal()
        q.fit(gen.t(x))
        g = np.linspace(-14, 14, 4001)
        total = float(q.pdf(gen.t(g[:, None])).double().sum() * (g[1] - g[0]))
        c.close(total, 1.0, "the quantile normal density integrates to one", rtol=0, atol=0.1)

    c.finding("qmvn-density", probe)


@scenario(P, 24, 200)
def many_components(c):
    """components without data of their own do not break the fit"""
    rng = c.rng
    d, n = 1 + c.round % 3, int(rng.integers(40, 90))
    x = rng.normal(0, 1, (n, d)) * [1, 10][c.round % 2] + [0, 0, 15][c.round % 3]
    k = [4, 5, 10][c.round % 3]
    c.feed(x)
    c.note(components=k, n=n, latents=d)
    g = GaussianMixtureModel(k, d)
    g.fit(gen.t(x))
    ll = float(g(gen.t(x)))
    c.ok(np.isfinite(ll), "the likelihood is finite", got=ll)
    c.close(float(g.weights.sum()), 1.0, "the component weights sum to one", atol=1e-4)
    with torch.no_grad():
        p = g.pdf(gen.t(x))
    c.ok(torch.isfinite(p).all() and (p >= 0).all(), "densities are finite")
    c.close(p.double().log().sum().item(), ll, "calling the mixture gives the log-likelihood of the data", rtol=1e-3, atol=0.1)
    c.leq(stats.multivariate_normal(x.mean(0), np.cov(x.T, bias=True).reshape(d, d)).logpdf(x).sum(), ll, "more components explain the data at least as well as one", 0.02 * abs(ll))


@scenario(P, 4, 8)
def refusals(c):
    c.raises(ValueError, lambda: GaussianMixtureModel(0, 1), "no components")
    c.raises(ValueError, lambda: GaussianMixtureModel(1, 0), "no features")
    c.raises(ValueError, lambda: GaussianMixtureModel(2, 1).fit(torch.zeros(0, 1)), "no data")
    c.raises(ValueError, lambda: GaussianMixtureModel(2, 1).fit(torch.zeros(5, 2)), "data of another size")


def responsibilities(g, x):
    w, mu, cov = mixture(g)
    parts = np.stack([np.log(max(w[i], 1e-300)) + stats.multivariate_normal(mu[i], (cov[i] + cov[i].T) / 2, allow_singular=True).logpdf(x).reshape(len(x)) for i in range(len(w))])
    return np.exp(parts - np.logaddexp.reduce(parts, 0))


@scenario(P, 24, 240)
def rare_component(c):
    """A small group among many: the fit still climbs, and ends where the group's weight is its share of the data."""
    rng = c.rng
    d = 1 + c.round % 2
    n, share = int(rng.choice([600, 1200])), float(rng.uniform(0.015, 0.07))
    small = int(n * share)
    x = rng.normal(0, 1, (n, d))
    x[:small] = x[:small] * rng.uniform(0.5, 0.9) + rng.choice([-1, 1], d) * rng.uniform(2.8, 4.0)
    x = x[rng.permutation(n)]
    c.feed(x)
    c.note(latents=d, share=share, n=n)
    g = GaussianMixtureModel(n_components=2, n_features=d)
    far = x[np.argmax((x**2).sum(1))]
    with torch.no_grad():
        g.means.copy_(gen.t(np.stack([np.zeros(d), far])))
    xt = gen.t(x)
    seen = [float(g(xt))]
    for k in (1, 1, 1, 2, 5, 10, 30, 300):
        g.fit(xt, iterations=k)
        seen.append(float(g(xt)))
    w, mu, cov = mixture(g)
    if not np.isfinite(w).all() or w.min() * n < 6 or min(np.linalg.eigvalsh(s).min() for s in cov) < 1e-2:
        raise Skip("degenerate mixture")
    c.leq(np.array(seen[:-1]), np.array(seen[1:]), "more iterations never lower the likelihood of the data", 0.02 + 3e-6 * abs(seen[-1]))
    r = responsibilities(g, xt.double().numpy())
    c.close(w, r.mean(1), "in the end a component's weight is its share of the data", rtol=0.02, atol=1e-3)
    c.close(mu, r @ x / r.sum(1)[:, None], "and its mean is the mean of its share", rtol=0.01, atol=0.02)
    c.count("rare components", 1)
