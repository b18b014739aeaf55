"""Marginal maximum likelihood: objective and estimates."""
import itertools

import numpy as np
import torch
from scipy.stats import multivariate_normal

from harness import fits, gen, oracle
from harness.core import Skip, scenario
from irtorch.estimation_algorithms import MML
from irtorch.utils import gauss_hermite

P = "C21"


def prob_fn(m):
    return lambda pts: gen.probs64(m, gen.t(pts))


def data(c, m, n, missing=True):
    x = gen.responses(c.rng, m, gen.theta(c.rng, n, m.latent_variables, 1.0))
    x = gen.full_support(c.rng, x, m.item_categories)
    if missing and c.round % 2:
        x, _ = gen.with_missing(c.rng, x, 0.15)
    c.feed(x)
    return x


def random_cov(c, d):
    if c.round % 3 == 0:
        return None, np.eye(d)
    A = c.rng.normal(0, 0.6, (d, d))
    cov = A @ A.T + 0.5 * np.eye(d)
    return gen.t(cov), gen.t(cov).double().numpy()


@scenario(P, 40, 600)
def quadrature(c):
    """Gauss-Hermite points and weights integrate polynomials under a normal density exactly."""
    rng = c.rng
    d = 1 + c.round % 3
    n = int(rng.integers(3, 9))
    mean = rng.normal(0, 1, d)
    A = rng.normal(0, 1, (d, d))
    cov = A @ A.T + 0.3 * np.eye(d)
    c.note(points=n, dim=d)
    c.feed(mean, cov)
    pts, w = gauss_hermite(n, torch.tensor(mean), torch.tensor(cov))
    pts, w = pts.numpy(), w.numpy()
    c.ok(pts.shape == (n**d, d) and w.shape == (n**d,), "n^d points")
    c.close(w.sum(), 1.0, "weights sum to one", rtol=0, atol=1e-9)
    c.close(w @ pts, mean, "first moments", rtol=1e-8, atol=1e-8)
    z = pts - mean
    c.close(np.einsum("n,ni,nj->ij", w, z, z), cov, "covariances", rtol=1e-7, atol=1e-7)
    c.close(np.einsum("n,ni,nj,nk->ijk", w, z, z, z), np.zeros((d, d, d)), "third central moments", atol=1e-6)
    m4 = np.einsum("n,ni,nj,nk,nl->ijkl", w, z, z, z, z)
    want = np.einsum("ij,kl->ijkl", cov, cov) + np.einsum("ik,jl->ijkl", cov, cov) + np.einsum("il,jk->ijkl", cov, cov)
    c.close(m4, want, "fourth central moments", rtol=1e-6, atol=1e-6)


@scenario(P, 57, 600)
def gauss_hermite_objective(c):
    """The recorded loss is minus the marginal log-likelihood."""
    d = [1, 1, 2][c.round % 3]
    kinds = [k for k in gen.ALL if d == 1 or k != "1PL"]
    m, _, kind = gen.any_model(c, kinds=kinds, latents=d, items=int(c.rng.integers(3, 7)), hi=4)
    x = data(c, m, int(c.rng.integers(5, 25)))
    gen.randomize(m, c.rng)
    cov_t, cov = random_cov(c, d)
    q = int(c.rng.integers(8, 14)) if d == 1 else int(c.rng.integers(5, 9))
    pts, w = gauss_hermite(q, torch.zeros(d, dtype=torch.float64), torch.tensor(cov))
    want = -oracle.marginal_loglik(prob_fn(m), x, pts.numpy(), np.log(w.numpy())).sum()
    alg = MML()
    m.fit(gen.t(x), algorithm=alg, max_epochs=1, integration_method="gauss_hermite", quadrature_points=q, covariance_matrix=cov_t, device="cpu")
    h = alg.training_history["train_loss"]
    c.ok(len(h) == 1, "one loss per epoch", history=h)
    c.close(h[0], want, f"{kind}: the training loss is minus the marginal log-likelihood of the observed responses", rtol=2e-4, atol=5e-3)
    c.count("marginal likelihoods compared")


def accurate(m, x, cov, d):
    """marginal log-likelihood by a fine Gauss-Hermite rule"""
    pts, w = gauss_hermite({1: 61, 2: 25, 3: 13}[d], torch.zeros(d, dtype=torch.float64), torch.tensor(cov))
    return oracle.marginal_loglik(prob_fn(m), x, pts.numpy(), np.log(np.maximum(w.numpy(), 1e-300))).sum()


@scenario(P, 48, 500)
def default_integration(c):
    """Without asking for a rule, the loss is minus the marginal log-likelihood under wide, narrow and correlated latent distributions."""
    rng = c.rng
    d = [1, 2, 3, 1][c.round % 4]
    kinds = [k for k in gen.CLOSED if d == 1 or k != "1PL"]
    m, _, kind = gen.any_model(c, kinds=kinds, latents=d, items=int(rng.integers(3, 7)), hi=4, easy=True)
    x = data(c, m, int(rng.integers(5, 25)))
    cov_t, cov = random_cov(c, d)
    var = 1.0
    if cov_t is not None:
        var = float(rng.choice([0.05, 1.0, 6.0]))
        cov_t, cov = cov_t * var, (cov_t * var).double().numpy()
    gen.randomize(m, rng, easy=True)
    # weak items: what the coarse default rules (15, 7 or 5 points) are accurate for
    weak = 0.6 / max(1.0, float(np.sqrt(np.linalg.eigvalsh(cov).max())))
    with torch.no_grad():
        for name, p in m.named_parameters():
            if "weight" in name:
                p.mul_(weak)
    want = -accurate(m, x, cov, d)
    alg = MML()
    q = {1: 41, 2: 21, 3: 13}[d]
    fine = bool(c.round % 2)
    c.note(variance=var, latents=d, fine=fine)
    m.fit(gen.t(x), algorithm=alg, max_epochs=1, covariance_matrix=cov_t, device="cpu", **({"quadrature_points": q} if fine else {}))
    got = alg.training_history["train_loss"][0]
    scale = len(x) * x.shape[1]
    c.close((got - want) / scale, 0.0, f"{kind}: the default training loss is minus the marginal log-likelihood of the observed responses", rtol=0, atol=0.01 if fine else 0.03)
    c.count("marginal likelihoods compared")


@scenario(P, 24, 160)
def estimates_beat_the_truth(c):
    """A maximum likelihood fit has a higher marginal likelihood than the parameters that generated the data."""
    rng = c.rng
    d = 2 if c.round % 6 == 5 else 1
    kind = ["2PL", "GPC", "GRM", "NR", "1PL", "3PL"][c.round % 6] if d == 1 else "2PL"
    truth, mask, _ = gen.build(rng, kind, latents=d, items=8, masked=False, easy=True, hi=3)
    x = gen.responses(rng, truth, gen.theta(rng, 400, d, 1.0))
    x = gen.full_support(rng, x, truth.item_categories)
    if c.round % 2:
        x, _ = gen.with_missing(rng, x, 0.1)
    c.note(model=kind, latents=d)
    c.feed(x)
    m = gen.clone(truth)
    fresh = type(m)
    gen.randomize(m, rng, easy=True)
    gh = c.round % 3 == 0
    m.fit(gen.t(x), algorithm=MML(), max_epochs=250, device="cpu", learning_rate=0.1, learning_rate_updates_before_stopping=8, integration_method="gauss_hermite" if gh else "quasi_mc", **({"quadrature_points": 21} if gh and d == 1 else {}))
    if gh:
        pts, w = gauss_hermite(21 if d == 1 else 7, torch.zeros(d), torch.eye(d))
        pts, lw = pts.numpy(), np.log(w.numpy())
    else:
        q = {1: 15, 2: 7}[d]
        pts = np.array(list(itertools.product(*[np.linspace(-3, 3, q)] * d)))
        lw = np.atleast_1d(multivariate_normal(np.zeros(d), np.eye(d)).logpdf(pts))
    lf = oracle.marginal_loglik(prob_fn(m), x, pts, lw).sum()
    lt = oracle.marginal_loglik(prob_fn(truth), x, pts, lw).sum()
    c.leq(lt, lf + 2.0, f"{kind}: the fitted model is at least as likely as the generating one")
    g = gen.t(np.linspace(-1.5, 1.5, 13)[:, None]) if d == 1 else None
    if d == 1 and kind in ("2PL", "GPC", "GRM", "1PL"):
        err = np.abs(oracle.expected_scores(gen.probs64(m, g), m.item_categories, None) - oracle.expected_scores(gen.probs64(truth, g), m.item_categories, None))
        flipped = np.abs(oracle.expected_scores(gen.probs64(m, -g), m.item_categories, None) - oracle.expected_scores(gen.probs64(truth, g), m.item_categories, None))
        c.leq(min(err.mean(), flipped.mean()), 0.12, f"{kind}: the fitted curves are close to the generating ones")


@scenario(P, 8, 30)
def invalid(c):
    m, _, _ = gen.build(c.rng, "2PL", latents=2, items=4)
    x = gen.t(gen.uniform_responses(c.rng, m.item_categories, 10))
    c.raises(ValueError, lambda: m.fit(x, algorithm=MML(), covariance_matrix=torch.eye(3), max_epochs=1), "a covariance matrix of the wrong size is refused")
    m4, _, _ = gen.build(c.rng, "2PL", latents=4, items=6)
    x4 = gen.t(gen.uniform_responses(c.rng, m4.item_categories, 10))
    c.raises(ValueError, lambda: m4.fit(x4, algorithm=MML(), max_epochs=1), "more than three latent variables are refused")


@scenario(P, 16, 120)
def algorithm_used_again(c):
    """Settings of an earlier fit with the same algorithm object do not carry over to the next one."""
    d = 1 + c.round % 2
    m, _, kind = gen.any_model(c, kinds=["2PL", "GPC", "NR", "GRM"], latents=d, items=int(c.rng.integers(3, 6)), hi=4)
    x = data(c, m, int(c.rng.integers(8, 25)))
    A = c.rng.normal(0, 0.8, (d, d))
    cov = A @ A.T + 0.3 * np.eye(d)
    q = 9 if d == 1 else 5
    alg = MML()
    plans = [(cov, "quasi_mc"), (None, "quasi_mc"), (cov, "gauss_hermite"), (None, "gauss_hermite")]
    got = {}
    for k in c.rng.permutation(4):
        cv, how = plans[k]
        m1 = gen.clone(m)
        m1.fit(gen.t(x), algorithm=alg, max_epochs=1, integration_method=how, quadrature_points=q, covariance_matrix=None if cv is None else gen.t(cv), device="cpu")
        got[k] = alg.training_history["train_loss"]
        c.ok(len(got[k]) == 1, "the history is that of the last fit", history=got[k])
        if how == "gauss_hermite":
            pts, w = gauss_hermite(q, torch.zeros(d, dtype=torch.float64), torch.tensor(np.eye(d) if cv is None else cov))
            pts, lw = pts.numpy(), np.log(w.numpy())
            want = -oracle.marginal_loglik(prob_fn(m), x, pts, lw).sum()
        else:
            m2, new = gen.clone(m), MML()
            m2.fit(gen.t(x), algorithm=new, max_epochs=1, integration_method=how, quadrature_points=q, covariance_matrix=None if cv is None else gen.t(cv), device="cpu")
            want = new.training_history["train_loss"][0]
        c.close(got[k][0], want, f"{kind}: the loss uses the covariance of this fit", rtol=3e-4, atol=1e-2)


@scenario(P, 8, 80)
def long_tests(c):
    """Respondents with many, few and aberrant responses: each has its own size of likelihood."""
    rng = c.rng
    kind = ["2PL", "GPC", "NR", "GRM"][c.round % 4]
    items = int(rng.integers(100, 200))
    m, _, _ = gen.build(rng, kind, latents=1, items=items, cats=[2 if kind == "2PL" else 3] * items, easy=True)
    x = gen.full_support(rng, gen.responses(rng, m, gen.theta(rng, 12, 1)), m.item_categories)
    p0 = gen.probs64(m, torch.zeros(1, 1))[0]
    x[1] = np.where(rng.random(items) < 0.8, p0.argmin(-1) if kind == "2PL" else p0[:, :3].argmin(-1), x[1])  # against all expectations
    x[2] = x[1]
    x[3, 1:] = np.nan
    x[4, : items // 2] = -1
    x[5] = 0
    x[6] = np.array(m.item_categories) - 1
    c.feed(x)
    c.note(model=kind, items=items)
    pts, w = gauss_hermite(21, torch.zeros(1, dtype=torch.float64), torch.eye(1, dtype=torch.float64))
    each = -oracle.marginal_loglik(prob_fn(m), x, pts.numpy(), np.log(w.numpy()))
    alg = MML()
    m.fit(gen.t(x), algorithm=alg, max_epochs=2, learning_rate=0.01, integration_method="gauss_hermite", quadrature_points=21, device="cpu")
    h = alg.training_history["train_loss"]
    c.close(h[0], each.sum(), f"{kind}: the training loss of a long test is minus the marginal log-likelihood", rtol=5e-4, atol=5e-3)
    c.ok(np.isfinite(h).all() and np.isfinite(fits.flat(m)).all(), "the fit of a long test stays finite", history=h)
    c.count("largest spread of log-likelihoods", int(each.max() - each.min()))


@scenario(P, 8, 80)
def correlated_traits(c):
    """The latent covariance given is the one integrated over, also by the default rule."""
    rng = c.rng
    d = 2 + c.round % 2
    items = 4 * d
    kind = ["2PL", "GPC"][c.round // 2 % 2]
    m, _, _ = gen.build(rng, kind, latents=d, items=items, cats=[2 if kind == "2PL" else 3] * items, random_params=False, masked=False)
    with torch.no_grad():
        for name, p in m.named_parameters():
            p.copy_(gen.t(rng.uniform(0.2, 0.9, p.numel()) if "weight" in name else rng.normal(0, 0.5, p.numel())).view_as(p))
    sd = np.array([0.5, 1.3, 0.8])[rng.permutation(3)][:d] if d == 3 else np.array([0.4, 1.4])[rng.permutation(2)]
    R = np.full((d, d), rng.choice([-0.4, 0.8]) if d == 3 else rng.choice([-0.9, 0.9]))
    np.fill_diagonal(R, 1)
    cov = gen.t(R * np.outer(sd, sd))
    th = gen.t(rng.multivariate_normal(np.zeros(d), cov.double().numpy(), 60))
    x = gen.full_support(rng, gen.responses(rng, m, th), m.item_categories)
    c.feed(x, cov)
    c.note(model=kind, latents=d, covariance=np.round(cov.numpy(), 2).tolist())
    want = -accurate(m, x, cov.double().numpy(), d)
    L = np.linalg.cholesky(cov.double().numpy())
    wrong = [-accurate(m, x, other, d) for other in (np.diag(np.diag(cov.double().numpy())), L.T @ L, np.eye(d))]
    alg = MML()
    m.fit(gen.t(x), algorithm=alg, max_epochs=1, covariance_matrix=cov, quadrature_points={2: 31, 3: 13}[d], device="cpu", integration_method=["quasi_mc", "gauss_hermite"][c.round // 4 % 2])
    got = alg.training_history["train_loss"][0]
    off = [abs(w - want) for w in wrong]
    c.close(got, want, f"{kind}: the training loss integrates over the latent covariance given", rtol=0, atol=0.35 * min(off) + 0.3)
    c.count("losses told from those under another covariance", int(sum(o > 3 * (0.35 * min(off) + 0.3) for o in off)))
    c.count("error in percent of the smallest difference", int(100 * abs(got - want) / min(off)))


@scenario(P, 20, 200)
def used_before(c):
    """One algorithm object, fitted twice: the second fit knows nothing of the first."""
    first = [{}, {"integration_method": "gauss_hermite", "quadrature_points": 5}][c.round % 2]
    fits.another_fit(c, MML, ["2PL", "GPC", "NR", "GRM", "3PL", "Bspline", "NestBsp", "Poly", "1PL"], first, {"integration_method": ["quasi_mc", "gauss_hermite"][c.round // 2 % 2]})
