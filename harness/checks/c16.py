"""Posterior mode (MAP) scores."""
import numpy as np
import torch
from scipy.optimize import minimize
from scipy.stats import multivariate_normal

from harness import evals, gen, oracle
from harness.checks.c15 import ll_of
from harness.core import Skip, scenario

P = "C16"


class MMLFit:
    """what scoring reads from a model fitted by marginal maximum likelihood"""

    def __init__(self, cov, data):
        self.covariance_matrix = cov
        self.training_theta_scores = None
        self.train_data = data


def setup(c, kinds, latents=None):
    rng = c.rng
    d = latents or 1 + c.round % 2
    m, _, kind = gen.any_model(c, kinds=kinds, latents=d, items=int(rng.integers(4, 12)), hi=4)
    A = rng.normal(0, 1, (d, d))
    cov = A @ A.T * 0.3 + np.diag(rng.uniform(0.3, 1.2, d))
    if c.round % 8 == 4:
        # nothing fitted: parameters from elsewhere, standard normal prior as for EAP
        m.algorithm, cov = None, np.eye(d)
    elif c.round % 3:
        # now and then a training sample of a handful of respondents
        tr = gen.t(rng.multivariate_normal(np.full(d, rng.choice([0.0, 0.7])), cov, 80 if c.round % 4 != 2 else d + int(rng.integers(2, 5))))
        m.algorithm = gen.FakeFit(gen.t(gen.responses(rng, m, tr)), tr)
        cov = np.atleast_2d(np.cov(tr.double().numpy().T))
    else:
        m.algorithm = MMLFit(gen.t(cov), None)
    x = gen.responses(rng, m, gen.theta(rng, 8, d, 1.2))
    if c.round % 2:
        x, _ = gen.with_missing(rng, x, 0.2)
    # extreme patterns have no ML score but a posterior mode
    x[0], x[1] = 0, np.array(m.item_categories) - 1
    if c.round % 5 == 0:
        x[2] = np.nan
    c.note(cov=cov)
    c.feed(x, cov)
    return m, kind, x, cov, d


def post_of(m, x, cov):
    ll = ll_of(m, x)
    pr = multivariate_normal(np.zeros(len(cov)), cov)
    return lambda th: ll(th) + pr.logpdf(th)


@scenario(P, 48, 600)
def attains_the_mode(c):
    m, kind, x, cov, d = setup(c, ["2PL", "GPC", "GRM", "NR", "NRmc"])
    got = m.latent_scores(gen.t(x), theta_estimation="MAP", rescale=False).double().numpy()
    c.ok(got.shape == (len(x), d) and np.isfinite(got).all(), "one finite score per respondent and latent variable", shape=got.shape)
    for i in range(len(x)):
        f = post_of(m, x[i : i + 1], cov)
        r = minimize(lambda q: -float(f(q[None])[0]), got[i], method="Nelder-Mead", options={"xatol": 1e-3, "fatol": 1e-6, "maxiter": 300})
        r2 = minimize(lambda q: -float(f(q[None])[0]), np.zeros(d), method="Nelder-Mead", options={"xatol": 1e-3, "fatol": 1e-6, "maxiter": 300})
        best = max(-r.fun, -r2.fun)
        c.leq(best - float(f(got[i][None])[0]), 5e-3, f"{kind}: no other latent score has a higher posterior density (prior: centred normal with the training scores', the model's or, nothing fitted, unit covariance)")
    if c.round % 5 == 0:
        c.close(got[2], np.zeros(d), "with no responses the score is the prior mode", rtol=0, atol=0.02)
    c.count("MAP scores compared", len(x))


@scenario(P, 24, 300)
def invariances(c):
    m, kind, x, cov, d = setup(c, ["2PL", "GPC", "GRM", "NR"])
    score = lambda q: m.latent_scores(gen.t(q), theta_estimation="MAP", rescale=False).double().numpy()
    base = score(x)
    p = c.rng.permutation(len(x))
    c.close(score(x[p]), base[p], f"{kind}: scores follow the respondents when they are reordered", rtol=0, atol=0.02)
    c.close(score(x[3:4]), base[3:4], f"{kind}: a respondent scored alone gets the same score", rtol=0, atol=0.02)
    miss = oracle.missing(x)
    c.close(score(np.where(miss, -1, x)), score(np.where(miss, np.nan, x)), f"{kind}: -1 and NaN both mean missing", rtol=0, atol=0.02)


@scenario(P, 16, 200)
def shrinkage(c):
    """A tighter prior pulls the scores towards its mode."""
    m, _, kind = gen.any_model(c, kinds=["2PL", "GPC", "GRM"], latents=1, items=6, easy=True)
    x = gen.responses(c.rng, m, gen.theta(c.rng, 8, 1, 1.2))
    c.feed(x)
    prev = None
    for v in (0.05, 0.4, 2.0, 8.0):
        m.algorithm = MMLFit(torch.tensor([[v]]), None)
        s = np.abs(m.latent_scores(gen.t(x), theta_estimation="MAP", rescale=False).double().numpy())
        if prev is not None:
            c.leq(prev, s, f"{kind}: a wider prior never shrinks the scores more", 0.03)
        prev = s


@scenario(P, 36, 500)
def every_model_family(c):
    """Whatever the model, a group's MAP scores are finite and jointly no less probable than the training scores or the prior mode."""
    rng = c.rng
    kinds = [k for k in gen.ALL if k != "1PL"]
    kind = kinds[c.round % len(kinds)]
    m, _, _ = gen.build(rng, kind, latents=int(rng.choice([1, 1, 2])), items=8, hi=4)
    f = float(rng.choice([1.0, 2.0, 4.0]))
    with torch.no_grad():
        for name, p in m.named_parameters():
            if "guess" not in name:
                p.mul_(f)
    d = m.latent_variables
    n = int(rng.choice([30, 200]))
    x = gen.responses(rng, m, gen.theta(rng, n, d, 1.0))
    tr = gen.theta(rng, 100, d, 1.0)
    m.algorithm = gen.FakeFit(gen.t(gen.uniform_responses(rng, m.item_categories, 100)), tr)
    c.feed(x)
    f = post_of(m, x, np.atleast_2d(np.cov(tr.double().numpy().T)))
    ll = ll_of(m, x)
    starts = [np.repeat(t[None], n, 0) for t in tr.double().numpy()]
    lls = np.stack([ll(s) for s in starts])
    # where the search begins: every respondent's most likely training score
    begin = np.stack([starts[k][i] for i, k in enumerate(lls.argmax(0))])
    b = f(begin)
    if not np.isfinite(b).all():
        raise Skip("a response pattern without probability in double precision")
    got = m.latent_scores(gen.t(x), theta_estimation="MAP", rescale=False)
    c.ok(bool(torch.isfinite(got).all()), f"{kind}: MAP scores are finite")
    c.leq(b.sum() - f(got.double().numpy()).sum(), 0.1, f"{kind}: a group's MAP scores are at least as probable as the training scores they started from")
    c.count("MAP scores of every model family", n)


@scenario(P, 12, 120)
def asked_again(c):
    evals.ask_again(c, lambda m, x, th: {"MAP": m.latent_scores(x, theta_estimation="MAP")}, "scores", tol=5e-3)
