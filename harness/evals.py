"""Workloads shared by the model evaluation checks."""
import copy

import numpy as np
import torch

from . import gen, oracle


def problem(c, kinds=gen.ALL, n=None, latents=None, items=None, missing=True, easy=False, hi=None):
    """A model with training data and training scores attached, and other data with scores."""
    rng = c.rng
    m, _, kind = gen.any_model(c, kinds=kinds, latents=latents, items=items, easy=easy, hi=hi)
    d = m.latent_variables
    n = n or (int(rng.integers(1030, 1300)) if m.items < 20 and max(m.item_categories) < 8 and np.random.default_rng([c.seed, 18]).integers(20) == 0 else int(rng.integers(25, 70)))
    tr = gen.theta(rng, n + 7, d, 0.9)
    m.algorithm = gen.FakeFit(gen.t(gen.with_missing(rng, gen.responses(rng, m, tr), 0.1)[0]), tr)
    th = gen.theta(rng, n, d, 1.0)
    x = gen.full_support(rng, gen.responses(rng, m, th), m.item_categories)
    if missing and c.round % 3:
        x, _ = gen.with_missing(rng, x, 0.15)
    c.feed(x, th)
    return m, kind, x, th


def residuals(m, th, x):
    p = gen.probs64(m, th)
    if m.mc_correct is not None:
        return 1 - oracle.picked(p, x)
    r = np.where(oracle.missing(x), np.nan, x) - oracle.expected_scores(p, m.item_categories, None)
    return r


def as_given(c, f, x, th, what):
    """Call with data and scores, checking that neither is changed."""
    xt, tt = gen.t(x), th.clone()
    out = f(xt, tt)
    c.equal(xt, gen.t(x), f"{what} leaves the data alone")
    c.equal(tt, th, f"{what} leaves the scores alone")
    return out


def defaults(c, m, x, f, what, tol=1e-4):
    """Left-out data are the training data; left-out scores are estimated on the original scale as asked."""
    method = ["ML", "EAP", "MAP"][c.round % 3]
    with torch.no_grad():
        a = f(data=gen.t(x), theta_estimation=method)
    b = f(data=gen.t(x), theta=m.latent_scores(gen.t(x), theta_estimation=method, rescale=False))
    c.close(a, b, f"{what}: left-out scores are estimated by the method asked for", rtol=tol, atol=tol)
    th = m.algorithm.training_theta_scores
    a = f(data=None, theta=th)
    b = f(data=m.algorithm.train_data, theta=th)
    c.equal(a, b, f"{what}: left-out data are the training data")


def ask_again(c, ask, what, kinds=("2PL", "GPC", "NR", "NRmc", "GRM"), tol=1e-4, latents=1, items=5, n=20):
    """A model asked, fitted anew to as many other respondents, and asked again answers as if never asked before."""
    rng = c.rng
    m, kind, x, th = problem(c, kinds=list(kinds), latents=latents, items=items, n=n, missing=False)
    d = m.latent_variables
    other = copy.deepcopy(m)
    gen.randomize(other, rng)
    th2 = gen.theta(rng, len(m.algorithm.train_data), d, 1.1)
    x2 = gen.t(gen.full_support(rng, gen.responses(rng, other, th2), m.item_categories))
    other.algorithm = gen.FakeFit(x2.clone(), th2.clone())
    want = ask(other, x2.clone(), th2.clone())
    data, scores = m.algorithm.train_data.nan_to_num(0), m.algorithm.training_theta_scores.clone()
    m.algorithm = gen.FakeFit(data, scores)
    ask(m, data, scores)
    m.load_state_dict(other.state_dict())
    if c.round % 2:
        # the same tensors with other content
        data.copy_(x2)
        scores.copy_(th2)
    else:
        data, scores = x2, th2
        m.algorithm = gen.FakeFit(data, scores)
    for name, g in ask(m, data, scores).items():
        c.close(g, want[name], f"{kind} {what} {name}: asked after another fit, the answer is about that fit", rtol=tol, atol=tol)
    c.count("questions after another fit", len(want))


def table(df):
    return torch.tensor(df.to_numpy(dtype=float))
