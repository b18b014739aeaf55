"""Helpers shared by the estimation checks."""
import numpy as np
import torch

from . import gen, oracle
from .core import Skip


def onehot(x, cats):
    """Reference one-hot coding: one block per item, all zero where the response is missing."""
    miss = oracle.missing(x)
    out = np.zeros((len(x), sum(cats)), dtype=np.float32)
    off = np.concatenate([[0], np.cumsum(cats)[:-1]]).astype(int)
    for j in range(len(cats)):
        r = np.where(~miss[:, j])[0]
        out[r, off[j] + x[r, j].astype(int)] = 1
    return out


def impute(x, method):
    miss = oracle.missing(x)
    y = np.where(miss, np.nan, x).astype(np.float64)
    fill = np.zeros(x.shape[1]) if method == "zero" else np.nanmean(y, 0)
    return np.where(miss, fill[None], y).astype(np.float32)


def flat(m):
    return np.concatenate([p.detach().double().numpy().ravel() for p in m.parameters()])


def torch_loglik(m, th, x):
    """Differentiable per-respondent log-likelihood from the item probabilities of the model."""
    p = m.item_probabilities(th)
    miss = oracle.missing(x)
    d = torch.tensor(np.where(miss, 0, x).astype(int))
    lp = torch.gather(p, 2, d[..., None])[..., 0].log()
    return torch.where(torch.tensor(miss), torch.zeros_like(lp), lp).sum(1)


def grad_of(f, params):
    gs = torch.autograd.grad(f, params, allow_unused=True)
    return np.concatenate([(torch.zeros_like(p) if g is None else g).detach().double().numpy().ravel() for p, g in zip(params, gs)])


def moved_against(c, step, grad, what, frac=0.02):
    """Every parameter with a clear gradient moved downhill; what has no influence on the objective stayed."""
    if not np.isfinite(grad).all():
        raise Skip("a response of vanishing probability has no finite gradient")
    big = np.abs(grad) > max(1e-4, frac * np.abs(grad).max())
    c.ok(big.any(), f"{what}: the objective depends on some parameter")
    bad = big & ~(step * grad < 0)
    c.ok(not bad.any(), f"{what}: the first update moves every parameter downhill", moved=step[bad][:5], gradient=grad[bad][:5], count=int(bad.sum()))
    c.count("parameters seen moving downhill", int(big.sum()))


def tame(probs, x):
    """No observed response is so improbable that single precision cannot tell its logarithm."""
    return np.nanmin(oracle.picked(probs, x)) > 3e-6


def problem(c, kinds, latents=None, n=None, items=None, hi=4, **kw):
    rng = c.rng
    m, mask, kind = gen.any_model(c, kinds=kinds, latents=latents or 1 + int(rng.integers(2)), items=items or int(rng.integers(4, 8)), hi=hi, **kw)
    th = gen.theta(rng, n or int(rng.integers(12, 40)), m.latent_variables, 1.0)
    x = gen.full_support(rng, gen.responses(rng, m, th), m.item_categories)
    return m, kind, x, th


def another_fit(c, alg_cls, kinds, first=(), then=(), epochs=5):
    """An algorithm object that has fitted another model before fits like a new one."""
    from irtorch.utils import set_seed

    rng = c.rng
    m, kind, x, _ = problem(c, kinds)
    y = gen.full_support(rng, gen.uniform_responses(rng, m.item_categories, len(x) if c.round % 2 else int(rng.integers(12, 40))), m.item_categories)
    if c.round // 2 % 2:
        x, _ = gen.with_missing(rng, x, 0.15)
    c.feed(x, y)
    used, runs = alg_cls(), []
    gen.clone(m).fit(gen.t(y), algorithm=used, max_epochs=int(rng.integers(1, 9)), device="cpu", **dict(first))
    c.note(first=str(dict(first)), same_number_of_respondents=len(x) == len(y))
    for a in (alg_cls(), used):
        q = gen.clone(m)
        set_seed(11 + c.round)
        q.fit(gen.t(x), algorithm=a, max_epochs=epochs, device="cpu", **dict(then))
        runs.append((np.array(a.training_history["train_loss"]), flat(q), None if a.training_theta_scores is None else a.training_theta_scores.detach()))
    name = f"{alg_cls.__name__} {kind}, used before"
    c.close(runs[1][0], runs[0][0], f"{name}: the losses are those of a new algorithm", rtol=1e-6, atol=1e-6)
    c.close(runs[1][1], runs[0][1], f"{name}: the fitted parameters are those of a new algorithm", rtol=1e-5, atol=1e-6)
    if runs[0][2] is not None:
        c.close(runs[1][2], runs[0][2], f"{name}: the training scores are those of a new algorithm", rtol=1e-5, atol=1e-5)
    c.count("fits by an algorithm used before")
