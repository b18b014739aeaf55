"""Simulated responses."""
import numpy as np
import torch

from harness import evals, gen, oracle
from harness.core import scenario
from irtorch.utils import set_seed

P = "C32"


@scenario(P, 95, 900)
def frequencies(c):
    m, _, kind = gen.any_model(c)
    th = gen.theta(c.rng, 4, m.latent_variables)
    c.feed(th)
    R = 4000
    big = th.repeat_interleave(R, 0)
    keep = big.clone()
    with torch.no_grad():
        s = m.sample_test_data(big)
    c.equal(big, keep, "the scores are left alone")
    c.ok(tuple(s.shape) == (4 * R, m.items) and s.dtype == torch.float32, "one response per respondent and item", shape=tuple(s.shape), dtype=str(s.dtype))
    v = s.numpy().reshape(4, R, m.items)
    p = gen.probs64(m, th)
    p = np.clip(p, 0, None) / np.clip(p, 0, None).sum(-1, keepdims=True)
    f = np.stack([(v == k).mean(1) for k in range(max(m.item_categories))], -1)
    c.close(f.sum(-1), np.ones((4, m.items)), "only whole category numbers are drawn", atol=1e-6)
    c.leq(np.abs(f - p), 6 * np.sqrt(np.maximum(p * (1 - p), 1e-4) / R) + 3 / R, f"{kind}: categories are drawn with the model's probabilities")
    for j, k in enumerate(m.item_categories):
        c.ok((v[:, :, j] >= 0).all() and (v[:, :, j] < k).all(), f"{kind}: only categories the item has")
    # local independence: items are uncorrelated given the latent score; so are consecutive respondents
    for q in range(4):
        z = v[q]
        sd = z.std(0)
        live = sd > 0.15
        if live.sum() > 1:
            r = np.corrcoef(z[:, live].T)
            c.leq(np.abs(r[~np.eye(len(r), dtype=bool)]), np.full(len(r) * (len(r) - 1), 0.15), f"{kind}: items are drawn independently given the scores")
        for j in np.where(live)[0]:
            c.leq(abs(np.corrcoef(z[1:, j], z[:-1, j])[0, 1]), 0.15, f"{kind}: respondents are drawn independently")
    c.count("responses drawn", v.size)


@scenario(P, 38, 300)
def seeds(c):
    m, _, kind = gen.any_model(c)
    th = gen.theta(c.rng, 200, m.latent_variables)
    c.feed(th)
    set_seed(7 + c.round)
    a = m.sample_test_data(th)
    b = m.sample_test_data(th)
    set_seed(7 + c.round)
    a2 = m.sample_test_data(th)
    c.equal(a2, a, f"{kind}: the same seed gives the same data")
    p = gen.probs64(m, th)
    if (p.max(-1) < 0.9).mean() > 0.2:
        c.ok(not torch.equal(a, b), f"{kind}: further draws differ")
    c.ok(not a.requires_grad, "simulated data carry no gradient")
