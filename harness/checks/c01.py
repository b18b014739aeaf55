"""Category probabilities are valid distributions, batch independent and repeatable."""
import numpy as np
import torch

from harness import gen
from harness.core import scenario

P = "C01"


def valid(c, p, cats, what):
    c.ok(p.ndim == 3 and p.shape[1] == len(cats) and p.shape[2] == max(cats), f"{what}: probabilities have shape respondents x items x categories", shape=p.shape)
    c.ok(np.isfinite(p).all(), f"{what}: probabilities are finite", bad=np.argwhere(~np.isfinite(p))[:3])
    c.leq(-1e-6, p, f"{what}: probabilities are not negative")
    c.leq(p, 1 + 1e-5, f"{what}: probabilities do not exceed one")
    c.close(p.sum(-1), np.ones(p.shape[:2]), f"{what}: category probabilities sum to one", rtol=0, atol=5e-5)
    for j, k in enumerate(cats):
        if k < max(cats):
            c.close(p[:, j, k:], np.zeros_like(p[:, j, k:]), f"{what}: categories an item does not have get zero probability", rtol=0, atol=1e-7)
        c.close(p[:, j, :k].sum(-1), np.ones(len(p)), f"{what}: an item's own categories sum to one", rtol=0, atol=5e-5)
        if k == 1:
            c.count("single category items")
    c.count("distributions checked", p.shape[0] * p.shape[1])


@scenario(P, 64, 1200)
def distributions(c):
    m, mask, kind = gen.any_model(c)
    rng = c.rng
    n = int(rng.integers(1, 12))
    th = gen.theta(rng, n, m.latent_variables)
    p = gen.probs64(m, th)
    c.ok(p.shape[0] == n, "one row of probabilities per respondent")
    valid(c, p, m.item_categories, "moderate theta")
    # batch independence: every respondent alone, permuted and repeated
    for i in range(n):
        c.close(gen.probs64(m, th[i : i + 1]), p[i : i + 1], "a respondent alone gets the same probabilities as in a batch", atol=2e-6)
    perm = rng.permutation(n)
    c.close(gen.probs64(m, th[perm]), p[perm], "probabilities follow their respondent under reordering", atol=2e-6)
    c.close(gen.probs64(m, torch.cat([th, th + 3.0, th])), np.concatenate([p, gen.probs64(m, th + 3.0), p]), "probabilities do not depend on the rest of the batch", atol=2e-6)
    c.equal(gen.probs64(m, th), p, "calling twice gives the same probabilities")
    with torch.no_grad():
        c.close(m.probabilities_from_output(m(th.clone())), p, "probabilities from the raw model output agree with item_probabilities", atol=2e-6)
    m.train()
    c.close(gen.probs64(m, th), p, "train mode does not change the probabilities", atol=2e-6)
    m.eval()


@scenario(P, 48, 900)
def extreme_theta(c):
    m, mask, kind = gen.any_model(c)
    rng = c.rng
    d = m.latent_variables
    for s in (8.0, 30.0, float(rng.uniform(30, 100))):
        th = gen.t(rng.choice([-s, 0, s], (7, d)) + rng.normal(0, 0.1, (7, d)))
        p = gen.probs64(m, th)
        valid(c, p, m.item_categories, f"extreme theta")
        both = gen.probs64(m, torch.cat([th, torch.zeros(1, d)]))
        c.close(both[:-1], p, "extreme and moderate respondents do not influence each other", atol=2e-6)
    c.feed(th)


@scenario(P, 32, 500)
def strong_parameters(c):
    """Very discriminating or very easy items must not overflow either."""
    m, mask, kind = gen.any_model(c, kinds=[k for k in gen.ALL if k not in ("GRM", "Mix") and k not in gen.NESTED])
    rng = c.rng
    with torch.no_grad():
        for prm in m.parameters():
            prm.mul_(float(rng.choice([5.0, 12.0])))
    th = gen.theta(rng, 9, m.latent_variables, 2.0)
    c.feed(th)
    valid(c, gen.probs64(m, th), m.item_categories, "strong parameters")


@scenario(P, 16, 64)
def untrained_and_from_data(c):
    """A freshly constructed model, with categories derived from data, is a valid model too."""
    rng = c.rng
    kinds = {
        "GPC": gen.GeneralizedPartialCredit, "GRM": gen.GradedResponse, "NR": gen.NominalResponse, "NN": gen.MonotoneNN,
        "Poly": gen.MonotonePolynomial, "Bspline": gen.MonotoneBSpline, "Surp": gen.SurprisalSpline,
        "2PL": gen.TwoParameterLogistic, "3PL": gen.ThreeParameterLogistic, "1PL": gen.OneParameterLogistic,
    }
    name = list(kinds)[c.round % len(kinds)]
    items = int(rng.integers(2, 7))
    cats = [2] * items if name.endswith("PL") else gen.categories(rng, items)
    x = gen.full_support(rng, gen.uniform_responses(rng, cats, 30), cats)
    keep = np.argmax(x == np.array(cats) - 1, axis=0)
    x2, _ = gen.with_missing(rng, x, 0.2, code="nan")
    x2[keep, np.arange(items)] = x[keep, np.arange(items)]
    d = 1 if name == "1PL" else int(rng.integers(1, 3))
    kw = {} if name == "1PL" else {"latent_variables": d}
    m = kinds[name](data=gen.t(x2), **kw)
    c.note(model=name, categories=cats)
    c.equal(np.array(m.item_categories), np.array(cats), "item categories are derived from the observed responses of each item")
    c.ok(m.items == items and m.latent_variables == d, "the model has one item per data column and the requested latent variables")
    valid(c, gen.probs64(m, gen.theta(rng, 6, d)), cats, "untrained model")
