"""Imputation of missing responses."""
import numpy as np
import torch

from harness import gen, oracle
from harness.core import scenario
from irtorch.utils import impute_missing

P = "C35"


def data(c, hi=5, p=0.25, n=None):
    rng = c.rng
    m, _, kind = gen.any_model(c, kinds=["2PL", "GPC", "NRmc", "NR", "GRM", "NNmc", "NestNom"], items=gen.size(rng, 2, 7, 60, 140), hi=gen.size(rng, hi, hi + 1, 12, 25))
    n = n or gen.size(rng, 1, 40, 300, 1100)
    full = gen.uniform_responses(rng, m.item_categories, n)
    x, miss = gen.with_missing(rng, full, p, code=["mix", "nan", "-1"][c.round % 3], keep_row=False)
    c.feed(x)
    return m, kind, x, miss


def run(c, x, miss, f, what):
    xt = gen.t(x)
    y = f(xt)
    c.equal(xt, gen.t(x), f"{what}: the data passed in keep their missing responses")
    c.ok(tuple(y.shape) == x.shape and y.is_floating_point(), f"{what}: the shape stays", shape=tuple(y.shape))
    c.equal(y.numpy()[~miss], x[~miss], f"{what}: observed responses stay as they are")
    c.ok(torch.isfinite(y[torch.tensor(miss)]).all(), f"{what}: every missing response is filled in")
    c.count("imputed responses", int(miss.sum()))
    return y.double().numpy()


@scenario(P, 45, 450)
def zero(c):
    m, kind, x, miss = data(c)
    y = run(c, x, miss, lambda t: impute_missing(t, "zero") if c.round % 2 else impute_missing(t), "zero")
    c.equal(y[miss], np.zeros(miss.sum()), "missing responses become zero")


@scenario(P, 45, 450)
def mean(c):
    m, kind, x, miss = data(c, n=gen.size(c.rng, 5, 40, 300, 1100))
    for j in range(x.shape[1]):
        if miss[:, j].all():
            x[0, j], miss[0, j] = 1, False
    y = run(c, x, miss, lambda t: impute_missing(t, "mean"), "mean")
    obs = np.nanmean(np.where(miss, np.nan, x), 0)
    c.close(y[miss], np.broadcast_to(obs, x.shape)[miss], "missing responses become the item's mean over its observed responses", rtol=1e-5, atol=1e-5)


@scenario(P, 60, 600)
def random_incorrect(c):
    rng = c.rng
    kinds = ["NRmc", "NNmc", "NestNom"]
    m, _, kind = gen.any_model(c, kinds=kinds, items=gen.size(rng, 2, 6, 20, 70), hi=gen.size(rng, 5, 6, 12, 20))
    cats, mc = m.item_categories, m.mc_correct
    n = [1, 30, 400][c.round % 3]
    full = gen.full_support(rng, gen.uniform_responses(rng, cats, n), cats)
    x, miss = gen.with_missing(rng, full, 0.4, keep_row=False)
    c.feed(x)
    if c.round % 2:
        f = lambda t: impute_missing(t, "random incorrect", model=m)
    else:
        f = lambda t: impute_missing(t, "random incorrect", mc_correct=mc, item_categories=cats)
    y = run(c, x, miss, f, f"{kind} random incorrect")
    for j, k in enumerate(cats):
        v = y[miss[:, j], j]
        c.ok(((v >= 0) & (v < k) & (v == v.round())).all(), "imputed responses are categories of the item", got=v, categories=k)
        c.ok((v != mc[j]).all(), "imputed responses are never the correct answer", got=v, correct=mc[j])
        if n == 400 and len(v) > 100:
            share = np.array([(v == a).mean() for a in range(k) if a != mc[j]])
            q = 1 / (k - 1)
            c.leq(np.abs(share - q), np.full(k - 1, 6 * np.sqrt(q * (1 - q) / len(v)) + 1e-9), "incorrect answers are equally likely")
    # item categories taken from the data when not given
    if n > 1:
        x2 = np.where(miss & (full != np.array(cats) - 1), x, full)
        miss2 = oracle.missing(x2)
        y = run(c, x2, miss2, lambda t: impute_missing(t, "random incorrect", mc_correct=mc), "random incorrect without categories")
        for j, k in enumerate(cats):
            v = y[miss2[:, j], j]
            c.ok(((v >= 0) & (v < k) & (v != mc[j])).all(), "imputed responses are incorrect categories of the item", got=v)


@scenario(P, 40, 400)
def prior_expected(c):
    rng = c.rng
    m, _, kind = gen.any_model(c, kinds=["2PL", "GPC", "GRM", "NR", "Poly", "NNcat", "Mix"], items=gen.size(rng, 2, 7, 20, 70), hi=gen.size(rng, 6, 7, 14))
    n = gen.size(rng, 1, 30, 300, 1100)
    x, miss = gen.with_missing(rng, gen.uniform_responses(rng, m.item_categories, n), 0.3, keep_row=False)
    c.feed(x)
    e = oracle.expected_scores(gen.probs64(m, torch.zeros(1, m.latent_variables)), m.item_categories, None)[0]
    y = run(c, x, miss, lambda t: impute_missing(t, "prior expected", model=m), f"{kind} prior expected")
    want = np.broadcast_to(e, x.shape)[miss]
    c.leq(np.abs(y[miss] - want), np.full(want.shape, 0.5 + 1e-4), "missing responses become the rounded expected score at the prior mean")
    c.equal(y[miss], y[miss].round(), "imputed responses are whole numbers")


@scenario(P, 12, 60)
def refusals(c):
    m, kind, x, miss = data(c, n=5)
    mc, _, _ = gen.build(c.rng, "NRmc", items=x.shape[1])
    gp, _, _ = gen.build(c.rng, "GPC", items=x.shape[1])
    c.raises(ValueError, lambda: impute_missing(gen.t(x), "median"), "unknown methods are refused")
    c.raises(ValueError, lambda: impute_missing(gen.t(x), "random incorrect"), "random incorrect answers need the correct ones")
    c.raises(ValueError, lambda: impute_missing(gen.t(x), "random incorrect", model=gp), "random incorrect answers need a multiple choice model")
    c.raises(ValueError, lambda: impute_missing(gen.t(x), "prior expected"), "expected scores need a model")
    c.raises(ValueError, lambda: impute_missing(gen.t(x), "prior expected", model=mc), "expected scores need scored responses")
