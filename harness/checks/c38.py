"""The intermodel vigorish."""
import numpy as np
import torch
from scipy.optimize import brentq

from harness import evals, gen, oracle
from harness.core import scenario
from irtorch.utils import imv

P = "C38"


def coin(mean_ll):
    """the weight of the biased coin with this expected log-likelihood"""
    f = lambda w: w * np.log(w) + (1 - w) * np.log(1 - w) - mean_ll
    lo, hi = 0.5 + 1e-6, 1 - 1e-6
    if f(lo) >= 0:
        return lo
    if f(hi) <= 0:
        return hi
    return brentq(f, lo, hi, xtol=1e-12)


def mean_ll(m, th, x):
    p = oracle.picked(gen.probs64(m, th), x)
    return np.nanmean(np.log(p))


def pair(c, kinds, n, sharp=1.0):
    rng = c.rng
    items = int(rng.integers(4, 9))
    cats = [2] * items if c.round % 2 else gen.categories(rng, items, 2, 3)
    ms = []
    for k in (kinds[c.round % len(kinds)], kinds[(c.round // 2) % len(kinds)]):
        m, _, _ = gen.build(rng, k, latents=1, items=items, cats=cats if k in ("GPC", "NR", "GRM") else None, easy=True)
        ms.append(m)
    if any(k in ("2PL", "3PL", "1PL") for k in (kinds[c.round % len(kinds)], kinds[(c.round // 2) % len(kinds)])):
        cats = [2] * items
        for i, m in enumerate(ms):
            if list(m.item_categories) != cats:
                ms[i], _, _ = gen.build(rng, "GPC", latents=1, items=items, cats=cats, easy=True)
    th = gen.theta(rng, n, 1, 1.2)
    with torch.no_grad():
        for p in ms[1].parameters():
            p.mul_(sharp)
    x = gen.responses(rng, ms[1], th)
    c.note(models=[type(m).__name__ for m in ms], categories=cats)
    c.feed(x, th)
    return ms, th, x


@scenario(P, 80, 800)
def formula(c):
    rng = c.rng
    ms, th, x = pair(c, ["2PL", "GPC", "3PL", "NR", "1PL"], 60, float(rng.choice([0.3, 1.0, 3.0, 25.0])))
    th1 = gen.theta(rng, 60, 1, 1.0) if c.round % 3 else th
    if c.round % 4 == 0:
        x, _ = gen.with_missing(rng, x, 0.15)
    xt = gen.t(x)
    got = float(imv(ms[0], ms[1], xt, model1_theta=th1, model2_theta=th))
    c.equal(xt, gen.t(x), "the data are left alone")
    w1, w2 = coin(mean_ll(ms[0], th1, x)), coin(mean_ll(ms[1], th, x))
    c.close(got, (w2 - w1) / w1, "the gain of model 2 over model 1 in equivalent coin weights", rtol=2e-3, atol=1e-3)
    c.close(float(imv(ms[1], ms[0], xt, model1_theta=th, model2_theta=th1)), (w1 - w2) / w2, "exchanging the models reverses the bet", rtol=2e-3, atol=1e-3)
    c.close(float(imv(ms[1], ms[1], xt, model1_theta=th, model2_theta=th)), 0.0, "no gain over oneself", atol=1e-6)
    if abs(w1 - w2) > 0.01:
        c.count("pairs with a clear gain")


@scenario(P, 15, 120)
def estimated_scores(c):
    ms, th, x = pair(c, ["2PL", "GPC"], 20)
    for m in ms:
        m.algorithm = gen.FakeFit(gen.t(x), th)
    est = ["EAP", "ML", "MAP"][c.round % 3]
    got = float(imv(ms[0], ms[1], gen.t(x), theta_estimation=est))
    s = [m.latent_scores(gen.t(x), theta_estimation=est, rescale=False) for m in ms]
    w = [coin(mean_ll(m, t, x)) for m, t in zip(ms, s)]
    c.close(got, (w[1] - w[0]) / w[0], f"left-out scores are each model's own {est} scores", rtol=0, atol=5e-3)
    # scores given for one of the models only
    far = gen.t(th.numpy() * 0.3 + 1.0)
    wf = [coin(mean_ll(m, far, x)) for m in ms]
    got = float(imv(ms[0], ms[1], gen.t(x), model1_theta=far, theta_estimation=est))
    c.close(got, (w[1] - wf[0]) / wf[0], f"scores given for the first model leave the second with its own {est} scores", rtol=0, atol=5e-3)
    got = float(imv(ms[0], ms[1], gen.t(x), model2_theta=far, theta_estimation=est))
    c.close(got, (wf[1] - w[0]) / w[0], f"scores given for the second model leave the first with its own {est} scores", rtol=0, atol=5e-3)


@scenario(P, 12, 100)
def better_models_win(c):
    rng = c.rng
    m, _, _ = gen.build(rng, "2PL", latents=1, items=8, easy=True)
    flat = gen.clone(m)
    with torch.no_grad():
        for p in flat.parameters():
            p.zero_()
    th = gen.theta(rng, 400, 1, 1.5)
    x = gen.responses(rng, m, th)
    c.feed(x)
    c.leq(0.02, float(imv(flat, m, gen.t(x), model1_theta=th, model2_theta=th)), "the true model gains over a coin flip")
    c.leq(float(imv(m, flat, gen.t(x), model1_theta=th, model2_theta=th)), -0.02, "a coin flip loses against the true model")
