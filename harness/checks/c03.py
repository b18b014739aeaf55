"""Monotone families are monotone, and reported directions describe the real curves."""
import numpy as np
import torch

from harness import gen, oracle
from harness.core import Skip, scenario

P = "C03"
MONO = ["NNcat", "NNitem", "NNmc", "NNelu", "Poly", "Bspline", "BsplineCat", "Surp", "1PL", "2PL", "3PL", "GPC", "GRM"]


def sweep(c, m, lv, lo=-5.0, hi=5.0, n=61):
    base = c.rng.normal(0, 1.0, m.latent_variables)
    th = np.repeat(base[None], n, 0)
    th[:, lv] = np.linspace(lo, hi, n)
    return gen.t(th)


@scenario(P, 78, 1500)
def monotone_in_reported_direction(c):
    m, mask, kind = gen.any_model(c, kinds=MONO)
    d = m.item_theta_relationship_directions(gen.theta(c.rng, 20, m.latent_variables))
    c.ok(tuple(d.shape) == (m.items, m.latent_variables), "directions have shape items x latent variables", shape=tuple(d.shape))
    d = d.numpy()
    c.ok(np.isin(d, [-1, 0, 1]).all(), "directions are -1, 0 or 1", d=d)
    if kind in ("Surp",):
        pass  # regression-based directions on masked items may be noise around zero
    for lv in range(m.latent_variables):
        th = sweep(c, m, lv)
        c.feed(th)
        p = gen.probs64(m, th)
        es = oracle.expected_scores(p, m.item_categories, m.mc_correct)
        for j in range(m.items):
            diff = np.diff(es[:, j])
            if not mask[j, lv]:
                c.close(es[:, j], np.full(len(es), es[0, j]), "an unrelated latent variable does not move the expected score", atol=1e-5)
                if kind not in ("Surp",):
                    c.ok(d[j, lv] == 0, "an unrelated latent variable has direction zero", item=j, latent=lv, direction=d[j, lv])
                continue
            sgn = int(d[j, lv]) if kind != "Surp" else 1
            c.leq(-1e-5, sgn * diff, f"{kind}: the expected item score is monotone in the reported direction")
            if abs(es[-1, j] - es[0, j]) > 1e-4:
                c.ok(np.sign(es[-1, j] - es[0, j]) == sgn, "the reported direction is the sign of the relationship", item=j, latent=lv, change=es[-1, j] - es[0, j], direction=sgn)
            c.count("item curves checked")


@scenario(P, 40, 600)
def no_negative_relationships(c):
    """Without negative relationships every monotone model increases."""
    kinds = ["NNcat", "NNitem", "NNmc", "NNelu", "Poly", "Bspline", "BsplineCat", "Surp"]
    m, mask, kind = gen.any_model(c, kinds=kinds, easy=True)
    if hasattr(m, "negative_latent_variable_item_relationships"):
        c.ok(not m.negative_latent_variable_item_relationships, "negative relationships are off")
    for lv in range(m.latent_variables):
        th = sweep(c, m, lv)
        es = oracle.expected_scores(gen.probs64(m, th), m.item_categories, m.mc_correct)
        c.leq(-1e-5, np.diff(es, axis=0), f"{kind}: expected scores never decrease without negative relationships")
        c.feed(th)
    if kind != "Surp":  # regression based: noise around zero for unrelated items
        c.equal(np.asarray(m.item_theta_relationship_directions(gen.theta(c.rng, 30, m.latent_variables))) >= 0, np.ones((m.items, m.latent_variables), dtype=bool), "no negative direction is reported")


@scenario(P, 30, 400)
def stochastic_order(c):
    """Ordered-category families move the whole distribution, not just its mean (every P(X >= k))."""
    m, mask, kind = gen.any_model(c, kinds=["NNcat", "NNitem", "Poly", "Bspline", "BsplineCat", "Surp", "GPC", "GRM"], latents=1)
    th = sweep(c, m, 0)
    c.feed(th)
    p = gen.probs64(m, th)
    cum = np.cumsum(p[..., ::-1], -1)[..., ::-1][..., 1:]
    for j, k in enumerate(m.item_categories):
        tot = oracle.expected_scores(p, m.item_categories, None)[:, j]
        s = 1 if tot[-1] >= tot[0] else -1
        c.leq(-1e-5, s * np.diff(cum[:, j], axis=0), f"{kind}: every P(X >= k) is monotone in theta")


@scenario(P, 24, 200)
def after_training(c):
    """Monotonicity is structural: optimisation steps in arbitrary directions cannot break it."""
    m, mask, kind = gen.any_model(c, kinds=["NNcat", "NNitem", "NNmc", "NNelu", "Poly", "Bspline", "BsplineCat", "Surp"])
    rng = c.rng
    x = gen.t(gen.uniform_responses(rng, m.item_categories, 40))
    th = gen.theta(rng, 40, m.latent_variables, 1.5)
    opt = torch.optim.SGD(m.parameters(), lr=float(rng.choice([0.01, 0.1])))
    for _ in range(6):
        opt.zero_grad()
        loss = -m.log_likelihood(x, m(th), loss_reduction="sum") / 40
        loss.backward()
        torch.nn.utils.clip_grad_norm_(m.parameters(), 5.0)
        opt.step()
    m.eval()
    c.feed(th, x)
    d = m.item_theta_relationship_directions(th).numpy()
    for lv in range(m.latent_variables):
        sw = sweep(c, m, lv)
        es = oracle.expected_scores(gen.probs64(m, sw), m.item_categories, m.mc_correct)
        for j in range(m.items):
            diff = np.diff(es[:, j])
            c.ok((diff >= -1e-5).all() or (diff <= 1e-5).all(), f"{kind}: expected scores stay monotone after training", item=j, lo=diff.min(), hi=diff.max())
            if not mask[j, lv]:
                c.close(diff, np.zeros_like(diff), "unrelated items stay unrelated after training", atol=1e-5)
            elif kind != "Surp" and abs(es[-1, j] - es[0, j]) > 1e-4:
                c.ok(np.sign(es[-1, j] - es[0, j]) == d[j, lv], "the reported direction still matches after training", item=j, latent=lv)


@scenario(P, 20, 200)
def nominal_directions(c):
    """Data-dependent directions: the sign of the linear regression of expected scores on theta."""
    m, mask, kind = gen.any_model(c, kinds=["NR", "NRmc", "Surp"])
    n = int(c.rng.integers(30, 80))
    th = gen.theta(c.rng, n, m.latent_variables)
    c.feed(th)
    got = m.item_theta_relationship_directions(th).numpy()
    es = oracle.expected_scores(gen.probs64(m, th), m.item_categories, m.mc_correct)
    X = np.column_stack([np.ones(n), th.numpy().astype(float)])
    w = np.linalg.lstsq(X, es, rcond=None)[0][1:].T
    sure = np.abs(w) > 1e-3
    if not sure.any():
        raise Skip("flat items")
    c.equal(np.where(sure, got, 0), np.where(sure, np.sign(w), 0).astype(got.dtype), "directions are the signs of the regression of expected scores on theta")
    if kind.startswith("NR"):
        c.raises(ValueError, lambda: m.item_theta_relationship_directions(), "a nominal model needs theta to report directions")
