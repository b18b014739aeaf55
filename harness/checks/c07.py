"""Gradients of probabilities and expected scores, on the latent and on transformed scales."""
import numpy as np
import torch

from harness import evals, gen, oracle, scales
from harness.core import Skip, scenario

P = "C07"


def away_from_kinks(c, m, n):
    return gen.theta(c.rng, n, m.latent_variables)


@scenario(P, 90, 1200)
def probability_gradients(c):
    m, mask, kind = gen.any_model(c)
    th = gen.theta(c.rng, int(c.rng.integers(1, 7)), m.latent_variables)
    c.feed(th)
    g = m.probability_gradients(th, rescale=False).detach()
    ref, unsure = oracle.numgrad(lambda q: gen.probs64(m, gen.t(q)), th.numpy(), uncertainty=True)
    c.close(g, ref, f"{kind}: probability gradients match finite differences (respondents x items x categories x latent variables)", rtol=1e-2, atol=6e-3 + unsure)
    c.close(g.sum(2), np.zeros(tuple(g.sum(2).shape)), "probability gradients sum to zero over the categories", atol=1e-4)
    c.equal(m.probability_gradients(th).detach(), g, "without scale transformations rescale changes nothing")
    c.count("gradient entries compared", ref.size)


@scenario(P, 90, 1200)
def expected_score_gradients(c):
    m, mask, kind = gen.any_model(c)
    th = gen.theta(c.rng, int(c.rng.integers(1, 7)), m.latent_variables)
    c.feed(th)
    ref, unsure = oracle.numgrad(lambda q: oracle.expected_scores(gen.probs64(m, gen.t(q)), m.item_categories, m.mc_correct), th.numpy(), uncertainty=True)
    raw = m.expected_item_score_gradients(th, rescale_by_item_score=False, rescale=False).detach()
    c.close(raw, ref, f"{kind}: expected score gradients match finite differences", rtol=1e-2, atol=2e-2 + unsure)
    top = np.ones(m.items) if m.mc_correct is not None else np.array(m.item_categories) - 1.0
    std = m.expected_item_score_gradients(th, rescale=False).detach()
    c.close(std, raw.numpy().astype(float) / top[None, :, None], "rescale_by_item_score divides by the maximum item score (not for multiple choice)", rtol=1e-4, atol=1e-5)
    # consistency of the two gradient interfaces
    pg = m.probability_gradients(th, rescale=False).detach().numpy().astype(float)
    s = oracle.item_scores(m.item_categories, m.mc_correct)
    c.close(raw, np.einsum("nikd,ik->nid", np.nan_to_num(pg), s), "expected score gradients are the score weighted probability gradients", rtol=1e-3, atol=1e-4)


@scenario(P, 60, 600)
def chain_rule(c):
    """With scale transformations the gradients are with respect to the transformed scores."""
    m, mask, kind = gen.any_model(c, kinds=[k for k in gen.ALL if k != "Mix"])
    if m.latent_variables == 1 and c.rng.random() < 0.5:
        m, mask, kind = gen.build(c.rng, str(c.rng.choice(["2PL", "GPC", "GRM", "3PL"])), latents=1, easy=True)
    names = []
    for _ in range(int(c.rng.integers(1, 4))):
        n, s = scales.any_scale(c.rng, m, allow=("Reverse", "Rotate", "Flow", "Link"))
        names.append(n)
        m.add_scale_transformation(s)
    c.note(scales=names)
    th = gen.theta(c.rng, 5, m.latent_variables)
    c.feed(th)
    pg = m.probability_gradients(th, rescale=False).detach().numpy().astype(float)
    eg = m.expected_item_score_gradients(th, rescale=False).detach().numpy().astype(float)

    def tr(q):
        with torch.no_grad():
            return m.transform_theta(gen.t(q)).double().numpy()

    J = oracle.numgrad(tr, th.numpy(), h=0.01)  # (n, out, in)
    inv = np.linalg.inv(J)
    mag = np.abs(inv).max()
    c.close(m.probability_gradients(th).detach(), np.einsum("nikd,nde->nike", pg, inv), "probability gradients are rescaled by the chain rule", rtol=2e-2, atol=5e-3 * mag)
    c.close(m.expected_item_score_gradients(th).detach(), np.einsum("nid,nde->nie", eg, inv), "expected score gradients are rescaled by the chain rule", rtol=2e-2, atol=5e-3 * mag)
    c.count("scales composed", len(names))


@scenario(P, 20, 200)
def along_the_scale(c):
    """Direct observation: moving the transformed score by s and mapping back changes probabilities at the reported rate."""
    m, mask, kind = gen.any_model(c, kinds=["2PL", "GPC", "NR", "GRM", "3PL"], latents=int(c.rng.integers(1, 4)))
    n, s = scales.any_scale(c.rng, m, allow=("Reverse", "Rotate"))
    m.add_scale_transformation(s)
    n2, s2 = scales.any_scale(c.rng, m, allow=("Rotate",))
    m.add_scale_transformation(s2)
    c.note(scales=[n, n2])
    th = gen.theta(c.rng, 4, m.latent_variables)
    c.feed(th)
    with torch.no_grad():
        z = m.transform_theta(th)
        d = th.shape[1]
        back = m.inverse_transform_theta(torch.cat([z[:1], z[:1] + torch.eye(d)])).double().numpy()
        mag = max(1.0, np.abs(back[1:] - back[0]).max())  # Reverse and Rotate are linear up to a shift
        ref = oracle.numgrad(lambda q: gen.probs64(m, m.inverse_transform_theta(gen.t(q))), z.numpy(), h=0.05 / mag)
    c.close(m.probability_gradients(th).detach(), ref, "rescaled gradients are derivatives along the transformed scale", rtol=2e-2, atol=5e-3 * mag)


@scenario(P, 24, 200)
def bit_scale_gradients(c):
    m, mask, kind = gen.build(c.rng, str(c.rng.choice(["2PL", "GPC", "GRM"])), latents=1, easy=True)
    c.note(model=kind, categories=m.item_categories)
    n, s = scales.any_scale(c.rng, m, allow=("Bit",))
    m.add_scale_transformation(s)
    th = gen.theta(c.rng, 6, 1)
    c.feed(th)
    pg = m.probability_gradients(th, rescale=False).detach().numpy().astype(float)
    p = gen.probs64(m, th)
    with np.errstate(divide="ignore", invalid="ignore"):
        dH = -np.nansum(np.where(p[..., None] > 0, np.log2(p)[..., None] * pg, 0), 2)
    rate = np.abs(dH).sum(1, keepdims=True)[:, None, :]
    if (rate < 0.05).any():
        raise Skip("flat bit scale")
    c.close(m.probability_gradients(th).detach(), pg / rate, "gradients on the bit scale divide by the rate of bits", rtol=1e-2, atol=1e-3)
    eg = m.expected_item_score_gradients(th, rescale=False).detach().numpy().astype(float)
    c.close(m.expected_item_score_gradients(th).detach(), eg / rate[:, 0], "expected score gradients on the bit scale divide by the rate of bits", rtol=1e-2, atol=1e-3)


@scenario(P, 12, 100)
def nearly_flat_scale(c):
    """Where a transformation is nearly flat the gradients along it are finite and the rates are divided exactly."""
    from irtorch.rescale import Scale

    s = float(10.0 ** c.rng.uniform(-44, 3)) * (1 if c.round % 2 else -1)

    class Stretch(Scale):
        def transform(self, theta):
            return theta * s

        def inverse(self, transformed_theta):
            return transformed_theta / s

        def jacobian(self, theta):
            return torch.full((theta.shape[0], 1, 1), s, dtype=theta.dtype)

    m, mask, kind = gen.any_model(c, kinds=["2PL", "GPC", "NR", "3PL", "GRM"], latents=1)
    m.add_scale_transformation(Stretch())
    th = gen.theta(c.rng, 5, 1)
    c.note(stretch=s)
    c.feed(th)
    for f, what in ((m.probability_gradients, "probability"), (m.expected_item_score_gradients, "expected score")):
        raw, got = f(th, rescale=False).detach().double().numpy(), f(th).detach().double().numpy()
        c.ok(np.isfinite(got).all(), f"{kind}: {what} gradients are finite on a nearly flat scale", got=got)
        if 1e-30 < abs(s):
            c.close(got, raw / s, f"{kind}: {what} gradients divide by the slope of the scale", rtol=1e-3, atol=1e-3 * np.abs(raw).max() / abs(s))


@scenario(P, 24, 200)
def any_grad_mode(c):
    """The result does not depend on the caller's autograd mode or on theta requiring gradients."""
    m, mask, kind = gen.any_model(c)
    th = gen.theta(c.rng, 4, m.latent_variables)
    c.feed(th)
    a = m.probability_gradients(th, rescale=False).detach()
    b = m.expected_item_score_gradients(th).detach()
    with torch.no_grad():
        c.close(m.probability_gradients(th, rescale=False).detach(), a, "probability gradients are the same under no_grad", atol=1e-6)
        c.close(m.expected_item_score_gradients(th).detach(), b, "expected score gradients are the same under no_grad", atol=1e-6)
    v = th.clone().requires_grad_(True)
    c.close(m.probability_gradients(v, rescale=False).detach(), a, "probability gradients are the same for a theta that requires gradients", atol=1e-6)
    c.close(m.expected_item_score_gradients(v).detach(), b, "expected score gradients are the same for a theta that requires gradients", atol=1e-6)
    c.ok(v.requires_grad and v.is_leaf, "theta keeps requiring gradients")
    if m.latent_variables == 1 and kind in ("1PL", "2PL", "GPC", "NR"):
        from irtorch.rescale import Bit

        w = th.clone().requires_grad_(True)
        Bit(m, start_theta=gen.t([-6.0])).jacobian(w)
        c.ok(w.requires_grad, "theta keeps requiring gradients")
    for prm in m.parameters():
        prm.requires_grad_(False)
    c.close(m.expected_item_score_gradients(th).detach(), b, "expected score gradients are the same with frozen item parameters", atol=1e-6)


@scenario(P, 12, 120)
def asked_again(c):
    evals.ask_again(c, lambda m, x, th: {"probability gradients": m.probability_gradients(th), "score gradients": m.expected_item_score_gradients(th)}, "derivatives", latents=1 + c.round % 2)
