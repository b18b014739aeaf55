"""Fisher information."""
import numpy as np
import torch

from harness import evals, gen, oracle, scales
from harness.core import Skip, scenario

P = "C08"


def reference(m, th):
    """sum_k (dp_k)(dp_k)' / p_k from the model's own gradients, in float64"""
    p = gen.probs64(m, th)
    g = m.probability_gradients(th, rescale=False).detach().numpy().astype(float)
    with np.errstate(divide="ignore", invalid="ignore"):
        q = np.where(p > 0, 1 / p, 0.0)
    return np.einsum("nikd,nike,nik->nide", g, g, q), p, g


def sane(c, m, th):
    p = gen.probs64(m, th)
    live = p[:, [j for j, k in enumerate(m.item_categories) for _ in range(k)], [q for k in m.item_categories for q in range(k)]]
    if (live < 1e-4).any():
        # 1/p amplifies float32 rounding of near-zero probabilities
        th = th * 0.4
        p = gen.probs64(m, th)
        live = p[:, [j for j, k in enumerate(m.item_categories) for _ in range(k)], [q for k in m.item_categories for q in range(k)]]
        if (live < 1e-4).any():
            raise Skip("near-zero category probabilities")
    return th


@scenario(P, 96, 1200)
def information_matrix(c):
    m, mask, kind = gen.any_model(c)
    th = sane(c, m, gen.theta(c.rng, int(c.rng.integers(1, 7)), m.latent_variables))
    c.feed(th)
    info = m.information(th, item=True, rescale=False)
    d = m.latent_variables
    c.ok(tuple(info.shape) == (len(th), m.items, d, d), "information is a latent x latent matrix per respondent and item", shape=tuple(info.shape))
    p = gen.probs64(m, th)
    g, unsure = oracle.numgrad(lambda q: gen.probs64(m, gen.t(q)), th.numpy(), uncertainty=True)
    with np.errstate(divide="ignore"):
        q = np.where(p > 0, 1 / np.where(p > 0, p, 1), 0.0)
    ref = np.einsum("nikd,nike,nik->nide", g, g, q)
    smooth = kind in gen.SMOOTH
    loose = 2 * np.einsum("nikd,nike,nik->nide", np.abs(g) + unsure, unsure, q).max((2, 3), keepdims=True)
    c.close(info, ref, f"{kind}: item information is the expected squared score from finite differences", rtol=2e-2 if smooth else 5e-2, atol=(5e-3 if smooth else 2e-2) * max(1.0, np.abs(ref).max()) + loose)
    ref2, _, _ = reference(m, th)
    c.close(info, ref2, "item information is the probability-weighted outer product of the gradients", rtol=1e-3, atol=1e-3)
    c.close(info, np.swapaxes(info.numpy(), -1, -2), "information matrices are symmetric", rtol=1e-5, atol=1e-6)
    c.leq(-1e-4, np.linalg.eigvalsh(info.numpy().astype(float)), "information matrices are positive semidefinite")
    tot = m.information(th, item=False, rescale=False)
    c.close(tot, ref2.sum(1), "test information is the sum of the item informations", rtol=1e-3, atol=5e-3)
    c.count("information matrices", len(th) * m.items)


@scenario(P, 40, 500)
def logistic_closed_form(c):
    m, mask, kind = gen.any_model(c, kinds=["2PL", "1PL", "3PL", "GPC"])
    th = gen.theta(c.rng, 6, m.latent_variables)
    c.feed(th)
    df = m.item_parameters()
    d = m.latent_variables
    A = np.ones((m.items, 1)) if kind == "1PL" else np.stack([df[f"a{i + 1}"].to_numpy(float) for i in range(d)], 1)
    p = gen.probs64(m, th)
    if kind in ("1PL", "2PL"):
        w = p[..., 0] * p[..., 1]
    elif kind == "3PL":
        g = df["c"].to_numpy(float)
        ps = (p[..., 1] - g) / (1 - g)
        w = (1 - g) ** 2 * (ps * (1 - ps)) ** 2 / (p[..., 1] * p[..., 0])
    else:
        k = np.arange(p.shape[-1])
        w = (p * k**2).sum(-1) - (p * k).sum(-1) ** 2
    want = np.einsum("ni,id,ie->nide", w, A, A)
    c.close(m.information(th, rescale=False), want, f"{kind}: item information equals the textbook formula", rtol=2e-3, atol=1e-4)


@scenario(P, 40, 400)
def directional(c):
    d = int(c.rng.integers(2, 4))
    m, mask, kind = gen.any_model(c, kinds=["2PL", "GPC", "NR", "GRM", "NNcat", "Poly"], latents=d)
    th = sane(c, m, gen.theta(c.rng, 4, d))
    deg = [int(x) for x in c.rng.integers(0, 181, d)] if c.round % 2 else [round(float(x), 2) for x in c.rng.uniform(0, 180, d)]
    c.note(degrees=deg)
    c.feed(th)
    ref, _, _ = reference(m, th)
    u = np.cos(np.deg2rad(np.array(deg, float)))
    want = np.einsum("d,nide,e->ni", u, ref, u)
    c.close(m.information(th, degrees=deg, rescale=False), want, "directional information is the quadratic form of the direction cosines", rtol=2e-3, atol=2e-3)
    c.close(m.information(th, item=False, degrees=deg, rescale=False), want.sum(1), "directional test information is the sum over items", rtol=2e-3, atol=5e-3)
    c.raises(ValueError, lambda: m.information(th, degrees=[0] * (d + 1)), "one degree per latent variable is required")


@scenario(P, 40, 300)
def rescaled(c):
    """On a transformed scale the information transforms with the inverse Jacobian."""
    m, mask, kind = gen.any_model(c, kinds=["2PL", "GPC", "NR", "3PL", "NNcat", "GRM"])
    names = []
    for _ in range(int(c.rng.integers(1, 3))):
        n, s = scales.any_scale(c.rng, m, allow=("Reverse", "Rotate", "Flow", "Link"))
        names.append(n)
        m.add_scale_transformation(s)
    th = sane(c, m, gen.theta(c.rng, 4, m.latent_variables))
    c.note(scales=names)
    c.feed(th)

    def tr(q):
        with torch.no_grad():
            return m.transform_theta(gen.t(q)).double().numpy()

    inv = np.linalg.inv(oracle.numgrad(tr, th.numpy(), h=0.01))
    ref, _, _ = reference(m, th)
    want = np.einsum("nda,nide,neb->niab", inv, ref, inv)
    tol = 2e-2 * max(1.0, np.abs(want).max())
    c.close(m.information(th), want, "information on the transformed scale is J^-T I J^-1", rtol=4e-2, atol=tol)
    c.close(m.information(th, item=False), want.sum(1), "so is the test information", rtol=4e-2, atol=3 * tol)
    c.close(m.information(th, rescale=False), ref, "rescale=False ignores the scale transformations", rtol=1e-3, atol=1e-3)


@scenario(P, 12, 120)
def asked_again(c):
    evals.ask_again(c, lambda m, x, th: {"information": m.information(th), "test information": m.information(th, item=False)}, "information", kinds=("2PL", "GPC", "NR", "3PL"), latents=1 + c.round % 2)


@scenario(P, 32, 300)
def far_out(c):
    """Where one answer is all but certain the little information that is left is still right."""
    rng = c.rng
    d = 1 + c.round % 2
    kind = ["2PL", "GPC", "1PL", "2PL"][c.round % 4]
    if kind == "1PL":
        d = 1
    m, _, _ = gen.build(rng, kind, latents=d, items=4)
    df = m.item_parameters()
    A = np.ones((m.items, 1)) if kind == "1PL" else np.stack([df[f"a{i + 1}"].to_numpy(float) for i in range(d)], 1)
    u = rng.normal(0, 1, (6, d))
    u /= np.linalg.norm(u, axis=1, keepdims=True)
    steep = np.abs(u @ A.T).max(1) * (max(m.item_categories) - 1)
    th = gen.t(u * (rng.uniform(8, 25, 6) / np.maximum(steep, 0.2))[:, None])
    c.note(model=kind)
    c.feed(th)
    k = np.arange(max(m.item_categories))
    if kind == "GPC":
        b = df[[q for q in df.columns if q.startswith("d")]].to_numpy(float)
    else:
        b = np.stack([np.zeros(m.items), df["d"].to_numpy(float)], 1)
    z = (th.double().numpy() @ A.T)[..., None] * k + b
    for j, cats in enumerate(m.item_categories):
        z[:, j, cats:] = -np.inf
    p = np.exp(z - z.max(-1, keepdims=True))
    p /= p.sum(-1, keepdims=True)
    w = (p * (k - (p * k).sum(-1, keepdims=True)) ** 2).sum(-1)
    want = np.einsum("ni,id,ie->nide", w, A, A)
    got = m.information(th, rescale=False).double().numpy()
    c.close(got, want, f"{kind}: information at scores far out equals the textbook formula", rtol=2e-2, atol=1e-15)
    c.count("smallest probability below 1e-6", int((np.where(p > 0, p, 1).min(-1) < 1e-6).sum()))
