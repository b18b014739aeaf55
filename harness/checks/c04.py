"""Item / latent variable relationship masks are honoured by the curves, before and after training."""
import numpy as np
import torch

from harness import gen, oracle
from harness.core import Skip, scenario
from irtorch.estimation_algorithms import JML, MML

P = "C04"
MASKABLE = ["2PL", "3PL", "GPC", "GRM", "NR", "NRmc", "NNcat", "NNitem", "NNmc", "NNelu", "Poly", "Surp", "NestNom", "NestBsp", "Mix"]
PARAM = {"2PL": "a", "3PL": "a", "GPC": "a", "GRM": "a"}


def influence(c, m, mask, what):
    """Vary one latent variable at a time and look at which items react."""
    rng = c.rng
    n = 12
    th = rng.normal(0, 1.0, (n, m.latent_variables))
    p0 = gen.probs64(m, gen.t(th))
    for lv in range(m.latent_variables):
        moved = np.zeros(m.items)
        for step in (-3.0, -0.7, 0.9, 2.5):
            t2 = th.copy()
            t2[:, lv] += step
            p1 = gen.probs64(m, gen.t(t2))
            moved = np.maximum(moved, np.abs(p1 - p0).max((0, 2)))
        for j in range(m.items):
            if not mask[j, lv]:
                c.ok(moved[j] <= 2e-6, f"{what}: an unrelated latent variable does not influence the item", item=j, latent=lv, moved=moved[j])
                c.count("unrelated pairs observed")
            else:
                c.ok(moved[j] > 1e-7, f"{what}: a related latent variable does influence the item", item=j, latent=lv, moved=moved[j])
                c.count("related pairs observed")
    g = m.probability_gradients(gen.t(th)).detach().numpy()
    for lv in range(m.latent_variables):
        off = ~mask[:, lv]
        c.close(np.nan_to_num(g[:, off, :, lv]), np.zeros_like(g[:, off, :, lv]), f"{what}: gradients with respect to unrelated latent variables are zero", atol=1e-6)


@scenario(P, 75, 1200)
def structure(c):
    kind = MASKABLE[c.round % len(MASKABLE)]
    d = int(c.rng.integers(2, 4))
    m, mask, kind = gen.build(c.rng, kind, latents=d, masked=True)
    c.note(model=kind, mask=mask.astype(int).tolist(), categories=m.item_categories)
    c.feed(*m.parameters())
    if isinstance(m, gen.NestedLogit) and isinstance(m.correct_response_model, gen.MonotoneBSpline):
        raise Skip("B-spline correct model has no mask")
    influence(c, m, mask, kind)
    if kind in PARAM:
        df = m.item_parameters()
        a = np.stack([df[f"a{i + 1}"].to_numpy(dtype=float) for i in range(d)], 1)
        c.equal(a != 0, mask, "reported discrimination is zero exactly for unrelated latent variables")
        c.equal(np.sign(a), m.item_theta_relationship_directions().numpy().astype(float), "reported directions are the signs of the discriminations")


@scenario(P, 30, 300)
def optimizer_steps(c):
    """Arbitrary gradient steps on the likelihood leave the unrelated pairs unrelated."""
    kind = MASKABLE[c.round % len(MASKABLE)]
    d = 2
    m, mask, kind = gen.build(c.rng, kind, latents=d, masked=True)
    if isinstance(m, gen.NestedLogit) and isinstance(m.correct_response_model, gen.MonotoneBSpline):
        raise Skip("B-spline correct model has no mask")
    c.note(model=kind, mask=mask.astype(int).tolist())
    x = gen.t(gen.uniform_responses(c.rng, m.item_categories, 30))
    th = gen.theta(c.rng, 30, d)
    c.feed(x, th)
    opt = torch.optim.Adam(m.parameters(), lr=0.05)
    for _ in range(8):
        opt.zero_grad()
        (-m.log_likelihood(x, m(th))).backward()
        if kind == "GRM":  # keep the thresholds ordered: only the slopes are trained here
            for n, p in m.named_parameters():
                if "bias" in n:
                    p.grad = None
        if kind == "Mix":
            for sub in m.modules():
                if isinstance(sub, gen.GradedResponse):
                    for n, p in sub.named_parameters():
                        if "bias" in n:
                            p.grad = None
        opt.step()
    influence(c, m, mask, f"{kind} after optimisation")


@scenario(P, 16, 80)
def fitted(c):
    """... and so does a complete fit."""
    kinds = ["2PL", "GPC", "NR", "NNcat", "3PL", "Surp", "GRM", "Poly"]
    kind = kinds[c.round % len(kinds)]
    m, mask, kind = gen.build(c.rng, kind, latents=2, items=5, masked=True, hi=3)
    x = gen.t(gen.responses(c.rng, m, gen.theta(c.rng, 80, 2)))
    c.note(model=kind, mask=mask.astype(int).tolist())
    c.feed(x)
    m.fit(x, MML() if c.round % 2 else JML(), max_epochs=12)
    influence(c, m, mask, f"{kind} after fit")


@scenario(P, 12, 60)
def invalid_masks(c):
    """Masks of the wrong shape or with an item related to nothing are refused."""
    rng = c.rng
    classes = [gen.TwoParameterLogistic, gen.ThreeParameterLogistic, gen.GeneralizedPartialCredit, gen.GradedResponse, gen.NominalResponse, gen.MonotoneNN, gen.MonotonePolynomial, gen.SurprisalSpline]
    cls = classes[c.round % len(classes)]
    c.note(model=cls.__name__)
    kw = {"items": 4} if cls in classes[:2] else {"item_categories": [2, 3, 2, 4]}
    bad = torch.ones(4, 2, dtype=torch.bool)
    bad[int(rng.integers(4))] = False
    c.raises((AssertionError, ValueError), lambda: cls(latent_variables=2, item_theta_relationships=bad, **kw), "an item related to no latent variable is refused")
    c.raises((AssertionError, ValueError), lambda: cls(latent_variables=2, item_theta_relationships=torch.ones(2, 4, dtype=torch.bool), **kw), "a transposed relationship matrix is refused")
    c.raises((AssertionError, ValueError), lambda: cls(latent_variables=2, item_theta_relationships=torch.ones(4, 3, dtype=torch.bool), **kw), "a relationship matrix of the wrong shape is refused")
