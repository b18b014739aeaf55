"""Scale generators shared by the rescaling checks."""
import numpy as np
import torch

from irtorch.rescale import Bit, Flow, LinkCommonItems, Reverse, Rotate
from irtorch.torch_modules import NeuralSplineFlow, RationalQuadraticSpline

from . import gen


def well_conditioned(rng, d):
    while True:
        r = rng.normal(0, 1, (d, d)) + 1.2 * np.eye(d)
        if np.linalg.cond(r) < 8:
            return gen.t(r)


def random_rqs(rng, d, **kw):
    args = {"num_bins": int(rng.integers(3, 12)), "lower_input_bound": -4.0, "upper_input_bound": 4.5, "lower_output_bound": -3.0, "upper_output_bound": 2.5}
    args.update(kw)
    s = RationalQuadraticSpline(d, **args)
    with torch.no_grad():
        for n, p in s.named_parameters():
            if p.dim() > 0:
                p.add_(gen.t(rng.normal(0, 0.7, tuple(p.shape))))
    return s


def random_flow(rng, d, theta=None):
    """A fitted-looking flow: a short fit, or a hand-set spline with its own standardisation."""
    f = Flow(d)
    th = theta if theta is not None else gen.t(rng.normal(0.4, 1.6, (60, d)))
    f.fit(th, max_epochs=int(rng.integers(3, 15)), num_bins=int(rng.integers(5, 12)), learning_rate=0.1)
    return f


def positive_model(rng, items=5):
    m, _, _ = gen.build(rng, "2PL", latents=1, items=items, easy=True)
    return m


def any_scale(rng, model, allow=("Reverse", "Rotate", "Flow", "Link", "Bit")):
    d = model.latent_variables
    names = [n for n in allow if d == 1 or n not in ("Link", "Bit")]
    name = str(rng.choice(names))
    if name == "Reverse":
        return name, Reverse([bool(b) for b in rng.random(d) < 0.6])
    if name == "Rotate":
        return name, Rotate(model, rotation_matrix=well_conditioned(rng, d))
    if name == "Flow":
        return name, random_flow(rng, d)
    if name == "Link":
        a, b = positive_model(rng), positive_model(rng)
        link = LinkCommonItems(a, b, [0, 1, 2], [1, 2, 3], method="spline", inverted=bool(rng.random() < 0.5))
        link.fit(gen.theta(rng, 50, 1), max_epochs=8, learning_rate=0.1)
        return name, link
    if name == "Bit":
        return name, Bit(model, start_theta=gen.t([-9.0 if bit_sign(model) > 0 else 9.0]), grid_points=3000)
    raise ValueError(name)


def bit_sign(model):
    th = torch.zeros(2, model.latent_variables)
    th[0, 0], th[1, 0] = -1, 1
    s = model.expected_scores(th).sum(1)
    return -1.0 if s[0] > s[1] else 1.0
