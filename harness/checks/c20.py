"""Saving and loading a model."""
import os
import tempfile

import numpy as np
import torch

from harness import gen, scales
from harness.core import scenario
from irtorch.estimation_algorithms import AE, JML, MML, VAE
from irtorch.rescale import Bit, RankCDF, Reverse

P = "C20"


def twin(c, kind, **kw):
    """Two models of the same configuration with different parameters."""
    state = c.rng.bit_generator.state
    a, _, _ = gen.build(c.rng, kind, random_params=False, **kw)
    c.rng.bit_generator.state = state
    b, _, _ = gen.build(c.rng, kind, random_params=False, **kw)
    gen.randomize(a, c.rng)
    gen.randomize(b, c.rng)
    return a, b


def roundtrip(a, b):
    with tempfile.TemporaryDirectory(dir=os.environ.get("VERIF_SCRATCH")) as tmp:
        path = os.path.join(tmp, "model.pt")
        a.save_model(path)
        b.load_model(path)


@scenario(P, 57, 600)
def parameters(c):
    kind = gen.ALL[c.round % len(gen.ALL)]
    a, b = twin(c, kind)
    c.note(model=kind, categories=a.item_categories)
    th = gen.theta(c.rng, 9, a.latent_variables)
    c.feed(th)
    want = gen.probs64(a, th)
    before = {k: v.clone() for k, v in a.state_dict().items()}
    if c.round % 2:
        b.add_scale_transformation(Reverse([True] * b.latent_variables))  # the saved model has none
        b.algorithm = MML()
        b.algorithm.training_theta_scores = gen.theta(c.rng, 5, b.latent_variables)
    if np.abs(gen.probs64(b, th) - want).max() < 1e-4:
        c.count("twins that happened to agree")
    roundtrip(a, b)
    c.equal(len(b.scale), 0, "scale transformations the saved model does not have are gone")
    c.ok(b.algorithm is None, "so are an algorithm and training scores it does not have", got=b.algorithm)
    with torch.no_grad():
        c.equal(b.transform_theta(th.clone()), th, "latent scores are on the saved model's scale")
    c.equal(gen.probs64(b, th), want, f"{kind}: a loaded model has the saved model's probabilities")
    for k, v in before.items():
        c.equal(a.state_dict()[k], v, "saving leaves the model alone")
    if hasattr(a, "item_parameters") and kind in gen.CLOSED:
        c.equal(b.item_parameters().to_numpy(dtype=float), a.item_parameters().to_numpy(dtype=float), f"{kind}: item parameters survive")
    with torch.no_grad():
        c.equal(b.expected_scores(th), a.expected_scores(th), "expected scores survive")


@scenario(P, 32, 300)
def scales_and_scores(c):
    kind = ["2PL", "GPC", "GRM", "NR"][c.round % 4]
    a, b = twin(c, kind, easy=True)
    d = a.latent_variables
    names = []
    for _ in range(int(c.rng.integers(1, 4))):
        name, s = scales.any_scale(c.rng, a)
        a.add_scale_transformation(s)
        names.append(name)
    if c.round % 5 == 0:
        a.add_scale_transformation(RankCDF(gen.theta(c.rng, 20, d)))
        names.append("RankCDF")
    tr = gen.theta(c.rng, 30, d)
    x = gen.t(gen.responses(c.rng, a, tr))
    a.algorithm = MML()
    a.algorithm.train_data = x
    a.algorithm.training_theta_scores = tr
    c.note(model=kind, scales=names)
    th = gen.theta(c.rng, 6, d)
    c.feed(th, x)
    if c.round % 2:
        b.add_scale_transformation(scales.any_scale(c.rng, b, allow=("Reverse",))[1])  # replaced by loading
    with torch.no_grad():
        z = a.transform_theta(th.clone())
    s_eap = a.latent_scores(x[:5], theta_estimation="EAP")
    s_map = a.latent_scores(x[:5], theta_estimation="MAP")
    roundtrip(a, b)
    c.ok(len(b.scale) == len(names), "scale transformations survive, replacing those of the receiving model", got=len(b.scale))
    with torch.no_grad():
        c.close(b.transform_theta(th.clone()), z, "transformed scores survive", rtol=1e-5, atol=1e-6)
    c.close(b.latent_scores(x[:5], theta_estimation="EAP"), s_eap, "EAP scores survive", rtol=1e-4, atol=1e-4)
    c.close(b.latent_scores(x[:5], theta_estimation="MAP"), s_map, "MAP scores survive", rtol=1e-3, atol=1e-3)


@scenario(P, 24, 200)
def fitted(c):
    """A fitted model can be stored and used for scoring afterwards."""
    rng = c.rng
    alg = [MML, JML, AE, VAE][c.round % 4]
    kind = ["2PL", "GPC", "NNcat", "3PL", "NR"][c.round % 5]
    a, b = twin(c, kind, latents=1, items=5, masked=False, hi=3)
    x = gen.full_support(rng, gen.uniform_responses(rng, a.item_categories, 30), a.item_categories)
    x, _ = gen.with_missing(rng, x, 0.1) if alg in (MML, JML) else (x, None)
    a.fit(gen.t(x), algorithm=alg(), max_epochs=8, device="cpu")
    c.note(model=kind, algorithm=alg.__name__)
    c.feed(x)
    roundtrip(a, b)
    th = gen.theta(rng, 6, 1)
    c.equal(gen.probs64(b, th), gen.probs64(a, th), f"{alg.__name__}: fitted probabilities survive")
    c.ok(type(b.algorithm) is alg, "the algorithm survives")
    c.equal(b.algorithm.train_data, a.algorithm.train_data, "the training data survive")
    c.equal(np.array(b.algorithm.training_history["train_loss"]), np.array(a.algorithm.training_history["train_loss"]), "the training history survives")
    if a.algorithm.training_theta_scores is not None:
        c.equal(b.algorithm.training_theta_scores.detach(), a.algorithm.training_theta_scores.detach(), "the training scores survive")
    q = gen.t(x[:5])
    for est in ("EAP", "MAP") + (("NN",) if alg in (AE, VAE) else ()):
        c.close(b.latent_scores(q.clone(), theta_estimation=est), a.latent_scores(q.clone(), theta_estimation=est), f"{est} scores survive", rtol=1e-4, atol=1e-4)


@scenario(P, 6, 20)
def mismatch(c):
    """Loading into a different model is refused and leaves nothing half loaded."""
    a, _, _ = gen.build(c.rng, "2PL", latents=1, items=4)
    b, _, _ = gen.build(c.rng, "2PL", latents=1, items=5)
    th = gen.theta(c.rng, 4, 1)
    want = gen.probs64(b, th)
    c.raises(RuntimeError, lambda: roundtrip(a, b), "parameters of another shape are refused")
    c.equal(gen.probs64(b, th), want, "and the receiving model is unchanged")


@scenario(P, 4, 16)
def large_data(c):
    """Many respondents in the training data."""
    rng = c.rng
    a, b = twin(c, "2PL", latents=1, items=4, masked=False)
    n = int(rng.integers(2050, 7000))
    x = gen.full_support(rng, gen.uniform_responses(rng, a.item_categories, n), a.item_categories)
    a.fit(gen.t(x), algorithm=[JML, AE][c.round % 2](), max_epochs=1, device="cpu")
    c.feed(x)
    c.note(respondents=n)
    roundtrip(a, b)
    c.ok(type(b.algorithm) is type(a.algorithm), "the algorithm survives", got=b.algorithm)
    c.equal(b.algorithm.train_data, a.algorithm.train_data, "the training data survive")
    if a.algorithm.training_theta_scores is not None:
        c.equal(b.algorithm.training_theta_scores.detach(), a.algorithm.training_theta_scores.detach(), "the training scores survive")
    th = gen.theta(rng, 6, 1)
    c.equal(gen.probs64(b, th), gen.probs64(a, th), "fitted probabilities survive")
