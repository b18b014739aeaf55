"""A model's scale pipeline: composition, inverse, Jacobian, switching on and off."""
import numpy as np
import torch

from harness import gen, oracle, scales
from harness.core import scenario
from irtorch.rescale import Bit, Flow, RankCDF, Reverse
from irtorch.utils import set_seed

P = "C09"


def pipeline(c, m, n, allow):
    names, ss = [], []
    for _ in range(n):
        name, s = scales.any_scale(c.rng, m, allow=allow)
        names.append(name)
        ss.append(s)
        m.add_scale_transformation(s)
    c.note(scales=names)
    return ss


def smooth_model(c):
    return gen.build(c.rng, "2PL", latents=[1, 2, 3, 1][c.round % 4], easy=True)[0]


@scenario(P, 60, 600)
def composition(c):
    m = smooth_model(c)
    ss = pipeline(c, m, int(c.rng.integers(0, 4)), ("Reverse", "Rotate", "Flow", "Link", "Bit"))
    th = gen.theta(c.rng, 8, m.latent_variables)
    c.feed(th)
    with torch.no_grad():
        want = th.clone()
        for s in ss:
            want = s.transform(want)
        c.close(m.transform_theta(th.clone()), want, "transform_theta applies the scales in the order they were added", atol=2e-5)
        c.ok(len(m.scale) == len(ss), "every added scale is part of the pipeline")
        single = torch.cat([m.transform_theta(th[i : i + 1].clone()) for i in range(len(th))])
        c.close(single, want, "a respondent's transformed score does not depend on the rest of the batch", rtol=2e-3, atol=2e-3)
        m.detach_scale_transformations()
        c.equal(m.transform_theta(th.clone()), th, "after detaching, scores are returned as they are")
    c.count("pipeline length", len(ss))


@scenario(P, 60, 600)
def inverse(c):
    m = smooth_model(c)
    pipeline(c, m, int(c.rng.integers(1, 4)), ("Reverse", "Rotate", "Flow", "Link"))
    th = gen.theta(c.rng, 8, m.latent_variables)
    c.feed(th)
    with torch.no_grad():
        z = m.transform_theta(th.clone())
        J = np.abs(np.linalg.inv(oracle.numgrad(lambda q: m.transform_theta(gen.t(q)).double().numpy(), th.numpy(), h=0.01))).max()
        c.close(m.inverse_transform_theta(z.clone()), th, "the inverse pipeline undoes the pipeline", rtol=1e-3, atol=3e-3 * max(1.0, J))
        c.close(m.transform_theta(m.inverse_transform_theta(z.clone())), z, "the pipeline undoes the inverse pipeline", rtol=1e-3, atol=5e-3 * max(1.0, float(z.abs().max())))


@scenario(P, 60, 600)
def jacobian(c):
    m = smooth_model(c)
    pipeline(c, m, int(c.rng.integers(0, 4)), ("Reverse", "Rotate", "Flow", "Link"))
    d = m.latent_variables
    th = gen.theta(c.rng, 6, d)
    c.feed(th)
    J = m.theta_transform_jacobian(th.clone()).detach()
    c.ok(tuple(J.shape) == (6, d, d), "one Jacobian matrix per respondent", shape=tuple(J.shape))
    with torch.no_grad():
        ref = oracle.numgrad(lambda q: m.transform_theta(gen.t(q)).double().numpy(), th.numpy(), h=0.01)
    # a finite difference across a knot (kink in the second derivative) is inexact: compare with one sided widths as well
    c.close(J, ref, "the pipeline Jacobian is the derivative of the pipeline (rows: transformed, columns: original)", rtol=3e-2, atol=2e-2 * max(1.0, np.abs(ref).max()))
    with torch.no_grad():
        quiet = m.theta_transform_jacobian(th.clone()).detach()
    c.close(quiet, J, "the Jacobian does not depend on the autograd mode", rtol=1e-5, atol=1e-6)
    c.count("jacobians", 6)


@scenario(P, 24, 200)
def bit_in_pipeline(c):
    """The bit scale ends a pipeline of invertible scales: Jacobian of the composition."""
    m, _, kind = gen.build(c.rng, "GPC", latents=1, easy=True)
    name, s = scales.any_scale(c.rng, m, allow=("Bit",))
    m.add_scale_transformation(s)
    sgn = bool(c.rng.random() < 0.5)
    m.add_scale_transformation(Reverse([sgn]))
    th = gen.theta(c.rng, 6, 1)
    c.feed(th)
    J = m.theta_transform_jacobian(th).detach()
    with torch.no_grad():
        ref = oracle.numgrad(lambda q: m.transform_theta(gen.t(q)).double().numpy(), th.numpy(), h=0.05)
    c.close(J, ref, "Jacobian of a bit scale followed by a reversal", rtol=5e-2, atol=5e-2 * max(1.0, np.abs(ref).max()))


@scenario(P, 24, 160)
def latent_scores_are_rescaled(c):
    """latent_scores(rescale=True) is the transformed latent_scores(rescale=False)."""
    m = smooth_model(c)
    d = m.latent_variables
    tr = gen.theta(c.rng, 40, d)
    x = gen.responses(c.rng, m, tr)
    x, _ = gen.with_missing(c.rng, x, 0.1)
    m.algorithm = gen.FakeFit(gen.t(x), tr)
    pipeline(c, m, int(c.rng.integers(1, 3)), ("Reverse", "Rotate", "Flow", "Bit"))
    est = ["EAP", "ML", "MAP"][c.round % 3]
    c.note(estimation=est)
    data = gen.t(x[:6])
    c.feed(data)
    raw = m.latent_scores(data.clone(), theta_estimation=est, rescale=False)
    scaled = m.latent_scores(data.clone(), theta_estimation=est, rescale=True)
    with torch.no_grad():
        c.close(scaled, m.transform_theta(raw.clone()), f"{est} scores are transformed when rescale is on", rtol=1e-4, atol=1e-4)
    m.detach_scale_transformations()
    c.close(m.latent_scores(data.clone(), theta_estimation=est), raw, f"{est} scores are on the original scale after detaching", rtol=1e-4, atol=1e-4)


@scenario(P, 10, 40)
def non_invertible(c):
    """Scales without an inverse or Jacobian say so instead of returning something wrong."""
    m = gen.build(c.rng, "2PL", latents=2, easy=True)[0]
    th = gen.theta(c.rng, 20, 2)
    r = RankCDF(th)
    c.raises(NotImplementedError, lambda: r.inverse(th), "RankCDF has no inverse")
    c.raises(NotImplementedError, lambda: r.jacobian(th), "RankCDF has no Jacobian")
    b = Bit(m)
    c.raises(NotImplementedError, lambda: b.inverse(th), "Bit has no inverse")
    c.raises(NotImplementedError, lambda: b.jacobian(th), "multidimensional Bit has no Jacobian")
    c.ok(not r.invertible and not b.invertible, "and they are marked as not invertible")
    m.add_scale_transformation(Reverse([True, False]))
    m.add_scale_transformation(r)
    c.raises(NotImplementedError, lambda: m.inverse_transform_theta(th), "a pipeline with a non-invertible scale has no inverse")


@scenario(P, 16, 160)
def fitted_again(c):
    """A scale fitted to other scores is that of the other scores, wherever it stands in a pipeline."""
    rng = c.rng
    m = smooth_model(c)
    d = m.latent_variables
    first = rng.normal(rng.uniform(-6, 6, d), rng.uniform(0.3, 5, d), (int(rng.integers(40, 80)), d))
    then = rng.normal(rng.uniform(-2, 2, d), rng.uniform(0.5, 2, d), (int(rng.integers(40, 80)), d))
    c.feed(first, then)
    kw = {"max_epochs": int(rng.integers(2, 12)), "num_bins": int(rng.integers(4, 12)), "learning_rate": 0.05, "device": "cpu"}
    used, fresh = Flow(d), Flow(d)
    used.fit(gen.t(first), max_epochs=int(rng.integers(1, 12)), num_bins=int(rng.integers(4, 12)), learning_rate=0.1, device="cpu")
    for f in (used, fresh):
        set_seed(3 + c.round)
        f.fit(gen.t(then), **kw)
    before = [s for _, s in (scales.any_scale(rng, m, allow=("Reverse", "Rotate")) for _ in range(c.round % 2))]
    th = gen.t(rng.permutation(then)[:8])
    got = []
    for f in (used, fresh):
        q = gen.clone(m)
        for s in before + [f]:
            q.add_scale_transformation(s)
        with torch.no_grad():
            z = q.transform_theta(th.clone())
            got.append((z, q.inverse_transform_theta(z.clone()), q.theta_transform_jacobian(th.clone()).detach()))
    for a, b, what in zip(*got, ("scores", "inverse", "Jacobian")):
        c.close(a, b, f"a flow fitted twice gives the {what} of one fitted once", rtol=1e-4, atol=1e-5 * max(1.0, float(b.abs().max())))
