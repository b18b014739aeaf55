"""Rotated latent scores."""
import numpy as np
import torch

from harness import gen, oracle, scales
from harness.core import Skip, scenario
from irtorch.rescale import Rotate

P = "C13"


def varimax(L):
    """raw varimax criterion"""
    q = np.asarray(L, dtype=float) ** 2
    return float((q**2).mean(0).sum() - (q.mean(0) ** 2).sum())


def model(c, kinds=("2PL", "GPC", "GRM", "3PL", "NR", "Poly", "NNcat"), d=None):
    m, mask, kind = gen.any_model(c, kinds=list(kinds), latents=d or 2 + c.round % 2, items=int(c.rng.integers(6, 12)), masked=False, easy=True)
    return m, kind


@scenario(P, 60, 1000)
def linear_map(c):
    d = 1 + c.round % 4
    m, _, _ = gen.build(c.rng, "2PL", latents=d)
    R = scales.well_conditioned(c.rng, d)
    keep = R.clone()
    # the method's name is of no importance when the matrix is given
    kw = {"rotation_method": str(c.rng.choice(["varimax", "quartimax", "equamax", "oblimax", "oblimin", "promax", "geomin_ort", "geomin_obl"]))} if c.round % 2 else {}
    r = Rotate(m, rotation_matrix=R, **kw)
    n = int(c.rng.integers(1, 20))
    th = gen.theta(c.rng, n, d)
    c.feed(th, R)
    c.note(latents=d)
    y = r.transform(th.clone())
    c.close(y, th.double().numpy() @ R.double().numpy(), "rotated scores are scores times the rotation matrix", rtol=1e-5, atol=1e-5)
    c.close(r.inverse(y), th, "inverse undoes the rotation", rtol=1e-4, atol=5e-5)
    c.close(r.transform(r.inverse(th.clone())), th, "the rotation undoes its inverse", rtol=1e-4, atol=5e-5)
    J = r.jacobian(th)
    c.ok(tuple(J.shape) == (n, d, d), "one Jacobian per respondent")
    ref = oracle.numgrad(lambda q: q @ R.double().numpy(), th.double().numpy(), h=0.1)
    c.close(J, ref, "the Jacobian is d rotated / d original", rtol=1e-5, atol=1e-5)
    c.equal(R, keep, "the caller's rotation matrix is left alone")
    c.ok(r.invertible, "rotations are invertible")
    if d > 1:
        c.raises(ValueError, lambda: Rotate(m, rotation_matrix=torch.eye(d + 1)), "a rotation matrix of the wrong size is refused")
        c.raises(ValueError, lambda: Rotate(m, rotation_matrix=torch.ones(d, d - 1)), "a non-square rotation matrix is refused")
    c.raises(ValueError, lambda: Rotate(m), "nothing to rotate is refused")


@scenario(P, 40, 400)
def from_scores(c):
    """Loadings are the average expected-score slopes; orthogonal methods give orthogonal matrices that simplify them."""
    m, kind = model(c)
    d = m.latent_variables
    th = gen.theta(c.rng, 40, d, 1.0)
    c.feed(th)
    method = ["varimax", "promax", "oblimax", "quartimax", "equamax"][c.round % 5]
    c.note(method=method)
    L = m.expected_item_score_gradients(th.clone(), rescale=False).detach().numpy().astype(float).mean(0)
    r = Rotate(m, theta=th.clone(), rotation_method=method)
    M = r.rotation_matrix.double().numpy()
    c.ok(M.shape == (d, d) and np.isfinite(M).all(), "a finite square rotation matrix")
    c.close(r.transform(th), th.double().numpy() @ M, "scores are rotated by the reported matrix", rtol=1e-5, atol=1e-5)
    c.close(r.inverse(r.transform(th)), th, "and rotated back", rtol=1e-3, atol=1e-3)
    if method != "oblimax":
        c.close(np.sort(np.abs(r.rot_loadings.double().numpy()), None), np.sort(np.abs(L @ M), None), "reported loadings are the average expected-score slopes times the rotation matrix", rtol=2e-3, atol=2e-4)
    if method in ("varimax", "quartimax", "equamax", "oblimax"):
        c.close(M.T @ M, np.eye(d), f"{method} rotation is orthogonal", atol=2e-4)
        z = r.transform(th).double().numpy()
        dist = lambda a: np.linalg.norm(a[:, None] - a[None], axis=-1)
        c.close(dist(z), dist(th.double().numpy()), "orthogonal rotations keep distances between respondents", rtol=1e-3, atol=1e-3)
    if method == "varimax":
        k = lambda A: A / np.linalg.norm(A, axis=1, keepdims=True)
        if (np.linalg.norm(L, axis=1) > 1e-6).all():
            c.leq(varimax(k(L)), varimax(k(L @ M)), "varimax does not lower the varimax criterion of the loadings", 1e-4)
    c.close(np.abs(Rotate(m, loadings=gen.t(L), rotation_method=method).rotation_matrix), np.abs(M), "scores or their loadings give the same rotation", rtol=2e-2, atol=2e-2)


@scenario(P, 24, 240)
def slopes_rotate_along(c):
    """On an orthogonally rotated scale the expected-score slopes are the rotated slopes and total information is kept."""
    m, kind = model(c, kinds=("2PL", "GPC", "GRM", "3PL"))
    d = m.latent_variables
    Q, _ = np.linalg.qr(c.rng.normal(0, 1, (d, d)))
    th = gen.theta(c.rng, 6, d)
    c.feed(th, Q)
    g0 = m.expected_item_score_gradients(th.clone(), rescale=False).detach().double().numpy()
    i0 = m.information(th.clone(), rescale=False, degrees=None).detach().double().numpy()
    m.add_scale_transformation(Rotate(m, rotation_matrix=gen.t(Q)))
    g1 = m.expected_item_score_gradients(th.clone(), rescale=True).detach()
    i1 = m.information(th.clone(), rescale=True, degrees=None).detach().double().numpy()
    c.close(g1, g0 @ Q, f"{kind}: slopes on the rotated scale are the rotated slopes", rtol=1e-3, atol=1e-4)
    c.close(i1.trace(axis1=-2, axis2=-1), i0.trace(axis1=-2, axis2=-1), f"{kind}: rotation keeps the total information", rtol=2e-3, atol=1e-3)
    c.close(i1, np.einsum("ba,...bc,cd->...ad", Q, i0, Q), f"{kind}: the information matrix is rotated", rtol=2e-3, atol=1e-3)


@scenario(P, 10, 80)
def from_data(c):
    """Given data, the rotation is based on the respondents' latent scores."""
    m, kind = model(c, kinds=("2PL", "GPC"), d=2)
    tr = gen.theta(c.rng, 40, 2)
    x = gen.t(gen.responses(c.rng, m, tr))
    m.algorithm = gen.FakeFit(x, tr)
    c.feed(x)
    kw = {"theta_estimation": "EAP"}
    th = m.latent_scores(x.clone(), **kw)
    a = Rotate(m, data=x.clone(), rotation_method="varimax", **kw)
    b = Rotate(m, theta=th, rotation_method="varimax")
    c.close(a.rotation_matrix, b.rotation_matrix, "rotating by data equals rotating by the scores of that data", rtol=1e-3, atol=1e-3)
