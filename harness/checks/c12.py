"""Rank based normalisation and reversal of latent scores."""
import numpy as np
import torch
from scipy import stats

from harness import gen, oracle
from harness.core import scenario
from irtorch.rescale import RankCDF, Reverse

P = "C12"


def scores(c):
    rng = c.rng
    n, d = gen.size(rng, 1, 60, 130, 520, 1100), int(rng.integers(1, 4))
    th = rng.normal(0, 1.5, (n, d))
    if c.round % 4 == 0:
        th = th * float(rng.choice([1e-3, 0.05, 30.0, 1000.0]))
    if c.round % 2:
        th = np.round(th, int(rng.integers(0, 2)))  # ties
    return gen.t(th), n, d


@scenario(P, 80, 2000)
def rank_scores(c):
    th, n, d = scores(c)
    rng = c.rng
    mode = c.round % 4
    if mode == 0:
        dists, ref = None, [stats.norm()] * d
    elif mode == 1:
        loc, sc = float(rng.normal()), float(rng.uniform(0.5, 3))
        dists, ref = [torch.distributions.Normal(loc, sc)], [stats.norm(loc, sc)] * d
    elif mode == 2:
        a = rng.uniform(-3, 3, d)
        dists = [torch.distributions.Uniform(float(x), float(x) + 2.0) for x in a]
        ref = [stats.uniform(x, 2.0) for x in a]
    else:
        dists = [torch.distributions.Normal(0.0, 1.0)] + [torch.distributions.Laplace(float(v), 1.5) for v in range(1, d)]
        ref = [stats.norm()] + [stats.laplace(v, 1.5) for v in range(1, d)]
    c.note(n=n, latents=d, distributions=mode)
    c.feed(th)
    s = RankCDF(th.clone()) if dists is None else RankCDF(th.clone(), dists)
    got = s.transform(th.clone()).numpy()
    x = th.double().numpy()
    ranks = np.stack([stats.rankdata(x[:, v]) for v in range(d)], 1)
    want = np.stack([ref[v].ppf(ranks[:, v] / (n + 1)) for v in range(d)], 1)
    c.close(got, want, "rank scores are quantiles at average rank / (n + 1)", rtol=2e-4, atol=2e-4)
    for v in range(d):
        i = np.argsort(x[:, v], kind="stable")
        c.ok((np.diff(got[i, v]) >= -1e-6).all(), "rank scores keep the order")
        same = np.diff(x[i, v]) == 0
        c.ok((np.diff(got[i, v])[same] == 0).all(), "ties get the same rank score")
    # new respondents take the rank of the nearest known score
    new = (rng.normal(0, 1.7, (7, d)) * max(float(x.std()), 1e-3)).astype(np.float32).astype(float)
    gn = s.transform(gen.t(new)).numpy()
    dist = np.abs(x[None] - new[:, None])
    near = np.take_along_axis(np.broadcast_to(want[None], (7, n, d)), dist.argmin(1)[:, None], 1)[:, 0]
    second = np.where(np.isclose(dist, dist.min(1, keepdims=True), rtol=1e-4, atol=1e-6 * max(1e-3, np.abs(x).max())), x[None], np.nan)
    unique = np.nanmax(second, 1) == np.nanmin(second, 1)
    c.close(np.where(unique, gn, 0), np.where(unique, near, 0), "new scores take the rank score of the nearest known score", rtol=2e-4, atol=2e-4)
    # the scale remembers the population it was built from, not the scored batch
    if n > 1:
        k = int(rng.integers(1, n))
        c.equal(s.transform(th[:k].clone()), got[:k], "rank scores do not depend on who is scored together")
    c.count("rank scores compared", want.size)


@scenario(P, 40, 600)
def reverse(c):
    th, n, d = scores(c)
    flags = [bool(b) for b in c.rng.random(d) < 0.5]
    c.note(flags=flags)
    c.feed(th)
    r = Reverse(flags)
    sign = np.where(flags, -1.0, 1.0)
    c.close(r.transform(th.clone()), th.numpy() * sign, "flagged latent variables change sign, the others do not", rtol=0, atol=0)
    c.close(r.inverse(r.transform(th.clone())), th, "reversal is undone by its inverse", rtol=0, atol=0)
    J = r.jacobian(th.clone())
    c.close(J, np.broadcast_to(np.diag(sign), (n, d, d)), "the Jacobian is the diagonal of the signs", rtol=0, atol=0)
    c.ok(r.invertible, "a reversal is invertible")


@scenario(P, 20, 200)
def reversed_scores_keep_probabilities(c):
    """Reversing a latent variable relabels the axis: slopes flip, everything else stays."""
    m, _, kind = gen.build(c.rng, ["2PL", "GPC", "GRM", "3PL"][c.round % 4], latents=2)
    flags = [bool(c.round % 2), True]
    th = gen.theta(c.rng, 6, 2)
    c.feed(th)
    g0 = m.expected_item_score_gradients(th.clone(), rescale=False).detach()
    i0 = m.information(th.clone(), rescale=False).detach()
    m.add_scale_transformation(Reverse(flags))
    g1 = m.expected_item_score_gradients(th.clone(), rescale=True).detach()
    i1 = m.information(th.clone(), rescale=True).detach()
    sign = np.where(flags, -1.0, 1.0)
    c.close(g1, g0.numpy() * sign, f"{kind}: reversing flips the expected score slopes", rtol=1e-5, atol=1e-6)
    c.close(torch.diagonal(i1, dim1=-2, dim2=-1), torch.diagonal(i0, dim1=-2, dim2=-1), f"{kind}: reversing keeps the information", rtol=1e-4, atol=1e-5)
