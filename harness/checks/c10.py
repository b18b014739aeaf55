"""Rational quadratic splines and flows are exact, invertible, strictly increasing maps with a correct density."""
import numpy as np
import torch

from harness import gen, oracle, scales
from harness.core import scenario
from irtorch.rescale import Flow
from irtorch.torch_modules import NeuralSplineFlow, RationalQuadraticSpline
from irtorch.utils import set_seed

P = "C10"


def spline(c, double=True):
    rng = c.rng
    d = int(rng.integers(1, 4))
    lo, hi = float(rng.uniform(-6, -1)), float(rng.uniform(1, 6))
    if c.round % 3 == 0:
        olo, ohi = lo, hi  # the same slope outside as in the free link
    else:
        olo, ohi = float(rng.uniform(-5, 0)), float(rng.uniform(0.5, 5))
    s = scales.random_rqs(rng, d, num_bins=int(rng.integers(2, 40)), lower_input_bound=lo, upper_input_bound=hi, lower_output_bound=olo, upper_output_bound=ohi, free_endpoints=bool(c.round % 2))
    if s.free_endpoints:
        with torch.no_grad():
            s.lower_output_bound.add_(float(rng.uniform(-0.5, 0.2)))
            s.upper_output_bound.add_(float(rng.uniform(-0.2, 0.5)))
        olo, ohi = float(s.lower_output_bound), float(s.upper_output_bound)
    s.eval()
    if double:
        s = s.double()
    c.note(variables=d, bins=s.num_bins, bounds=(lo, hi, olo, ohi), free=s.free_endpoints)
    return s, d, lo, hi, olo, ohi


def knots(lo, hi, n, rng):
    x = np.concatenate([rng.uniform(lo - 3, hi + 3, n), [lo, hi, lo - 1e-6, hi + 1e-6, lo + 1e-6, hi - 1e-6, lo - 40, hi + 40]])
    return np.sort(x)


@scenario(P, 60, 1200)
def spline_map(c):
    s, d, lo, hi, olo, ohi = spline(c)
    rng = c.rng
    x = np.stack([knots(lo, hi, 120, rng) for _ in range(d)], 1)
    c.feed(x)
    X = torch.tensor(x)
    with torch.no_grad():
        y, ld = s(X)
        c.ok(y.shape == X.shape and ld.shape == X.shape, "one output and one log derivative per input")
        c.ok(torch.isfinite(y).all() and torch.isfinite(ld).all(), "outputs and log derivatives are finite")
        c.ok((np.diff(y.numpy(), axis=0) > 0)[np.diff(x, axis=0) > 1e-9].all(), "the spline is strictly increasing")
        edge, _ = s(torch.tensor([[lo] * d, [hi] * d], dtype=torch.double))
        c.close(edge, np.array([[olo] * d, [ohi] * d]), "the input bounds map to the output bounds", atol=1e-6)
        b, ldi = s(y, inverse=True)
        c.close(b, x, "inverse undoes forward", rtol=1e-6, atol=1e-5)
        y2, _ = s(s(X, inverse=True)[0])
        c.close(y2, x, "forward undoes inverse", rtol=1e-6, atol=1e-5)
        # at a bound, rounding decides on which side the inverse looks up the derivative
        off = ((np.abs(x - lo) > 1e-4) & (np.abs(x - hi) > 1e-4)).all(1)
        c.close(ldi[off], -ld.numpy()[off], "the inverse log derivative is minus the forward one", rtol=1e-5, atol=1e-4)
        # a respondent's value does not depend on the batch
        i = int(rng.integers(len(x)))
        one, l1 = s(X[i : i + 1])
        c.close(one, y.numpy()[i : i + 1], "batch independence", rtol=1e-12, atol=1e-12)
        c.close(l1, ld.numpy()[i : i + 1], "batch independence of the log derivative", rtol=1e-12, atol=1e-12)
        h = 1e-6
        fd = (s(X + h)[0] - s(X - h)[0]) / (2 * h)
        far = (np.abs(x - lo) > 1e-3) & (np.abs(x - hi) > 1e-3)
        c.close(np.where(far, np.log(fd.numpy()), 0), np.where(far, ld.numpy(), 0), "log derivative is the log of the slope, inside and outside the bounds", rtol=2e-3, atol=2e-3)
        # shared-variable independence: changing one column leaves the others alone
        if d > 1:
            z = X.clone()
            z[:, 0] += 0.7
            c.close(s(z)[0][:, 1:], y[:, 1:], "variables are transformed independently", rtol=0, atol=1e-12)
    c.count("spline evaluations", x.size)


@scenario(P, 30, 400)
def smoothness(c):
    """The slope has no jumps inside the bounds (the spline is continuously differentiable)."""
    s, d, lo, hi, olo, ohi = spline(c)
    n = 20001
    g = np.linspace(lo + 1e-6, hi - 1e-6, n)
    with torch.no_grad():
        y, ld = s(torch.tensor(np.repeat(g[:, None], d, 1)))
    y = y.numpy()
    slope = np.diff(y, axis=0) / np.diff(g)[:, None]
    # integral of the reported derivative reproduces the map
    dens = np.exp(ld.numpy())
    integ = np.sum((dens[1:] + dens[:-1]) / 2 * np.diff(g)[:, None], 0)
    c.close(integ, y[-1] - y[0], "integrating the reported slope gives the rise of the spline", rtol=5e-3, atol=5e-3)
    c.leq(np.max(np.abs(np.diff(np.sqrt(slope), axis=0)), 0), 0.35 * np.sqrt(np.max(slope, 0)) + 1e-9, "no jump of the slope inside the bounds")
    c.feed(y[:: n // 50])


@scenario(P, 24, 300)
def flow_density(c):
    """The density of the flow integrates to one for every spline and base distribution."""
    rng = c.rng
    s, d, lo, hi, olo, ohi = spline(c)
    loc, sd = float(rng.normal(0, 1)), float(rng.uniform(0.6, 1.6))
    if c.round % 2:
        dist = torch.distributions.Normal(torch.zeros(1, dtype=torch.double) + loc, torch.ones(1, dtype=torch.double) * sd)
    else:
        dist = torch.distributions.Laplace(torch.zeros(1, dtype=torch.double) + loc, torch.ones(1, dtype=torch.double) * sd)
    f = NeuralSplineFlow(s, dist)
    f.eval()
    slope = (s.deriv_outside_lower if hasattr(s, "deriv_outside_lower") else (ohi - olo) / (hi - lo))
    reach = 40 * sd / max(float(slope), 1e-3)
    g = np.unique(np.concatenate([np.linspace(lo - reach, lo, 6001), np.linspace(lo, hi, 8001), np.linspace(hi, hi + reach, 6001)]))
    with torch.no_grad():
        yg = torch.linspace(loc - 30 * sd, loc + 30 * sd, 12001, dtype=torch.double)[:, None].repeat(1, d)
        g = np.unique(np.concatenate([g, f.inverse(yg).numpy().ravel()]))  # resolve steep parts too
    G = torch.tensor(np.repeat(g[:, None], d, 1))
    with torch.no_grad():
        y = f(G)
        lp = f.log_prob(G).numpy()
        back = f.inverse(y)
    c.close(back, G, "the flow's inverse undoes the flow", rtol=1e-5, atol=1e-4)
    lp1 = lp if lp.ndim == 2 else None
    if lp1 is None and d == 1:
        lp1 = lp[:, None]
    if lp1 is not None:
        dens = np.exp(lp1)
        mass = np.sum((dens[1:] + dens[:-1]) / 2 * np.diff(g)[:, None], 0)
        c.close(mass, np.ones(lp1.shape[1]), "the density integrates to one in every variable", rtol=0, atol=1e-2)
        want = dist.log_prob(y).numpy()
        h = 1e-6
        with torch.no_grad():
            fd = ((f(G + h) - f(G - h)) / (2 * h)).numpy()
        far = ((np.abs(g - lo) > 1e-3) & (np.abs(g - hi) > 1e-3))[:, None]
        c.close(np.where(far, lp1, 0), np.where(far, want + np.log(fd), 0), "log density = base log density + log slope", rtol=2e-3, atol=5e-3)
    c.feed(lp[::997])
    c.count("densities integrated")


@scenario(P, 32, 300)
def flow_scale(c):
    rng = c.rng
    d = int(rng.integers(1, 4))
    n = int(rng.integers(60, 160))
    th = rng.normal(0, 1, (n, d)) * rng.uniform(0.5, 3, d) + rng.normal(0, 2, d)
    if c.round % 8 == 5:  # many respondents, recorded in the order of their scores or with a drift
        n = int(rng.choice([1500, 3000]))
        th = rng.normal(0, 1, (n, d)) * 0.5 + np.linspace(-3, 3, n)[:, None] * rng.choice([-1, 1], d)
    if c.round % 3 == 0:
        th = np.exp(0.6 * th / th.std(0))
    f = Flow(d)
    c.raises(ValueError, lambda: f.transform(gen.t(th)), "an unfitted flow refuses to transform")
    f.fit(gen.t(th), max_epochs=int(rng.integers(5, 60)), num_bins=int(rng.integers(4, 25)), learning_rate=0.05, batch_size=None if c.round % 2 else 32)
    mean, sd = th.mean(0), th.std(0, ddof=1)
    x = np.concatenate([th[:20], mean + sd * rng.uniform(-9, 9, (30, d))])
    c.feed(x)
    X = gen.t(x)
    with torch.no_grad():
        y = f.transform(X)
        c.ok(torch.isfinite(y).all(), "transformed scores are finite far outside the data")
        back = f.inverse(y)
    J = f.jacobian(X).detach().numpy()
    slope = J[:, np.arange(d), np.arange(d)]
    c.ok((slope > 0).all(), "every latent variable is transformed increasingly")
    c.close(back, x, "inverse undoes transform", rtol=1e-4, atol=2e-5 * np.maximum(1 / slope, 1) * (1 + np.abs(x)) * 4)
    c.close(J, J * np.eye(d), "latent variables are transformed separately", atol=0)
    for v in range(d):
        i = np.argsort(x[:, v], kind="stable")
        keep = np.diff(x[i, v]) > 1e-3 * sd[v]
        c.ok((np.diff(y.numpy()[i, v])[keep] > -1e-6).all(), "transformed scores keep the respondents' order")
    ref = oracle.numgrad(lambda q: f.transform(gen.t(q)).double().detach().numpy() / 1.0, x, h=0.004 * sd.min())
    scale = np.abs(ref).max()
    c.close(np.median(np.abs(J - ref), axis=0), np.zeros((d, d)), "the Jacobian matches finite differences", atol=0.03 * max(scale, 0.1))
    # identity of the data used to standardise: location/scale equivariance of the fitted map's inputs is part of fit
    c.count("flows fitted")


@scenario(P, 12, 120)
def fitted_again(c):
    """A flow fitted before to other scores is, fitted again, the flow of the scores it was fitted to last."""
    rng = c.rng
    d = int(rng.integers(1, 4))
    first = rng.normal(rng.uniform(-9, 9, d), rng.uniform(0.2, 6, d), (int(rng.integers(30, 90)), d))
    then = rng.normal(rng.uniform(-3, 3, d), rng.uniform(0.5, 2, d), (len(first) if c.round % 2 else int(rng.integers(30, 90)), d))
    c.feed(first, then)
    kw = {"max_epochs": int(rng.integers(2, 30)), "num_bins": int(rng.integers(4, 20)), "learning_rate": 0.05, "batch_size": [None, 16][c.round // 2 % 2], "device": "cpu"}
    used, fresh = Flow(d), Flow(d)
    used.fit(gen.t(first), max_epochs=int(rng.integers(1, 30)), num_bins=int(rng.integers(4, 20)), learning_rate=0.1, device="cpu")
    for f in (used, fresh):
        set_seed(5 + c.round)
        f.fit(gen.t(then), **kw)
    x = gen.t(np.concatenate([then[:10], first[:10]]))
    with torch.no_grad():
        y, z = fresh.transform(x), used.transform(x)
        c.close(z, y, "fitted again: transformed scores", rtol=1e-4, atol=1e-4)
        c.close(used.inverse(y), fresh.inverse(y), "fitted again: inverse", rtol=1e-4, atol=1e-3)
    c.close(used.jacobian(x).detach(), fresh.jacobian(x).detach(), "fitted again: slopes", rtol=1e-3, atol=1e-5)


@scenario(P, 3, 40)
def flow_normalises(c):
    """A flow fitted to skewed scores with the default settings brings them close to the requested distribution."""
    rng = c.rng
    n, d = 800, 1 + c.round % 2
    z = rng.normal(0, 1, (n, d))
    if c.round % 3 == 0:  # many respondents, recorded in the order of their scores
        n, d = 2200, 1
        z = np.sort(rng.normal(0, 1, (n, d)), 0)
    th = np.exp(0.5 * z) * 2 + 1
    f = Flow(d)
    f.fit(gen.t(th))
    with torch.no_grad():
        y = f.transform(gen.t(th)).numpy()
    for v in range(d):
        u = np.sort(y[:, v])
        from scipy.stats import norm, skew

        ks = np.max(np.abs(norm.cdf(u) - (np.arange(n) + 0.5) / n))
        c.leq(ks, 0.08, "scores transformed by a fitted flow follow the base distribution (Kolmogorov distance)")
        c.leq(abs(u.mean()), 0.12, "centered")
        c.close(u.std(), 1.0, "unit spread", rtol=0, atol=0.12)
    c.feed(th)
