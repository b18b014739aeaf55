"""Linking scales through common items."""
import numpy as np
import torch

from harness import gen, oracle, scales
from harness.core import Skip, scenario
from irtorch.models import GeneralizedPartialCredit, TwoParameterLogistic
from irtorch.rescale import LinkCommonItems
from irtorch.utils import set_seed

P = "C14"


def kl(m_from, m_to, ia, ib, th, linked):
    p = gen.probs64(m_from, th)[:, ia]
    q = gen.probs64(m_to, linked)[:, ib]
    k = min(p.shape[-1], q.shape[-1])
    p, q = p[..., :k], q[..., :k]
    with np.errstate(divide="ignore", invalid="ignore"):
        return np.where(p > 0, p * (np.log(p) - np.log(np.maximum(q, 1e-12))), 0).sum(-1).mean()


def linked_pair(rng, slope, shift, items=7, kind="2PL", extra=3):
    """model_to describes the same common items on the scale slope * theta + shift; other items differ."""
    kinds = {"2PL": lambda n: gen.build(rng, "2PL", latents=1, items=n, easy=True), "GPC": lambda n: gen.build(rng, "GPC", latents=1, cats=[3] * n, easy=True)}
    a, b = kinds[kind](items + extra)[0], kinds[kind](items + extra)[0]
    ia = [int(i) for i in rng.permutation(items + extra)[:items]]
    ib = [int(i) for i in rng.permutation(items + extra)[:items]]
    pa = {n: p for n, p in a.named_parameters()}
    with torch.no_grad():
        for n, p in b.named_parameters():
            w = "weight" in n
            per = p.numel() // b.items
            A, B = pa[n].view(b.items, -1), p.view(b.items, -1)
            if w:
                for s, d in zip(ia, ib):
                    B[d] = A[s] / slope
        wa = next(p for n, p in a.named_parameters() if "weight" in n).view(a.items, -1)
        for n, p in b.named_parameters():
            if "bias" in n:
                A, B = pa[n].view(a.items, -1), p.view(b.items, -1)
                for s, d in zip(ia, ib):
                    k = B.shape[1]
                    mult = torch.arange(1, k + 1) if kind == "GPC" and k == 2 else (torch.arange(k) if kind == "GPC" else torch.ones(k))
                    B[d] = A[s] - mult * wa[s, 0] * shift / slope
    g = gen.t(np.linspace(-3, 3, 25)[:, None])
    if kl(a, b, ia, ib, g, g * slope + shift) > 1e-6:
        raise Skip("parameter layout not understood")
    return a, b, ia, ib


@scenario(P, 16, 160)
def recovers_linear_relation(c):
    """When the common items are the same up to a linear change of scale, the fitted link is that change of scale."""
    rng = c.rng
    slope, shift = float(rng.uniform(0.7, 1.4)) * (-1 if c.round % 4 == 3 else 1), float(rng.uniform(-0.7, 0.7))
    kind = ["2PL", "GPC"][c.round % 2]
    method = "neuralnet" if c.round % 8 == 4 else "spline"
    a, b, ia, ib = linked_pair(rng, slope, shift, kind=kind)
    c.note(model=kind, slope=slope, shift=shift, method=method, common=(ia, ib))
    th = gen.t(rng.normal(0, 1, (300, 1)))
    c.feed(th)
    link = LinkCommonItems(a, b, ia, ib, method=method, inverted=slope < 0)
    before = [p.detach().clone() for m in (a, b) for p in m.parameters()]
    link.fit(th, learning_rate=0.05, max_epochs=400, learning_rate_updates_before_stopping=3)
    for p, q in zip(before, [p for m in (a, b) for p in m.parameters()]):
        c.equal(q, p, "linking leaves the linked models' parameters alone")
    q = gen.t(np.linspace(-1.5, 1.5, 31)[:, None])
    with torch.no_grad():
        y = link.transform(q)
    fitted = kl(a, b, ia, ib, q, y)
    c.leq(fitted, 4e-3, f"{method}: after linking, the common items have the same probabilities under both models (mean KL divergence)")
    c.close(y, q * slope + shift, f"{method}: the link recovers the relation between the scales", rtol=0, atol=0.12)
    c.count("links fitted")


@scenario(P, 40, 500)
def inverse_and_jacobian(c):
    rng = c.rng
    method = ["spline", "spline", "neuralnet"][c.round % 3]
    inverted = bool(c.round % 2)
    a, b = scales.positive_model(rng), scales.positive_model(rng)
    kw = {"neurons": 3 * int(rng.integers(2, 5))} if method == "neuralnet" else ({"num_bins": int(rng.integers(4, 14))} if c.round % 4 else {})
    link = LinkCommonItems(a, b, [0, 2, 4], [1, 2, 0], method=method, inverted=inverted, **kw)
    link.fit(gen.theta(rng, 40, 1), max_epochs=int(rng.integers(1, 40)), learning_rate=0.1, batch_size=None if c.round % 5 else 16)
    x = np.sort(rng.uniform(-7, 7, (25, 1)), 0)
    X = gen.t(x)
    c.note(method=method, inverted=inverted)
    c.feed(X)
    with torch.no_grad():
        y = link.transform(X)
    c.ok(tuple(y.shape) == (25, 1) and torch.isfinite(y).all(), "one finite linked score per respondent")
    step = np.diff(y.double().numpy()[:, 0]) * (-1 if inverted else 1)
    c.ok((step >= -1e-6).all() and step.sum() > 0, "linked scores are monotone, decreasing only when inverted")
    J = link.jacobian(X).detach().double().numpy()[:, 0, 0]
    c.leq(0, J * (-1 if inverted else 1), "the Jacobian has the sign of the link", 1e-7)
    with torch.no_grad():
        f = lambda q: link.transform(gen.t(q)).double().numpy()[:, 0]
        h = 5e-3
        lo, hi = (f(x) - f(x - h)) / h, (f(x + h) - f(x)) / h
    q = X.double().numpy()
    err = np.maximum(np.minimum(lo, hi) - J, J - np.maximum(lo, hi))
    c.leq(err, 0.02 * (1 + np.abs(J).max()), "the Jacobian is the slope of the link")
    if method == "spline":
        with torch.no_grad():
            back = link.inverse(y)
        c.close(back, x, "the inverse link undoes the link", rtol=1e-3, atol=1e-4 + 2e-5 / np.maximum(np.abs(J), 1e-4)[:, None])
    else:
        c.raises(NotImplementedError, lambda: link.inverse(y), "a neural net link has no inverse")


@scenario(P, 16, 160)
def fit_improves(c):
    """Fitting lowers the divergence between the common items, for arbitrary models."""
    rng = c.rng
    a, _, _ = gen.build(rng, ["2PL", "GPC", "GRM"][c.round % 3], latents=1, items=6, easy=True, cats=[2, 3, 3, 2, 4, 3] if c.round % 3 else None)
    b, _, _ = gen.build(rng, ["2PL", "GPC", "GRM"][c.round % 3], latents=1, items=6, easy=True, cats=[2, 3, 3, 2, 4, 3] if c.round % 3 else None)
    idx = [1, 4, 2]
    th = gen.theta(rng, 200, 1, 1.0)
    c.feed(th)
    link = LinkCommonItems(a, b, idx, idx)
    with torch.no_grad():
        d0 = kl(a, b, idx, idx, th, link.transform(th))
    link.fit(th, max_epochs=250, learning_rate=0.03)
    with torch.no_grad():
        d1 = kl(a, b, idx, idx, th, link.transform(th))
    c.leq(d1, d0 + 1e-4, "fitting does not increase the divergence between the common items")
    best = min(kl(a, b, idx, idx, th, th * s + o) for s in (0.5, 0.75, 1, 1.4, 2.0) for o in (-1.5, -0.75, 0, 0.75, 1.5))
    c.leq(d1, best + 0.08, "the fitted link is at least about as good as any simple linear link")


@scenario(P, 12, 120)
def unlike_tests(c):
    """The common items are linked whatever the other items of the two tests look like."""
    rng = c.rng
    kind = ["GPC", "NR", "GRM"][c.round % 3]
    common = [int(k) for k in rng.integers(2, 4, 3)]
    other_a, other_b = [int(k) for k in rng.integers(2, 4 if c.round % 2 else 7, 3)], [int(k) for k in rng.integers(2, 7 if c.round % 2 else 4, 2)]
    a, _, _ = gen.build(rng, kind, latents=1, cats=other_a + common, items=6, easy=True)
    b, _, _ = gen.build(rng, kind, latents=1, cats=common + other_b, items=5, easy=True)
    ia, ib = [3, 4, 5], [0, 1, 2]
    c.note(kind=kind, common=common, others=(other_a, other_b))
    th = gen.theta(rng, 150, 1, 1.0)
    c.feed(th)
    link = LinkCommonItems(a, b, ia, ib)
    with torch.no_grad():
        d0 = kl(a, b, ia, ib, th, link.transform(th))
    link.fit(th, max_epochs=120, learning_rate=0.05, batch_size=None if c.round % 4 else 60)
    with torch.no_grad():
        y = link.transform(th)
    d1 = kl(a, b, ia, ib, th, y)
    c.ok(torch.isfinite(y).all() and bool((y.squeeze()[th.squeeze().argsort()].diff() >= -1e-5).all()), "linked scores are finite and monotone")
    c.leq(d1, d0 + 1e-3, "fitting does not increase the divergence between the common items")
    if other_a[0] != other_b[0]:
        c.count("links between tests with different largest items", int(max(other_a + common) != max(other_b + common)))


@scenario(P, 6, 20)
def invalid_links(c):
    rng = c.rng
    one, two = gen.build(rng, "2PL", latents=1, items=4)[0], gen.build(rng, "2PL", latents=2, items=4)[0]
    c.raises(ValueError, lambda: LinkCommonItems(one, two, [0], [0]), "different dimensions are refused")
    c.raises(ValueError, lambda: LinkCommonItems(two, two, [0], [0]), "multidimensional models are refused")
    c.raises(ValueError, lambda: LinkCommonItems(one, one, [0, 1], [0]), "different numbers of common items are refused")
    c.raises(ValueError, lambda: LinkCommonItems(one, one, [], []), "no common items is refused")
    c.raises(ValueError, lambda: LinkCommonItems(one, one, [0], [0], method="linear"), "an unknown method is refused")


@scenario(P, 8, 80)
def linked_again(c):
    """A link fitted again, for another population, goes on from the transformation it has and from nothing else."""
    rng = c.rng
    a, b, ia, ib = linked_pair(rng, float(rng.uniform(0.7, 1.4)), float(rng.uniform(-0.7, 0.7)), kind=["2PL", "GPC"][c.round % 2])
    method = ["spline", "neuralnet"][c.round // 2 % 2]
    first, then = gen.t(rng.normal(rng.uniform(-1, 1), 1, (60, 1))), gen.t(rng.normal(0, 1, (60 if c.round % 2 else 45, 1)))
    c.feed(first, then)
    c.note(method=method)
    inverted = bool(rng.random() < 0.5)
    used, other = (LinkCommonItems(a, b, ia, ib, method=method, inverted=inverted) for _ in range(2))
    used.fit(first, max_epochs=int(rng.integers(2, 20)), learning_rate=0.05, batch_size=[None, 16][c.round // 4 % 2], device="cpu")
    other._transformation.load_state_dict(used._transformation.state_dict())
    for link in (used, other):
        set_seed(7 + c.round)
        link.fit(then, max_epochs=12, learning_rate=0.02, batch_size=20, device="cpu")
    g = gen.t(np.linspace(-6, 6, 25)[:, None])
    with torch.no_grad():
        c.close(used.transform(g), other.transform(g), f"{method}: the second fit remembers nothing else of the first", rtol=1e-4, atol=1e-4)
    c.close(used.jacobian(g).detach(), other.jacobian(g).detach(), f"{method}: nor do its slopes", rtol=1e-3, atol=1e-4)
