"""The bit scale measures accumulated entropy change from its starting score."""
import numpy as np
import torch

from harness import gen, oracle, scales
from harness.core import Skip, scenario
from irtorch.rescale import Bit

P = "C11"
KINDS = ["1PL", "2PL", "3PL", "GPC", "GRM", "NR", "NRmc", "NNcat", "NNmc", "Poly"]


def entropies(m, th, items):
    p = gen.probs64(m, gen.t(th))[:, items]
    with np.errstate(divide="ignore", invalid="ignore"):
        return -np.nansum(np.where(p > 0, p * np.log2(np.maximum(p, 1e-300)), 0.0), -1)


def signs(m):
    th = np.zeros((2 * m.latent_variables, m.latent_variables))
    for v in range(m.latent_variables):
        th[2 * v, v], th[2 * v + 1, v] = -1, 1
    e = oracle.expected_scores(gen.probs64(m, gen.t(th)), m.item_categories, m.mc_correct).sum(1)
    if np.min(np.abs(e[1::2] - e[::2])) < 1e-3:
        raise Skip("ambiguous direction")
    return np.where(e[::2] > e[1::2], -1.0, 1.0)


def reference(m, items, theta, start, lo, hi, mid, sgn, n=6000):
    """bit score of every latent variable: total variation of the item entropies along the path"""
    out = np.zeros_like(theta)
    for v in range(theta.shape[1]):
        for i in range(len(theta)):
            end = max(theta[i, v], start[v])
            path = [start[v]]
            if end > start[v]:
                g = np.linspace(lo[v], hi[v], n)
                g = np.maximum(g, start[v])
                path = np.concatenate([path, g[g < end], [end]])
            full = np.repeat(mid[None], len(path), 0)
            full[:, v] = path
            H = entropies(m, full * sgn, items)
            out[i, v] = np.abs(np.diff(H, axis=0)).sum()
    return out


def model(c, kinds=KINDS, latents=None):
    m, mask, kind = gen.any_model(c, kinds=kinds, latents=latents, items=int(c.rng.integers(3, 6)), easy=bool(c.round % 3), hi=4)
    sgn = signs(m)
    k = m.items
    items = list(range(k)) if c.rng.random() < 0.5 else sorted(int(i) for i in c.rng.choice(k, int(c.rng.integers(1, k)), replace=False))
    if c.rng.random() < 0.3 and len(items) > 1:
        items = items[::-1]
    c.note(items=items, signs=sgn)
    return m, kind, sgn, items


@scenario(P, 40, 600)
def without_population(c):
    m, kind, sgn, items = model(c)
    d = m.latent_variables
    th = c.rng.uniform(-4.5, 4.5, (5, d))
    c.feed(th)
    if c.round % 2:
        start = c.rng.uniform(-4, -1, d)
        b = Bit(m, start_theta=gen.t(start * sgn), items=items if len(items) < m.items else None)
    else:
        start = np.full(d, -10000.0)
        b = Bit(m, items=items if len(items) < m.items or c.rng.random() < 0.5 else None)
    with torch.no_grad():
        got = b.transform(gen.t(th))
    adj = gen.t(th).double().numpy() * sgn
    want = reference(m, items, adj, gen.t(start).double().numpy(), np.full(d, -7.0), np.full(d, 7.0), np.zeros(d), sgn)
    c.close(got, want, f"{kind}: bit score = accumulated absolute entropy change (in bits) along each latent variable", rtol=2e-3, atol=1.5e-3 * len(items))
    c.count("bit scores compared", want.size)


@scenario(P, 24, 400)
def with_population(c):
    """With a population, the other latent variables sit at its medians."""
    m, kind, sgn, items = model(c)
    d = m.latent_variables
    n = int(c.rng.integers(21, 60)) | 1
    pop = np.clip(c.rng.normal(0.3, 1.0, (n, d)), -2.5, 3.0)
    start = c.rng.uniform(-3.5, -2.6, d)
    b = Bit(m, population_theta=gen.t(pop * sgn), start_theta=gen.t(start * sgn), items=items)
    th = np.clip(c.rng.normal(0.2, 1.0, (5, d)), start[None] - 0.5, pop.max(0))
    c.feed(th, pop)
    with torch.no_grad():
        got = b.transform(gen.t(th * sgn))
    pf, sf = gen.t(pop).double().numpy(), gen.t(start).double().numpy()
    from scipy import stats

    q1, q3 = np.percentile(pf, 25, axis=0), np.percentile(pf, 75, axis=0)
    if (sf < q1 - 3.9 * (q3 - q1)).any() or (pf.max(0) > q3 + 3.9 * (q3 - q1)).any() or (pf.min(0) < q1 - 3.9 * (q3 - q1)).any():
        raise Skip("population with outliers")
    want = reference(m, items, gen.t(th).double().numpy(), sf, sf, pf.max(0), np.median(np.maximum(pf, sf), 0), sgn)
    c.close(got, want, f"{kind}: bit scores with a population (median of the other latent variables)", rtol=2e-3, atol=1.5e-3 * len(items))
    c.count("bit scores compared", want.size)


@scenario(P, 24, 300)
def outlying(c):
    """Outlying starts and scores: the path jumps to the populated range and, at the end, to the score."""
    m, kind, sgn, items = model(c, kinds=["2PL", "GPC", "GRM", "NR", "3PL"])
    d = m.latent_variables
    n = int(c.rng.integers(41, 90)) | 1
    pop = np.clip(c.rng.normal(0.2, 0.7, (n, d)), -1.6, 2.0)
    if c.round % 2:
        pop[0], pop[1] = 12.0, -9.0
    start = np.full(d, [-30.0, -2.5][c.round % 3 == 0])
    if d > 1 and c.round % 4 >= 2:  # only some variables start far away
        start = c.rng.permutation(np.r_[-5000.0, -2.5, c.rng.choice([-30.0, -2.5, -5000.0], d - 2)])
    pf = np.maximum(gen.t(pop).double().numpy(), start)
    q1, q3 = np.percentile(pf, 25, axis=0), np.percentile(pf, 75, axis=0)
    lo_f, hi_f = q1 - 4 * (q3 - q1), q3 + 4 * (q3 - q1)
    near = np.minimum(np.abs(pf - lo_f), np.abs(pf - hi_f)).min()
    if near < 1e-2 or np.abs(start - lo_f).min() < 1e-2:
        raise Skip("on the fence")
    inside = lambda v: pf[(pf[:, v] >= lo_f[v]) & (pf[:, v] <= hi_f[v]), v]
    out = (start < lo_f).any()
    lo = np.array([max(start[v], inside(v).min()) if out else start[v] for v in range(d)])
    hi = np.array([inside(v).max() for v in range(d)])
    b = Bit(m, population_theta=gen.t(pop * sgn), start_theta=gen.t(start * sgn), items=items, grid_points=3000)
    c.note(start=start, extreme_population=bool(c.round % 2))
    c.feed(pop)
    for th in (np.full((1, d), 6.0), c.rng.uniform(-1.4, 1.8, (1, d)), c.rng.uniform(-8, 5, (1, d))):
        with torch.no_grad():
            got = b.transform(gen.t(th * sgn))
            one = b.transform_to_1D(gen.t(th * sgn)).numpy()
        tf = gen.t(th).double().numpy()
        want = reference(m, items, tf, start, lo, hi, np.median(pf, 0), sgn)
        # the grid may stop short of a jump of one step
        c.close(got, want, f"{kind}: bit scores of outlying starts and scores", rtol=3e-3, atol=2e-3 * len(items))
        if d > 1:
            adj = np.maximum(tf[0], start)
            cap = np.clip(adj, lo, hi)
            path = lo + np.linspace(0, 1, 3000)[:, None] * (cap - lo)
            path = np.where(adj < lo, adj, path)
            path = np.maximum(path, start)
            path[-1] = np.where(adj > hi, adj, path[-1])
            path[0] = start
            w = np.abs(np.diff(entropies(m, path * sgn, items), axis=0)).sum()
            c.close(one[0, 0], w, f"{kind}: one-dimensional bit scores of outlying starts and scores", rtol=3e-3, atol=2e-3 * len(items))


@scenario(P, 40, 600)
def shape(c):
    """Zero at the start and below, non-negative, nondecreasing in the direction of more score."""
    m, kind, sgn, items = model(c, kinds=gen.CLOSED + ["NNcat", "NNitem", "NNmc", "Poly", "Bspline", "NestNom"])
    d = m.latent_variables
    start = c.rng.uniform(-3, 0, d)
    b = Bit(m, items=items)
    b.set_start_theta(gen.t(start * sgn))
    grid = np.sort(c.rng.uniform(-5, 5, (30, d)), 0)
    c.feed(grid)
    with torch.no_grad():
        s = b.transform(gen.t(grid * sgn)).numpy()
        at = b.transform(gen.t(np.stack([start, start - 2, start - 50]) * sgn)).numpy()
    c.ok(np.isfinite(s).all(), "bit scores are finite")
    c.leq(0, s, "bit scores are not negative")
    c.leq(s[:-1], s[1:], "bit scores do not decrease when the latent score moves towards more item score", 1e-4 * len(items))
    c.close(at, np.zeros_like(at), "bit scores are zero at and below the start", rtol=0, atol=1e-5)
    below = grid < start - 1e-5
    c.close(s[below], np.zeros(below.sum()), "scores below the start have zero bits", rtol=0, atol=1e-5)
    i = c.rng.permutation(len(grid))
    with torch.no_grad():
        perm = b.transform(gen.t(grid[i] * sgn)).numpy()
    c.close(perm, s[i], "bit scores do not depend on the respondents' order", rtol=1e-5, atol=1e-5)


@scenario(P, 40, 600)
def jacobian(c):
    """The unidimensional Jacobian is the slope of the bit curve."""
    m, kind, sgn, items = model(c, latents=1)
    b = Bit(m, start_theta=gen.t(-6.0 * sgn), items=items, grid_points=6000)
    th = c.rng.uniform(-3, 3, (6, 1))
    c.feed(th)
    J = b.jacobian(gen.t(th)).detach()
    c.ok(tuple(J.shape) == (6, 1, 1), "one 1 x 1 Jacobian per respondent", shape=tuple(J.shape))
    h = 1e-2
    q = gen.t(th).double().numpy()
    H = lambda x: entropies(m, x, items)
    dH = oracle.numgrad(H, q, h=h)[..., 0]
    want = sgn[0] * np.abs(dH).sum(1)
    kink = 2e-3 * len(items) if kind.startswith("NN") else 0
    c.close(J[:, 0, 0], want, f"{kind}: Jacobian = signed sum of absolute entropy slopes", rtol=3e-3, atol=5e-4 * len(items) + kink)
    with torch.no_grad():
        fd = (b.transform(gen.t(th + 0.05)) - b.transform(gen.t(th - 0.05))).double().numpy()[:, 0] / 0.1
    # the average slope of the reference over the same interval
    path = np.linspace(-0.05, 0.05, 101)
    avg = sgn[0] * np.array([np.abs(np.diff(H(t + path[:, None]), axis=0)).sum() for t in q]) / 0.1
    c.close(np.median(np.abs(fd - avg)), 0.0, "Jacobian follows the transformed scores", rtol=0, atol=0.02 * (1 + np.abs(want).max()))


@scenario(P, 24, 300)
def one_dimensional_summary(c):
    m, kind, sgn, items = model(c, kinds=["2PL", "GPC", "NR", "3PL", "GRM"], latents=1 + c.round % 3)
    d = m.latent_variables
    start = np.full(d, -2.5)
    th = np.clip(c.rng.normal(0, 1, (4, d)), -2.4, 2.9)
    c.feed(th)
    if d == 1:
        b = Bit(m, start_theta=gen.t(start * sgn), items=items)
        c.equal(b.transform_to_1D(gen.t(th * sgn)), b.transform(gen.t(th * sgn)), "with one latent variable the summary is the bit score")
        return
    pop = np.clip(c.rng.normal(0, 1.0, (61, d)), -2.4, 2.9)
    pop[0] = 3.0
    b = Bit(m, population_theta=gen.t(pop * sgn), start_theta=gen.t(start * sgn), items=items, grid_points=3000)
    with torch.no_grad():
        got = b.transform_to_1D(gen.t(th * sgn)).numpy()
    c.ok(got.shape == (4, 1), "one summary score per respondent", shape=got.shape)
    r = np.linspace(0, 1, 4000)[:, None]
    want = []
    for i in range(4):
        path = start + r * (gen.t(th[i]).double().numpy() - start)
        want.append(np.abs(np.diff(entropies(m, path * sgn, items), axis=0)).sum())
    c.close(got[:, 0], np.array(want), "the summary accumulates entropy change along the straight line from the start", rtol=3e-3, atol=2e-3 * len(items))


@scenario(P, 16, 100)
def subset_start(c):
    """With a subset of the items, neither the scale nor its guessing start involves the others."""
    rng = c.rng
    n = int(rng.integers(6, 10))
    cats = [int(k) for k in rng.integers(2, 5, n)]
    m, _, kind = gen.build(rng, "NRmc", latents=1, cats=cats)
    items = sorted(int(i) for i in rng.choice(n, int(rng.integers(2, n)), replace=False))
    if c.round % 2:
        items = list(range(len(items)))
    other = gen.clone(m)
    with torch.no_grad():
        for q in other.parameters():
            # parameters of unselected items, told apart by their influence on the item's probabilities
            keep = q.clone()
            for i in range(q.numel()):
                base = gen.probs64(other, gen.t([[0.7]]))[:, items]
                q.view(-1)[i] += 0.37
                if np.abs(gen.probs64(other, gen.t([[0.7]]))[:, items] - base).max() > 0:
                    q.view(-1)[i] = keep.view(-1)[i]
    changed = ~np.isclose(gen.probs64(m, gen.t([[0.7]])), gen.probs64(other, gen.t([[0.7]])), equal_nan=True).all(-1)[0]
    c.ok(not changed[items].any(), "only other items were changed")
    if signs(m) != signs(other):
        raise Skip("the direction of the test changed")
    c.count("unselected items changed", int(changed.sum()))
    th = gen.t(rng.uniform(-3, 3, (8, 1)))
    tr = gen.theta(rng, 30, 1)
    c.feed(th)
    c.note(items=items, categories=cats)
    out = []
    for k in (m, other):
        k.algorithm = gen.FakeFit(gen.t(gen.responses(np.random.default_rng(c.seed), m, tr)), tr)
        b = Bit(k, start_theta=gen.t([-6.0]), items=items)
        torch.manual_seed(c.seed & 0xFFFF)
        with torch.no_grad():
            plain = b.transform(th)
        b.bit_score_starting_theta_mc("ML", items=items, guessing_iterations=300)
        with torch.no_grad():
            out.append((b.transform(th), plain))
    c.close(out[1][1], out[0][1], f"{kind}: bit scores of some items do not depend on the other items", atol=1e-4)
    c.close(out[1][0], out[0][0], f"{kind}: bit scores from the guessing start of some items do not depend on the other items", atol=2e-2 * len(items))


@scenario(P, 8, 60)
def guessing_start(c):
    """The multiple choice start lies at the scores of random guessers."""
    rng = c.rng
    items = int(rng.integers(8, 14))
    cats = [int(k) for k in rng.integers(3, 5, items)]
    m, _, kind = gen.build(rng, "NRmc", latents=1, cats=cats)
    rise = lambda q: (lambda e: e[1] - e[0])(oracle.expected_scores(gen.probs64(q, gen.t([[-2.0], [2.0]])), cats, q.mc_correct).sum(1))
    tries = [gen.clone(gen.randomize(m, rng)) for _ in range(150)]
    m = max(tries, key=rise)
    if rise(m) < 0.2 * items:
        raise Skip("flat model")
    m.algorithm = gen.FakeFit(gen.t(gen.responses(rng, m, gen.theta(rng, 30, 1))), gen.theta(rng, 30, 1))
    b = Bit(m, mc_start_theta_approx=True, guessing_iterations=400)
    c.ok(True, "constructed")
    # a zero of the curve marks the start: everything at or below it maps to zero bits
    g = np.linspace(-6, 4, 401)[:, None]
    with torch.no_grad():
        s = b.transform(gen.t(g)).numpy()[:, 0]
    zero = g[s < 1e-6, 0]
    c.ok(len(zero) > 0, "the bit scale has a start")
    start = zero.max()
    # random guessers: independent simulation and a grid ML estimate
    x = np.stack([rng.integers(0, k, 4000) for k in cats], 1)
    lp = np.log(gen.probs64(m, gen.t(np.linspace(-8, 8, 321)[:, None])))
    ll = np.zeros((len(x), 321))
    for j in range(items):
        ll += lp[:, j, :][:, x[:, j]].T
    ml = np.linspace(-8, 8, 321)[ll.argmax(1)]
    c.close(start, np.median(ml), "the start is the median latent score of random guessers", rtol=0, atol=0.35 + 0.15 * abs(np.median(ml)))
    c.feed(g)
    c.note(start=start, reference=float(np.median(ml)))
