"""Plots show the model's values at the scores on their axes."""
import numpy as np
import torch

from harness import fits, gen, oracle, scales
from harness.core import Skip, scenario

P = "C39"
KINDS = ["2PL", "GPC", "NR", "GRM", "3PL", "NNcat", "Poly", "Mix", "NRmc", "NestNom"]


def setting(c, kinds=KINDS, latents=None, scored=False, allow=("Reverse", "Rotate", "Flow", "Bit", "Link"), scale=None):
    rng = c.rng
    if scored:
        kinds = [k for k in kinds if k not in ("NRmc", "NestNom")]
    m, _, kind = gen.any_model(c, kinds=kinds, latents=latents, items=int(rng.integers(3, 6)), easy=True, hi=4)
    d = m.latent_variables
    tr = gen.theta(rng, 41, d)
    m.algorithm = gen.FakeFit(gen.t(gen.responses(rng, m, tr)), tr)
    which = "none"
    if scale or (scale is None and rng.random() < 0.65):
        which, s = scales.any_scale(rng, m, allow)
        m.add_scale_transformation(s)
    c.note(scale=which)
    c.count(f"scale {which}")
    return m, kind, which


def grid_for(c, m, lv, steps, rescale):
    """range, second range and fixed values as documented, given or left out, and the scores the curve belongs to"""
    rng = c.rng
    d = m.latent_variables
    on_scale = bool(m.scale) and rescale and all(s.invertible for s in m.scale)
    src = m.algorithm.training_theta_scores
    if on_scale:
        with torch.no_grad():
            src = m.transform_theta(src.clone())
    src = src.double().numpy()
    kw, spans = {}, []
    for name, v in zip(("theta_range", "second_theta_range"), lv):
        lo, hi = src[:, v - 1].min(), src[:, v - 1].max()
        if c.round % 2:
            w = hi - lo
            lo, hi = float(lo + w * rng.uniform(0, 0.3)), float(hi - w * rng.uniform(0, 0.3))
            kw[name] = (lo, hi)
        spans.append((lo, hi))
    rest = [i for i in range(d) if i + 1 not in lv]
    med = np.sort(src, 0)[(len(src) - 1) // 2][rest]
    if rest and c.round % 3 == 0:
        med = med + rng.uniform(-0.3, 0.3, len(rest))
        kw["fixed_thetas"] = gen.t(med)
    if steps:
        kw["steps"] = steps
    axes = [np.linspace(lo, hi, steps) for lo, hi in spans]
    g = np.zeros((steps ** len(lv), d))
    if len(lv) == 1:
        g[:, lv[0] - 1] = axes[0]
    else:
        a, b = np.meshgrid(*axes, indexing="ij")
        g[:, lv[0] - 1], g[:, lv[1] - 1] = a.ravel(), b.ravel()
    g[:, rest] = med
    th = gen.t(g)
    with torch.no_grad():
        if on_scale:
            th = m.inverse_transform_theta(th)
        shown = m.transform_theta(th.clone()) if rescale and m.scale else th
    return kw, th, shown[:, [v - 1 for v in lv]].double().numpy()


def lvs(c, m):
    d = m.latent_variables
    k = 2 if d > 1 and c.round % 3 == 2 else 1
    return tuple(int(v) + 1 for v in c.rng.choice(d, k, replace=False))


def curve(c, got, x, y, what, atol=2e-3):
    """the plotted points are the curve's points in order; only repeated points at the smallest value may be left out"""
    gx, gy = (np.asarray(v, dtype=np.float64) for v in got)
    c.ok(len(gx) == len(gy), f"{what}: as many x as y values")
    distinct = (x > x.min() + 1e-5).sum()
    c.leq(distinct + 1, len(gx), f"{what}: the whole range is drawn")
    n = len(gx)
    tol = atol * (1 + np.abs(y).max())
    best = None
    for s in range(len(x) - n + 1):
        ex = np.abs(gx - x[s : s + n]).max()
        ey = np.abs(gy - y[s : s + n]).max()
        if best is None or max(ex, ey) < max(best[:2]):
            best = (ex, ey, s)
    c.ok(best is not None, f"{what}: not more points than asked for", points=n, steps=len(x))
    c.leq(best[0], 2e-3 * (1 + np.abs(x).max()), f"{what}: scores on the axis")
    c.close(gy, y[best[2] : best[2] + n], f"{what}: values at the scores on the axis", rtol=2e-3, atol=tol)
    c.count("points on curves", n)


def show(c, m, fig, lv, x, y, what):
    if len(lv) == 1:
        curve(c, (fig.data[0].x, fig.data[0].y), x[:, 0], y, what)
    else:
        s = fig.data[0]
        n = int(round(len(y) ** 0.5))
        c.close(np.asarray(s.x), x[:, 0].reshape(n, n), f"{what}: first axis", rtol=2e-3, atol=2e-3)
        c.close(np.asarray(s.y), x[:, 1].reshape(n, n), f"{what}: second axis", rtol=2e-3, atol=2e-3)
        c.close(np.asarray(s.z), y.reshape(n, n), f"{what}: values at the scores on the axes", rtol=2e-3, atol=2e-3 * (1 + np.abs(y).max()))
        c.count("points on surfaces", n * n)


def steps_for(c, lv):
    return 25 if len(lv) == 1 else 5


@scenario(P, 40, 400)
def entropy(c):
    m, kind, which = setting(c)
    lv, rescale = lvs(c, m), c.round % 4 != 1
    kw, th, x = grid_for(c, m, lv, steps_for(c, lv), rescale)
    item = int(c.rng.integers(m.items)) + 1
    p = gen.probs64(m, th)[:, item - 1]
    with np.errstate(divide="ignore", invalid="ignore"):
        h = -np.where(p > 0, p * np.log2(p), 0).sum(1)
    show(c, m, m.plot.item_entropy(item, latent_variables=lv, rescale=rescale, **kw), lv, x, h, f"{kind}/{which} entropy")


@scenario(P, 40, 400)
def expected_scores(c):
    m, kind, which = setting(c, scored=c.round % 2 == 0)
    lv, rescale = lvs(c, m), c.round % 4 != 1
    kw, th, x = grid_for(c, m, lv, steps_for(c, lv), rescale)
    e = oracle.expected_scores(gen.probs64(m, th), m.item_categories, m.mc_correct)
    items = None
    if c.round % 3:
        items = [int(i) + 1 for i in c.rng.choice(m.items, int(c.rng.integers(1, 3)), replace=False)]
    y = (e if items is None else e[:, [i - 1 for i in items]]).sum(1)
    show(c, m, m.plot.expected_sum_score(items=items, latent_variables=lv, rescale=rescale, **kw), lv, x, y, f"{kind}/{which} expected sum score")


@scenario(P, 40, 400)
def log_likelihood(c):
    rng = c.rng
    m, kind, which = setting(c, kinds=[k for k in KINDS if k != "Mix"])
    lv, rescale = lvs(c, m), c.round % 4 != 1
    kw, th, x = grid_for(c, m, lv, steps_for(c, lv), rescale)
    row = gen.uniform_responses(rng, m.item_categories, 1)
    if c.round % 2:
        row[0, rng.integers(m.items)] = [np.nan, -1][c.round // 2 % 2]
    items = None
    if c.round % 5 == 0:
        items = [int(i) + 1 for i in rng.choice(m.items, 2, replace=False)]
    ll = np.log(oracle.picked(gen.probs64(m, th), np.repeat(row, len(th), 0)))
    y = np.nansum(ll if items is None else ll[:, [i - 1 for i in items]], 1)
    c.feed(row)
    data = gen.t(row)
    fig = m.plot.log_likelihood(data, latent_variables=lv, items=items, rescale=rescale, **kw)
    c.equal(data, gen.t(row), "the data are left alone")
    show(c, m, fig, lv, x, y, f"{kind}/{which} log-likelihood")
    if len(lv) == 1:
        fig = m.plot.log_likelihood(data, latent_variables=lv, items=items, expected_sum_score=True, rescale=rescale, **kw)
        e = oracle.expected_scores(gen.probs64(m, th), m.item_categories, m.mc_correct).sum(1)
        if (np.diff(e) > 1e-5).all() or (np.diff(e) < -1e-5).all():
            curve(c, (fig.data[0].x, fig.data[0].y), e, y, f"{kind}/{which} log-likelihood against expected sum scores")
        tot = (row == np.array(m.mc_correct)).sum() if m.mc_correct is not None else np.where(oracle.missing(row), 0, row).sum()
        c.close(float(fig.layout.shapes[0].x0), float(tot), "with the observed sum score marked", atol=1e-4)


@scenario(P, 40, 400)
def information(c):
    m, kind, which = setting(c, kinds=["2PL", "GPC", "NR", "3PL", "NNcat"])
    d = m.latent_variables
    lv, rescale = lvs(c, m), c.round % 4 != 1
    kw, th, x = grid_for(c, m, lv, steps_for(c, lv), rescale)
    deg = None if d == 1 else [45.0, 45.0] if d == 2 else [54.7] * d
    items = None
    if c.round % 3 == 1:
        items = [int(i) + 1 for i in c.rng.choice(m.items, 2, replace=False)]
    inf = m.information(th, item=True, degrees=deg, rescale=rescale).detach().double().numpy()
    inf = inf.reshape(len(th), m.items)
    if not np.isfinite(inf).all() or np.abs(inf).max() > 1e4:
        raise Skip("singular scale")
    y = (inf if items is None else inf[:, [i - 1 for i in items]]).sum(1)
    show(c, m, m.plot.information(items=items, latent_variables=lv, degrees=deg, rescale=rescale, **kw), lv, x, y, f"{kind}/{which} information")


@scenario(P, 60, 600)
def probabilities(c):
    rng = c.rng
    m, kind, which = setting(c)
    lv, rescale = lvs(c, m), c.round % 4 != 1
    kw, th, x = grid_for(c, m, lv, steps_for(c, lv), rescale)
    item = int(rng.integers(m.items)) + 1
    k = m.item_categories[item - 1]
    deriv = len(lv) == 1 and c.round % 5 == 4 and which in ("none", "Flow", "Reverse", "Rotate") and kind in ("2PL", "GPC", "NR", "3PL", "NRmc")
    if deriv:
        y = m.probability_gradients(th, rescale).detach().double().numpy()[:, item - 1, :k, lv[0] - 1]
    else:
        y = gen.probs64(m, th)[:, item - 1, :k]
    gray = c.round % 7 == 3
    fig = m.plot.item_probabilities(item, latent_variables=lv, plot_derivative=deriv, grayscale=gray, rescale=rescale, **kw)
    kind = f"{kind}/{which}"
    if len(lv) == 1:
        c.ok(len(fig.data) == k, f"{kind}: one curve per category of the item", curves=len(fig.data), categories=k)
        for a in range(k):
            curve(c, (fig.data[a].x, fig.data[a].y), x[:, 0], y[:, a], f"{kind} {'slope' if deriv else 'probability'} curve", atol=4e-3)
            c.ok(fig.data[a].name == (f"{a}" if m.mc_correct is None else f"Option {a + 1}"), "curves are named after the responses", name=fig.data[a].name)
    else:
        surf = [s for s in fig.data if s.type == "surface"]
        c.ok(len(surf) == k, f"{kind}: one surface per category of the item")
        n = int(round(len(y) ** 0.5))
        for a in range(k):
            c.close(np.asarray(surf[a].x), x[:, 0].reshape(n, n), f"{kind}: first axis", rtol=2e-3, atol=2e-3)
            c.close(np.asarray(surf[a].y), x[:, 1].reshape(n, n), f"{kind}: second axis", rtol=2e-3, atol=2e-3)
            c.close(np.asarray(surf[a].z), y[:, a].reshape(n, n), f"{kind}: probability surfaces", rtol=2e-3, atol=2e-3)


@scenario(P, 24, 240)
def group_fit(c):
    rng = c.rng
    m, kind, which = setting(c, latents=1, kinds=["2PL", "GPC", "NR", "NRmc", "3PL"], allow=("Flow", "Reverse"))
    rescale = c.round % 3 != 1
    th = gen.theta(rng, 90, 1)
    x = gen.responses(rng, m, th)
    item = int(rng.integers(m.items)) + 1
    k = m.item_categories[item - 1]
    groups = int(rng.integers(2, 7))
    fig = m.plot.item_probabilities(item, plot_group_fit=True, group_fit_groups=groups, group_fit_data=gen.t(x), group_fit_population_theta=th, rescale=rescale, steps=30)
    data, model, mid = m.evaluate.latent_group_probabilities(data=gen.t(x), theta=th, rescale=rescale, latent_variable=1, groups=groups)
    c.ok(len(fig.data) == 3 * k, f"{kind}: a curve, observed and expected shares for each category", traces=len(fig.data))
    for a in range(k):
        obs, exp = fig.data[3 * a + 1], fig.data[3 * a + 2]
        c.close(np.asarray(obs.x).ravel(), mid.detach().numpy().ravel(), "groups are drawn at their mid points", atol=1e-4)
        c.close(np.asarray(obs.y), data[:, item - 1, a], "observed shares", atol=1e-5)
        c.close(np.asarray(exp.y), model[:, item - 1, a], "expected shares", atol=1e-5)


@scenario(P, 40, 400)
def transformations(c):
    m, kind, which = setting(c, kinds=["2PL", "GPC"], scale=True)
    d = m.latent_variables
    v = int(c.rng.integers(d)) + 1
    kw, th, _ = grid_for(c, m, (v,), 30, False)
    if "theta_range" in kw:
        kw["input_theta_range"] = kw.pop("theta_range")
    with torch.no_grad():
        want = m.transform_theta(th.clone()).double().numpy()
    fig = m.plot.scale_transformations(v, **kw)
    c.ok(len(fig.data) == d, "one curve per transformed latent variable")
    for i in range(d):
        c.close(np.asarray(fig.data[i].x), th[:, v - 1], "original scores on the axis", atol=1e-4)
        c.close(np.asarray(fig.data[i].y), want[:, i], f"{which}: transformed scores", rtol=1e-3, atol=1e-3)


@scenario(P, 40, 400)
def distributions(c):
    rng = c.rng
    m, kind, which = setting(c, kinds=["2PL", "GPC", "NR"], allow=("Reverse", "Rotate", "Flow"))
    d = m.latent_variables
    k = 2 if d > 1 and c.round % 2 else 1
    lv = tuple(int(v) + 1 for v in rng.choice(d, k, replace=False))
    idx = [v - 1 for v in lv]
    if c.round % 3 == 0:
        s = gen.theta(rng, 37, d)
        fig = m.plot.latent_score_distribution(scores_to_plot=s, latent_variables=lv)
    else:
        rescale = c.round % 4 < 2
        data = m.algorithm.train_data if c.round % 3 == 1 else gen.t(gen.responses(rng, m, gen.theta(rng, 25, d)))
        est = "EAP" if d < 3 else "ML"
        s = m.latent_scores(data, rescale=rescale, theta_estimation=est)
        kw = {} if c.round % 3 == 1 else {"population_data": data}
        fig = m.plot.latent_score_distribution(latent_variables=lv, rescale=rescale, theta_estimation=est, **kw)
    want = s.detach().double().numpy()[:, idx]
    if k == 1:
        c.close(np.sort(np.asarray(fig.data[0].x, dtype=float)), np.sort(want[:, 0]), "the histogram is of the latent scores asked for", rtol=1e-2, atol=1e-2)
    else:
        h = fig.data[0]
        cx, cy, z = (np.asarray(v, dtype=float) for v in (h.x, h.y, h.z))
        dx, dy = cx[1] - cx[0], cy[1] - cy[0]
        ref, ex, ey = np.histogram2d(want[:, 0], want[:, 1], bins=len(cx), density=True)
        c.close(cx, (ex[:-1] + ex[1:]) / 2, "the first axis covers the scores", rtol=1e-2, atol=2e-2)
        c.close(cy, (ey[:-1] + ey[1:]) / 2, "the second axis covers the scores", rtol=1e-2, atol=2e-2)
        c.close(z.sum() * dx * dy, 1.0, "the contours are of a density", atol=1e-3)
        if c.round % 3 == 0:
            c.close(z, ref.T, "the density of the scores", rtol=1e-3, atol=1e-4)
        # first and second variable are not exchanged: same means as the scores
        mx = (z.sum(0) * cx).sum() / z.sum()
        my = (z.sum(1) * cy).sum() / z.sum()
        c.leq(abs(mx - want[:, 0].mean()), dx, "scores of the first variable on the first axis")
        c.leq(abs(my - want[:, 1].mean()), dy, "scores of the second variable on the second axis")


@scenario(P, 24, 240)
def relationships(c):
    m, kind, which = setting(c, kinds=["2PL", "GPC", "NR", "Poly", "3PL"], allow=("Reverse", "Rotate"))
    th = m.algorithm.training_theta_scores if c.round % 2 else gen.theta(c.rng, 30, m.latent_variables)
    kw = {} if c.round % 2 else {"theta": th}
    want = m.expected_item_score_gradients(th.clone()).detach().mean(0)
    fig = m.plot.item_latent_variable_relationships(**kw)
    c.close(np.asarray(fig.data[0].z), want, f"{kind}: average slopes of the expected item scores", rtol=1e-3, atol=1e-4)
    r = gen.t(c.rng.normal(0, 1, (m.items, m.latent_variables)))
    fig = m.plot.item_latent_variable_relationships(relationships=r)
    c.close(np.asarray(fig.data[0].z), r, "relationships given are drawn as they are", atol=1e-6)


@scenario(P, 6, 30)
def history(c):
    from irtorch.estimation_algorithms import AE, JML, MML

    alg = [MML, AE, JML][c.round % 3]
    m, kind, x, _ = fits.problem(c, ["2PL"], latents=1, items=4, n=40)
    kw = {"integration_method": "gauss_hermite", "quadrature_points": 7} if alg is MML else {}
    n = int(c.rng.integers(2, 7)) if alg is not AE else 130
    m.fit(gen.t(x), algorithm=alg(), max_epochs=n, **kw)
    h = m.algorithm.training_history["train_loss"]
    fig = m.plot.training_history()
    c.close(np.asarray(fig.data[0].y, dtype=float), np.array([float(v) for v in h]), f"{alg.__name__}: the losses of training", rtol=1e-5)
    c.ok(list(fig.data[0].x) == list(range(1, len(h) + 1)), "in order of the epochs")


@scenario(P, 12, 60)
def refusals(c):
    m, kind, which = setting(c, kinds=["2PL"], latents=2)
    one, _, _ = setting(c, kinds=["2PL"], latents=1, scale=False)
    row = gen.t(np.zeros((1, m.items)))
    calls = {
        "entropy": lambda mm, **k: mm.plot.item_entropy(1, **k),
        "log-likelihood": lambda mm, **k: mm.plot.log_likelihood(row, **k),
        "probabilities": lambda mm, **k: mm.plot.item_probabilities(1, **k),
        "expected": lambda mm, **k: mm.plot.expected_sum_score(**k),
        "information": lambda mm, **k: mm.plot.information(degrees=[45, 45], **k),
    }
    for name, f in calls.items():
        c.raises(TypeError, lambda: f(m, latent_variables=(1, 2, 1)), f"{name}: three variables")
        c.raises(TypeError, lambda: f(one, latent_variables=(1, 2)), f"{name}: more variables than the model has")
        c.raises(TypeError, lambda: f(m, latent_variables=(3,)), f"{name}: a variable the model does not have")
        c.raises(TypeError, lambda: f(m, theta_range=(0, 1, 2)), f"{name}: a range of three numbers")
    c.raises(ValueError, lambda: m.plot.information(), "information needs a direction")
    c.raises(TypeError, lambda: m.plot.item_probabilities(1, plot_group_fit=True), "group fit needs one latent variable")
    c.raises(ValueError, lambda: one.plot.scale_transformations(), "there is no scale to draw")
