"""Maximum likelihood scores."""
import numpy as np
import torch
from scipy.optimize import minimize

from harness import evals, gen, oracle
from harness.core import Skip, scenario
from irtorch.models import ThreeParameterLogistic

P = "C15"
CONCAVE = ["2PL", "GPC", "GRM", "NR", "1PL", "NRmc"]


def ll_of(m, x):
    def f(th):
        return np.nansum(oracle.loglik(gen.probs64(m, gen.t(th)), x), 1)

    return f


def best1(m, x, lo=-9, hi=9, n=1801):
    """global maximum of every respondent's log-likelihood on a fine grid (one latent variable)"""
    g = np.linspace(lo, hi, n)
    p = gen.probs64(m, gen.t(g[:, None]))
    with np.errstate(divide="ignore"):
        lp = np.log(p)
    miss = oracle.missing(x)
    d = np.where(miss, 0, x).astype(int)
    tot = np.zeros((len(x), n))
    for j in range(x.shape[1]):
        tot += np.where(miss[:, j], 0, 1)[:, None] * lp[:, j, :][:, d[:, j]].T
    i = tot.argmax(1)
    return g[i], tot.max(1)


def fit_stub(c, m, n=60):
    tr = gen.theta(c.rng, n, m.latent_variables, 1.0)
    m.algorithm = gen.FakeFit(gen.t(gen.responses(c.rng, m, tr)), tr)
    return tr


def interior(x, arg, bound=4.0):
    return np.abs(arg) < bound


def setup(c, kinds, latents=1, n=12, items=None):
    m, mask, kind = gen.any_model(c, kinds=kinds, latents=latents, items=items or int(c.rng.integers(8, 15)), hi=4, masked=False if latents == 1 else None)
    if c.round % 4:
        fit_stub(c, m)
    th = gen.theta(c.rng, n * 4, m.latent_variables, 0.8)
    x = gen.responses(c.rng, m, th)
    if c.round % 3:
        x, _ = gen.with_missing(c.rng, x, 0.15)
    return m, kind, x, th


@scenario(P, 48, 600)
def attains_the_maximum(c):
    m, kind, x, _ = setup(c, CONCAVE)
    arg, best = best1(m, x)
    x = x[interior(x, arg)][:10]
    if len(x) == 0:
        raise Skip("no respondent with an interior maximum")
    arg, best = best1(m, x)
    c.feed(x)
    got = m.latent_scores(gen.t(x), theta_estimation="ML", rescale=False)
    c.ok(tuple(got.shape) == (len(x), 1) and torch.isfinite(got).all(), "one finite score per respondent and latent variable", shape=tuple(got.shape))
    ll = ll_of(m, x)(got.double().numpy())
    c.leq(best - ll, np.full(len(x), 5e-3), f"{kind}: no other latent score is more likely than the ML score")
    c.close(got[:, 0], arg, f"{kind}: ML scores are at the maximum of the likelihood", rtol=0, atol=0.05)
    c.count("ML scores compared", len(x))


@scenario(P, 24, 300)
def several_latent_variables(c):
    m, kind, x, th = setup(c, ["2PL", "GPC", "NR", "GRM"], latents=2 + c.round % 2, n=4, items=int(c.rng.integers(14, 20)))
    keep, ref = [], []
    for i in range(len(x)):
        f = lambda q: -float(ll_of(m, x[i : i + 1])(q[None])[0])
        r = minimize(f, th[i].numpy().astype(float), method="Nelder-Mead", options={"xatol": 1e-3, "fatol": 1e-5, "maxiter": 500})
        if np.abs(r.x).max() < 3.5:
            keep.append(i)
            ref.append(-r.fun)
        if len(keep) == 5:
            break
    if not keep:
        raise Skip("no respondent with an interior maximum")
    x = x[keep]
    c.feed(x)
    got = m.latent_scores(gen.t(x), theta_estimation="ML", rescale=False)
    ll = ll_of(m, x)(got.double().numpy())
    c.leq(np.array(ref) - ll, np.full(len(x), 1e-2), f"{kind}: ML scores attain the maximum likelihood in several dimensions")
    c.count("ML scores compared", len(x))


@scenario(P, 24, 300)
def stationary_for_flexible_models(c):
    """Where the likelihood can have several maxima, the score is stationary and at least as good as its neighbourhood."""
    m, kind, x, _ = setup(c, ["3PL", "Poly", "NestNom", "Mix", "NNcat", "NNmc"])
    arg, best = best1(m, x)
    x = x[interior(x, arg, 3.0)][:8]
    if len(x) == 0:
        raise Skip("no respondent with an interior maximum")
    c.feed(x)
    got = m.latent_scores(gen.t(x), theta_estimation="ML", rescale=False).double().numpy()
    f = ll_of(m, x)
    ll = f(got)
    near = np.max([f(got + s) for s in (-0.2, -0.1, 0.1, 0.2)], 0)
    ok = near - ll < 0.05
    # joint optimisation of very different likelihoods may stop early for a few respondents with kinked curves
    c.leq((~ok).mean(), 0.0 if kind in ("3PL", "Poly") else 0.4, f"{kind}: ML scores are local maxima of the likelihood")
    if getattr(m, "algorithm", None) is not None:
        tr = m.algorithm.training_theta_scores.double().numpy()
        start = np.max([f(np.repeat(t[None], len(x), 0)) for t in tr], 0)
        c.leq(start - ll, np.full(len(x), 2e-2 if kind in ("3PL", "Poly") else 0.3), f"{kind}: ML scores are at least as likely as every training score")


@scenario(P, 24, 200)
def several_modes(c):
    """Guessing makes likelihoods with several maxima: the training scores still show the way to a good one."""
    rng = c.rng
    items = int(rng.integers(5, 9))
    m = ThreeParameterLogistic(items=items)
    with torch.no_grad():
        m.weight_param.copy_(gen.t(rng.uniform(1.5, 3.0, items)))
        m.bias_param.copy_(gen.t(np.sort(rng.uniform(-6, 6, items))))
        m.guessing_param.copy_(gen.t(rng.uniform(-1.8, -0.5, items)))
    tr = torch.linspace(-3.5, 3.5, 60 + c.round).view(-1, 1)
    m.algorithm = gen.FakeFit(gen.t(gen.responses(rng, m, tr)), tr)
    n = 24
    # misfitting patterns: hard items right, easy items wrong, and different items missing for everyone
    x = (rng.random((n, items)) < 0.5).astype(float)
    x, _ = gen.with_missing(rng, x, 0.35)
    c.feed(x)
    f = ll_of(m, x)
    start = np.max([f(np.full((n, 1), float(t))) for t in tr[:, 0]], 0)
    got = m.latent_scores(gen.t(x), theta_estimation="ML", lbfgs_learning_rate=0.02 if c.round % 2 else 0.1, rescale=False).double().numpy()
    c.leq(start - f(got), np.full(n, 2e-2), "3PL: ML scores are at least as likely as every training score")
    c.count("likelihoods with guessing", n)


@scenario(P, 32, 400)
def invariances(c):
    """Scores belong to respondents: order, duplicates, missing value codes and deleted items do not matter."""
    m, kind, x, _ = setup(c, ["2PL", "GPC", "GRM", "NR"])
    arg, _ = best1(m, x)
    x = x[interior(x, arg, 3.0)][:7]
    if len(x) < 3:
        raise Skip("too few respondents with an interior maximum")
    c.feed(x)
    score = lambda q: m.latent_scores(gen.t(q), theta_estimation="ML", rescale=False).double().numpy()
    base = score(x)
    p = c.rng.permutation(len(x))
    c.close(score(x[p]), base[p], f"{kind}: scores follow the respondents when they are reordered", rtol=0, atol=0.02)
    c.close(score(x[:1]), base[:1], f"{kind}: a respondent scored alone gets the same score", rtol=0, atol=0.02)
    c.close(score(x[0]), base[:1], f"{kind}: a single respondent can be given as a vector", rtol=0, atol=0.02)
    y, miss = gen.with_missing(c.rng, x, 0.2, code="-1")
    miss |= oracle.missing(x)
    arg, _ = best1(m, np.where(miss, np.nan, y))
    good = interior(y, arg, 3.0)
    if good.any():
        a = score(np.where(miss, -1, y)[good])
        b = score(np.where(miss, np.nan, y)[good])
        c.close(a, b, f"{kind}: -1 and NaN both mean missing", rtol=0, atol=0.02)
        c.close(a[:, 0], arg[good], f"{kind}: missing responses are left out of the likelihood", rtol=0, atol=0.05)


@scenario(P, 10, 60)
def invalid_requests(c):
    m, kind, x, _ = setup(c, ["2PL", "GPC"])
    d = gen.t(x[:3])
    c.raises(ValueError, lambda: m.latent_scores(d, theta_estimation="MLE"), "an unknown estimation method is refused")
    c.raises(ValueError, lambda: m.latent_scores(d, theta_estimation="NN"), "encoder scores need an encoder")
    c.raises(ValueError, lambda: m.latent_scores(d, theta_estimation="EAP", standard_errors=True), "no standard errors for EAP scores")
    c.raises(ValueError, lambda: m.latent_scores(d, theta_estimation="MAP", standard_errors=True), "no standard errors for MAP scores")


@scenario(P, 96, 1200)
def steep_items(c):
    """However sharp the items are, the scores of a group are finite and no less likely than the training scores they started from."""
    rng = c.rng
    kinds = [k for k in gen.ALL if k != "1PL"]
    kind = kinds[c.round % len(kinds)]
    m, _, _ = gen.build(rng, kind, latents=int(rng.choice([1, 1, 2])), items=8, hi=4)
    f = float(rng.choice([1.0, 1.5, 3.0, 5.0, 8.0]))
    with torch.no_grad():
        for name, p in m.named_parameters():
            if "guess" not in name:
                p.mul_(f)
    n = int(rng.choice([40, 300]))
    x = gen.responses(rng, m, gen.theta(rng, n, m.latent_variables, 1.0))
    tr = gen.theta(rng, 100, m.latent_variables, 1.0)
    m.algorithm = gen.FakeFit(gen.t(gen.uniform_responses(rng, m.item_categories, 100)), tr)
    c.feed(x)
    ll = ll_of(m, x)
    each = np.stack([ll(np.repeat(t[None], n, 0)) for t in tr.double().numpy()])
    got = m.latent_scores(gen.t(x), theta_estimation="ML", rescale=False)
    c.ok(bool(torch.isfinite(got).all()), f"{kind}: ML scores are finite however steep the items are", factor=f)
    if not np.isfinite(each.max(0)).all():
        raise Skip("a response pattern without probability in double precision")
    now = ll(got.double().numpy())
    c.leq(each.max(0).sum() - now.sum(), 0.1, f"{kind}: a group's ML scores are at least as likely as the training scores they started from")
    c.count("respondents with steep items", n)


@scenario(P, 6, 60)
def many_respondents(c):
    """Scoring many respondents together is as good as scoring each alone."""
    rng = c.rng
    kind = ["GPC", "2PL", "GRM"][c.round % 3]
    items = int(rng.integers(10, 16))
    d = 2 if c.round % 2 == 0 else 1
    cats = [2 if kind == "2PL" else 4] * items
    m, _, _ = gen.build(rng, kind, latents=d, items=items, cats=cats, random_params=False, masked=False)
    with torch.no_grad():
        for name, p in m.named_parameters():
            if "weight" in name:
                p.copy_(gen.t(rng.normal(0, 1.5, p.numel())).view_as(p))
    n = int(rng.integers(250, 500))
    x = gen.responses(rng, m, gen.theta(rng, n, d, 2.0))
    c.feed(x)
    c.note(model=kind, respondents=n, latents=d)
    got = m.latent_scores(gen.t(x), theta_estimation="ML", rescale=False).double().numpy()
    f = ll_of(m, x)
    base = f(got)
    gain = np.zeros(n)
    for r in (0.03, 0.1, 0.3, 1.0):
        for k in range(8 if d == 2 else 2):
            step = r * (np.array([np.cos(k * np.pi / 4), np.sin(k * np.pi / 4)]) if d == 2 else np.array([1 - 2.0 * k]))
            gain = np.maximum(gain, f(got + step) - base)
    c.leq(float(np.mean(gain > 0.01)), 0.05, f"{kind}: hardly any score can be improved on by moving it")
    c.leq(float(gain.mean()), 0.01, f"{kind}: scoring stops only where the likelihood no longer rises")
    c.count("ML scores compared", n)


@scenario(P, 12, 120)
def asked_again(c):
    evals.ask_again(c, lambda m, x, th: {"ML": m.latent_scores(x, theta_estimation="ML").clamp(-6, 6)}, "scores", kinds=("2PL", "GPC", "GRM", "1PL"), items=9, tol=2e-2)
