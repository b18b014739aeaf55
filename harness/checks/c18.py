"""Standard errors of latent scores."""
import numpy as np
import torch

from harness import gen, oracle, scales
from harness.checks.c15 import best1, fit_stub, interior
from harness.core import Skip, scenario
from irtorch.estimation_algorithms import AE, VAE
from irtorch.models import GeneralizedPartialCredit, TwoParameterLogistic

P = "C18"


def test_information(m, th, x=None):
    """Information matrix of the items answered, from float64 finite differences of the probabilities."""
    p = gen.probs64(m, th)
    g = oracle.numgrad(lambda q: gen.probs64(m, gen.t(q)), th.double().numpy(), h=0.02)
    with np.errstate(divide="ignore", invalid="ignore"):
        w = np.where(p > 1e-7, 1 / p, 0)
    if x is not None:
        w = w * (~(np.isnan(x) | (x == -1)))[:, :, None]
    return np.einsum("nikd,nike,nik->nde", g, g, w)


def se_from(info):
    """Roots of the diagonal of the inverse information; infinite where there is none, NaN where it is too ill-conditioned to say."""
    out = np.full(info.shape[:2], np.inf)
    for i, a in enumerate(info):
        k = np.diag(a) > 0
        b = a[np.ix_(k, k)]
        out[i, k] = np.sqrt(np.diag(np.linalg.inv(b))) if np.linalg.cond(b) < 300 else np.nan
    return out


def compare(c, got, want, what, **kw):
    got = got.double().numpy()
    k = ~np.isnan(want)
    c.close(got[k], want[k], what, **kw)
    c.count("standard errors compared", int(k.sum()))


@scenario(P, 40, 400)
def ml_standard_errors(c):
    d = [1, 2, 1, 2, 3][c.round % 5]
    m, _, kind = gen.any_model(c, kinds=["2PL", "GPC", "GRM", "NR", "3PL", "NRmc", "Poly"], latents=d, items=int(c.rng.integers(12, 20)), hi=4)
    fit_stub(c, m)
    x = gen.responses(c.rng, m, gen.theta(c.rng, 12, d, 0.6))
    if c.round % 3:
        x, _ = gen.with_missing(c.rng, x, 0.1)
    if d == 1:
        arg, _ = best1(m, x)
        x = x[interior(x, arg, 2.5)]
    x = x[:6]
    if not len(x):
        raise Skip("no interior respondents")
    c.feed(x)
    pipeline = []
    if c.round % 2:
        for _ in range(int(c.rng.integers(1, 3))):
            name, s = scales.any_scale(c.rng, m, allow=("Reverse", "Rotate", "Flow"))
            m.add_scale_transformation(s)
            pipeline.append(name)
    c.note(scales=pipeline)
    raw, se0 = m.latent_scores(gen.t(x), standard_errors=True, theta_estimation="ML", rescale=False)
    c.ok(se0.shape == raw.shape, "one standard error per latent score")
    sel = (raw.abs().amax(1) < 3).numpy()
    if not sel.any():
        raise Skip("no interior respondents")
    info = test_information(m, raw[sel], x[sel])
    compare(c, se0[sel], se_from(info), f"{kind}: squared standard errors are the diagonal of the inverse test information at the score", rtol=3e-2, atol=1e-3)
    if pipeline:
        th, se = m.latent_scores(gen.t(x), standard_errors=True, theta_estimation="ML", rescale=True)
        with torch.no_grad():
            c.close(th, m.transform_theta(raw), "standard errors come with the transformed scores", rtol=1e-3, atol=1e-2)
        J = m.theta_transform_jacobian(raw[sel]).detach().double().numpy()
        Ji = np.linalg.inv(J)
        t_info = np.einsum("nda,nde,neb->nab", Ji, info, Ji)
        compare(c, se[sel], se_from(t_info), f"{kind}: on a transformed scale they refer to that scale", rtol=5e-2, atol=2e-3)


@scenario(P, 12, 100)
def honest_spread(c):
    """Over replicated tests, ML scores spread as their standard errors say."""
    m, _, kind = gen.any_model(c, kinds=["2PL", "GPC", "GRM"], latents=1, items=40, easy=True, hi=4)
    t0 = float(c.rng.uniform(-0.7, 0.7))
    x = gen.responses(c.rng, m, torch.full((400, 1), t0))
    c.feed(x)
    th, se = m.latent_scores(gen.t(x), standard_errors=True, theta_estimation="ML")
    z = (th[:, 0] - t0) / se[:, 0]
    c.leq(abs(float(z.mean())), 0.3, f"{kind}: ML scores are centred at the true score")
    c.close(float(z.std()), 1.0, f"{kind}: ML scores spread as their standard errors say", rtol=0, atol=0.2)
    c.close(float(se.mean()), float(th.std()), f"{kind}: the size of the standard errors is right", rtol=0.25)


@scenario(P, 8, 60)
def honest_spread_of_partial_tests(c):
    """Respondents who were given part of the items know less about themselves."""
    rng = c.rng
    m, _, kind = gen.any_model(c, kinds=["2PL", "GPC", "GRM"], latents=1, items=80, easy=True, hi=4)
    t0 = float(rng.uniform(-0.7, 0.7))
    x = gen.responses(rng, m, torch.full((300, 1), t0))
    part = np.zeros(x.shape, bool)
    for row in part:
        row[rng.permutation(80)[:30]] = True
    x = np.where(part, x, -1 if c.round % 2 else np.nan)
    c.feed(x)
    th, se = m.latent_scores(gen.t(x), standard_errors=True, theta_estimation="ML")
    sel = (th[:, 0].abs() < 3).numpy()
    if sel.mean() < 0.98:
        raise Skip("no interior respondents")
    z = ((th[:, 0] - t0) / se[:, 0])[sel]
    c.close(float(z.std()), 1.0, f"{kind}: scores of partly answered tests spread as their standard errors say", rtol=0, atol=0.22)
    compare(c, se[sel][:40], se_from(test_information(m, th[sel][:40], x[sel][:40])), f"{kind}: only the items answered inform", rtol=3e-2, atol=1e-3)
    none = np.full((1, 80), np.nan)
    _, se = m.latent_scores(gen.t(none), standard_errors=True, theta_estimation="ML")
    c.ok(bool(torch.isinf(se).all()), f"{kind}: nothing is known about who answered nothing", got=se)


@scenario(P, 8, 60)
def unmeasured_ability(c):
    """A latent variable no item relates to has no finite standard error; the others keep theirs."""
    rng = c.rng
    kind = ["2PL", "GPC"][c.round % 2]
    d = 2 + c.round // 2 % 2
    free = int(rng.integers(d))
    mask = torch.ones(14, d, dtype=torch.bool)
    mask[:, free] = False
    if kind == "2PL":
        m = TwoParameterLogistic(latent_variables=d, items=14, item_theta_relationships=mask)
    else:
        m = GeneralizedPartialCredit(latent_variables=d, item_categories=[3] * 14, item_theta_relationships=mask)
    gen.randomize(m, rng, easy=True)
    x = gen.responses(rng, m, gen.theta(rng, 6, d, 0.5))
    c.feed(x)
    c.note(latents=d, unmeasured=free)
    th, se = m.latent_scores(gen.t(x), standard_errors=True, theta_estimation="ML")
    sel = (th.abs().amax(1) < 3).numpy()
    if not sel.any():
        raise Skip("no interior respondents")
    c.ok(bool(torch.isinf(se[:, free]).all()), f"{kind}: no standard error for what is not measured", got=se[:3])
    compare(c, se[sel], se_from(test_information(m, th[sel])), f"{kind}: the others have theirs", rtol=3e-2, atol=1e-3)


@scenario(P, 8, 80)
def honest_spread_in_two_dimensions(c):
    """Items that measure two abilities at once: estimates trade one off against the other."""
    rng = c.rng
    kind = ["2PL", "GPC"][c.round % 2]
    m, _, _ = gen.build(rng, kind, latents=2, items=120, cats=[2 if kind == "2PL" else 3] * 120, random_params=False, masked=False)
    with torch.no_grad():
        for name, p in m.named_parameters():
            v = np.exp(rng.normal(-0.2, 0.35, p.numel())) if "weight" in name else rng.normal(0, 0.6, p.numel())
            p.copy_(gen.t(v).view_as(p))
    t0 = rng.uniform(-0.5, 0.5, 2)
    x = gen.responses(rng, m, gen.t(np.tile(t0, (300, 1))))
    c.feed(x)
    th, se = m.latent_scores(gen.t(x), standard_errors=True, theta_estimation="ML")
    want = se_from(test_information(m, gen.t(t0[None])))[0]
    c.note(model=kind, correlation_at_the_truth=float(np.round(want.max(), 2)))
    if not (want < 0.5).all():
        raise Skip("too little information about one of the abilities")
    z = ((th - gen.t(t0)) / se).double().numpy()
    c.leq(np.abs(np.median(z, 0)), np.full(2, 0.35), f"{kind}: ML scores are centred at the true scores")
    spread = np.diff(np.quantile(z, [0.1, 0.9], axis=0), axis=0)[0] / 2.563
    c.close(spread, np.ones(2), f"{kind}: ML scores spread as their standard errors say", rtol=0, atol=0.25)


@scenario(P, 16, 120)
def encoder_standard_errors(c):
    rng = c.rng
    d = 1 + c.round % 2
    items = 6
    cats = [2] * items if c.round % 3 else [3] * items
    m, _, kind = gen.build(rng, "GPC" if cats[0] == 3 else "2PL", latents=d, items=items, cats=cats, random_params=False)
    x = gen.full_support(rng, gen.uniform_responses(rng, cats, 40), cats)
    alg = VAE()
    m.fit(gen.t(x), algorithm=alg, max_epochs=int(rng.integers(1, 20)), iw_samples=int(rng.integers(1, 4)), device="cpu")
    with torch.no_grad():
        for p in alg.encoder.parameters():
            p.add_(gen.t(rng.normal(0, 0.1, tuple(p.shape))))
    q = gen.uniform_responses(rng, cats, 5)
    c.feed(q)
    oh = np.concatenate([np.eye(k)[q[:, j].astype(int)] for j, k in enumerate(cats)], 1)
    with torch.no_grad():
        mu, logvar = alg.encoder(gen.t(oh))
    th, se = m.latent_scores(gen.t(q), standard_errors=True, theta_estimation="NN", rescale=False)
    c.close(th, mu, "encoder scores are the encoder's means", rtol=1e-5, atol=1e-6)
    sd = np.exp(0.5 * logvar.double().numpy())
    c.close(se, sd, "their standard errors are the encoder's standard deviations", rtol=1e-5, atol=1e-6)
    name, s = scales.any_scale(rng, m, allow=("Reverse", "Rotate", "Flow"))
    m.add_scale_transformation(s)
    c.note(latents=d, scale=name)
    th2, se2 = m.latent_scores(gen.t(q), standard_errors=True, theta_estimation="NN", rescale=True)
    with torch.no_grad():
        c.close(th2, m.transform_theta(mu), "encoder scores are transformed", rtol=1e-4, atol=1e-5)
    J = oracle.numgrad(lambda v: m.transform_theta(gen.t(v)).detach().double().numpy(), mu.double().numpy(), h=0.01)
    want = np.sqrt(np.einsum("nij,nj->ni", J**2, sd**2))
    c.close(se2, want, "and their standard errors follow by the delta method", rtol=3e-2, atol=1e-3 * max(1, np.abs(J).max()))


@scenario(P, 8, 60)
def autoencoder_standard_errors(c):
    """An autoencoder has no posterior: encoder scores get information based standard errors."""
    rng = c.rng
    cats = [2] * 8
    m = TwoParameterLogistic(latent_variables=1, items=8)
    x = gen.full_support(rng, gen.uniform_responses(rng, cats, 40), cats)
    m.fit(gen.t(x), algorithm=AE(), max_epochs=30, device="cpu")
    gen.randomize(m, rng, easy=True)
    q = gen.uniform_responses(rng, cats, 5)
    if c.round % 2:
        q[rng.random(q.shape) < 0.2] = np.nan
    c.feed(q)
    th, se = m.latent_scores(gen.t(q), standard_errors=True, theta_estimation="NN", rescale=False)
    info = test_information(m, th, q)
    c.close(se, se_from(info), "standard errors are the inverse root of the test information at the encoder score", rtol=2e-2, atol=1e-3)


@scenario(P, 12, 120)
def hardly_distinguishable_abilities(c):
    """Two latent variables the items measure in nearly the same proportions: large, finite standard errors."""
    rng = c.rng
    d = 2 + c.round % 2
    n = int(rng.integers(12, 25))
    w = rng.uniform(0.8, 1.6, (n, 1)) * (1 + rng.normal(0, rng.choice([0.03, 0.08, 0.15]), (n, d)))
    m = TwoParameterLogistic(latent_variables=d, items=n)
    with torch.no_grad():
        m.weight_param.copy_(gen.t(w.ravel()))
        m.bias_param.copy_(gen.t(rng.normal(0, 0.7, n)))
    fit_stub(c, m)
    x = gen.responses(rng, m, gen.theta(rng, 8, d, 0.5))
    c.feed(x, w)
    th, se = m.latent_scores(gen.t(x), standard_errors=True, theta_estimation="ML")
    t = th.double().numpy()
    a = m.weight_param.detach().double().numpy().reshape(n, d)
    p = 1 / (1 + np.exp(-(t @ a.T + m.bias_param.detach().double().numpy())))
    info = np.einsum("ni,ia,ib->nab", p * (1 - p), a, a)
    sel = (np.linalg.cond(info) < 1e4) & (p * (1 - p) > 1e-4).all(1)
    if not sel.any():
        raise Skip("information is too ill-conditioned")
    want = np.sqrt(np.einsum("nii->ni", np.linalg.inv(info[sel])))
    c.close(se[sel], want, "standard errors are the roots of the diagonal of the inverse information, however similar the latent variables", rtol=3e-2, atol=1e-3)
    c.count("standard errors compared", int(sel.sum()) * d)
    c.count("ill-conditioned information matrices", int((np.linalg.cond(info[sel]) > 100).sum()))


@scenario(P, 8, 80)
def little_information(c):
    """Items that hardly tell respondents apart give large standard errors, not none."""
    rng = c.rng
    kind = ["2PL", "GPC"][c.round % 2]
    d = 1 + c.round // 2 % 2
    items = int(rng.integers(3, 7))
    m, _, _ = gen.build(rng, kind, latents=d, items=items, cats=[2 if kind == "2PL" else 3] * items, random_params=False, masked=False)
    size = float(10 ** rng.uniform(-2.5, -1))
    with torch.no_grad():
        for name, p in m.named_parameters():
            v = rng.uniform(0.3, 1, p.numel()) * size * rng.choice([-1, 1], p.numel()) if "weight" in name else rng.normal(0, 0.5, p.numel())
            p.copy_(gen.t(v).view_as(p))
    x = gen.responses(rng, m, gen.theta(rng, 6, d))
    c.feed(x)
    c.note(model=kind, latents=d, weights=size)
    th, se = m.latent_scores(gen.t(x), standard_errors=True, theta_estimation="ML")
    info = m.information(th, item=False).double().numpy()
    sel = (th.abs().amax(1) * size < 3).numpy()
    if not sel.any():
        raise Skip("no interior respondents")
    # the information itself is C08's business, checked here against the squared slopes once more
    p = gen.probs64(m, th)
    g = oracle.numgrad(lambda q: gen.probs64(m, gen.t(q)), th.double().numpy(), h=0.3 / size)
    c.close(info[sel], np.einsum("nikd,nike,nik->nde", g, g, 1 / p)[sel], f"{kind}: information", rtol=0.1, atol=1e-3 * size**2)
    want = np.full(se.shape, np.nan)
    for i, a in enumerate(info):
        if np.linalg.cond(a) < 1e3:
            want[i] = np.sqrt(np.diag(np.linalg.inv(a)))
    compare(c, se[sel], want[sel], f"{kind}: standard errors are large but finite", rtol=3e-2)
