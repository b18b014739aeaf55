"""Log-likelihood of evaluated data, and fit in groups of respondents."""
import numpy as np
import torch

from harness import evals, gen, oracle, scales
from harness.core import Skip, scenario

P = "C28"


@scenario(P, 152, 1500)
def log_likelihood(c):
    m, kind, x, th = evals.problem(c)
    want = oracle.loglik(gen.probs64(m, th), x)
    with np.errstate(invalid="ignore"):
        risky = (want < -14) | ~np.isfinite(np.where(np.isnan(want), 0, want))
    if risky.any():
        # keep away from single precision underflow
        th = th.clamp(-1, 1)
        want = oracle.loglik(gen.probs64(m, th), x)
        if (np.nan_to_num(want) < -14).any():
            raise Skip("probabilities underflow")
    f = lambda **k: evals.as_given(c, lambda a, b: m.evaluate.log_likelihood(data=a, theta=b, **k), x, th, "log_likelihood")
    n = np.sum(~np.isnan(want))
    tol = dict(rtol=1e-4, atol=2e-3)
    none = f(reduction="none")
    c.close(none.reshape(want.shape), want, f"{kind}: unreduced log-likelihoods are those of each response, missing where it is", **tol)
    c.close(float(f()), np.nansum(want), f"{kind}: the log-likelihood of the data", **tol)
    c.close(float(f(reduction="mean")), np.nansum(want) / n, f"{kind}: mean over observed responses", **tol)
    c.close(f(level="item"), np.nansum(want, 0), f"{kind}: sum per item", **tol)
    c.close(f(level="respondent"), np.nansum(want, 1), f"{kind}: sum per respondent", **tol)
    c.close(f(level="item", reduction="mean"), oracle.nanmean(want, 0), f"{kind}: mean per item", **tol)
    c.close(f(level="respondent", reduction="mean"), oracle.nanmean(want, 1), f"{kind}: mean per respondent", **tol)
    c.count("log-likelihoods compared", want.size)


@scenario(P, 24, 200)
def impossible_responses(c):
    """A response to which the model gives probability zero is heavily but finitely penalised, and only that response."""
    m, kind, x, th = evals.problem(c, kinds=["2PL", "GRM", "3PL"], latents=1)
    th[0] = 400.0
    ll = m.evaluate.log_likelihood(data=gen.t(x), theta=th, reduction="none").reshape(x.shape)
    c.ok(bool(torch.isfinite(ll[~torch.tensor(oracle.missing(x))]).all()), f"{kind}: evaluated log-likelihoods are finite")
    with np.errstate(invalid="ignore", divide="ignore"):
        want = oracle.loglik(gen.probs64(m, th), x)
    ok = np.isfinite(want) & (want > -12)
    c.close(ll.numpy()[ok], want[ok], f"{kind}: other responses keep their log-likelihood", rtol=1e-3, atol=1e-2)
    zero = np.isneginf(want)
    c.leq(ll.numpy()[zero], np.full(int(zero.sum()), -25.0), f"{kind}: impossible responses are penalised")
    c.count("impossible responses", int(zero.sum()))


@scenario(P, 24, 200)
def surprising_responses(c):
    """However surprising, a possible response counts with its own log-likelihood."""
    m, kind, x, th = evals.problem(c, kinds=["2PL", "1PL", "GPC", "NR", "NRmc"])
    th = th * float(c.rng.choice([10.0, 20.0, 40.0]))
    want = oracle.loglik(gen.probs64(m, th), x)
    known = np.isfinite(want) & (want > -80)  # above the smallest single precision probability
    ll = m.evaluate.log_likelihood(data=gen.t(x), theta=th, reduction="none").detach().numpy().reshape(x.shape)
    c.close(ll[known], want[known], f"{kind}: each response counts with its own log-likelihood, however small", rtol=1e-3, atol=2e-3)
    c.count("responses with log-likelihood below -30", int((want[known] < -30).sum()))


def groups_of(th, groups):
    """stable order and group membership by the equal-size rule: the first n mod g groups get one more"""
    n = len(th)
    sizes = [n // groups + (g < n % groups) for g in range(groups)]
    o = np.argsort(th, kind="stable")
    return np.split(o, np.cumsum(sizes)[:-1])


def chunks_of(th, groups):
    n = len(th)
    size = -(-n // groups)
    o = np.argsort(th, kind="stable")
    return [o[i : i + size] for i in range(0, n, size)]


@scenario(P, 95, 900)
def grouped_log_likelihood(c):
    m, kind, x, th = evals.problem(c)
    th = th.clamp(-1.5, 1.5) + gen.t(c.rng.normal(0, 1e-3, tuple(th.shape)))
    g = int(c.rng.integers(2, 9))
    v = int(c.rng.integers(1, m.latent_variables + 1))
    c.note(groups=g, latent_variable=v)
    ll = oracle.loglik(gen.probs64(m, th), x)
    if not np.isfinite(np.nan_to_num(ll)).all() or np.nanmin(ll) < -14:
        raise Skip("probabilities underflow")
    got = evals.as_given(c, lambda a, b: m.evaluate.group_fit_log_likelihood(data=a, theta=b, groups=g, latent_variable=v), x, th, "group_fit_log_likelihood")
    want = [np.nansum(ll, 1)[i].mean() for i in groups_of(th[:, v - 1].numpy(), g)]
    c.close(got, np.array(want), f"{kind}: the group log-likelihood is the average over the group's respondents of their own log-likelihood", rtol=1e-4, atol=2e-3)


def shares(x, idx, cats, kmax):
    out = np.full((len(cats), kmax), np.nan)
    for j, k in enumerate(cats):
        v = x[idx, j]
        v = v[~oracle.missing(v)].astype(int)
        if len(v):
            out[j] = np.bincount(v, minlength=kmax) / len(v)
    return out


@scenario(P, 152, 1500)
def grouped_probabilities(c):
    m, kind, x, th = evals.problem(c, n=int(c.rng.integers(50, 90)))
    g = int(c.rng.integers(2, 7))
    v = int(c.rng.integers(1, m.latent_variables + 1))
    name = None
    if c.round % 2:
        name, s = scales.any_scale(c.rng, m, allow=("Reverse", "Flow"))
        m.add_scale_transformation(s)
    use = c.round % 4 != 3
    c.note(groups=g, latent_variable=v, scale=name, rescale=use)
    with torch.no_grad():
        axis = (m.transform_theta(th) if name and use else th)[:, v - 1].double().numpy()
    if len(np.unique(axis)) < len(axis):
        raise Skip("ties")
    obs, mod, mid = evals.as_given(c, lambda a, b: m.evaluate.latent_group_probabilities(data=a, theta=b, groups=g, latent_variable=v, rescale=use), x, th, "latent_group_probabilities")
    idx = chunks_of(axis, g)
    kmax = max(m.item_categories)
    p = gen.probs64(m, th)
    c.close(obs, np.stack([shares(x, i, m.item_categories, kmax) for i in idx]), f"{kind}: observed category proportions among the group's observed responses", atol=1e-5)
    c.close(mod, np.stack([p[i].mean(0) for i in idx]), f"{kind}: model probabilities averaged over the group", atol=2e-5)
    mid = mid.double().numpy()
    c.leq(np.array([axis[i].min() for i in idx]), mid, f"{kind}: group mid points lie in the group on the scale asked for", 1e-4)
    c.leq(mid, np.array([axis[i].max() for i in idx]), f"{kind}: group mid points lie in the group on the scale asked for", 1e-4)
    # residuals
    res, mid2 = m.evaluate.group_fit_residuals(data=gen.t(x), theta=th, groups=g, latent_variable=v, rescale=use, standardize=False)
    c.close(mid2, mid, "the same mid points", atol=1e-5)
    raw = obs.double().numpy() - mod.double().numpy()
    for j, k in enumerate(m.item_categories):
        raw[:, j, k:] = np.nan
    c.close(res, raw, f"{kind}: raw group residuals are observed minus model proportions", atol=2e-5)
    std, _ = m.evaluate.group_fit_residuals(data=gen.t(x), theta=th, groups=g, latent_variable=v, rescale=use, standardize=True)
    pm = mod.double().numpy()
    n = np.array([(~oracle.missing(x[i])).sum(0) for i in idx])[:, :, None]
    with np.errstate(invalid="ignore", divide="ignore"):
        want = raw / np.sqrt(pm * (1 - pm) / n)
    ok = np.isfinite(want) & (pm > 1e-3) & (pm < 1 - 1e-3)
    c.close(std.double().numpy()[ok], want[ok], f"{kind}: standardised residuals divide by the binomial standard error of the group's responses to the item", rtol=1e-3, atol=1e-3)
    c.count("standardised residuals", int(ok.sum()))


@scenario(P, 18, 150)
def default_arguments(c):
    m, kind, x, th = evals.problem(c, kinds=["2PL", "GPC", "NR", "NRmc", "GRM", "NNmc"], latents=1, items=6, n=20)
    evals.defaults(c, m, x, lambda **k: m.evaluate.log_likelihood(level="respondent", **k), f"{kind} log-likelihood", 2e-2)
    m.evaluate.group_fit_residuals(groups=3, theta_estimation="MAP")
    a = m.evaluate.group_fit_log_likelihood(data=None, theta=m.algorithm.training_theta_scores, groups=3)
    b = m.evaluate.group_fit_log_likelihood(data=m.algorithm.train_data, theta=m.algorithm.training_theta_scores, groups=3)
    c.equal(a, b, "left-out data are the training data")
    a = m.evaluate.latent_group_probabilities(theta=m.algorithm.training_theta_scores, groups=4)
    b = m.evaluate.latent_group_probabilities(data=m.algorithm.train_data, theta=m.algorithm.training_theta_scores, groups=4)
    for q, r in zip(a, b):
        c.equal(q, r, "left-out data are the training data")


@scenario(P, 12, 120)
def asked_again(c):
    evals.ask_again(
        c,
        lambda m, x, th: {
            "log-likelihood": m.evaluate.log_likelihood(level="respondent"),
            "log-likelihood of the data": m.evaluate.log_likelihood(data=x, level="respondent"),
            "log-likelihood at scores": m.evaluate.log_likelihood(data=x, theta=th, level="item"),
            "grouped log-likelihood": m.evaluate.group_fit_log_likelihood(groups=3, theta=th),
            "grouped residuals": m.evaluate.group_fit_residuals(groups=3, theta=th, standardize=False)[0].nan_to_num(0),
            "group probabilities": m.evaluate.latent_group_probabilities(data=x, theta=th, groups=3)[1],
        },
        "evaluation",
        tol=1e-3,
    )
