"""Residuals, infit and outfit."""
import numpy as np
import torch

from harness import evals, gen, oracle, scales
from harness.core import scenario

P = "C26"


@scenario(P, 152, 1500)
def residuals(c):
    m, kind, x, th = evals.problem(c)
    want = evals.residuals(m, th, x)
    ev = m.evaluate
    f = lambda mode: evals.as_given(c, lambda a, b: ev.residuals(data=a, theta=b, average_over=mode), x, th, "residuals")
    c.close(f("none"), want, f"{kind}: residuals are observed minus expected scores (one minus the chosen answer's probability for multiple choice), missing where the response is", rtol=1e-4, atol=2e-5)
    c.close(f("items"), oracle.nanmean(want, 1), f"{kind}: residuals averaged over items", rtol=1e-4, atol=2e-5)
    c.close(f("respondents"), oracle.nanmean(want, 0), f"{kind}: residuals averaged over respondents", rtol=1e-4, atol=2e-5)
    c.close(float(f("everything")), np.nanmean(want), f"{kind}: residuals averaged over everything", rtol=1e-4, atol=2e-5)
    c.count("residuals compared", want.size)


def fit_stats(m, th, x, axis):
    p = gen.probs64(m, th)
    cats, mc = m.item_categories, m.mc_correct
    s = oracle.item_scores(cats, mc)
    e = np.einsum("njk,jk->nj", p, s)
    v = np.einsum("njk,njk->nj", (s[None] - e[..., None]) ** 2, p)
    miss = oracle.missing(x)
    o = np.where(miss, 0, x).astype(int)
    o = np.take_along_axis(np.broadcast_to(s, p.shape), o[..., None], 2)[..., 0]
    sq = (o - e) ** 2
    sq[miss], v[miss] = np.nan, np.nan
    with np.errstate(invalid="ignore", divide="ignore"):
        return np.nansum(sq, axis) / np.nansum(v, axis), oracle.nanmean(np.where(sq == 0, 0, sq / v), axis), v


@scenario(P, 152, 1500)
def infit_outfit(c):
    m, kind, x, th = evals.problem(c, easy=True)
    th = th.clamp(-1.5, 1.5)
    for level, axis in (("item", 0), ("respondent", 1)):
        inf, outf = evals.as_given(c, lambda a, b: m.evaluate.infit_outfit(data=a, theta=b, level=level), x, th, "infit_outfit")
        wi, wo, v = fit_stats(m, th, x, axis)
        tiny = np.nanmin(np.where(np.isnan(v), np.inf, v), axis=axis)
        tot = np.nansum(v, axis)
        c.close(np.where(tot > 1e-3, inf, 0), np.where(tot > 1e-3, wi, 0), f"{kind}: {level} infit is the sum of squared residuals over the sum of score variances", rtol=1e-3, atol=1e-4)
        c.close(np.where(tiny > 1e-3, outf, 0), np.where(tiny > 1e-3, wo, 0), f"{kind}: {level} outfit is the average squared standardised residual", rtol=2e-3, atol=1e-4)
        c.count("fit statistics compared", int((tiny > 1e-3).sum()))
    c.raises(ValueError, lambda: m.evaluate.infit_outfit(data=gen.t(x), theta=th, level="all"), "unknown levels are refused")


@scenario(P, 16, 150)
def calibrated(c):
    """When the model holds, the statistics are near one; an unusual respondent or item stands out."""
    kind = ["2PL", "GPC", "GRM", "NR", "NRmc", "Poly", "NNmc", "3PL"][c.round % 8]
    m, kind, _, _ = evals.problem(c, kinds=[kind], easy=True, items=10, latents=1, hi=4)
    th = gen.theta(c.rng, 1500, 1, 0.7).clamp(-1.5, 1.5)
    x = gen.responses(c.rng, m, th)
    c.feed(x)
    inf, outf = m.evaluate.infit_outfit(data=gen.t(x), theta=th, level="item")
    informative = np.nansum(fit_stats(m, th, x, 0)[2], 0) > 60
    c.close(np.where(informative, inf, 1), np.ones(10), f"{kind}: infit is near one when the model holds", rtol=0, atol=0.35)
    res = m.evaluate.residuals(data=gen.t(x), theta=th, average_over="respondents")
    if m.mc_correct is None:
        c.close(res, np.zeros(10), f"{kind}: residuals average to about zero when the model holds", rtol=0, atol=0.2)
    y = x.copy()
    y[:, 3] = gen.uniform_responses(c.rng, m.item_categories, len(x))[:, 3]
    s = oracle.item_scores(m.item_categories, m.mc_correct)
    before = np.corrcoef(s[3][x[:, 3].astype(int)], oracle.expected_scores(gen.probs64(m, th), m.item_categories, m.mc_correct)[:, 3])[0, 1]
    if before > 0.5:
        inf2, _ = m.evaluate.infit_outfit(data=gen.t(y), theta=th, level="item")
        c.leq(float(inf[3]) + 0.05, float(inf2[3]), f"{kind}: random answers raise the infit of the item")


@scenario(P, 18, 150)
def default_arguments(c):
    m, kind, x, th = evals.problem(c, kinds=["2PL", "GPC", "NR", "NRmc", "GRM", "NNmc"], latents=1, items=6, n=12)
    if c.round % 2:
        m.add_scale_transformation(scales.random_flow(c.rng, 1))
    evals.defaults(c, m, x, lambda **k: m.evaluate.residuals(**k), f"{kind} residuals", 2e-2)
    evals.defaults(c, m, x, lambda **k: m.evaluate.infit_outfit(level="respondent", **k)[0].nan_to_num(0), f"{kind} infit", 5e-2)


@scenario(P, 40, 400)
def surprising_responses(c):
    """Responses that are nearly impossible under the model weigh as much as their probability says."""
    rng = c.rng
    m, kind, x, th = evals.problem(c, kinds=["2PL", "1PL", "GPC", "NR", "NRmc", "3PL"], latents=1, easy=True, items=6)
    x = np.where(rng.random(x.shape) < 0.3, gen.uniform_responses(rng, m.item_categories, len(x)), x)
    th = gen.theta(rng, len(x), 1, 2.5)
    c.feed(x, th)
    for level, axis in (("item", 0), ("respondent", 1)):
        inf, outf = m.evaluate.infit_outfit(data=gen.t(x), theta=th, level=level)
        wi, wo, v = fit_stats(m, th, x, axis)
        tiny = np.nanmin(np.where(np.isnan(v), np.inf, v), axis=axis)
        sure = tiny > 3e-5
        c.close(np.where(sure, inf, 0), np.where(sure, wi, 0), f"{kind}: {level} infit with surprising responses", rtol=2e-2, atol=1e-3)
        c.close(np.where(sure, outf, 0), np.where(sure, wo, 0), f"{kind}: {level} outfit with surprising responses", rtol=3e-2, atol=1e-3)
        c.count("fit statistics compared", int(sure.sum()))
        c.count("statistics with nearly impossible responses", int((sure & (tiny < 1e-3)).sum()))


@scenario(P, 12, 120)
def asked_again(c):
    evals.ask_again(
        c,
        lambda m, x, th: {
            "residuals": m.evaluate.residuals(),
            "residuals from scores": m.evaluate.residuals(theta=th),
            "residuals from both": m.evaluate.residuals(data=x, theta=th, average_over="respondents"),
            "infit": m.evaluate.infit_outfit(theta=th)[0],
            "outfit": m.evaluate.infit_outfit(data=x, theta=th, level="respondent")[1],
        },
        "fit statistics",
        tol=1e-3,
    )
