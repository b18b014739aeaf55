"""Q3: correlations of residuals."""
import numpy as np
import torch

from harness import evals, gen, oracle
from harness.core import Skip, scenario

P = "C30"


def pairwise_corr(r):
    k = r.shape[1]
    out = np.full((k, k), np.nan)
    for i in range(k):
        for j in range(k):
            ok = ~np.isnan(r[:, i]) & ~np.isnan(r[:, j])
            if i != j and ok.sum() > 1:
                a, b = r[ok, i], r[ok, j]
                a, b = a - a.mean(), b - b.mean()
                den = np.sqrt((a**2).sum() * (b**2).sum())
                out[i, j] = (a * b).sum() / den if den > 1e-9 else np.nan
    return out


@scenario(P, 114, 1200)
def statistic(c):
    m, kind, x, th = evals.problem(c, n=int(c.rng.integers(30, 80)))
    q3, p = evals.as_given(c, lambda a, b: m.evaluate.q3(data=a, theta=b), x, th, "q3")
    c.ok(p is None, "no test unless asked for")
    c.ok(list(q3.columns) == [f"Item {i + 1}" for i in range(m.items)] == list(q3.index), "rows and columns are the items in order")
    g = q3.to_numpy(dtype=float)
    c.equal(np.isnan(np.diag(g)), np.ones(m.items, bool), "no statistic for an item with itself")
    r = evals.residuals(m, th, x)
    want = pairwise_corr(r)
    off = ~np.eye(m.items, dtype=bool)
    fine = off & np.isfinite(want) & (np.nanstd(r, 0)[:, None] > 1e-3) & (np.nanstd(r, 0)[None] > 1e-3)
    c.close(g[fine], want[fine], f"{kind}: Q3 is the correlation of the two items' residuals over respondents who answered both", rtol=0, atol=1.5e-3)
    c.count("item pairs", int(fine.sum()) // 2)


@scenario(P, 24, 200)
def p_values(c):
    """p-values against an independently simulated null distribution"""
    kind = ["2PL", "GPC", "NR", "NRmc", "GRM", "NNcat"][c.round % 6]
    m, kind, x, th = evals.problem(c, kinds=[kind], n=60, items=4, missing=False, easy=True)
    if c.round % 2:
        # dependent items: the second copies the first where possible
        top = min(m.item_categories[0], m.item_categories[1]) - 1
        x[:, 1] = np.minimum(x[:, 0], top)
    gone = np.zeros(x.shape, bool)
    if c.round % 3 == 1:
        # many respondents left one of the first two items out: the null distribution is that of the rest
        gone[:, :2] = c.rng.random((len(x), 2)) < 0.5
        x = np.where(gone, np.nan, x)
        c.feed(x)
    S = 300
    q3, p = m.evaluate.q3(data=gen.t(x), theta=th, sample_hypothesis_test=True, samples=S)
    p = p.to_numpy(dtype=float)
    off = ~np.eye(4, dtype=bool)
    c.ok(np.isnan(np.diag(p)).all() and np.isfinite(p[off]).all(), "a p-value for every pair of different items")
    c.ok((p[off] >= 0).all() and (p[off] <= 1).all(), "p-values are probabilities")
    c.close(p, p.T, "p-values are symmetric", atol=1e-6)
    r = pairwise_corr(evals.residuals(m, th, x))
    null = np.stack([pairwise_corr(evals.residuals(m, th, np.where(gone, np.nan, gen.responses(c.rng, m, th)))) for _ in range(S)])
    lo = (null < r).mean(0)
    want = 2 * np.minimum(lo, 1 - lo)
    pool = (np.nan_to_num(p) + want) / 4  # one-sided tail share, both simulations together
    se = 2 * np.sqrt(np.maximum(pool * (1 - pool), 0.01) * 2 / S)
    c.close(p[off], want[off], f"{kind}: p-values are two-sided tail shares of the statistic under the model at the same scores", rtol=0, atol=(5 * se + 0.02)[off])
    c.count("p-values", int(off.sum()) // 2)


@scenario(P, 12, 100)
def detects_dependence(c):
    kind = ["2PL", "GPC", "GRM"][c.round % 3]
    m, kind, _, _ = evals.problem(c, kinds=[kind], n=20, items=5, easy=True, latents=1)
    th = gen.theta(c.rng, 600, 1, 0.7)
    x = gen.responses(c.rng, m, th)
    top = min(m.item_categories[0], m.item_categories[1]) - 1
    y = x.copy()
    y[:, 1] = np.minimum(x[:, 0], top)
    c.feed(y)
    if not pairwise_corr(evals.residuals(m, th, y))[0, 1] > 0.3:
        raise Skip("items too easy or hard for their dependence to show")
    a = m.evaluate.q3(data=gen.t(x), theta=th)[0].to_numpy(dtype=float)
    b = m.evaluate.q3(data=gen.t(y), theta=th)[0].to_numpy(dtype=float)
    c.leq(np.nanmax(np.abs(a)), 0.25, f"{kind}: no strong dependence when the model holds")
    c.leq(np.nan_to_num(b, nan=-9).max(), b[0, 1], f"{kind}: the dependent pair has the largest Q3")
    c.leq(0.3, b[0, 1], f"{kind}: the dependent pair stands out")


@scenario(P, 12, 100)
def linking_design(c):
    """Two groups take different booklets which share some items: pairs across the booklets have no statistic, all others theirs."""
    m, kind, x, th = evals.problem(c, kinds=[["2PL", "GPC", "NR", "GRM"][c.round % 4]], n=80, items=5, missing=False, easy=True, hi=3)
    x[:40, 1] = np.nan
    x[40:, 0] = np.nan
    apart = np.zeros((5, 5), bool)
    apart[0, 1] = apart[1, 0] = True
    c.feed(x)
    data = gen.t(x) if c.round % 2 else gen.t(np.where(np.isnan(x), -1, x))
    q3, p = m.evaluate.q3(data=data, theta=th, sample_hypothesis_test=True, samples=100)
    q3, p = q3.to_numpy(dtype=float), p.to_numpy(dtype=float)
    off = ~np.eye(5, dtype=bool)
    c.ok((np.isnan(q3[apart]) | (q3[apart] == 0)).all() and np.isnan(p[apart]).all(), f"{kind}: neither dependence (nil or none) nor a p-value for items nobody answered together", q3=q3[apart], p=p[apart])
    r = evals.residuals(m, th, x)
    want = pairwise_corr(r)
    fine = off & np.isfinite(want) & (np.nanstd(r, 0)[:, None] > 1e-3) & (np.nanstd(r, 0)[None] > 1e-3)
    c.close(q3[fine], want[fine], f"{kind}: Q3 of every pair some respondents answered", rtol=0, atol=1.5e-3)
    c.ok(np.isfinite(p[fine]).all(), f"{kind}: a p-value of every pair some respondents answered")
    c.count("pairs in linking designs", int(fine.sum()) // 2)


@scenario(P, 20, 200)
def few_in_common(c):
    """Sparse responses: some pairs of items were answered together by only a handful of respondents."""
    kind = ["2PL", "GPC", "NR", "NRmc", "GRM"][c.round % 5]
    m, kind, x, th = evals.problem(c, kinds=[kind], n=30, items=4, missing=False, easy=True)
    common = 2 + c.round // 5 % 3
    x[:14, 1] = np.nan
    x[14 + common :, 0] = np.nan
    c.feed(x)
    data = gen.t(x) if c.round % 2 else gen.t(np.where(np.isnan(x), -1, x))
    q3 = m.evaluate.q3(data=data, theta=th)[0].to_numpy(dtype=float)
    r = evals.residuals(m, th, x)
    want = pairwise_corr(r)
    for i in range(4):
        for j in range(4):
            both = ~np.isnan(r[:, i]) & ~np.isnan(r[:, j])
            if i != j and np.ptp(r[both, i]) > 0.05 and np.ptp(r[both, j]) > 0.05:
                c.close(q3[i, j], want[i, j], f"{kind}: Q3 of two items answered together by {'few' if both.sum() < 9 else 'many'} respondents", rtol=0, atol=2e-3)
                c.count("pairs with few respondents in common", int(both.sum() < 9))


@scenario(P, 18, 150)
def default_arguments(c):
    m, kind, x, th = evals.problem(c, kinds=["2PL", "GPC", "NR", "NRmc", "GRM", "NNmc"], latents=1, items=5, n=25)
    evals.defaults(c, m, x, lambda **k: torch.tensor(m.evaluate.q3(**k)[0].to_numpy(dtype=float)), f"{kind} q3", 0.03)


@scenario(P, 12, 120)
def asked_again(c):
    evals.ask_again(
        c,
        lambda m, x, th: {
            "q3": evals.table(m.evaluate.q3()[0]),
            "q3 at scores": evals.table(m.evaluate.q3(theta=th)[0]),
            "q3 of data": evals.table(m.evaluate.q3(data=x, theta=th)[0]),
        },
        "Q3",
        tol=3e-3,
    )
