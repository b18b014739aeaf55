"""Mutual information difference."""
import numpy as np
import torch

from harness import evals, gen, oracle
from harness.core import scenario

P = "C31"


def H(p, base):
    p = np.asarray(p, dtype=np.float64).ravel()
    p = p[p > 0]
    return -(p * np.log(p)).sum() / np.log(base)


def data_mi(x, base, cats):
    """H(i) + H(j) - H(i, j) with the entropies over the responses available for each"""
    k = x.shape[1]
    miss = oracle.missing(x)
    single = []
    for i in range(k):
        v = x[~miss[:, i], i].astype(int)
        single.append(H(np.bincount(v) / len(v), base))
    out = np.zeros((k, k))
    for i in range(k):
        for j in range(k):
            ok = ~miss[:, i] & ~miss[:, j]
            t = np.zeros((cats[i], cats[j]))
            np.add.at(t, (x[ok, i].astype(int), x[ok, j].astype(int)), 1)
            out[i, j] = single[i] + single[j] - H(t / ok.sum(), base)
    return out


def model_mi(m, th, base):
    p = gen.probs64(m, th)
    k = p.shape[1]
    single = [H(p[:, i].mean(0), base) for i in range(k)]
    out = np.zeros((k, k))
    for i in range(k):
        for j in range(k):
            out[i, j] = single[i] + single[j] - H(np.einsum("na,nb->ab", p[:, i], p[:, j]) / len(p), base)
    return out


@scenario(P, 114, 1200)
def statistic(c):
    n = gen.size(c.rng, 30, 80, 600, 1100, 2100)
    m, kind, x, th = evals.problem(c, n=n, items=4 if n > 80 else None)
    base = float(c.rng.choice([2.0, np.e, 10.0]))
    c.note(log_base=base)
    mid, amid, p = evals.as_given(c, lambda a, b: m.evaluate.mutual_information_difference(data=a, theta=b, log_base=base), x, th, "mutual_information_difference")
    c.ok(p is None, "no test unless asked for")
    for df in (mid, amid):
        c.ok(list(df.columns) == [f"Item {i + 1}" for i in range(m.items)] == list(df.index), "rows and columns are the items in order")
    want = data_mi(x, base, m.item_categories) - model_mi(m, th, base)
    off = ~np.eye(m.items, dtype=bool)
    c.close(mid.to_numpy(dtype=float)[off], want[off], f"{kind}: MID is the observed minus the model implied mutual information", rtol=1e-3, atol=1e-4)
    c.close(amid.to_numpy(dtype=float)[off], np.abs(want[off]), f"{kind}: AMID is its absolute value", rtol=1e-3, atol=1e-4)
    c.count("item pairs", int(off.sum()) // 2)


@scenario(P, 24, 200)
def p_values(c):
    kind = ["2PL", "GPC", "NR", "NRmc", "GRM", "NNcat"][c.round % 6]
    m, kind, x, th = evals.problem(c, kinds=[kind], n=60, items=4, missing=False, easy=True, hi=3)
    if c.round % 2:
        top = min(m.item_categories[0], m.item_categories[1]) - 1
        x[:, 1] = np.minimum(x[:, 0], top)
    gone = np.zeros(x.shape, bool)
    if c.round % 3 == 1:
        # many respondents left one of the first two items out: the null distribution is that of the rest
        gone[:, :2] = c.rng.random((len(x), 2)) < 0.5
        x = np.where(gone, np.nan, x)
        c.feed(x)
    S = 300
    mid, amid, p = m.evaluate.mutual_information_difference(data=gen.t(x), theta=th, sample_hypothesis_test=True, samples=S)
    p = p.to_numpy(dtype=float)
    off = ~np.eye(4, dtype=bool)
    c.ok(np.isnan(np.diag(p)).all() and np.isfinite(p[off]).all(), "a p-value for every pair of different items")
    c.ok((p[off] >= 0).all() and (p[off] <= 1).all(), "p-values are probabilities")
    c.close(p, p.T, "p-values are symmetric", atol=1e-6)
    mod = model_mi(m, th, 2.0)
    obs = np.abs(data_mi(x, 2.0, m.item_categories) - mod)
    null = np.stack([np.abs(data_mi(np.where(gone, np.nan, gen.responses(c.rng, m, th)), 2.0, m.item_categories) - mod) for _ in range(S)])
    want = (null > obs).mean(0)
    se = np.sqrt(np.maximum(want * (1 - want), 0.01) * 2 / S)
    c.close(p[off], want[off], f"{kind}: p-values are the share of larger AMIDs under the model at the same scores", rtol=0, atol=(5 * se + 0.01)[off])
    c.count("p-values", int(off.sum()) // 2)


@scenario(P, 12, 100)
def linking_design(c):
    """Two groups take different booklets which share some items: pairs across the booklets have no statistic, all others theirs."""
    m, kind, x, th = evals.problem(c, kinds=[["2PL", "GPC", "NR", "GRM"][c.round % 4]], n=80, items=5, missing=False, easy=True, hi=3)
    x[:40, 1] = np.nan
    x[40:, 0] = np.nan
    apart = np.zeros((5, 5), bool)
    apart[0, 1] = apart[1, 0] = True
    gone = np.isnan(x)
    c.feed(x)
    data = gen.t(x) if c.round % 2 else gen.t(np.where(gone, -1, x))
    S = 200
    mid, amid, p = m.evaluate.mutual_information_difference(data=data, theta=th, sample_hypothesis_test=True, samples=S)
    off = ~np.eye(5, dtype=bool)
    pairs = off & ~apart
    mod = model_mi(m, th, 2.0)
    with np.errstate(all="ignore"):
        want = data_mi(x, 2.0, m.item_categories) - mod
        null = np.stack([np.abs(data_mi(np.where(gone, np.nan, gen.responses(c.rng, m, th)), 2.0, m.item_categories) - mod) for _ in range(S)])
    mid, amid, p = (d.to_numpy(dtype=float) for d in (mid, amid, p))
    for name, d in (("MID", mid), ("AMID", amid), ("p-value", p)):
        c.ok(np.isnan(d[apart]).all(), f"{kind}: no {name} for items nobody answered together", got=d[apart])
    c.close(mid[pairs], want[pairs], f"{kind}: MID of every pair some respondents answered", rtol=1e-3, atol=1e-4)
    c.close(amid[pairs], np.abs(want[pairs]), f"{kind}: AMID of every pair some respondents answered", rtol=1e-3, atol=1e-4)
    q = (null > np.abs(want)).mean(0)
    se = np.sqrt(np.maximum(q * (1 - q), 0.01) * 2 / S)
    c.close(p[pairs], q[pairs], f"{kind}: p-value of every pair some respondents answered", rtol=0, atol=(5 * se + 0.01)[pairs])
    c.count("pairs in linking designs", int(pairs.sum()) // 2)


@scenario(P, 18, 150)
def default_arguments(c):
    m, kind, x, th = evals.problem(c, kinds=["2PL", "GPC", "NR", "NRmc", "GRM", "NNmc"], latents=1, items=5, n=25)
    evals.defaults(c, m, x, lambda **k: torch.tensor(m.evaluate.mutual_information_difference(**k)[0].to_numpy(dtype=float)), f"{kind} MID", 0.03)


@scenario(P, 12, 120)
def asked_again(c):
    evals.ask_again(
        c,
        lambda m, x, th: {
            "MID": evals.table(m.evaluate.mutual_information_difference()[0]),
            "MID at scores": evals.table(m.evaluate.mutual_information_difference(theta=th)[0]),
            "MID of data": evals.table(m.evaluate.mutual_information_difference(data=x, theta=th)[1]),
        },
        "MID",
        tol=1e-3,
    )
