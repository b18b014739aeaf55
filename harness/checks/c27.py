"""Prediction accuracy, precision, recall and F1."""
import numpy as np
import torch

from harness import evals, gen, oracle
from harness.core import scenario

P = "C27"


def predicted(m, th):
    return gen.probs64(m, th).astype(np.float32).argmax(2)


@scenario(P, 152, 1500)
def accuracy(c):
    m, kind, x, th = evals.problem(c, n=None if c.round % 4 else int(c.rng.integers(2, 12)))
    hit = np.where(oracle.missing(x), np.nan, predicted(m, th) == x)
    f = lambda lv: evals.as_given(c, lambda a, b: m.evaluate.accuracy(data=a, theta=b, level=lv), x, th, "accuracy")
    c.close(float(f("all")), np.nanmean(hit), f"{kind}: accuracy is the share of observed responses that are the most probable ones", atol=1e-5)
    c.close(f("item"), oracle.nanmean(hit, 0), f"{kind}: accuracy per item", atol=1e-5)
    c.close(f("respondent"), oracle.nanmean(hit, 1), f"{kind}: accuracy per respondent", atol=1e-5)


@scenario(P, 152, 1500)
def precision_recall(c):
    m, kind, x, th = evals.problem(c, n=None if c.round % 4 else int(c.rng.integers(2, 12)))
    pred = predicted(m, th)
    miss = oracle.missing(x)
    df = evals.as_given(c, lambda a, b: m.evaluate.predictions(data=a, theta=b), x, th, "predictions")
    c.ok(list(df.columns) == ["precision", "recall", "f1", "w_precision", "w_recall", "w_f1"] and len(df) == m.items, "one row per item with the documented columns", columns=list(df.columns))
    for j, k in enumerate(m.item_categories):
        o, q = x[~miss[:, j], j], pred[~miss[:, j], j]
        pr, re, f1, w = (np.zeros(k) for _ in range(4))
        for r in range(k):
            tp = ((o == r) & (q == r)).sum()
            pr[r] = tp / max((q == r).sum(), 1)
            re[r] = tp / max((o == r).sum(), 1)
            f1[r] = 0 if tp == 0 else 2 * pr[r] * re[r] / (pr[r] + re[r])
            w[r] = (o == r).mean()
        want = [pr.mean(), re.mean(), f1.mean(), pr @ w, re @ w, f1 @ w]
        c.close(df.iloc[j].to_numpy(dtype=float), np.array(want), f"{kind}: precision, recall and F1 averaged over the item's categories", atol=1e-5)


@scenario(P, 18, 150)
def default_arguments(c):
    m, kind, x, th = evals.problem(c, kinds=["2PL", "GPC", "NR", "NRmc", "GRM", "NNmc"], latents=1, items=6, n=12)
    evals.defaults(c, m, x, lambda **k: m.evaluate.accuracy(level="all", **k), f"{kind} accuracy", 0.03)
    evals.defaults(c, m, x, lambda **k: torch.tensor(m.evaluate.predictions(**k).to_numpy(dtype=float).mean()), f"{kind} predictions", 0.03)


@scenario(P, 12, 120)
def asked_again(c):
    evals.ask_again(
        c,
        lambda m, x, th: {
            "accuracy": m.evaluate.accuracy(theta=th, level="item"),
            "accuracy from data": m.evaluate.accuracy(data=x, theta=th, level="respondent"),
            "accuracy at estimated scores": m.evaluate.accuracy(level="item"),
            "predictions": evals.table(m.evaluate.predictions(data=x, theta=th)),
            "predictions on the training data": evals.table(m.evaluate.predictions(theta=th)),
        },
        "classification",
    )
