"""Reported item parameters plugged into the documented formulas reproduce the model."""
import numpy as np
import torch

from harness import gen, oracle
from harness.core import scenario

P = "C02"


@scenario(P, 56, 1400)
def closed_form(c):
    m, mask, kind = gen.any_model(c, kinds=gen.CLOSED)
    rng = c.rng
    th = gen.theta(rng, 9, m.latent_variables, 1.5)
    c.feed(th)
    df = m.item_parameters()
    c.ok(len(df) == m.items, "one row of item parameters per item", rows=len(df))
    c.ok(np.isfinite(df.to_numpy(dtype=float)).all(), "reported item parameters are finite")
    want = oracle.closed_form(kind, df, th.numpy(), m.item_categories, m.latent_variables)
    c.close(gen.probs64(m, th), want, f"{kind}: probabilities equal the documented formula at the reported parameters", rtol=5e-5, atol=5e-6)
    c.count("probabilities compared with the closed form", want.size)
    cols = list(df.columns)
    d = m.latent_variables
    k = max(m.item_categories)
    if kind == "1PL":
        names = ["d"]
    elif kind == "2PL":
        names = [f"a{i + 1}" for i in range(d)] + ["d"]
    elif kind == "3PL":
        names = [f"a{i + 1}" for i in range(d)] + ["d", "c"]
    elif kind == "GPC":
        names = [f"a{i + 1}" for i in range(d)] + [f"d{i + 1}" for i in range(k)]
    elif kind == "GRM":
        names = [f"a{i + 1}" for i in range(d)] + [f"d{i + 1}" for i in range(k - 1)]
    else:
        names = [f"a{i + 1}{j + 1}" for i in range(d) for j in range(k)] + [f"d{i + 1}" for i in range(k)]
    c.ok(sorted(cols) == sorted(names), "item parameter columns are the documented ones", columns=cols)


@scenario(P, 40, 800)
def irt_format(c):
    """The irt_format parameterisation describes the same curves."""
    m, mask, kind = gen.any_model(c, kinds=["2PL", "3PL", "GPC", "GRM"], latents=1)
    rng = c.rng
    th = gen.theta(rng, 7, 1, 1.5).numpy().astype(float)
    df = m.item_parameters(irt_format=True)
    c.note(columns=list(df.columns))
    a = df["a1"].to_numpy(dtype=float)
    p = gen.probs64(m, gen.t(th))
    c.feed(th)
    for j, k in enumerate(m.item_categories):
        if kind in ("2PL", "3PL"):
            g = float(df["c"].iloc[j]) if kind == "3PL" else 0.0
            want = g + (1 - g) * oracle.sigmoid(a[j] * (th[:, 0] - float(df["b"].iloc[j])))
            c.close(p[:, j, 1], want, f"{kind}: P(1) = c + (1-c) logistic(a (theta - b))", rtol=1e-4, atol=1e-5)
        elif kind == "GRM":
            for q in range(1, k):
                want = oracle.sigmoid(a[j] * (th[:, 0] - float(df[f"b{q}"].iloc[j])))
                c.close(p[:, j, q:k].sum(-1), want, "GRM: P(X >= k) = logistic(a (theta - b_k))", rtol=1e-4, atol=1e-5)
        else:
            z = np.stack([np.zeros(len(th))] + [q * a[j] * th[:, 0] - a[j] * float(df[f"b{q}"].iloc[j]) for q in range(1, k)], 1)
            c.close(p[:, j, :k], oracle.softmax(z), "GPC: intercepts are -a b", rtol=1e-4, atol=1e-5)
    c.count("items compared in irt_format", m.items)


@scenario(P, 10, 40)
def irt_format_multidimensional(c):
    m, mask, kind = gen.any_model(c, kinds=["2PL", "3PL"], latents=2)
    c.raises(ValueError, lambda: m.item_parameters(irt_format=True), "irt_format is refused for multidimensional logistic models")


@scenario(P, 36, 600)
def nested_logit(c):
    """Correct option follows the correct response model; the others share the rest."""
    kind = gen.NESTED[c.round % 2]
    m, mask, kind = gen.build(c.rng, kind)
    rng = c.rng
    th = gen.theta(rng, 8, m.latent_variables, 1.5)
    c.note(model=kind, correct=type(m.correct_response_model).__name__, categories=m.item_categories, mc=m.mc_correct)
    c.feed(th, *m.parameters())
    p = gen.probs64(m, th)
    pc = gen.probs64(m.correct_response_model, th)
    nom = getattr(m, "nominal_response_model", None)
    pn = gen.probs64(nom, th) if nom is not None else None
    for j, k in enumerate(m.item_categories):
        c.close(p[:, j, m.mc_correct[j]], pc[:, j, 1], "P(correct option) is the correct response model's probability of success", atol=2e-5, rtol=1e-4)
        others = [q for q in range(k) if q != m.mc_correct[j]]
        c.close(p[:, j, others].sum(-1), pc[:, j, 0], "incorrect options share the probability of an incorrect response", atol=2e-5, rtol=1e-4)
        if pn is not None:
            want = pn[:, j, : len(others)] * pc[:, j, :1]
            c.close(p[:, j, others], want, "incorrect options follow the nominal model given incorrect, in category order", atol=2e-5, rtol=1e-4)
    c.equal(m.item_theta_relationship_directions(th), m.correct_response_model.item_theta_relationship_directions(th), "directions are those of the correct response model")


@scenario(P, 24, 300)
def model_mix(c):
    """A mixed model is its sub-models side by side."""
    m, mask, kind = gen.any_model(c, kinds=["Mix"])
    th = gen.theta(c.rng, 7, m.latent_variables)
    c.feed(th)
    p = gen.probs64(m, th)
    start = 0
    for sub in m.models:
        q = gen.probs64(sub, th)
        c.close(p[:, start : start + sub.items], oracle.pad(q, m.max_item_responses), "a mixed model reproduces each sub-model's items in order, padded with zeros", atol=1e-6)
        start += sub.items
    c.ok(start == m.items and m.item_categories == [k for s in m.models for k in s.item_categories], "items and categories are concatenated")
