"""Expected scores and their population summaries."""
import numpy as np
import torch

from harness import evals, gen, oracle
from harness.core import scenario

P = "C06"


@scenario(P, 96, 1600)
def expected(c):
    m, mask, kind = gen.any_model(c)
    th = gen.theta(c.rng, int(c.rng.integers(1, 12)), m.latent_variables, 1.6)
    c.feed(th)
    p = gen.probs64(m, th)
    want = oracle.expected_scores(p, m.item_categories, m.mc_correct)
    with torch.no_grad():
        got = m.expected_scores(th)
        c.close(got, want, f"{kind}: expected item score is the probability weighted score (P(correct) for multiple choice)", rtol=2e-5, atol=1e-5)
        c.close(m.expected_scores(th, return_item_scores=True), want, "return_item_scores=True gives respondents x items", rtol=2e-5, atol=1e-5)
        c.close(m.expected_scores(th, return_item_scores=False), want.sum(1), "return_item_scores=False gives the sum over items", rtol=2e-5, atol=5e-5)
    top = np.ones(m.items) if m.mc_correct is not None else np.array(m.item_categories) - 1
    c.leq(got, np.broadcast_to(top, want.shape), "expected item scores do not exceed the maximum item score", 1e-4)
    c.leq(0, got, "expected item scores are not negative", 1e-5)
    c.count("expected scores compared", want.size)


@scenario(P, 64, 900)
def difficulty(c):
    m, mask, kind = gen.any_model(c)
    th = gen.theta(c.rng, int(c.rng.integers(2, 25)), m.latent_variables)
    c.feed(th)
    p = gen.probs64(m, th)
    es = oracle.expected_scores(p, m.item_categories, m.mc_correct)
    top = np.ones(m.items) if m.mc_correct is not None else np.array(m.item_categories) - 1.0
    want = (1 - es / top).mean(0)
    with torch.no_grad():
        got = m.population_difficulty(th)
    c.close(got, want, f"{kind}: difficulty is one minus the mean proportion of the maximum item score", rtol=2e-5, atol=1e-5)
    c.leq(got, 1 + 1e-5, "difficulty at most one")
    c.leq(0 - 1e-5, got, "difficulty at least zero")
    if hasattr(m, "probability_gradients"):
        g = m.population_discrimination(th)
        ref = oracle.numgrad(lambda q: oracle.expected_scores(gen.probs64(m, gen.t(q)), m.item_categories, m.mc_correct) / top, th.numpy(), h=0.03).mean(0)
        c.close(g, ref, f"{kind}: discrimination is the mean derivative of the proportion score over the population", rtol=1e-2, atol=6e-3)


@scenario(P, 20, 200)
def longer_items(c):
    """Items of different lengths among which none is binary: each is divided by its own maximum."""
    rng = c.rng
    cats = [int(k) for k in rng.permutation(np.r_[3, 4 + rng.integers(0, 6), rng.integers(3, 9, int(rng.integers(0, 4)))])]
    kind = ["GPC", "GRM", "NR", "NNcat", "BsplineCat"][c.round % 5]
    m, _, _ = gen.build(rng, kind, cats=cats)
    th = gen.theta(rng, int(rng.integers(2, 25)), m.latent_variables)
    c.feed(th)
    c.note(model=kind, categories=cats)
    es = oracle.expected_scores(gen.probs64(m, th), m.item_categories, m.mc_correct)
    with torch.no_grad():
        got = m.population_difficulty(th)
    c.close(got, (1 - es / (np.array(cats) - 1.0)).mean(0), f"{kind}: difficulty is one minus the mean proportion of the maximum item score", rtol=2e-5, atol=1e-5)


@scenario(P, 32, 300)
def larger_theta_groups(c):
    """Summaries of a union of populations are the size-weighted average of the parts."""
    m, mask, kind = gen.any_model(c)
    a, b = gen.theta(c.rng, int(c.rng.integers(2, 9)), m.latent_variables), gen.theta(c.rng, int(c.rng.integers(2, 9)), m.latent_variables, 0.5)
    c.feed(a, b)
    with torch.no_grad():
        da, db, dab = (m.population_difficulty(q).numpy().astype(float) for q in (a, b, torch.cat([a, b])))
    c.close(dab, (len(a) * da + len(b) * db) / (len(a) + len(b)), "difficulty averages over respondents", rtol=1e-4, atol=1e-5)
    ga, gb, gab = (m.population_discrimination(q).detach().numpy().astype(float) for q in (a, b, torch.cat([a, b])))
    c.close(gab, (len(a) * ga + len(b) * gb) / (len(a) + len(b)), "discrimination averages over respondents", rtol=1e-3, atol=1e-4)


@scenario(P, 12, 80)
def answer_keys(c):
    """Only categories an item has can be keyed."""
    rng = c.rng
    cats = gen.categories(rng, int(rng.integers(2, 7)), 2, 5)
    mc = [int(rng.integers(k)) for k in cats]
    j = int(rng.integers(len(cats)))
    bad = list(mc)
    bad[j] = cats[j] + int(rng.integers(0, 2))
    c.note(categories=cats, key=bad)
    make = [lambda q: gen.NominalResponse(latent_variables=1, item_categories=cats, mc_correct=q), lambda q: gen.MonotoneNN(latent_variables=1, item_categories=cats, mc_correct=q, hidden_dim=[3])][c.round % 2]
    c.raises(ValueError, lambda: make(bad), "a key that is not a category of its item is refused")
    top = [k - 1 for k in cats]
    c.ok(list(make(top).mc_correct) == top, "the last category can be keyed")
    # any key, also one in which every item's first or last category is the correct one
    for key in ([0] * len(cats), top, mc):
        m = make(list(key))
        gen.randomize(m, rng)
        th = gen.theta(rng, 6, 1)
        p = gen.probs64(m, th)
        right = np.stack([p[:, i, k] for i, k in enumerate(key)], 1)
        with torch.no_grad():
            c.close(m.expected_scores(th), right, "keyed items: the expected score is the probability of the keyed category", atol=2e-5)
            c.close(m.expected_scores(th, return_item_scores=False), right.sum(1), "keyed items: and the expected sum score their sum", atol=1e-4)
            c.close(m.population_difficulty(th), 1 - right.mean(0), "keyed items: difficulty is the probability of any other category", atol=2e-5)


@scenario(P, 12, 120)
def asked_again(c):
    evals.ask_again(c, lambda m, x, th: {"expected scores": m.expected_scores(th), "difficulty": m.population_difficulty(th), "discrimination": m.population_discrimination(th)}, "item statistics", latents=1 + c.round % 2)
