"""Workload generators: item layouts, models of every family, latent scores, response data."""
from __future__ import annotations

import copy

import numpy as np
import torch

from irtorch.models import (
    GeneralizedPartialCredit,
    GradedResponse,
    ModelMix,
    MonotoneBSpline,
    MonotoneNN,
    MonotonePolynomial,
    NestedLogit,
    NominalResponse,
    OneParameterLogistic,
    SurprisalSpline,
    ThreeParameterLogistic,
    TwoParameterLogistic,
)

LINEAR = ["1PL", "2PL", "GPC", "NR", "NRmc"]
CLOSED = LINEAR + ["3PL", "GRM"]
NNS = ["NNcat", "NNitem", "NNmc", "NNelu"]
SPLINES = ["Poly", "Bspline", "BsplineCat", "Surp"]
NESTED = ["NestNom", "NestBsp"]
ALL = CLOSED + NNS + SPLINES + NESTED + ["Mix"]
SMOOTH = ["1PL", "2PL", "3PL", "GPC", "GRM", "NR", "NRmc", "Poly"]


def t(x, dtype=torch.float32):
    return torch.tensor(np.asarray(x), dtype=dtype)


def size(rng, lo, hi, *rare):
    """A size in [lo, hi), now and then one of the rare large ones."""
    if rng.random() < 0.12:
        return int(rng.choice(rare))
    return int(rng.integers(lo, hi))


def categories(rng, items, lo=2, hi=5, mixed=None):
    if mixed is None:
        mixed = rng.random() < 0.75
    if mixed:
        cats = rng.integers(lo, hi + 1, items)
        if items > 1 and hi > lo:
            i, j = rng.choice(items, 2, replace=False)
            cats[i], cats[j] = lo, hi
    else:
        cats = np.full(items, rng.integers(lo, hi + 1))
    return [int(c) for c in cats]


def relationships(rng, items, latents, p=0.5):
    m = rng.random((items, latents)) < p
    for i in range(items):
        if not m[i].any():
            m[i, rng.integers(latents)] = True
    return m


def randomize(model, rng, scale=1.0, easy=False):
    """Give a model random but sensible parameters (in place).

    Works on the parameters the model exposes, whatever they are called; only sign-carrying and
    ordered parameters are treated specially.
    """
    with torch.no_grad():
        if isinstance(model, ModelMix):
            for sub in model.models:
                randomize(sub, rng, scale, easy)
            return model
        if isinstance(model, NestedLogit):
            randomize(model.correct_response_model, rng, scale, easy)
            for n, p in model.named_parameters():
                if not n.startswith("correct_response_model"):
                    p.copy_(t(rng.normal(0, 0.8 * scale, tuple(p.shape))))
            return model
        if isinstance(model, GradedResponse):
            # P(X >= k) must decrease in k: sorted thresholds per item
            for n, p in model.named_parameters():
                if "bias" in n:
                    out = []
                    for c in model.item_categories:
                        gaps = rng.uniform(0.3, 1.2, c - 1)
                        b = np.cumsum(gaps)
                        b = b - b.mean() + rng.normal(0, 0.7)
                        out.append(-b)
                    p.copy_(t(np.concatenate(out)))
                else:
                    p.copy_(t(signed(rng, p.shape, easy)))
            return model
        for n, p in model.named_parameters():
            shape = tuple(p.shape)
            if "negation" in n or "directions" in n:
                v = rng.uniform(0.4, 1.5, shape) * np.where(rng.random(shape) < (0.0 if easy else 0.4), -1, 1)
            elif "guessing" in n:
                v = rng.uniform(-2.5, -0.3, shape)
            elif isinstance(model, (MonotoneBSpline, SurprisalSpline)) and "coef" in n:
                v = rng.normal(-0.8, 1.0, shape)
            elif isinstance(model, MonotonePolynomial) and "tau" in n:
                v = rng.uniform(-4.0, -1.0, shape)
            elif isinstance(model, MonotonePolynomial) and "alpha" in n:
                v = rng.normal(0, 0.3, shape)
            elif isinstance(model, MonotonePolynomial) and "omega" in n:
                v = rng.normal(-0.5, 0.5, shape)
            elif "bias" in n:
                v = rng.normal(0, 0.9 * scale, shape)
            elif isinstance(model, MonotoneNN):
                v = rng.normal(-0.3, 1.0 * scale, shape)
            else:
                v = signed(rng, shape, easy or isinstance(model, OneParameterLogistic))
            p.copy_(t(v))
    return model


def signed(rng, shape, easy=False):
    return rng.uniform(0.4, 1.9, tuple(shape)) * np.where(rng.random(tuple(shape)) < (0.0 if easy else 0.3), -1, 1)


def build(rng, kind, latents=None, items=None, masked=None, hi=5, easy=False, random_params=True, cats=None):
    """A model of the given family.  Returns (model, relationship mask, kind)."""
    if latents is None:
        latents = int(rng.choice([1, 1, 2, 3]))
    if kind == "1PL":
        latents = 1
    if items is None:
        items = int(rng.integers(3, 8))
    if cats is not None:
        items = len(cats)
    if masked is None:
        masked = latents > 1 and rng.random() < 0.6
    mask = relationships(rng, items, latents) if masked else np.ones((items, latents), dtype=bool)
    rel = torch.tensor(mask) if masked else None
    poly = cats if cats is not None else categories(rng, items, 2, hi)
    mc = [int(rng.integers(c)) for c in poly]
    if kind == "1PL":
        m = OneParameterLogistic(items=items)
    elif kind == "2PL":
        m = TwoParameterLogistic(latent_variables=latents, items=items, item_theta_relationships=rel)
    elif kind == "3PL":
        m = ThreeParameterLogistic(latent_variables=latents, items=items, item_theta_relationships=rel)
    elif kind == "GPC":
        m = GeneralizedPartialCredit(latent_variables=latents, item_categories=poly, item_theta_relationships=rel)
    elif kind == "GRM":
        m = GradedResponse(latent_variables=latents, item_categories=poly, item_theta_relationships=rel)
    elif kind in ("NR", "NRmc"):
        m = NominalResponse(latent_variables=latents, item_categories=poly, item_theta_relationships=rel, mc_correct=mc if kind == "NRmc" else None)
    elif kind in NNS:
        bounded = kind != "NNelu"
        unit = 3 if bounded else 2
        hidden = [int(unit * rng.integers(1, 3)) for _ in range(int(rng.integers(1, 3)))]
        m = MonotoneNN(
            latent_variables=latents,
            item_categories=poly,
            hidden_dim=hidden,
            mc_correct=mc if kind == "NNmc" else None,
            item_theta_relationships=rel,
            separate="items" if kind == "NNitem" or (kind == "NNelu" and rng.random() < 0.5) else "categories",
            negative_latent_variable_item_relationships=bool(rng.random() < 0.6) and not easy,
            use_bounded_activation=bounded,
        )
    elif kind == "Poly":
        m = MonotonePolynomial(
            latent_variables=latents,
            item_categories=poly,
            degree=int(rng.choice([1, 3, 5])),
            item_theta_relationships=rel,
            separate=str(rng.choice(["items", "categories"])),
            negative_latent_variable_item_relationships=bool(rng.random() < 0.6) and not easy,
        )
    elif kind in ("Bspline", "BsplineCat"):
        mask = np.ones((items, latents), dtype=bool)
        m = MonotoneBSpline(
            latent_variables=latents,
            item_categories=poly,
            degree=int(rng.integers(2, 4)),
            knots=None if rng.random() < 0.5 else sorted(float(x) for x in rng.uniform(-2.5, 2.5, int(rng.integers(2, 6)))),
            separate="categories" if kind == "BsplineCat" else "items",
        )
    elif kind == "Surp":
        m = SurprisalSpline(
            latent_variables=latents,
            item_categories=poly,
            item_theta_relationships=rel,
            degree=int(rng.integers(2, 4)),
            knots=None if rng.random() < 0.5 else sorted(float(x) for x in rng.uniform(-2.5, 2.5, int(rng.integers(2, 6)))),
        )
    elif kind in NESTED:
        if cats is None:
            poly = categories(rng, items, 3, max(hi, 3))
            mc = [int(rng.integers(c)) for c in poly]
        sub = str(rng.choice(["2PL", "3PL", "GPC", "GRM", "NNcat", "Poly", "Bspline"]))
        if sub == "Bspline":
            mask, rel = np.ones((items, latents), dtype=bool), None
        correct = {
            "2PL": lambda: TwoParameterLogistic(latent_variables=latents, items=items, item_theta_relationships=rel),
            "3PL": lambda: ThreeParameterLogistic(latent_variables=latents, items=items, item_theta_relationships=rel),
            "GPC": lambda: GeneralizedPartialCredit(latent_variables=latents, item_categories=[2] * items, item_theta_relationships=rel),
            "GRM": lambda: GradedResponse(latent_variables=latents, item_categories=[2] * items, item_theta_relationships=rel),
            "NNcat": lambda: MonotoneNN(latent_variables=latents, item_categories=[2] * items, hidden_dim=[3], item_theta_relationships=rel, negative_latent_variable_item_relationships=not easy),
            "Poly": lambda: MonotonePolynomial(latent_variables=latents, item_categories=[2] * items, item_theta_relationships=rel, negative_latent_variable_item_relationships=not easy),
            "Bspline": lambda: MonotoneBSpline(latent_variables=latents, item_categories=[2] * items),
        }[sub]()
        m = NestedLogit(
            mc_correct=mc,
            correct_response_model=correct,
            incorrect_response_model="nominal" if kind == "NestNom" else "bspline",
            latent_variables=latents,
            item_categories=poly,
            item_theta_relationships=rel,
        )
    elif kind == "Mix":
        subs, masks = [], []
        pool = ["2PL", "GPC", "NR", "NNcat", "Poly", "GRM"] + (["1PL"] if latents == 1 else [])
        if rng.random() < 0.5:
            # outputs of other shapes: one number per item, probabilities, three dimensions
            pool = pool + ["3PL", "Surp", "Bspline", "BsplineCat", "NNitem"] + (NESTED if hi >= 3 else [])
        for _ in range(int(rng.integers(2, 4))):
            s, mk, _ = build(rng, str(rng.choice(pool)), latents=latents, items=int(rng.integers(1, 4)), hi=hi, easy=easy, random_params=False)
            subs.append(s)
            masks.append(mk)
        if len(subs) > 2 and rng.random() < 0.3:
            subs = [ModelMix(subs[:2]), *subs[2:]]
        m = ModelMix(subs)
        mask = np.concatenate(masks)
    else:
        raise ValueError(kind)
    if random_params:
        randomize(m, rng, easy=easy)
    m.eval()
    return m, mask, kind


def any_model(c, kinds=ALL, large=True, **kw):
    """Cycle through the families with the round number so that every family is reached."""
    kind = kinds[c.round % len(kinds)]
    # now and then a much larger test: many items, many categories or more latent variables
    size = np.random.default_rng([c.seed, 17]).integers(30) if large else 30
    if size < 2 and kw.get("items") is None and kw.get("cats") is None:
        kw["items"] = [45, 130][size]
        c.count("large tests")
    elif size in (2, 3) and kw.get("hi") is None and kw.get("cats") is None:
        kw["hi"] = 13
        c.count("items with many categories")
    elif size == 4 and kw.get("latents") is None:
        kw["latents"] = 4
        c.count("four latent variables")
    kw = {k: v for k, v in kw.items() if v is not None}
    m, mask, kind = build(c.rng, kind, **kw)
    c.note(model=kind, latents=m.latent_variables, categories=m.item_categories, mc=m.mc_correct)
    c.count(f"model {kind}")
    c.feed(*[p for p in m.parameters()])
    return m, mask, kind


def theta(rng, n, latents, sd=1.2):
    return t(rng.normal(0, sd, (n, latents)))


def probs64(model, th):
    with torch.no_grad():
        return model.item_probabilities(th.clone()).double().numpy()


def responses(rng, model, th):
    """Sample responses independently of the model's own sampler."""
    p = probs64(model, th)
    p = np.clip(p, 0, None)
    p = p / p.sum(-1, keepdims=True)
    u = rng.random(p.shape[:2])[..., None]
    x = (u > np.cumsum(p, -1)[..., :-1]).sum(-1)
    cats = np.array(model.item_categories)
    return np.minimum(x, cats - 1).astype(np.float32)


def uniform_responses(rng, cats, n):
    return np.stack([rng.integers(0, k, n) for k in cats], axis=1).astype(np.float32)


def full_support(rng, x, cats):
    """Make sure that the largest category of every item is observed."""
    x = x.copy()
    for j, k in enumerate(cats):
        x[rng.integers(len(x)), j] = k - 1
    return x


def with_missing(rng, x, p=0.15, code="mix", keep_row=True):
    x = x.copy()
    miss = rng.random(x.shape) < p
    if keep_row:
        for i in range(len(x)):
            if miss[i].all():
                miss[i, rng.integers(x.shape[1])] = False
    if code == "nan":
        x[miss] = np.nan
    elif code == "-1":
        x[miss] = -1
    else:
        x[miss] = np.where(rng.random(miss.sum()) < 0.5, np.nan, -1)
    return x, miss


def clone(model):
    return copy.deepcopy(model)


class FakeFit:
    """Minimal stand-in for a fitted algorithm: what scoring reads from it."""

    def __init__(self, train_data, thetas):
        self.train_data = train_data
        self.training_theta_scores = thetas
