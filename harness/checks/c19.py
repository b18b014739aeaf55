"""Questions asked of a model do not change it: histories of calls against fresh copies."""
import copy

import numpy as np
import pandas as pd
import torch

from harness import fits, gen, scales
from harness.core import Violation, scenario
from irtorch.utils import get_item_categories, impute_missing, imv, split_data

P = "C19"


def flat(v):
    """every number of an answer, in order"""
    if v is None:
        return []
    if isinstance(v, (tuple, list)):
        return [a for u in v for a in flat(u)]
    if isinstance(v, dict):
        return [a for k in sorted(v) for a in flat(v[k])]
    if isinstance(v, pd.DataFrame):
        return [v.select_dtypes("number").to_numpy(dtype=float)]
    if isinstance(v, torch.Tensor):
        return [v.detach().double().numpy().copy()]
    if hasattr(v, "data") and hasattr(v, "layout"):
        out = []
        for tr in v.data:
            for n in ("x", "y", "z"):
                a = getattr(tr, n, None)
                if a is not None:
                    try:
                        out.append(np.asarray(a, dtype=float))
                    except (TypeError, ValueError):
                        pass
        return out
    return [np.asarray(v, dtype=float)]


def state(m):
    """what of a fitted model must stay the same"""
    s = {f"parameter {n}": p.detach().clone() for n, p in m.named_parameters()}
    s.update({f"buffer {n}": p.detach().clone() for n, p in m.named_buffers()})
    s.update({f"gradient flag {n}": torch.tensor(p.requires_grad) for n, p in m.named_parameters()})
    s.update({f"mode of {n or 'model'}": torch.tensor(k.training) for n, k in m.named_modules()})
    s["grad mode"] = torch.tensor(torch.is_grad_enabled())
    s["default type"] = torch.tensor(torch.get_default_dtype() == torch.float32)
    s["threads"] = torch.tensor(torch.get_num_threads())
    s["categories"] = torch.tensor(list(m.item_categories))
    s["key"] = torch.tensor(list(m.mc_correct) if m.mc_correct is not None else [])
    s["layout"] = torch.tensor([m.items, m.latent_variables, m.max_item_responses, len(m.scale)])
    a = m.algorithm
    s["training data"] = a.train_data.clone()
    s["training scores"] = torch.zeros(0) if a.training_theta_scores is None else a.training_theta_scores.clone()
    for i, sc in enumerate(m.scale):
        for n, v in sorted(vars(sc).items()):
            if isinstance(v, torch.Tensor):
                s[f"scale {i} {n}"] = v.detach().clone()
            elif isinstance(v, torch.nn.Module):
                for k, p in v.named_parameters():
                    s[f"scale {i} {n} {k}"] = p.detach().clone()
                    s[f"scale {i} {n} {k} gradient flag"] = torch.tensor(p.requires_grad)
    if isinstance(getattr(a, "encoder", None), torch.nn.Module):
        for n, p in a.encoder.state_dict().items():
            s[f"encoder {n}"] = p.detach().clone()
        s["encoder mode"] = torch.tensor(a.encoder.training)
    return s


def same(c, before, after, what):
    c.ok(before.keys() == after.keys(), f"{what} adds or removes no part of the model", changed=sorted(set(before) ^ set(after)))
    for k in before:
        c.ok(torch.equal(torch.nan_to_num(before[k].double(), nan=-77.5), torch.nan_to_num(after[k].double(), nan=-77.5)), f"{what} leaves {k} alone", before=before[k], after=after[k])


def questions(rng, m, kind, light=False):
    """name -> (call, tensors handed in)"""
    d = m.latent_variables
    th = gen.theta(rng, 14, d)
    x = gen.full_support(rng, gen.responses(rng, m, th), m.item_categories)
    x, _ = gen.with_missing(rng, x, 0.1)
    xt = gen.t(x)
    scored = m.mc_correct is None
    deg = None if d == 1 else [45.0] * 2 if d == 2 else [54.7356] * d
    seeds = [int(s) for s in rng.integers(0, 2**31, 60)]
    q = {
        "item_probabilities": lambda mm, t, y: mm.item_probabilities(t),
        "forward": lambda mm, t, y: mm(t),
        "expected_scores": lambda mm, t, y: (mm.expected_scores(t), mm.expected_scores(t, return_item_scores=False)),
        "log_likelihood": lambda mm, t, y: mm.log_likelihood(y, mm(t), missing_mask=torch.isnan(y) | (y == -1), loss_reduction="none"),
        "gradients": lambda mm, t, y: mm.expected_item_score_gradients(t),
        "probability_gradients": lambda mm, t, y: mm.probability_gradients(t),
        "directions": lambda mm, t, y: mm.item_theta_relationship_directions(t),
        "sample": lambda mm, t, y: mm.sample_test_data(t),
        "transform": lambda mm, t, y: mm.transform_theta(t),
        "scores ML": lambda mm, t, y: mm.latent_scores(y, theta_estimation="ML"),
        "scores MAP": lambda mm, t, y: mm.latent_scores(y, theta_estimation="MAP"),
        "scores EAP": lambda mm, t, y: mm.latent_scores(y, theta_estimation="EAP", eap_theta_integration_points=5),
        "residuals": lambda mm, t, y: mm.evaluate.residuals(y, t),
        "group_fit_residuals": lambda mm, t, y: mm.evaluate.group_fit_residuals(y, t, groups=3),
        "accuracy": lambda mm, t, y: mm.evaluate.accuracy(y, t),
        "predictions": lambda mm, t, y: mm.evaluate.predictions(y, t),
        "infit_outfit": lambda mm, t, y: mm.evaluate.infit_outfit(y, t),
        "evaluate.log_likelihood": lambda mm, t, y: mm.evaluate.log_likelihood(y, t, level="item"),
        "group_fit_log_likelihood": lambda mm, t, y: mm.evaluate.group_fit_log_likelihood(y, t, groups=3),
        "latent_group_probabilities": lambda mm, t, y: mm.evaluate.latent_group_probabilities(y, t, groups=3),
        "sum_score_probabilities": lambda mm, t, y: mm.evaluate.sum_score_probabilities(),
        "sum scores by density": lambda mm, t, y: mm.evaluate.sum_score_probabilities("qmvn", trapezoidal_segments=4 if d > 2 else 12),
        "sum scores of a population": lambda mm, t, y: mm.evaluate.sum_score_probabilities(population_data=y[:5]),
        "difficulty": lambda mm, t, y: mm.population_difficulty(t),
        "discrimination": lambda mm, t, y: mm.population_discrimination(t),
        "q3": lambda mm, t, y: mm.evaluate.q3(y, t),
        "mutual information": lambda mm, t, y: mm.evaluate.mutual_information_difference(y, t),
        "plot entropy": lambda mm, t, y: mm.plot.item_entropy(1, steps=9),
        "plot log-likelihood": lambda mm, t, y: mm.plot.log_likelihood(y[:1], steps=9),
        "plot probabilities": lambda mm, t, y: mm.plot.item_probabilities(1, steps=9),
        "plot expected": lambda mm, t, y: mm.plot.expected_sum_score(steps=9),
        "plot distribution": lambda mm, t, y: mm.plot.latent_score_distribution(scores_to_plot=t),
        "plot relationships": lambda mm, t, y: mm.plot.item_latent_variable_relationships(theta=t),
        "impute zero": lambda mm, t, y: impute_missing(y, "zero"),
        "impute mean": lambda mm, t, y: impute_missing(y, "mean"),
        "split": lambda mm, t, y: split_data(y, 0.6),
        "categories": lambda mm, t, y: get_item_categories(y),
        "imv": lambda mm, t, y: imv(mm, mm, y, model1_theta=t, model2_theta=t * 0.5),
    }
    if scored:
        q["impute expected"] = lambda mm, t, y: impute_missing(y, "prior expected", model=mm)
    else:
        q["impute incorrect"] = lambda mm, t, y: impute_missing(y, "random incorrect", model=mm)
    if kind not in ("GRM", "Bspline", "BsplineCat", "NestBsp", "NestNom", "Mix", "Surp"):
        q["information"] = lambda mm, t, y: mm.information(t, degrees=deg)
        q["scores with errors"] = lambda mm, t, y: mm.latent_scores(y[:5], theta_estimation="ML", standard_errors=True)
        q["plot information"] = lambda mm, t, y: mm.plot.information(degrees=deg, steps=9)
    if kind in gen.CLOSED:
        q["item_parameters"] = lambda mm, t, y: (mm.item_parameters(),)
    if d == 1:
        q["sum scores of a population by density"] = lambda mm, t, y: mm.evaluate.sum_score_probabilities("qmvn", population_data=y[:9], trapezoidal_segments=12)
    if m.scale:
        q["jacobian"] = lambda mm, t, y: mm.theta_transform_jacobian(t)
        q["plot transformations"] = lambda mm, t, y: mm.plot.scale_transformations(steps=9)
        if all(s.invertible for s in m.scale):
            q["inverse"] = lambda mm, t, y: mm.inverse_transform_theta(mm.transform_theta(t))
    if light:
        for k in [k for k in q if k.startswith("scores") or k.startswith("plot")]:
            if rng.random() < 0.5:
                q.pop(k)
    return q, th, xt, dict(zip(q, seeds))


def ask(mm, f, th, x, seed):
    torch.manual_seed(seed)
    np.random.seed(seed % (2**32))
    return flat(f(mm, th, x))


def fitted_model(c, kinds, scale=True):
    rng = c.rng
    m, _, kind = gen.any_model(c, kinds=kinds, items=int(rng.integers(3, 6)), hi=4)
    d = m.latent_variables
    tr = gen.theta(rng, 30, d, 0.9)
    y = gen.full_support(rng, gen.responses(rng, m, tr), m.item_categories)
    m.algorithm = gen.FakeFit(gen.t(gen.with_missing(rng, y, 0.1)[0]), tr)
    which = "none"
    if scale and c.round % 3:
        which, s = scales.any_scale(rng, m, ("Reverse", "Rotate", "Flow"))
        m.add_scale_transformation(s)
    frozen = []
    if c.round % 2:
        # a parameter the user keeps fixed must stay fixed
        ps = list(m.named_parameters())
        n, par = ps[int(rng.integers(len(ps)))]
        par.requires_grad_(False)
        frozen.append(n)
    c.note(scale=which, frozen=frozen)
    return m, kind


def history(c, m, kind, length):
    rng = c.rng
    q, th, x, seeds = questions(rng, m, kind)
    th0, x0 = th.clone(), x.clone()
    pristine = copy.deepcopy(m)
    names = [str(n) for n in rng.choice(list(q), length)]
    c.note(calls=names)
    c.feed(x, th)
    reference = {}
    before = state(m)
    for i, n in enumerate(names):
        if n not in reference:
            reference[n] = ask(copy.deepcopy(pristine), q[n], th0.clone(), x0.clone(), seeds[n])
        got = ask(m, q[n], th, x, seeds[n])
        c.equal(th, th0, f"{kind}: {n} leaves the scores handed in alone")
        c.equal(x, x0, f"{kind}: {n} leaves the responses handed in alone")
        c.ok(th.grad is None and not th.requires_grad, f"{kind}: {n} leaves no gradients on what is handed in")
        same(c, before, state(m), f"{kind}: {n}")
        want = reference[n]
        c.ok(len(got) == len(want), f"{kind}: {n} answers as if it were the first question")
        for g, w in zip(got, want):
            c.close(g, w, f"{kind}: {n} answers as if it were the first question", rtol=1e-5, atol=1e-6)
        c.count("calls in histories")
        c.count(f"call {n}")


@scenario(P, 36, 400)
def histories(c):
    m, kind = fitted_model(c, gen.ALL)
    history(c, m, kind, 10)


@scenario(P, 12, 100)
def every_question(c):
    """each question once, on one model, in random order"""
    rng = c.rng
    m, kind = fitted_model(c, ["2PL", "GPC", "NRmc", "NNcat", "3PL", "Mix"])
    q, th, x, seeds = questions(rng, m, kind)
    c.feed(x, th)
    first = {}
    before = state(m)
    for n in rng.permutation(list(q)):
        n = str(n)
        first[n] = ask(m, q[n], th, x, seeds[n])
        same(c, before, state(m), f"{kind}: {n}")
    for n in rng.permutation(list(q)):
        n = str(n)
        for g, w in zip(ask(m, q[n], th, x, seeds[n]), first[n]):
            c.close(g, w, f"{kind}: {n} gives the same answer again", rtol=1e-5, atol=1e-6)
        c.count("questions repeated")


@scenario(P, 12, 100)
def frozen_parameters(c):
    """scoring never changes which parameters a later fit may move"""
    rng = c.rng
    m, kind = fitted_model(c, gen.ALL)
    for n, par in m.named_parameters():
        par.requires_grad_(bool(rng.random() < 0.5))
    x = gen.responses(rng, m, gen.theta(rng, 5, m.latent_variables))
    c.feed(x)
    before = state(m)
    for how in ("ML", "MAP", "EAP"):
        m.latent_scores(gen.t(x), theta_estimation=how, eap_theta_integration_points=5)
        same(c, before, state(m), f"{kind}: {how} scoring")
    th = gen.theta(rng, 5, m.latent_variables)
    m.expected_item_score_gradients(th)
    m.probability_gradients(th)
    same(c, before, state(m), f"{kind}: gradients")


@scenario(P, 9, 60)
def after_real_fits(c):
    """the same for models fitted by the algorithms, whose encoders answer too"""
    from irtorch.estimation_algorithms import AE, JML, MML, VAE

    rng = c.rng
    alg = [AE, VAE, MML, JML][c.round % 4]
    m, kind, x, _ = fits.problem(c, ["2PL", "GPC", "NRmc"], items=5, n=30, hi=3)
    x, _ = gen.with_missing(rng, x, 0.1)
    kw = {"integration_method": "gauss_hermite", "quadrature_points": 5} if alg is MML else {}
    if alg in (AE, VAE):
        kw["imputation_method"] = "zero"
    torch.manual_seed(3)
    m.fit(gen.t(x), algorithm=alg(), max_epochs=3, **kw)
    q, th, y, seeds = questions(rng, m, kind)
    y0 = y.clone()
    if alg in (AE, VAE):
        q["scores NN"] = lambda mm, t, u: mm.latent_scores(torch.nan_to_num(u, nan=0.0).clamp(min=0), theta_estimation="NN")
        seeds["scores NN"] = 5
    c.note(algorithm=alg.__name__)
    before = state(m)
    first = {}
    for n in [str(k) for k in rng.choice(list(q), 9)] + (["scores NN"] if "scores NN" in q else []) * 2:
        got = ask(m, q[n], th, y, seeds[n])
        same(c, before, state(m), f"{alg.__name__} {kind}: {n}")
        c.equal(y, y0, f"{n} leaves the responses handed in alone")
        for g, w in zip(got, first.setdefault(n, got)):
            c.close(g, w, f"{kind}: {n} gives the same answer again", rtol=1e-5, atol=1e-6)


@scenario(P, 24, 240)
def asked_between_changes(c):
    """A model that was asked many things between changes answers like a twin that only saw the changes."""
    from irtorch.estimation_algorithms import JML, MML

    rng = c.rng
    m, kind = fitted_model(c, gen.ALL)
    twin = copy.deepcopy(m)
    q, th, x, seeds = questions(rng, m, kind, light=True)
    d = m.latent_variables
    c.feed(x, th)

    def change(what, mm, seed):
        r = np.random.default_rng(seed)
        torch.manual_seed(seed)
        if what == "parameters":
            with torch.no_grad():
                for p in mm.parameters():
                    p.add_(gen.t(r.normal(0, 0.15, tuple(p.shape))).to(p.dtype))
        elif what == "scale":
            mm.add_scale_transformation(scales.any_scale(r, mm, ("Reverse", "Rotate"))[1])
        elif what == "detach":
            mm.detach_scale_transformations()
        elif what == "scores":
            mm.algorithm.training_theta_scores = gen.t(r.normal(r.normal(), 1.0, (25, d)))
        elif what == "data":
            mm.algorithm.train_data = gen.t(r.permutation(mm.algorithm.train_data.numpy()))
        elif what == "fit":
            y = gen.full_support(r, gen.responses(r, mm, gen.theta(r, 30, d)), mm.item_categories)
            mm.fit(gen.t(y), algorithm=MML() if r.random() < 0.5 and d == 1 else JML(), max_epochs=2, device="cpu")

    kinds = ["parameters", "scale", "detach", "scores", "data"] + (["fit"] if kind in ("2PL", "GPC", "NR", "NRmc", "1PL") else [])
    history = []
    for _ in range(4):
        for n in [str(k) for k in rng.choice(list(q), 3)]:
            if n in ("jacobian", "inverse", "plot transformations") and not m.scale:
                continue
            ask(m, q[n], th, x, seeds[n])
            history.append(n)
        what = kinds[int(rng.integers(len(kinds)))]
        seed = int(rng.integers(2**31))
        change(what, m, seed)
        change(what, twin, seed)
        history.append(f"change {what}")
        c.count(f"change {what}")
        for n in [str(k) for k in rng.choice(history, 2)] + [str(rng.choice(list(q)))]:
            if n not in q or (n in ("jacobian", "inverse", "plot transformations") and not m.scale):
                continue
            got = ask(m, q[n], th, x, seeds[n])
            want = ask(copy.deepcopy(twin), q[n], th, x, seeds[n])
            history.append(n)
            c.ok(len(got) == len(want), f"{kind}: {n} answers as a model never asked before", history=history)
            for g, w in zip(got, want):
                c.close(g, w, f"{kind}: {n} answers as a model never asked before (after {what})", rtol=1e-5, atol=1e-6)
            c.count("answers compared after changes")
    c.note(history=history)


@scenario(P, 24, 200)
def independent_models(c):
    """changing one model, its scale or its fit does not show in another built from the same pieces"""
    rng = c.rng
    cats = gen.categories(rng, 4, 2, 4)
    kinds = ["GPC", "NR", "GRM", "NNcat", "Poly"]
    kind = kinds[c.round % len(kinds)]
    torch.manual_seed(1)
    a, _, _ = gen.build(rng, kind, latents=1, cats=cats, masked=False)
    given = list(cats)
    b, _, _ = gen.build(rng, kind, latents=1, cats=cats, masked=False)
    c.ok(cats == given, "building a model leaves the list of categories alone")
    th = gen.theta(rng, 12, 1)
    c.feed(th)
    want = gen.probs64(b, th)
    with torch.no_grad():
        for p in a.parameters():
            p.add_(1.0)
    a.add_scale_transformation(scales.any_scale(rng, a, ("Reverse",))[1])
    c.equal(gen.probs64(b, th), want, f"{kind}: models share no parameters")
    c.equal(b.transform_theta(th.clone()), th, "models share no scale transformations")
    before = gen.probs64(a, th)
    a.detach_scale_transformations()
    c.equal(a.transform_theta(th.clone()), th, "detaching the scales restores the original scale")
    c.equal(gen.probs64(a, th), before, "scales do not change the model itself")
    d = copy.deepcopy(b)
    with torch.no_grad():
        for p in d.parameters():
            p.mul_(0.5)
    c.equal(gen.probs64(b, th), want, f"{kind}: a copy is independent")
    m2 = b.evaluate.model if hasattr(b.evaluate, "model") else b
    c.ok(m2 is b, "evaluation is of the model asked")


class Stop(KeyboardInterrupt):
    """the user interrupts"""


def interrupted(m, call, k):
    """interrupts call at the k-th time the model is evaluated; the number of evaluations seen"""
    seen = [0]

    def hook(module, args):
        seen[0] += 1
        if seen[0] == k:
            raise Stop
    h = m.register_forward_pre_hook(hook)
    try:
        call()
    except Stop:
        pass
    finally:
        h.remove()
    return seen[0]


@scenario(P, 14, 200)
def interrupted_questions(c):
    """A question the user interrupts leaves the model as it was, and later questions get the answers they always get."""
    rng = c.rng
    m, kind = fitted_model(c, gen.ALL)
    q, th, x, seeds = questions(rng, m, kind)
    th0, x0 = th.clone(), x.clone()
    c.feed(x, th)
    before = state(m)
    for n in [str(v) for v in rng.choice(list(q), 8, replace=False)]:
        fresh = copy.deepcopy(m)
        total = interrupted(fresh, lambda: ask(fresh, q[n], th0.clone(), x0.clone(), seeds[n]), 0)
        if not total:
            continue
        for k in sorted({1, total, int(rng.integers(1, total + 1))}):
            interrupted(m, lambda: ask(m, q[n], th, x, seeds[n]), k)
            same(c, before, state(m), f"{kind}: {n} interrupted at evaluation {k} of {total}")
            c.equal(th, th0, f"{kind}: {n} interrupted leaves the scores handed in alone")
            c.equal(x, x0, f"{kind}: {n} interrupted leaves the responses handed in alone")
            c.count("interrupted questions")
        want = ask(fresh, q[n], th0.clone(), x0.clone(), seeds[n])
        for g, w in zip(ask(m, q[n], th, x, seeds[n]), want):
            c.close(g, w, f"{kind}: {n} answers the same after having been interrupted", rtol=1e-5, atol=1e-6)
