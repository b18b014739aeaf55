"""How responses and scores are stored does not matter: number type, memory layout, missing code."""
import copy

import numpy as np
import torch

from harness import evals, fits, gen, oracle, scales
from harness.core import Skip, scenario
from irtorch._internal_utils import get_missing_mask, joint_entropy_matrix, one_hot_encode_test_data, sum_score
from irtorch.estimation_algorithms import AE, JML, MML, VAE
from irtorch.irt_dataset import PytorchIRTDataset
from irtorch.outlier_detector import OutlierDetector
from irtorch.rescale import RankCDF
from irtorch.utils import get_item_categories, impute_missing, imv, split_data

P = "C43"


def forms(x):
    """The same responses (NaN: missing), stored differently."""
    miss = np.isnan(x)
    coded = np.where(miss, -1, x)
    mixed = x.copy()
    mixed[miss & (np.add.outer(np.arange(len(x)), np.arange(x.shape[1])) % 2 == 0)] = -1
    base = gen.t(mixed)
    n, k = x.shape
    yield "missing as NaN", gen.t(x)
    yield "missing as -1", gen.t(coded)
    yield "doubles", torch.tensor(mixed, dtype=torch.float64)
    yield "long integers", torch.tensor(coded, dtype=torch.int64)
    yield "integers", torch.tensor(coded, dtype=torch.int32)
    yield "short integers", torch.tensor(coded, dtype=torch.int16)
    yield "bytes", torch.tensor(coded, dtype=torch.int8)
    yield "column by column", base.T.contiguous().T
    yield "integers column by column", torch.tensor(coded, dtype=torch.int64).T.contiguous().T
    yield "part of a wider table", torch.cat([torch.full((n, 2), 7.0), base, torch.full((n, 1), 9.0)], 1)[:, 2 : 2 + k]
    yield "every other row", torch.stack([base, torch.full_like(base, 7.0)], 1).reshape(2 * n, k)[::2]
    yield "a third axis", torch.stack([torch.full_like(base, 7.0), base], 2)[:, :, 1]


def layouts(th):
    yield "column by column", th.T.contiguous().T
    yield "part of a wider table", torch.cat([torch.full((len(th), 1), 70.0), th, torch.full((len(th), 2), 90.0)], 1)[:, 1 : 1 + th.shape[1]]
    yield "every other row", torch.stack([th, torch.full_like(th, 70.0)], 1).reshape(2 * len(th), -1)[::2]
    yield "reversed twice", th.flip(0).flip(0)


def plain(v):
    """All numbers of a result, as one list of arrays."""
    if isinstance(v, (tuple, list)):
        return [a for u in v for a in plain(u)]
    if v is None:
        return []
    if isinstance(v, torch.Tensor):
        return [v.detach().double().numpy()]
    if hasattr(v, "columns"):
        return [v.select_dtypes("number").to_numpy(dtype=float)]
    if isinstance(v, dict):
        return [a for k in sorted(v) for a in plain(v[k])]
    return [np.asarray(v, float)]


def same(c, got, want, what, tol=2e-4):
    got, want = plain(got), plain(want)
    c.ok(len(got) == len(want), what + ": same parts")
    for g, w in zip(got, want):
        c.close(g, w, what, rtol=tol, atol=tol)


def with_nan(x):
    x = np.array(x, dtype=np.float32)
    x[x < 0] = np.nan
    return x


@scenario(P, 22, 220)
def evaluation(c):
    rng = c.rng
    m, kind, x, th = evals.problem(c, n=int(rng.integers(30, 60)), items=int(rng.integers(3, 7)), hi=4, easy=True)
    x = with_nan(x)
    ev = m.evaluate
    asks = {
        "the log-likelihood of the model": lambda d: m.log_likelihood(d, m(th), missing_mask=get_missing_mask(d), loss_reduction="none"),
        "log-likelihoods": lambda d: ev.log_likelihood(d, th, reduction=["none", "mean", "sum"][c.round % 3]),
        "residuals": lambda d: ev.residuals(d, th, average_over=["none", "items", "respondents", "everything"][c.round % 4]),
        "accuracies": lambda d: ev.accuracy(d, th, level=["all", "item", "respondent"][c.round % 3]),
        "predictions": lambda d: ev.predictions(d, th),
        "fit statistics": lambda d: ev.infit_outfit(d, th, level=["item", "respondent"][c.round % 2]),
        "group probabilities": lambda d: ev.latent_group_probabilities(d, th, groups=4),
        "group residuals": lambda d: ev.group_fit_residuals(d, th, groups=4),
        "group log-likelihoods": lambda d: ev.group_fit_log_likelihood(d, th, groups=4),
        "Q3": lambda d: ev.q3(d, th)[:1],
        "mutual information differences": lambda d: ev.mutual_information_difference(d, th),
    }
    done = 0
    for what, ask in asks.items():
        try:
            want = ask(gen.t(x))
        except Skip:
            raise
        for how, d in forms(x):
            before = d.clone()
            same(c, ask(d), want, f"{what} of responses stored as {how}" if "missing" not in how else f"{what} with {how}", 1e-3)
            c.ok(torch.equal(torch.nan_to_num(d, nan=-5.0) if d.is_floating_point() else d, torch.nan_to_num(before, nan=-5.0) if d.is_floating_point() else before), f"{what}: the data are left alone")
            done += 1
        for how, s in layouts(th):
            keep = th
            th = s
            try:
                same(c, ask(gen.t(x)), want, f"{what} at scores stored {how}", 1e-3)
            finally:
                th = keep
            done += 1
    c.count("stored forms compared", done)


@scenario(P, 11, 110)
def scoring(c):
    rng = c.rng
    m, kind, x, th = evals.problem(c, n=12, latents=1 + c.round % 2, items=int(rng.integers(5, 9)), hi=4, easy=True)
    x = with_nan(x)[:6]
    kinds = ["ML", "EAP", "MAP"]
    for method in kinds:
        kw = {"theta_estimation": method, "rescale": False}
        want = m.latent_scores(gen.t(x), **kw)
        prob = gen.probs64(m, want)
        for how, d in forms(x):
            got = m.latent_scores(d, **kw)
            # likelihoods can be flat: compare the heights the scores reach
            a = np.nansum(np.log(np.maximum(oracle.picked(gen.probs64(m, got), x), 1e-12)), 1)
            b = np.nansum(np.log(np.maximum(oracle.picked(prob, x), 1e-12)), 1)
            c.close(a, b, f"{method} scores of responses stored as {how} are as likely", rtol=1e-3, atol=5e-3)
            if method == "EAP":
                c.close(got, want, f"{method} scores of responses stored as {how}", rtol=1e-3, atol=3e-3)
        c.count("scored tables", 11)


@scenario(P, 10, 90)
def fitted_models(c):
    """the same seed and the same responses give the same model, however the responses are stored"""
    rng = c.rng
    alg, kw = [
        (MML, {"integration_method": "gauss_hermite", "quadrature_points": 7}),
        (JML, {}),
        (AE, {"batch_size": 16}),
        (VAE, {"batch_size": 16}),
        (JML, {"batch_size": 10}),
    ][c.round % 5]
    kinds = ["2PL", "GPC", "NR", "GRM", "Mix", "NNcat", "Nested", "Poly", "NRmc", "3PL"]
    kinds = [k for k in kinds if k in gen.ALL]
    kind = kinds[int(rng.integers(len(kinds)))]
    m, _, kind = gen.build(rng, kind, latents=1 + int(rng.integers(2)), items=5, hi=4, easy=True)
    c.note(model=kind, algorithm=alg.__name__)
    x = gen.full_support(rng, gen.responses(rng, m, gen.theta(rng, 40, m.latent_variables)), m.item_categories)
    if c.round % 2 and alg is not AE:
        x = with_nan(gen.with_missing(rng, x, 0.1)[0])
        x = np.where(np.isnan(gen.full_support(rng, np.zeros_like(x), m.item_categories)), x, x)
    c.feed(x)

    def fit(d):
        torch.manual_seed(5)
        f = copy.deepcopy(m)
        f.fit(d, algorithm=alg(), max_epochs=3, device="cpu", **kw)
        return fits.flat(f), f.algorithm

    want, wa = fit(gen.t(x))
    moved = torch.as_tensor(want - fits.flat(m)).abs()
    if not np.isfinite(want).all() or moved.max() == 0:
        raise Skip("nothing fitted")
    for how, d in forms(x):
        got, ga = fit(d)
        off = ~np.isclose(got, want, rtol=1e-3, atol=2e-3)
        c.ok(int(off.sum()) <= 0.03 * len(want), f"{alg.__name__} fits the same model to responses stored as {how}", got=got[off][:5], want=want[off][:5])
        if ga.training_theta_scores is not None and wa.training_theta_scores is not None and len(off) and not off.any():
            c.close(ga.training_theta_scores, wa.training_theta_scores, f"with the same training scores ({how})", rtol=1e-2, atol=2e-2)
    c.count("models fitted", 12)


@scenario(P, 12, 120)
def helpers(c):
    rng = c.rng
    m, kind, x, th = evals.problem(c, n=int(rng.integers(20, 40)), items=int(rng.integers(3, 8)), hi=4, easy=True)
    x = with_nan(x)
    cats = m.item_categories
    m2 = gen.clone(m)
    with torch.no_grad():
        for p in m2.parameters():
            p.mul_(0.8)
    asks = {
        "item categories": lambda d: get_item_categories(d),
        "zero imputation": lambda d: impute_missing(d, "zero"),
        "mean imputation": lambda d: impute_missing(d, "mean"),
        "expected imputation": lambda d: impute_missing(d, "prior expected", model=m) if m.mc_correct is None else None,
        "random imputation": lambda d: (torch.manual_seed(6), impute_missing(d, "random incorrect", mc_correct=[k - 1 for k in cats], item_categories=cats if c.round % 2 else None))[1],
        "masks and encoder inputs": lambda d: [r for r in PytorchIRTDataset(d, imputation_method="zero")[np.arange(5)]][1:3],
        "sum scores": lambda d: sum_score(torch.where(d < 0, torch.zeros_like(d), d) if not d.is_floating_point() else torch.nan_to_num(d, nan=0.0).clamp(min=0)),
        "entropies": lambda d: joint_entropy_matrix(d) if not np.isnan(x).any() else None,
        "parts of the data": lambda d: (torch.manual_seed(4), [torch.where(torch.isnan(p.double()), -1.0, p.double()) for p in split_data(d, 0.7)])[1],
        "the intermodel vigorish": lambda d: imv(m2, m, d, model1_theta=th, model2_theta=th),
    }
    for what, ask in asks.items():
        want = ask(gen.t(x))
        for how, d in forms(x):
            same(c, ask(d), want, f"{what} of responses stored as {how}", 1e-4)
    full = np.nan_to_num(x, nan=0.0)
    want = one_hot_encode_test_data(gen.t(full), cats)
    for how, d in forms(full):
        c.equal(one_hot_encode_test_data(d, cats).double(), want.double(), f"one-hot codes of responses stored as {how}")
    det = OutlierDetector(factor=1.0)
    z = gen.t(rng.standard_t(2, (30, 3)) * 3)
    want = det.identify_outliers(z)
    for how, d in list(layouts(z)) + [("as doubles", z.double())]:
        c.equal(det.identify_outliers(d), want, f"outliers of values stored {how}")
        same(c, det.smallest_largest_non_outlier(d), det.smallest_largest_non_outlier(z), f"largest non-outliers of values stored {how}", 1e-5)
    c.count("stored forms compared", 11 * (len(asks) + 1))


@scenario(P, 11, 110)
def scores_in_any_layout(c):
    """what the model says about scores does not depend on how the scores are stored"""
    rng = c.rng
    m, kind, x, th = evals.problem(c, n=12, items=int(rng.integers(3, 6)), hi=4, easy=True)
    asks = {
        "outputs": lambda s: m(s),
        "probabilities": lambda s: m.item_probabilities(s),
        "expected scores": lambda s: m.expected_scores(s),
        "probability gradients": lambda s: m.probability_gradients(s, rescale=False),
        "expected score gradients": lambda s: m.expected_item_score_gradients(s, rescale=False),
        "information": lambda s: m.information(s, rescale=False),
        "sampled responses": lambda s: (torch.manual_seed(2), m.sample_test_data(s))[1],
        "slopes": lambda s: m.item_theta_relationship_directions(s),
    }
    for what, ask in asks.items():
        if what == "information" and kind in ("Mix",) and m.latent_variables > 1:
            continue
        want = ask(th.clone())
        for how, s in layouts(th):
            before = s.clone()
            same(c, ask(s), want, f"{what} of scores stored {how}", 1e-4)
            c.ok(torch.equal(s, before), f"{what}: the scores are left alone")
    c.count("stored forms compared", 4 * len(asks))


@scenario(P, 12, 120)
def scales_in_any_layout(c):
    rng = c.rng
    m, _, kind = gen.any_model(c, kinds=["2PL", "GPC", "GRM"], latents=1 + c.round % 2, items=5, easy=True, large=False)
    th = gen.theta(rng, 25, m.latent_variables)
    if c.round % 3 == 0:
        ref = gen.theta(rng, 40, m.latent_variables)
        # also the scores a scale is built from may be stored in any way
        built = [RankCDF(ref)] + [RankCDF(r) for _, r in layouts(ref)]
        name = "rank"
    else:
        name, scale = scales.any_scale(rng, m)
        built = [scale]
    c.note(scale=name)
    c.feed(th)
    asks = {
        "transformed scores": lambda s, z: s.transform(z),
        "slopes of the scale": lambda s, z: s.jacobian(z) if name != "rank" else None,
        "scores transformed back": lambda s, z: s.inverse(z) if s.invertible else None,
    }
    for what, ask in asks.items():
        if what == "scores transformed back" and built[0].invertible:
            z0 = built[0].transform(th.clone()).detach()
        else:
            z0 = th
        want = ask(built[0], z0.clone())
        for s in built:
            for how, z in layouts(z0):
                before = z.clone()
                same(c, ask(s, z), want, f"{name}: {what} of scores stored {how}", 5e-4)
                c.ok(torch.equal(z, before), f"{what}: the scores are left alone")
    m.add_scale_transformation(built[-1])
    want = m.transform_theta(th.clone())
    for how, z in layouts(th):
        same(c, m.transform_theta(z), want, f"{name}: the model's scale of scores stored {how}", 5e-4)
    c.count("stored forms compared", 4 * len(asks) * len(built))


@scenario(P, 6, 60)
def long_tests(c):
    """sum scores beyond the range of the number type the responses are stored in"""
    rng = c.rng
    items = int(rng.integers(140, 300))
    kind = ["2PL", "GPC", "NRmc"][c.round % 3]
    m, _, _ = gen.build(rng, kind, latents=1, items=items, easy=True, **({} if kind == "2PL" else {"cats": gen.categories(rng, items, 3, 5)}))
    th = gen.theta(rng, 14, 1, 2.0)
    x = gen.responses(rng, m, th)
    x[0] = np.array(m.item_categories) - 1 if m.mc_correct is None else np.array(m.mc_correct)
    x = with_nan(gen.with_missing(rng, x, 0.05)[0])
    c.note(model=kind, items=items)
    c.feed(x)

    def start(d):
        torch.manual_seed(3)
        f = gen.clone(m)
        f.fit(d, algorithm=JML(), max_epochs=1, learning_rate=1e-6, device="cpu")
        return f.algorithm.training_theta_scores

    asks = {
        "sum scores": lambda d: sum_score(d, m.mc_correct),
        "joint likelihood starts": start,
        "log-likelihoods": lambda d: m.evaluate.log_likelihood(d, th, level="respondent"),
        "mean residuals": lambda d: m.evaluate.residuals(d, th, average_over="items"),
        "accuracies": lambda d: m.evaluate.accuracy(d, th, level="respondent"),
        "fit statistics": lambda d: m.evaluate.infit_outfit(d, th, level="respondent"),
    }
    for what, ask in asks.items():
        want = ask(gen.t(x))
        for how, d in forms(x):
            same(c, ask(d), want, f"{what} of long tests stored as {how}", 1e-3)
    c.count("stored forms compared", 12 * len(asks))
