"""Autoencoder estimation."""
import numpy as np
import torch

from harness import fits, gen, oracle
from harness.core import Skip, scenario
from irtorch.estimation_algorithms import AE
from irtorch.utils import set_seed

P = "C23"
KINDS = ["2PL", "GPC", "NR", "NNcat", "NRmc", "3PL", "Poly", "NNmc", "GRM", "Bspline", "NestNom", "Mix", "1PL", "Surp"]


def ae_input(c, x, m):
    """choose an input coding and the reference encoder input"""
    how = ["one hot", "one hot", "zero", "mean", "one hot zero", "one hot mean"][c.round % 6]
    c.note(encoder_input=how)
    if how == "one hot":
        return {}, lambda q: fits.onehot(q, m.item_categories)
    if how == "one hot zero":
        return {"imputation_method": "zero"}, lambda q: fits.onehot(fits.impute(q, "zero"), m.item_categories)
    if how == "one hot mean":
        return {"imputation_method": "mean"}, lambda q: fits.onehot(np.round(fits.impute(q, "mean")), m.item_categories)
    return {"one_hot_encoded": False, "imputation_method": how}, lambda q: fits.impute(q, how)


def options(c):
    k = {"hidden_layers_encoder": [[5], [7, 4], [6, 5, 3], None][c.round % 4]}
    if c.round % 3 == 0:
        k["nonlinear_encoder"] = torch.nn.Tanh()
    return k


@scenario(P, 56, 600)
def objective(c):
    """With a zero learning rate the recorded loss is the objective at the initial parameters."""
    m, kind, x, _ = fits.problem(c, KINDS)
    nb = int(c.rng.choice([1, 2, 3]))
    bs = int(c.rng.integers(6, 14))
    x = np.concatenate([x] * (1 + nb * bs // len(x)))[: nb * bs]
    x = gen.full_support(c.rng, x, m.item_categories)
    if c.round % 3:
        x, _ = gen.with_missing(c.rng, x, 0.2)
        if c.round % 2:  # respondents without any observed response
            x[c.rng.choice(len(x), 1 + len(x) // 8, replace=False)] = c.rng.choice([np.nan, -1.0])
    kw, ref_in = ae_input(c, x, m)
    c.note(batches=nb, batch=bs)
    c.feed(x)
    p0 = fits.flat(m)
    a = AE()
    m.fit(gen.t(x), algorithm=a, learning_rate=0.0, max_epochs=3, evaluation_interval_size=nb if nb > 1 else 2, batch_size=bs, device="cpu", **kw, **options(c))
    c.equal(fits.flat(m), p0, "a zero learning rate changes nothing")
    with torch.no_grad():
        th = a.encoder(gen.t(ref_in(x)))
    c.close(a.training_theta_scores, th, f"{kind}: training scores are the encoder's output for the training data", rtol=1e-5, atol=1e-6)
    pr = gen.probs64(m, th)
    if not fits.tame(pr, x):
        raise Skip("a response of vanishing probability")
    want = -np.nansum(oracle.loglik(pr, x)) / len(x)
    h = a.training_history["train_loss"]
    c.ok(len(h) >= 1, "losses are recorded")
    c.close(np.array(h), np.full(len(h), want), f"{kind}: the training loss is the negative log-likelihood of the observed responses per respondent", rtol=1e-4, atol=1e-4)


@scenario(P, 42, 400)
def first_update(c):
    """The first update moves model and encoder parameters down the gradient of the objective."""
    m, kind, x, _ = fits.problem(c, KINDS, easy=False)
    if c.round % 2:
        x, _ = gen.with_missing(c.rng, x, 0.15)
    kw, ref_in = ae_input(c, x, m)
    opts = options(c)
    c.feed(x)
    m0, m1 = gen.clone(m), gen.clone(m)
    algs = []
    for q, lr in ((m0, 0.0), (m1, 1e-3)):
        set_seed(77)
        a = AE()
        q.fit(gen.t(x), algorithm=a, learning_rate=lr, max_epochs=1, evaluation_interval_size=5, device="cpu", **kw, **opts)
        algs.append(a)
    enc = algs[0].encoder
    xin = gen.t(ref_in(x))
    loss = -fits.torch_loglik(m0, enc(xin), x).mean()
    params = [p for p in list(m0.parameters()) if p.requires_grad]
    g = fits.grad_of(loss, params)
    s = np.concatenate([(b.detach() - a.detach()).double().numpy().ravel() for a, b in zip(params, [p for p in m1.parameters() if p.requires_grad])])
    fits.moved_against(c, s, g, f"AE {kind} model")
    loss = -fits.torch_loglik(m0, enc(xin), x).mean()
    g = fits.grad_of(loss, list(enc.parameters()))
    s = fits.flat(algs[1].encoder) - fits.flat(enc)
    fits.moved_against(c, s, g, f"AE {kind} encoder", 0.05)


@scenario(P, 40, 400)
def scoring(c):
    """Encoder scores after training: per respondent, for old and new data, from the same input coding."""
    m, kind, x, _ = fits.problem(c, KINDS)
    bn = c.round % 4 == 1
    if c.round % 2:
        x, _ = gen.with_missing(c.rng, x, 0.15)
    kw, ref_in = ae_input(c, x, m)
    a = AE()
    m.fit(gen.t(x), algorithm=a, max_epochs=6, evaluation_interval_size=2, batch_size=9, device="cpu", batch_normalization_encoder=bn, **kw, **options(c))
    c.note(batch_normalization=bn)
    new, _ = gen.with_missing(c.rng, gen.uniform_responses(c.rng, m.item_categories, 9), 0.2 if c.round % 3 else 0.0)
    c.feed(x, new)
    mean_coded = kw.get("imputation_method") == "mean"
    ref = lambda q: a.encoder(gen.t(ref_in(q)))
    with torch.no_grad():
        want_train, want_new = ref(x), ref(new)
    c.close(a.training_theta_scores, want_train, f"{kind}: training scores are the trained encoder's output", rtol=1e-4, atol=1e-5)
    score = lambda q: m.latent_scores(gen.t(q), theta_estimation="NN", rescale=False).detach()
    c.close(score(x), a.training_theta_scores, f"{kind}: scoring the training data gives the training scores", rtol=1e-4, atol=1e-5)
    c.close(score(new), want_new, f"{kind}: new respondents are scored by the trained encoder", rtol=1e-4, atol=1e-5)
    if not mean_coded:
        c.close(score(new[3:4]), want_new[3:4], f"{kind}: a respondent's encoder score does not depend on the others", rtol=1e-4, atol=1e-5)
    miss = oracle.missing(new)
    c.close(score(np.where(miss, -1, new)), score(np.where(miss, np.nan, new)), f"{kind}: -1 and NaN both mean missing", rtol=1e-5, atol=1e-6)


@scenario(P, 12, 100)
def random_incorrect(c):
    """Missing responses imputed by random incorrect answers: scores are encodings of such an answer."""
    rng = c.rng
    m, kind, x, _ = fits.problem(c, ["NRmc", "NNmc", "NestNom"], latents=1, hi=4)
    hole = rng.integers(0, x.shape[1], len(x))  # at most one missing response per respondent
    some = rng.random(len(x)) < 0.6
    x[some, hole[some]] = rng.choice([np.nan, -1.0])
    hot = bool(c.round % 2)
    a = AE()
    m.fit(gen.t(x), algorithm=a, max_epochs=4, evaluation_interval_size=2, device="cpu", hidden_layers_encoder=[5], imputation_method="random incorrect", one_hot_encoded=hot)
    c.note(one_hot=hot)
    c.feed(x)
    code = (lambda q: fits.onehot(q, m.item_categories)) if hot else (lambda q: q)

    def check(q, got, what):
        got = got.detach().double().numpy().ravel()
        c.ok(np.isfinite(got).all(), f"{kind}: {what} are finite", got=got)
        near = np.full(len(q), np.inf)
        for i in range(len(q)):
            rows = [q[i]]
            j = np.where(oracle.missing(q[i : i + 1])[0])[0]
            if len(j):
                rows = []
                for k in range(m.item_categories[j[0]]):
                    if k != m.mc_correct[j[0]]:
                        rows.append(q[i].copy())
                        rows[-1][j[0]] = k
            with torch.no_grad():
                e = a.encoder(gen.t(code(np.array(rows)))).double().numpy().ravel()
            near[i] = np.abs(e - got[i]).min()
        c.leq(near, np.full(len(q), 1e-4), f"{kind}: {what} are encodings of an incorrect answer in place of the missing one")

    check(x, a.training_theta_scores, "training scores")
    check(x, m.latent_scores(gen.t(x), theta_estimation="NN", rescale=False), "encoder scores")


@scenario(P, 12, 100)
def learns(c):
    """A converged fit explains the data better than the item margins and orders the respondents."""
    kind = ["2PL", "GPC", "NR", "NNcat", "GRM", "NRmc"][c.round % 6]
    m, kind, x, th = fits.problem(c, [kind], latents=1, n=300, items=12, hi=3, easy=True)
    c.feed(x)
    fresh = gen.clone(m)
    gen.randomize(fresh, c.rng, easy=True)
    a = AE()
    kw = {"nonlinear_encoder": torch.nn.Tanh()} if c.round % 2 else {}
    fresh.fit(gen.t(x), algorithm=a, max_epochs=400, evaluation_interval_size=20, device="cpu", **kw)
    ll = np.nansum(oracle.loglik(gen.probs64(fresh, a.training_theta_scores), x))
    null = sum((n := np.bincount(x[:, j].astype(int))) @ np.log(np.maximum(n, 1) / len(x)) for j in range(x.shape[1]))
    c.leq(null, ll, f"AE {kind}: the fit explains the data better than the item margins")
    r = abs(np.corrcoef(a.training_theta_scores.numpy()[:, 0], th.numpy()[:, 0])[0, 1])
    floor = abs(np.corrcoef(np.argsort(np.argsort(m.expected_scores(th).sum(1).detach().numpy())), th.numpy()[:, 0])[0, 1])
    c.leq(0.55 * min(1, floor), r, f"AE {kind}: scores follow the generating scores")


@scenario(P, 8, 40)
def refusals(c):
    m, kind, x, _ = fits.problem(c, ["2PL", "GPC"])
    c.feed(x)
    c.raises(ValueError, lambda: m.fit(gen.t(x), algorithm=AE(), one_hot_encoded=False, max_epochs=1, device="cpu"), "raw encoder input needs an imputation method")


@scenario(P, 20, 200)
def used_before(c):
    """One algorithm object, fitted twice: the second fit knows nothing of the first."""
    first = [{}, {"one_hot_encoded": False, "imputation_method": "mean", "batch_normalization_encoder": True}, {"batch_size": 5, "evaluation_interval_size": 1}][c.round % 3]
    fits.another_fit(c, AE, KINDS, first, {"evaluation_interval_size": 1 + c.round % 2})
