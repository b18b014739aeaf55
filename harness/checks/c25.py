"""Joint maximum likelihood estimation."""
import numpy as np
import torch

from harness import fits, gen, oracle
from harness.core import Skip, scenario
from irtorch.estimation_algorithms import JML

P = "C25"
KINDS = ["2PL", "GPC", "NR", "NNcat", "NRmc", "3PL", "Poly", "NNmc", "GRM", "Bspline", "NestNom", "Mix", "1PL", "Surp"]


def scores(x, mc):
    miss = oracle.missing(x)
    if mc is None:
        return np.where(miss, 0, x).sum(1)
    return (np.where(miss, -9, x) == np.array(mc)).sum(1)


@scenario(P, 56, 600)
def objective(c):
    """With a zero learning rate: the starting scores, and the loss there."""
    m, kind, x, th = fits.problem(c, KINDS)
    if c.round % 3:
        x, _ = gen.with_missing(c.rng, x, 0.2)
    d = m.latent_variables
    given = c.round % 2 == 1
    bs = [None, 5][c.round // 2 % 2]
    c.note(given_start=given, batch=bs)
    c.feed(x)
    p0 = fits.flat(m)
    a = JML()
    start = gen.t(c.rng.normal(0, 1, (len(x), d)))
    keep = start.clone()
    m.fit(gen.t(x), algorithm=a, learning_rate=0.0, max_epochs=3, batch_size=bs, device="cpu", **({"start_thetas": start} if given else {}))
    c.equal(fits.flat(m), p0, "a zero learning rate changes nothing")
    got = a.training_theta_scores.detach().double().numpy()
    c.ok(got.shape == (len(x), d), "one score per respondent and latent variable")
    if given:
        c.equal(got.astype(np.float32), keep.numpy(), "training starts from the given scores")
        c.equal(start, keep, "the given scores are left alone")
    else:
        s = scores(x, m.mc_correct)
        z = (s - s.mean()) / s.std(ddof=1)
        if d == 1:
            c.close(got[:, 0], z, f"{kind}: training starts from standardised sum scores (number correct for multiple choice)", rtol=1e-4, atol=1e-4)
        else:
            c.leq(np.abs(got - z[:, None]), np.full(got.shape, 0.6), f"{kind}: training starts near the standardised sum scores")
    pr = gen.probs64(m, gen.t(got))
    if not fits.tame(pr, x):
        raise Skip("a response of vanishing probability")
    want = -np.nansum(oracle.loglik(pr, x), 1)
    h = np.array(a.training_history["train_loss"])
    per = [want[i : i + (bs or len(x))].sum() for i in range(0, len(x), bs or len(x))]
    if len(h) == 3 * len(per):
        c.close(h.reshape(3, -1).sum(1), np.full(3, np.sum(per)), f"{kind}: the batch losses of an epoch add up to the negative joint log-likelihood", rtol=1e-4, atol=1e-3)
    else:
        c.ok(len(h) == 3, "one loss per epoch or per batch", n=len(h))
        c.close(h, np.full(3, np.sum(per)), f"{kind}: the loss is the negative joint log-likelihood", rtol=1e-4, atol=1e-3)


@scenario(P, 24, 200)
def unusual_data(c):
    """Everybody with the same sum score, a single respondent, items with many categories."""
    rng = c.rng
    how = ["equal sums", "one respondent", "many categories"][c.round % 3]
    kind = ["2PL", "GPC", "NR", "NRmc", "GRM", "NNcat", "NestNom", "3PL"][c.round // 3 % 8]
    hi = 2 if kind in ("2PL", "3PL") else 3 if how != "many categories" else 14
    m, _, kind = gen.any_model(c, kinds=[kind], latents=1 + c.round // 3 % 2, items=4, hi=hi)
    n = 1 if how == "one respondent" else 20
    x = gen.uniform_responses(rng, m.item_categories, n)
    if how == "equal sums":
        base = np.array([1.0, 0.0, 1.0, 0.0])
        x = np.stack([np.roll(base, int(rng.integers(4))) for _ in range(n)])
        if m.mc_correct is not None:
            x[:] = [float(k) for k in m.mc_correct]
    c.note(how=how)
    c.feed(x)
    a = JML()
    m.fit(gen.t(x), algorithm=a, learning_rate=0.0, max_epochs=1, device="cpu")
    start = a.training_theta_scores.detach().double().numpy()
    h = np.array(a.training_history["train_loss"])
    c.ok(np.isfinite(start).all() and np.isfinite(h).all(), f"{kind}, {how}: starting scores and losses are finite", start=start[:3], history=h)
    if how == "many categories":
        s = scores(x, m.mc_correct)
        z = (s - s.mean()) / s.std(ddof=1)
        c.leq(np.abs(start - z[:, None]), np.full(start.shape, 1e-4 if start.shape[1] == 1 else 0.7), f"{kind}: training starts from standardised sum scores")
    else:
        c.leq(np.abs(start), np.full(start.shape, 1e-4 if start.shape[1] == 1 else 0.7), f"{kind}, {how}: equal sum scores start at the centre")
    pr = gen.probs64(m, gen.t(start))
    want = -np.nansum(oracle.loglik(pr, x))
    if fits.tame(pr, x):
        c.close(h[0], want, f"{kind}, {how}: the loss is the negative joint log-likelihood", rtol=1e-4, atol=1e-3)


@scenario(P, 42, 400)
def first_update(c):
    m, kind, x, th = fits.problem(c, KINDS)
    if c.round % 2:
        x, _ = gen.with_missing(c.rng, x, 0.15)
    start = gen.t(c.rng.normal(0, 1, (len(x), m.latent_variables)))
    c.feed(x, start)
    keep = start.clone()
    m0, m1 = gen.clone(m), gen.clone(m)
    a = JML()
    m1.fit(gen.t(x), algorithm=a, learning_rate=1e-3, max_epochs=1, start_thetas=start, device="cpu")
    c.equal(start, keep, "the given scores are left alone")
    th0 = start.clone().requires_grad_(True)
    params = [p for p in m0.parameters() if p.requires_grad]
    loss = -fits.torch_loglik(m0, th0, x).sum()
    g = fits.grad_of(loss, params)
    s = np.concatenate([(b.detach() - q.detach()).double().numpy().ravel() for q, b in zip(params, [p for p in m1.parameters() if p.requires_grad])])
    fits.moved_against(c, s, g, f"JML {kind} model")
    loss = -fits.torch_loglik(m0, th0, x).sum()
    g = fits.grad_of(loss, [th0])
    s = (a.training_theta_scores.detach() - start).double().numpy().ravel()
    fits.moved_against(c, s, g, f"JML {kind} scores", 0.05)


@scenario(P, 18, 150)
def beats_the_truth(c):
    """The joint likelihood of the estimates exceeds that of the generating scores and parameters."""
    kind = ["2PL", "GPC", "NR", "GRM", "NRmc", "1PL"][c.round % 6]
    m, kind, x, th = fits.problem(c, [kind], latents=1, n=200, items=10, hi=3, easy=True)
    if c.round % 2:
        x, _ = gen.with_missing(c.rng, x, 0.1)
    c.feed(x)
    truth = np.nansum(oracle.loglik(gen.probs64(m, th), x))
    fresh = gen.clone(m)
    gen.randomize(fresh, c.rng, easy=True)
    a = JML()
    bs = [None, 70][c.round // 6 % 2]
    fresh.fit(gen.t(x), algorithm=a, max_epochs=400, learning_rate=0.05, batch_size=bs, device="cpu")
    got = a.training_theta_scores.detach()
    ll = np.nansum(oracle.loglik(gen.probs64(fresh, got), x))
    c.leq(truth, ll, f"JML {kind}: the estimates are jointly more likely than the generating values")
    r = abs(np.corrcoef(got.numpy()[:, 0], th.numpy()[:, 0])[0, 1])
    c.leq(0.5, r, f"JML {kind}: scores follow the generating scores")


@scenario(P, 16, 120)
def fitted_in_batches(c):
    """Batches of any size, with a remainder or not, give estimates as good as the whole data do."""
    rng = c.rng
    kind = ["2PL", "GPC", "NR", "1PL"][c.round % 4]
    n = 150
    m, kind, x, th = fits.problem(c, [kind], latents=1, n=n, items=10, hi=3, easy=True)
    if c.round // 4 % 2:
        x, _ = gen.with_missing(rng, x, 0.1)
    c.feed(x)
    bs = [n - 1, 8, 100, 31][c.round // 4 % 4]
    c.note(batch=bs)
    got = {}
    start = gen.clone(m)
    gen.randomize(start, rng, easy=True)
    for b in (None, bs):
        fresh, a = gen.clone(start), JML()
        fresh.fit(gen.t(x), algorithm=a, max_epochs=120, learning_rate=0.05, learning_rate_update_patience=10, batch_size=b, device="cpu")
        got[b] = np.nansum(oracle.loglik(gen.probs64(fresh, a.training_theta_scores.detach()), x))
    truth = np.nansum(oracle.loglik(gen.probs64(m, th), x))
    c.leq(truth, got[bs], f"JML {kind}, batches of {bs}: the estimates are jointly more likely than the generating values")
    c.leq(got[None] - 0.04 * abs(got[None]), got[bs], f"JML {kind}, batches of {bs}: the estimates are about as likely as those from the whole data")


@scenario(P, 10, 60)
def refusals(c):
    m, kind, x, _ = fits.problem(c, ["2PL", "GPC", "NR"])
    c.feed(x)
    d = m.latent_variables
    c.raises(ValueError, lambda: m.fit(gen.t(x), algorithm=JML(), start_thetas=torch.zeros(len(x) + 1, d), max_epochs=1, device="cpu"), "starting scores for other respondents are refused")
    c.raises(ValueError, lambda: m.fit(gen.t(x), algorithm=JML(), start_thetas=torch.zeros(len(x), d + 1), max_epochs=1, device="cpu"), "starting scores for other latent variables are refused")


@scenario(P, 20, 200)
def used_before(c):
    """One algorithm object, fitted twice: the second fit knows nothing of the first."""
    first = {"batch_size": 7} if c.round // 4 % 2 else {}
    fits.another_fit(c, JML, KINDS, first)
