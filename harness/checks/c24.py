"""Variational autoencoder estimation."""
import numpy as np
import torch
from scipy.stats import norm

from harness import fits, gen, oracle
from harness.core import Skip, scenario
from irtorch.estimation_algorithms import VAE

P = "C24"
KINDS = ["2PL", "GPC", "NR", "NNcat", "NRmc", "3PL", "Poly", "GRM", "NestNom", "Mix", "Surp"]


def posterior(a, x, m, imp=None):
    q = fits.impute(x, imp) if imp else x
    with torch.no_grad():
        mu, lv = a.encoder(gen.t(fits.onehot(q, m.item_categories)))
    return mu.double().numpy(), np.exp(0.5 * lv.double().numpy())


def ll(m, th, x):
    """Log-likelihood per respondent; probabilities that underflow in single precision are floored."""
    p = np.maximum(gen.probs64(m, gen.t(th)), 1e-43)
    return np.nansum(oracle.loglik(p, x), 1)


def bound(c, m, x, mu, sd, k, beta, draws=400):
    """Monte Carlo value of the (importance weighted) bound, and its standard error over draws."""
    vals = []
    for _ in range(draws):
        e = c.rng.normal(size=(k,) + mu.shape)
        th = mu + sd * e
        l = ll(m, th.reshape(-1, mu.shape[1]), np.tile(x, (k, 1))).reshape(k, -1)
        lw = (norm.logpdf(e).sum(2) - np.log(sd).sum(1)) - norm.logpdf(th).sum(2)
        b = l - beta * lw
        vals.append((oracle.logsumexp(b, 0) - np.log(k)).mean())
    return -np.mean(vals), np.std(vals) / np.sqrt(draws)


@scenario(P, 24, 200)
def objective(c):
    """With a zero learning rate the average recorded loss is the negative (importance weighted) evidence lower bound."""
    k = [1, 3, 5, 8, 2, 30][c.round % 6]
    m, kind, x, _ = fits.problem(c, [k for k in KINDS if k not in ("GRM", "3PL")], n=30, items=int(c.rng.integers(3, 6)))
    if c.round % 3:
        x, _ = gen.with_missing(c.rng, x, 0.2)
    c.note(iw_samples=k)
    c.feed(x)
    a = VAE()
    T = 300
    m.fit(gen.t(x), algorithm=a, learning_rate=0.0, max_epochs=T, evaluation_interval_size=10, iw_samples=k, anneal=False, device="cpu", hidden_layers_encoder=[[6], [5, 4]][c.round % 2], learning_rate_updates_before_stopping=1000)
    h = np.array(a.training_history["train_loss"])
    c.ok(len(h) == T // 10, "one loss per evaluation interval", n=len(h))
    mu, sd = posterior(a, x, m)
    if k == 1:
        # exact: quadrature over every latent variable of the variational posterior, and closed form divergence
        g, w = np.polynomial.hermite_e.hermegauss(21)
        w = w / w.sum()
        d = m.latent_variables
        grid = np.stack(np.meshgrid(*[g] * d, indexing="ij"), -1).reshape(-1, d)
        ww = np.prod(np.stack(np.meshgrid(*[w] * d, indexing="ij"), -1).reshape(-1, d), 1)
        rec = np.zeros(len(x))
        for z, q in zip(grid, ww):
            rec += q * ll(m, mu + sd * z, x)
        kl = 0.5 * (mu**2 + sd**2 - 1 - 2 * np.log(sd)).sum(1)
        want, se = -(rec - kl).mean(), 0.0
    else:
        want, se = bound(c, m, x, mu, sd, k, 1.0, draws=400 if k < 20 else 120)
    se = np.hypot(se, h.std(ddof=1) / np.sqrt(len(h)))
    c.close(h.mean(), want, f"{kind}: the training loss estimates the negative evidence lower bound with {k} importance samples", rtol=0, atol=6 * se + 2e-3)
    c.count("bounds compared")


@scenario(P, 6, 120)
def annealing(c):
    """While annealing, the divergence from the prior enters with the weight reached so far; afterwards with weight one."""
    k = [1, 4][c.round % 2]
    m, kind, x, _ = fits.problem(c, ["2PL", "GPC", "NR"], n=1500, items=3, hi=3, easy=True)
    c.feed(x)
    c.note(iw_samples=k)
    # all respondents at once, or a few at a time
    batch, A, interval = [(1500, 200, 20), (6, 500, 50), (40, 300, 30)][c.round % 3]
    c.note(batch_size=batch)
    a = VAE()
    m.fit(gen.t(x), algorithm=a, learning_rate=0.0, max_epochs=-(-2 * A * batch // 1500), batch_size=batch, evaluation_interval_size=interval, iw_samples=k, anneal=True, annealing_iterations=A, device="cpu", hidden_layers_encoder=[5], learning_rate_updates_before_stopping=1000)
    h = np.array(a.training_history["train_loss"])
    mu, sd = posterior(a, x, m)
    mids = np.minimum(1, (np.arange(len(h)) * interval + interval / 2) / A)
    want = np.array([bound(c, m, x, mu, sd, k, b, draws=60)[0] for b in mids])
    tail = h[len(h) // 2 :]
    noise = tail.std(ddof=1)
    c.close(h, want, f"{kind}: annealing scales the divergence linearly up to one", rtol=0, atol=7 * noise + 0.02)
    c.close(h[: len(h) // 2].mean() - tail.mean(), want[: len(h) // 2].mean() - want[len(h) // 2 :].mean(), f"{kind}: the annealed part of the run has the discounted divergence", rtol=0, atol=3 * noise + 0.01)


@scenario(P, 12, 120)
def annealing_weights(c):
    """Fits that differ only in the annealing: the losses of the same draws give the weight of the divergence in every iteration."""
    m, kind, x, _ = fits.problem(c, ["2PL", "GPC", "NR", "3PL"], n=int(c.rng.integers(15, 90)), items=4, hi=3, easy=True)
    batch = [1, 4, 7, 16, 40, 200][c.round % 6]
    A = int(c.rng.integers(5, 40))
    c.feed(x)
    c.note(batch_size=batch, annealing_iterations=A)
    epochs = -(-int(2.2 * A) // -(-len(x) // batch))
    h = {}
    for name, arguments in (("off", dict(anneal=False)), ("start", dict(anneal=True, annealing_iterations=10**9)), ("on", dict(anneal=True, annealing_iterations=A))):
        torch.manual_seed(int(c.seed) + c.round)
        a = VAE()
        f = gen.clone(m)
        f.fit(gen.t(x), algorithm=a, learning_rate=0.0, max_epochs=epochs, batch_size=batch, evaluation_interval_size=1, iw_samples=1, device="cpu", hidden_layers_encoder=[5], batch_normalization_encoder=False, learning_rate_updates_before_stopping=1000, **arguments)
        h[name] = np.array(a.training_history["train_loss"])
    n = min(len(v) for v in h.values())
    c.ok(n >= epochs * -(-len(x) // batch) - 1, "one loss per iteration", n=n)
    divergence = h["off"][:n] - h["start"][:n]
    t = np.arange(n)
    far = np.abs(divergence) > 1e-3
    if not far.any():
        raise Skip("the divergence is too small to tell its weight")
    weight = (h["on"][:n] - h["start"][:n])[far] / divergence[far]
    # the first iteration may count as number zero or one, and the first recorded one may be the second
    low, high = np.minimum(1, t[far] / A), np.minimum(1, (t[far] + 2) / A)
    c.ok(np.all((weight >= low - 0.01) & (weight <= high + 0.01)), f"{kind}: the weight of the divergence grows linearly to one over the annealing iterations", worst=float(np.max(np.maximum(low - weight, weight - high))))
    c.count("weights recovered", int(far.sum()))


@scenario(P, 6, 60)
def annealed_fit(c):
    """Annealing only eases the start: the fit left behind is (nearly) as good as one that was never annealed."""
    rng = c.rng
    n, items = 400, 12
    truth, _, _ = gen.build(rng, ["2PL", "GPC"][c.round % 2], latents=1, items=items, cats=[3] * items if c.round % 2 else None, easy=True)
    x = gen.full_support(rng, gen.responses(rng, truth, gen.t(rng.normal(0, 1, (n, 1)))), truth.item_categories)
    c.feed(x)
    A = int(rng.choice([60, 150, 300, 600]))
    interval = int(rng.choice([20, 60]))
    c.note(annealing_iterations=A, interval=interval)
    value = {}
    for anneal in (False, True):
        torch.manual_seed(int(c.seed) + c.round)
        m = gen.clone(truth)
        gen.randomize(m, np.random.default_rng([c.seed, c.round]), easy=True)
        a = VAE()
        m.fit(gen.t(x), algorithm=a, max_epochs=2500, batch_size=200, learning_rate=0.02, hidden_layers_encoder=[10], anneal=anneal, annealing_iterations=A, evaluation_interval_size=interval, device="cpu")
        value[anneal] = bound(c, m, x, *posterior(a, x, m), 1, 1.0, draws=60)[0]
    c.leq(value[True], value[False] + 0.15, "an annealed fit reaches the evidence lower bound of a fit without annealing")
    c.count("annealed fits")


@scenario(P, 32, 300)
def posterior_summaries(c):
    m, kind, x, _ = fits.problem(c, KINDS)
    if c.round % 2:
        x, _ = gen.with_missing(c.rng, x, 0.15)
    bn = c.round % 4 >= 2
    imp = [None, None, "zero"][c.round % 3]
    a = VAE()
    m.fit(gen.t(x), algorithm=a, max_epochs=8, evaluation_interval_size=2, learning_rate=0.05, batch_size=11, batch_normalization_encoder=bn, imputation_method=imp, device="cpu", hidden_layers_encoder=[[6], [5, 4]][c.round % 2])
    c.note(batch_normalization=bn, imputation=imp)
    c.feed(x)
    mu, sd = posterior(a, x, m, imp)
    c.close(a.training_theta_scores, mu, f"{kind}: training scores are the posterior means of the trained encoder", rtol=1e-4, atol=1e-5)
    c.close(m.latent_scores(gen.t(x), theta_estimation="NN", rescale=False), mu, f"{kind}: encoder scores are posterior means", rtol=1e-4, atol=1e-5)
    one = gen.t(fits.onehot(fits.impute(x, imp) if imp else x, m.item_categories))
    mean, se = a.latent_mean_se(one)
    c.close(mean, mu, "posterior means", rtol=1e-4, atol=1e-5)
    c.close(se, sd, "posterior standard deviations", rtol=1e-4, atol=1e-5)
    for alpha in (0.05, float(c.rng.uniform(0.01, 0.6))):
        lo, mid, up = a.latent_credible_interval(one, alpha=alpha)
        z = norm.ppf(1 - alpha / 2)
        c.close(lo, mu - z * sd, f"{kind}: lower credible limit", rtol=1e-4, atol=1e-4)
        c.close(mid, mu, f"{kind}: centre of the credible interval", rtol=1e-4, atol=1e-5)
        c.close(up, mu + z * sd, f"{kind}: upper credible limit", rtol=1e-4, atol=1e-4)
    S = 40000
    new = x[:5]
    for data, mm, ss in ((None, mu, sd), (gen.t(new), mu[:5], sd[:5])):
        s = a.sample_latent_variables(m, S, data).double().numpy()
        c.ok(s.shape == (S, m.latent_variables), "as many samples as asked for")
        var = (ss**2).mean(0) + mm.var(0)
        c.leq(np.abs(s.mean(0) - mm.mean(0)), 6 * np.sqrt(var / S), f"{kind}: samples are centred at the respondents' posterior means")
        c.close(s.var(0), var, f"{kind}: samples mix the respondents' posteriors", rtol=0.1)
        u = norm.cdf((s[:, :, None] - 0 - mm.T[None]) / ss.T[None]).mean(2)
        c.close(np.quantile(u, [0.1, 0.3, 0.5, 0.7, 0.9], axis=0), np.repeat(np.array([[0.1], [0.3], [0.5], [0.7], [0.9]]), s.shape[1], 1), f"{kind}: samples follow the mixture of posteriors", rtol=0, atol=0.025)


@scenario(P, 8, 80)
def learns(c):
    kind = ["2PL", "GPC", "NR", "GRM"][c.round % 4]
    m, kind, x, th = fits.problem(c, [kind], latents=1, n=300, items=12, hi=3, easy=True)
    c.feed(x)
    a = VAE()
    fresh = gen.clone(m)
    gen.randomize(fresh, c.rng, easy=True)
    fresh.fit(gen.t(x), algorithm=a, max_epochs=400, learning_rate=0.02, evaluation_interval_size=20, device="cpu", iw_samples=int(c.rng.choice([1, 5])))
    r = abs(np.corrcoef(a.training_theta_scores.numpy()[:, 0], th.numpy()[:, 0])[0, 1])
    c.leq(0.5, r, f"VAE {kind}: posterior means follow the generating scores")
    mu, sd = posterior(a, x, fresh)
    total = (sd**2).mean() + mu.var()
    c.ok(0.5 < total < 1.7, f"VAE {kind}: the posteriors average to about the prior", variance=total)
    z = (np.sign(np.corrcoef(mu[:, 0], th.numpy()[:, 0])[0, 1]) * th.numpy()[:, 0] - mu[:, 0]) / sd[:, 0]
    c.leq((np.abs(z) > 3).mean(), 0.1, f"VAE {kind}: posterior standard deviations are honest")


@scenario(P, 20, 200)
def used_before(c):
    """One algorithm object, fitted twice: the second fit knows nothing of the first."""
    first = [{}, {"anneal": False, "iw_samples": 1}, {"batch_size": 5, "evaluation_interval_size": 1, "annealing_iterations": 50}][c.round % 3]
    fits.another_fit(c, VAE, KINDS, first, {"evaluation_interval_size": 1 + c.round % 2}, epochs=9)
