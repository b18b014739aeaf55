"""Sum score distributions."""
import copy
import itertools

import numpy as np
import torch

from harness import evals, fits, gen, oracle
from harness.checks.c16 import MMLFit
from harness.core import Skip, scenario
from irtorch.estimation_algorithms import AE, MML, VAE

P = "C29"


def conditional(m, th):
    """distribution of the total item score at every latent point, by convolution"""
    p = gen.probs64(m, gen.t(th))
    out = []
    for q in p:
        if m.mc_correct is None:
            out.append(oracle.sum_score_dist([q[j, :k] for j, k in enumerate(m.item_categories)]))
        else:
            out.append(oracle.sum_score_dist([np.array([q[j, :k].sum() - q[j, m.mc_correct[j]], q[j, m.mc_correct[j]]]) for j, k in enumerate(m.item_categories)]))
    return np.array(out)


def valid(c, got, m, what):
    top = sum(k - 1 for k in m.item_categories) if m.mc_correct is None else m.items
    c.ok(tuple(got.shape) == (top + 1,), f"{what}: one probability for every possible sum score", shape=tuple(got.shape), expected=top + 1)
    c.leq(np.full(top + 1, -1e-6), got, f"{what}: probabilities are not negative")
    c.close(float(got.double().sum()), 1.0, f"{what}: probabilities sum to one", rtol=0, atol=2e-4)


@scenario(P, 95, 900)
def from_training_scores(c):
    m, kind, x, th = evals.problem(c, items=int(c.rng.integers(2, 9)))
    got = m.evaluate.sum_score_probabilities()
    valid(c, got, m, kind)
    want = conditional(m, m.algorithm.training_theta_scores).mean(0)
    c.close(got, want, f"{kind}: averages the convolved item score distributions over the training scores", rtol=1e-3, atol=2e-5)
    # the expected sum score is the average expected score
    c.close(float((got.double() * torch.arange(len(got))).sum()), oracle.expected_scores(gen.probs64(m, m.algorithm.training_theta_scores), m.item_categories, m.mc_correct).sum(1).mean(), f"{kind}: its mean is the average expected score", rtol=1e-4, atol=1e-3)
    c.count("sum score probabilities", len(got))


@scenario(P, 24, 200)
def from_population_data(c):
    m, kind, x, th = evals.problem(c, kinds=["2PL", "GPC", "NR", "NRmc", "GRM"], latents=1, items=6, n=25)
    got = m.evaluate.sum_score_probabilities(population_data=gen.t(x))
    valid(c, got, m, kind)
    est = m.latent_scores(gen.t(x), theta_estimation="ML", rescale=False)
    c.close(got, conditional(m, est).mean(0), f"{kind}: averages over the scores of the population data", rtol=0, atol=0.03 if kind.startswith("NR") else 5e-3)


@scenario(P, 18, 150)
def from_encoder(c):
    """models with an encoder: encoder scores of the population, or samples from the variational posterior"""
    rng = c.rng
    m, kind, x, _ = fits.problem(c, ["2PL", "GPC", "NR", "NRmc"], latents=1 + c.round % 2, items=4, n=40, hi=3)
    vae = c.round % 3 != 0
    a = VAE() if vae else AE()
    m.fit(gen.t(x), algorithm=a, max_epochs=30, learning_rate=0.02, device="cpu", hidden_layers_encoder=[5])
    pop = x[:7]
    got = m.evaluate.sum_score_probabilities(population_data=gen.t(pop))
    valid(c, got, m, kind)
    c.close(got, conditional(m, m.latent_scores(gen.t(pop), theta_estimation="NN", rescale=False)).mean(0), f"{kind}: averages over the encoder scores of the population data", rtol=1e-3, atol=1e-4)
    if not vae:
        c.raises(ValueError, lambda: m.evaluate.sum_score_probabilities(latent_density_method="encoder sampling"), "sampling needs a variational encoder")
        return
    for data in (None, pop):
        q = x if data is None else data
        mu, lv = a.encoder(gen.t(fits.onehot(q, m.item_categories)))
        mu, sd = mu.detach().double().numpy(), np.exp(0.5 * lv.detach().double().numpy())
        g, w = np.polynomial.hermite_e.hermegauss(15)
        w = w / w.sum()
        d = mu.shape[1]
        want = 0
        for z in itertools.product(range(15), repeat=d):
            want = want + np.prod(w[list(z)]) * conditional(m, mu + sd * g[list(z)]).mean(0)
        got = m.evaluate.sum_score_probabilities(latent_density_method="encoder sampling", sample_size=40000, population_data=None if data is None else gen.t(data))
        valid(c, got, m, kind)
        c.close(got, want, f"{kind}: encoder sampling averages over the variational posteriors", rtol=0, atol=0.012)


@scenario(P, 16, 150)
def marginal_fit(c):
    """Models fitted by marginal maximum likelihood: the model's own latent distribution."""
    rng = c.rng
    d = 1 + c.round % 2
    m, _, kind = gen.any_model(c, kinds=["2PL", "GPC", "NR", "NRmc"], latents=d, items=4, hi=3)
    A = rng.normal(0, 1, (d, d))
    cov = A @ A.T * 0.4 + np.diag(rng.uniform(0.3, 1.0, d))
    a = MML()
    x = gen.full_support(rng, gen.responses(rng, m, gen.theta(rng, 30, d)), m.item_categories)
    m.fit(gen.t(x), algorithm=a, max_epochs=1, covariance_matrix=gen.t(cov), device="cpu", integration_method="gauss_hermite")
    c.feed(x, cov)
    got = m.evaluate.sum_score_probabilities()
    valid(c, got, m, kind)
    pts, lw = oracle.normal_rule(cov, n=41 if d == 1 else 21)
    cond = conditional(m, pts)
    w = np.exp(lw)
    want = (w[:, None] * cond).sum(0) / w.sum()
    sd = np.sqrt(np.maximum((w[:, None] * cond**2).sum(0) / w.sum() - want**2, 0) / 4000)
    c.close(got, want, f"{kind}: averages over the latent distribution of the fitted model", rtol=0, atol=6 * sd + 2e-3)


@scenario(P, 12, 100)
def density_methods(c):
    """Smooth densities fitted to roughly normal scores give nearly the same distribution as the scores themselves."""
    rng = c.rng
    method = ["gmm", "qmvn"][c.round % 2]
    d = 1 + (c.round // 2) % 2
    m, kind, _, _ = evals.problem(c, kinds=["2PL", "GPC", "NR", "NRmc"], latents=d, items=5, easy=True, hi=3)
    n = 500
    m.algorithm.training_theta_scores = gen.t(rng.normal(0, 1, (n, d)) * rng.uniform(0.6, 1.3, d) + rng.normal(0, 0.5, d))
    c.note(method=method, latents=d)
    ref = conditional(m, m.algorithm.training_theta_scores).mean(0)
    if method == "gmm":
        m.evaluate.approximate_latent_density(m.algorithm.training_theta_scores, "gmm", cv_n_components=[1 if c.round % 4 else 2])
    got = m.evaluate.sum_score_probabilities(latent_density_method=method, trapezoidal_segments=200 if d == 1 else 40)
    valid(c, got, m, f"{kind} {method}")
    c.close(got, ref, f"{kind} {method}: integrates over the density fitted to the training scores", rtol=0, atol=0.03 if method == "gmm" else 0.05)


@scenario(P, 12, 80)
def densities_in_turn(c):
    """A density found for one population answers only for that population, whatever was asked before."""
    rng = c.rng
    d = 1 + c.round % 2
    m, kind, x, _ = evals.problem(c, kinds=["2PL", "GPC", "NR", "NRmc"], latents=d, items=4, easy=True, hi=3)
    n = 60
    seg = 40 if d == 1 else 12
    first = gen.t(rng.normal(0, 1, (n, d)))
    second = gen.t(rng.normal(1.5, 0.4, (n, d)))
    pop = gen.responses(rng, m, gen.t(rng.normal(1.0, 0.5, (12, d))))
    c.feed(first, second, pop)

    def ask(mm, scores, **kw):
        mm.algorithm.training_theta_scores = scores
        return mm.evaluate.sum_score_probabilities(latent_density_method="qmvn", trapezoidal_segments=seg, **kw)

    calls = [(first, {}), (second, {}), (first, {"population_data": gen.t(pop)}), (second, {"population_data": gen.t(pop[:6])})]
    if d > 1:
        # so few responses need not separate the two latent variables
        third = gen.t(rng.normal(-1.0, 0.7, (n, d)))
        calls[2:] = [(third, {})]
    order = [int(k) for k in rng.integers(0, len(calls), 6)]
    fresh = {k: ask(copy.deepcopy(m), calls[k][0], **calls[k][1]) for k in sorted(set(order))}
    c.note(order=order, kind=kind)
    for k in order:
        got = ask(m, calls[k][0], **calls[k][1])
        c.close(got, fresh[k], f"{kind}: the answer does not depend on the populations asked about before", rtol=1e-4, atol=1e-6)
        c.count("density questions in turn")
    # a density chosen by the user stays in use for the model's own population
    m.algorithm.training_theta_scores = first
    torch.manual_seed(5)
    m.evaluate.approximate_latent_density(second, "gmm", cv_n_components=[1])
    own = m.evaluate.sum_score_probabilities(latent_density_method="gmm", trapezoidal_segments=seg)
    lo, hi = first.min(0).values - first.std(0), first.max(0).values + first.std(0)
    grid = torch.cartesian_prod(*[torch.linspace(lo[i], hi[i], seg) for i in range(d)]).view(-1, d)
    mu, cov = second.double().mean(0), torch.cov(second.double().T).view(d, d) * (n - 1) / n
    w = torch.distributions.MultivariateNormal(mu, cov).log_prob(grid.double()).exp()
    want = ((w / w.sum()).numpy()[:, None] * conditional(m, grid)).sum(0)
    c.close(own, want, f"{kind}: the density chosen beforehand is used", rtol=1e-2, atol=2e-3)


@scenario(P, 6, 30)
def refusals(c):
    m, kind, x, th = evals.problem(c, kinds=["2PL", "GPC"])
    c.raises(ValueError, lambda: m.evaluate.sum_score_probabilities(latent_density_method="kde"), "unknown density methods are refused")
    c.raises(ValueError, lambda: m.evaluate.sum_score_probabilities(latent_density_method="encoder sampling"), "sampling needs a variational encoder")


@scenario(P, 8, 60)
def long_tests(c):
    """Many items with many categories: hundreds of possible sum scores."""
    rng = c.rng
    items = int(rng.integers(50, 90))
    kind = ["GPC", "NR", "2PL", "GRM"][c.round % 4]
    if kind == "2PL":
        items = int(rng.integers(260, 300))
    m, _, _ = gen.build(rng, kind, latents=1, items=items, easy=True, **({} if kind == "2PL" else {"cats": gen.categories(rng, items, 3, 9)}))
    th = gen.theta(rng, 6, 1, 1.5)
    x = gen.uniform_responses(rng, m.item_categories, 6)
    m.algorithm = gen.FakeFit(gen.t(x), th)
    c.note(model=kind, items=items)
    c.feed(th)
    got = m.evaluate.sum_score_probabilities()
    valid(c, got, m, kind)
    c.close(got, conditional(m, th).mean(0), f"{kind}: averages the convolved item score distributions over the training scores", rtol=2e-3, atol=2e-5)
    c.count("sum score probabilities", len(got))


@scenario(P, 12, 120)
def asked_again(c):
    evals.ask_again(
        c,
        lambda m, x, th: {
            "from the training scores": m.evaluate.sum_score_probabilities(),
            "from population data": m.evaluate.sum_score_probabilities(population_data=x),
            "from a density": m.evaluate.sum_score_probabilities(latent_density_method="qmvn", population_data=x, trapezoidal_segments=30),
        },
        "sum scores",
        tol=1e-3,
    )
