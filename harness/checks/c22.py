"""What fitting leaves behind, whatever the algorithm."""
import numpy as np
import torch

from harness import gen, oracle
from harness.core import Skip, scenario
from irtorch.estimation_algorithms import AE, JML, MML, VAE
from irtorch.utils import gauss_hermite, set_seed

P = "C22"
ALGS = [MML, JML, AE, VAE]
KINDS = ["2PL", "GPC", "NNcat", "NR", "3PL", "Poly", "GRM", "Bspline", "NestNom", "NRmc", "Surp", "NNmc", "1PL", "Mix"]


def problem(c, latents=None, kinds=KINDS, n=None):
    rng = c.rng
    d = latents or 1
    m, mask, kind = gen.any_model(c, kinds=kinds, latents=d, items=int(rng.integers(4, 7)), hi=4, random_params=False)
    x = gen.full_support(rng, gen.uniform_responses(rng, m.item_categories, n or int(rng.integers(15, 40))), m.item_categories)
    c.feed(x)
    return m, kind, x


@scenario(P, 56, 600)
def after_fitting(c):
    alg_cls = ALGS[(c.round // len(KINDS)) % 4]
    m, kind, x = problem(c)
    miss = alg_cls in (MML, JML) or c.round % 2
    if miss:
        x, _ = gen.with_missing(c.rng, x, 0.1)
    epochs = int(c.rng.integers(2, 15))
    c.note(algorithm=alg_cls.__name__, epochs=epochs)
    data = gen.t(x)
    keep = data.clone()
    flags = [p.requires_grad for p in m.parameters()]
    alg = alg_cls()
    kw = {} if alg_cls in (MML, JML) else {"evaluation_interval_size": 2}
    out = m.fit(data, algorithm=alg, max_epochs=epochs, device="cpu", **kw)
    name = alg_cls.__name__
    c.equal(data, keep, f"{name}: the training data are left alone")
    c.ok(m.algorithm is alg, f"{name}: the algorithm is attached to the model")
    c.equal(alg.train_data, keep, f"{name}: the training data are stored with the algorithm")
    c.ok(not m.training, f"{name}: the fitted model is in evaluation mode")
    c.ok(all(torch.isfinite(p).all() for p in m.parameters()), f"{name} {kind}: fitted parameters are finite")
    c.ok([p.requires_grad for p in m.parameters()] == flags, f"{name}: trainable parameters stay trainable")
    c.ok(torch.is_grad_enabled(), f"{name}: gradients stay enabled")
    h = alg.training_history["train_loss"]
    limit = epochs if alg_cls in (MML, JML) else epochs // 2
    c.ok(1 <= len(h) <= limit and np.isfinite(h).all(), f"{name}: one finite loss per evaluation, no more than asked for", history=h, epochs=epochs)
    p = gen.probs64(m, gen.theta(c.rng, 5, m.latent_variables))
    c.ok(np.isfinite(p).all(), f"{name} {kind}: the fitted model gives probabilities")
    if alg_cls is not MML:
        ts = alg.training_theta_scores
        c.ok(tuple(ts.shape) == (len(x), m.latent_variables) and torch.isfinite(ts).all(), f"{name}: one training score per respondent")
    if alg_cls in (AE, VAE):
        c.ok(not alg.encoder.training, f"{name}: the encoder is in evaluation mode")
    c.count(f"fits {name}")


@scenario(P, 32, 300)
def reproducible(c):
    """The same seed, data and settings give the same fit; with several batches and random starts too."""
    alg_cls = ALGS[c.round % 4]
    kind = KINDS[c.round % len(KINDS)]
    d = 1 + c.round % 2 if kind != "1PL" else 1
    m, kind, x = problem(c, latents=d)
    kw = {} if alg_cls is MML else {"batch_size": 9}
    c.note(algorithm=alg_cls.__name__)
    runs = []
    for _ in range(2):
        q = gen.clone(m)
        set_seed(1234 + c.round)
        a = alg_cls()
        q.fit(gen.t(x), algorithm=a, max_epochs=5, device="cpu", **kw)
        runs.append((np.concatenate([p.detach().numpy().ravel() for p in q.parameters()]), np.array(a.training_history["train_loss"]), a.training_theta_scores))
        set_seed(1)
    c.equal(runs[1][0], runs[0][0], f"{alg_cls.__name__} {kind}: same seed, same parameters")
    c.equal(runs[1][1], runs[0][1], f"{alg_cls.__name__}: same seed, same history")
    if runs[0][2] is not None:
        c.equal(runs[1][2].detach(), runs[0][2].detach(), f"{alg_cls.__name__}: same seed, same training scores")


def objective(alg, m, x):
    """current full-batch training objective, recomputed independently"""
    if isinstance(alg, MML):
        d = m.latent_variables
        pts, w = gauss_hermite(15 if d == 1 else 7, torch.zeros(d), torch.eye(d))
        return -oracle.marginal_loglik(lambda q: gen.probs64(m, gen.t(q)), x, pts.numpy(), np.log(w.numpy())).sum()
    if isinstance(alg, JML):
        return -np.nansum(oracle.loglik(gen.probs64(m, alg.training_theta_scores.detach()), x))
    return -np.nansum(oracle.loglik(gen.probs64(m, alg.training_theta_scores.detach()), x)) / len(x)


@scenario(P, 48, 500)
def best_state_is_kept(c):
    """An unstable run ends with (essentially) the best state it saw, not the last."""
    alg_cls = [MML, JML, AE][c.round % 3]
    m, kind, x = problem(c, kinds=["2PL", "GPC", "NR"], n=30)
    if c.round % 2 and alg_cls is not AE:
        x, _ = gen.with_missing(c.rng, x, 0.1)
    epochs = int(c.rng.integers(10, 40))
    lr = float(c.rng.choice([0.3, 0.6, 1.0])) if alg_cls is not AE else float(c.rng.choice([0.05, 0.2]))
    c.note(algorithm=alg_cls.__name__, epochs=epochs, learning_rate=lr)
    a = alg_cls()
    kw = {"integration_method": "gauss_hermite"} if alg_cls is MML else ({"evaluation_interval_size": 1, "learning_rate_updates_before_stopping": 100} if alg_cls is AE else {})
    m.fit(gen.t(x), algorithm=a, max_epochs=epochs, learning_rate=lr, device="cpu", **kw)
    h = np.array(a.training_history["train_loss"])
    if not np.isfinite(h).all():
        raise Skip("the run diverged")
    b = int(h.argmin())
    if b + 2 >= len(h):
        c.count("runs best at the end")
        return
    # losses are measured before the update that is stored with them: allow the stored update
    final = objective(a, m, x)
    if not np.isfinite(final):
        raise Skip("probabilities underflow")
    scale = 1e-3 * abs(h[b]) + 0.05
    c.leq(final, h[b : b + 2].max() + scale, f"{alg_cls.__name__} {kind}: the kept parameters belong to the best loss of the run")
    c.count("unstable runs")


@scenario(P, 24, 200)
def training_improves(c):
    """A moderate learning rate lowers the objective."""
    alg_cls = ALGS[c.round % 4]
    m, kind, _ = problem(c, kinds=["2PL", "GPC", "GRM", "NR", "NNcat", "3PL"])
    truth = gen.clone(m)
    gen.randomize(truth, c.rng, easy=True)
    x = gen.full_support(c.rng, gen.responses(c.rng, truth, gen.theta(c.rng, 150, 1)), m.item_categories)
    a = alg_cls()
    kw = {MML: {"max_epochs": 40, "learning_rate": 0.05}, JML: {"max_epochs": 60, "learning_rate": 0.05}, AE: {"max_epochs": 120, "evaluation_interval_size": 10}, VAE: {"max_epochs": 200, "evaluation_interval_size": 20, "learning_rate": 0.02}}[alg_cls]
    m.fit(gen.t(x), algorithm=a, device="cpu", **kw)
    h = np.array(a.training_history["train_loss"])
    c.ok(h.min() < h[0], f"{alg_cls.__name__} {kind}: training lowers the loss", first=h[0], best=h.min())
    c.feed(x)


@scenario(P, 16, 120)
def stops_when_told(c):
    """Learning-rate based stopping ends the run well before the epoch limit."""
    alg_cls = [MML, JML][c.round % 2]
    m, kind, x = problem(c, kinds=["2PL", "GPC", "NR"])
    a = alg_cls()
    m.fit(gen.t(x), algorithm=a, max_epochs=5000, learning_rate=0.3, learning_rate_update_patience=3, learning_rate_updates_before_stopping=1, device="cpu")
    n1 = len(a.training_history["train_loss"])
    c.leq(n1, 3000, f"{alg_cls.__name__}: stops when the learning rate has been lowered often enough")
    h = np.array(a.training_history["train_loss"])
    tail = h[-(3 + 1):]
    c.leq(h.min() - 1e-3 * abs(h.min()), tail.min(), f"{alg_cls.__name__}: it stops because the loss stopped improving", 1e-3 * abs(h.min()))


@scenario(P, 48, 500)
def kept_state_was_visited(c):
    """The parameters left behind are exactly those around the update with the lowest recorded loss."""
    from torch.optim.optimizer import register_optimizer_step_post_hook

    alg_cls = [MML, JML, AE][c.round % 3]
    m, kind, x = problem(c, kinds=["2PL", "GPC", "NR", "3PL"], n=30)
    if c.round % 2 and alg_cls is not AE:
        x, _ = gen.with_missing(c.rng, x, 0.1)
    epochs = int(c.rng.integers(15, 120))
    lr = float(c.rng.choice([1e-5, 1e-4, 0.02, 0.1, 0.5, 1.0] if alg_cls is not AE else [1e-4, 0.01, 0.05, 0.2]))
    c.note(algorithm=alg_cls.__name__, epochs=epochs, learning_rate=lr)
    a = alg_cls()

    def state():
        extra = list(a.encoder.parameters()) if alg_cls is AE else [a.training_theta_scores] if alg_cls is JML else []
        return np.concatenate([q.detach().double().numpy().ravel() for q in list(m.parameters()) + extra])

    seen = []
    hook = register_optimizer_step_post_hook(lambda *_: seen.append(state()))
    try:
        kw = {"evaluation_interval_size": 1, "hidden_layers_encoder": [5]} if alg_cls is AE else {}
        m.fit(gen.t(x), algorithm=a, max_epochs=epochs, learning_rate=lr, device="cpu", learning_rate_updates_before_stopping=int(c.rng.integers(2, 6)), **kw)
    finally:
        hook.remove()
    h = np.array(a.training_history["train_loss"])
    if len(h) < 3 or not np.isfinite(h).all() or len(seen) < len(h):
        raise Skip("no complete record of the run")
    seen = seen[-len(h) :] if alg_cls is not AE else seen[len(seen) - len(h) :]
    final = state()
    best = np.where(h == h.min())[0]
    near = min(np.abs(seen[j] - final).max() for b in best for j in (b - 1, b) if j >= 0)
    c.ok(np.isfinite(final).all(), f"{alg_cls.__name__} {kind}: fitted parameters are finite")
    c.leq(near, 1e-6, f"{alg_cls.__name__} {kind}: the state kept is that of the lowest loss of the run, update {best[0] + 1} of {len(h)}")
    c.count("updates recorded", len(h))
    c.count("runs best before the end", int(best[0] + 2 < len(h)))


@scenario(P, 32, 300)
def algorithm_object_reused(c):
    """What an algorithm object was used for before leaves no trace in its next fit."""
    alg_cls = ALGS[c.round % 4]
    rng = c.rng
    d = 1 + c.round // 4 % 2
    m, kind, x = problem(c, latents=d, kinds=["2PL", "GPC", "NR", "NNcat"])
    # algorithm objects collect the responses of all their fits, so the data sets need the same items
    other, _ = gen.clone(m), None
    y = gen.full_support(rng, gen.uniform_responses(rng, m.item_categories, len(x) if c.round // 16 % 2 else 25), m.item_categories)
    A = rng.normal(0, 0.6, (d, d))
    first = {
        MML: {"covariance_matrix": gen.t(A @ A.T + np.eye(d) * 0.4), "integration_method": ["gauss_hermite", "quasi_mc"][c.round // 8 % 2]},
        JML: {"start_thetas": torch.ones(len(y), d), "batch_size": 7},
        AE: {"one_hot_encoded": False, "imputation_method": "mean", "batch_normalization_encoder": True, "hidden_layers_encoder": [3], "evaluation_interval_size": 2},
        VAE: {"imputation_method": "zero", "batch_normalization_encoder": True, "hidden_layers_encoder": [3], "evaluation_interval_size": 2, "iw_samples": 1, "anneal": False},
    }[alg_cls]
    then = {} if alg_cls in (MML, JML) else {"evaluation_interval_size": 1}
    used = alg_cls()
    other.fit(gen.t(y), algorithm=used, max_epochs=6, learning_rate=0.1, device="cpu", **first)
    runs = []
    for a in (alg_cls(), used):
        q = gen.clone(m)
        set_seed(99 + c.round)
        q.fit(gen.t(x), algorithm=a, max_epochs=6, device="cpu", **then)
        runs.append((np.concatenate([p.detach().numpy().ravel() for p in q.parameters()]), np.array(a.training_history["train_loss"]), a.training_theta_scores))
    c.close(runs[1][1], runs[0][1], f"{alg_cls.__name__} {kind}: a used algorithm object gives the history of a new one", rtol=1e-6, atol=1e-6)
    c.close(runs[1][0], runs[0][0], f"{alg_cls.__name__} {kind}: a used algorithm object gives the parameters of a new one", rtol=1e-5, atol=1e-6)
    if alg_cls is not MML:
        c.close(runs[1][2].detach(), runs[0][2].detach(), f"{alg_cls.__name__} {kind}: a used algorithm object gives the scores of a new one", rtol=1e-5, atol=1e-5)


HARD = ["3PL", "GRM", "NestNom", "Surp", "Mix", "NestBsp", "2PL", "GPC", "NR", "NRmc", "Poly", "Bspline", "BsplineCat", "NNcat", "NNmc", "1PL"]


@scenario(P, 48, 500)
def hard_data(c):
    """Long fits to near-deterministic or one-sided answers, where probabilities vanish: finite parameters, honest losses."""
    rng = c.rng
    alg_cls = [MML, MML, JML, AE, MML, VAE][c.round % 6]
    kind = HARD[int(rng.integers(4 + 4 * (c.round % 4)))]
    m, _, kind = gen.any_model(c, kinds=[kind], latents=1, items=int(rng.integers(4, 8)), hi=4, random_params=False)
    n = int(rng.integers(40, 80))
    style = ["ordered", "one-sided", "random"][c.round // 2 % 3]
    if style == "ordered":
        th = np.linspace(-2, 2, n)
        x = np.stack([np.digitize(th + rng.normal(0, 0.05, n), np.sort(rng.normal(0, 0.8, k - 1))) for k in m.item_categories], 1).astype(float)
    elif style == "one-sided":
        x = np.stack([np.where(rng.random(n) < 0.97, k - 1, rng.integers(0, k, n)) for k in m.item_categories], 1).astype(float)
    else:
        x = gen.uniform_responses(rng, m.item_categories, n)
    x = gen.full_support(rng, x, m.item_categories)
    c.note(algorithm=alg_cls.__name__, style=style)
    c.feed(x)
    a = alg_cls()
    kw = {MML: {"max_epochs": 250, "integration_method": "gauss_hermite"}, JML: {"max_epochs": 300}, AE: {"max_epochs": 240, "evaluation_interval_size": 30}, VAE: {"max_epochs": 240, "evaluation_interval_size": 30, "learning_rate": 0.02}}[alg_cls]
    m.fit(gen.t(x), algorithm=a, device="cpu", **kw)
    h = np.array(a.training_history["train_loss"])
    name = f"{alg_cls.__name__} {kind}, {style} answers"
    c.ok(np.isfinite(h).all(), f"{name}: losses are finite", history=h[-3:])
    c.ok(all(torch.isfinite(p).all() for p in m.parameters()), f"{name}: fitted parameters are finite")
    th = gen.theta(rng, 20, 1)
    p = gen.probs64(m, th)
    c.ok(np.isfinite(p).all(), f"{name}: the fitted model gives probabilities")
    if alg_cls is not MML:
        c.ok(torch.isfinite(a.training_theta_scores).all(), f"{name}: training scores are finite")
    if alg_cls is MML:
        final = objective(a, m, x)
        b = int(h.argmin())
        if np.isfinite(final):
            c.leq(final, h[max(b - 1, 0) : b + 2].max() + 0.02 * abs(h[b]) + 0.5, f"{name}: the lowest loss counts every response")
        c.count("vanishing probabilities", int((p < 1e-6).sum()))


class Stop(KeyboardInterrupt):
    """the user interrupts"""


@scenario(P, 48, 500)
def interrupted_fits(c):
    """A fit the user interrupts leaves a model that answers and can be fitted like one given its parameters."""
    from torch.optim.optimizer import register_optimizer_step_post_hook, register_optimizer_step_pre_hook

    rng = c.rng
    alg_cls = ALGS[c.round % 4]
    kind = ["Bspline", "NestBsp", "2PL", "NR", "BsplineCat", "NNcat", "Surp", "GPC", "Mix", "NestNom", "NRmc", "3PL"][c.round // 4 % 12]
    m, kind, x = problem(c, kinds=[kind], latents=int(rng.choice([1, 1, 2])))
    blank = gen.clone(m)
    data, keep = gen.t(x), gen.t(x).clone()
    flags = [p.requires_grad for p in m.parameters()]
    at = int(rng.integers(1, 5))
    where = ["during evaluation", "before an update", "after an update"][int(rng.integers(3))]
    c.note(algorithm=alg_cls.__name__, interrupted=f"{where} {at}")
    seen = [0]

    def strike(*_):
        seen[0] += 1
        if seen[0] == at:
            raise Stop

    hook = {"during evaluation": m.register_forward_pre_hook, "before an update": register_optimizer_step_pre_hook, "after an update": register_optimizer_step_post_hook}[where](strike)
    try:
        m.fit(data, algorithm=alg_cls(), max_epochs=6, device="cpu", **({} if alg_cls in (MML, JML) else {"evaluation_interval_size": 2}))
        raise Skip("over before it was interrupted")
    except Stop:
        pass
    finally:
        hook.remove()
    name = f"{alg_cls.__name__} {kind} interrupted {where} {at}"
    c.equal(data, keep, f"{name}: the training data are left alone")
    c.ok(torch.is_grad_enabled(), f"{name}: gradients stay enabled")
    c.ok([p.requires_grad for p in m.parameters()] == flags, f"{name}: trainable parameters stay trainable")
    blank.load_state_dict(m.state_dict())
    for n in (3, 7):
        th = gen.t(gen.theta(rng, n, m.latent_variables))
        c.close(gen.probs64(m, th), gen.probs64(blank, th), f"{name}: the probabilities are those of the model's parameters", rtol=1e-6, atol=1e-7)
    runs = []
    for q in (m, blank):
        set_seed(7 + c.round)
        a = JML() if alg_cls is MML and c.round % 8 else alg_cls()
        q.fit(data, algorithm=a, max_epochs=4, device="cpu", **({} if isinstance(a, (MML, JML)) else {"evaluation_interval_size": 2}))
        runs.append((np.array(a.training_history["train_loss"]), np.concatenate([p.detach().numpy().ravel() for p in q.parameters()])))
    for got, want, what in zip(*runs, ("losses", "parameters")):
        c.close(got, want, f"{name}: fitted again, the {what} are those of a model given its parameters", rtol=1e-5, atol=1e-6)
    c.count("interrupted fits")
