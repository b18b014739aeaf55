"""Fitting several models at once."""
import copy
import logging

import numpy as np
import torch

from harness import fits, gen
from harness.core import scenario
from irtorch import set_verbosity
from irtorch.estimation_algorithms import AE, JML, MML
from irtorch.estimation_algorithms.base_irt_algorithm import BaseIRTAlgorithm
from irtorch.utils import fit_multiple_models_cpu

P = "C42"


class Marker(BaseIRTAlgorithm):
    """A known algorithm: the parameters become a function of the data and the arguments."""

    def fit(self, model, train_data, shift=0.0, fail=False, **kwargs):
        if fail and model.items == fail:
            raise RuntimeError("no fit")
        super().fit(model, train_data)
        self.training_theta_scores = torch.zeros(len(train_data), model.latent_variables)
        with torch.no_grad():
            for p in model.parameters():
                p.add_(shift + float(torch.nan_to_num(train_data).sum()) / 100)


@scenario(P, 8, 60)
def each_in_its_place(c):
    rng = c.rng
    n = int(rng.integers(1, 6))
    cats = gen.categories(rng, 4, 2, 4)
    x = gen.full_support(rng, gen.uniform_responses(rng, cats, 15), cats)
    if c.round % 2:
        x, _ = gen.with_missing(rng, x, 0.1)
    models = [gen.build(rng, ["GPC", "NR", "GRM", "NNcat", "Poly"][int(rng.integers(5))], latents=int(rng.integers(1, 3)), cats=cats)[0] for _ in range(n)]
    before = [[p.detach().clone() for p in m.parameters()] for m in models]
    threads = torch.get_num_threads()
    xt = gen.t(x)
    c.feed(x)
    cores = [1, 2, 3, None][c.round % 4]
    c.note(models=[type(m).__name__ for m in models], cores=cores)
    kw = {} if cores is None else {"cores_to_use": cores}
    out = fit_multiple_models_cpu(models, xt, algorithm=Marker(), shift=0.25, **kw)
    c.equal(xt, gen.t(x), "the data are left alone")
    c.ok(len(out) == n, "one fitted model per model")
    move = 0.25 + float(torch.nan_to_num(xt).sum()) / 100
    for m, f, b in zip(models, out, before):
        c.ok(type(f) is type(m), "fitted models come back in order", got=type(f), want=type(m))
        c.ok(len(list(f.parameters())) == len(b), "with their parameters")
        for p, q in zip(f.parameters(), b):
            c.close(p, q + move, "each model is fitted once, to all the data, with the arguments given", rtol=1e-5, atol=1e-5)
        c.equal(f.algorithm.train_data, gen.t(x), "each holds its training data")
        c.ok(tuple(f.algorithm.training_theta_scores.shape) == (15, m.latent_variables), "and its own training scores")
    c.ok(len({id(f) for f in out}) == n and len({id(f.algorithm) for f in out}) == n, "fitted models share nothing")
    c.ok(torch.get_num_threads() == threads, "the number of threads is as before", before=threads, after=torch.get_num_threads())
    c.count("models fitted", n)


@scenario(P, 6, 30)
def as_alone(c):
    """real algorithms: the fit in parallel is the fit alone"""
    rng = c.rng
    cats = [3, 2, 4, 3]
    a, _, _ = gen.build(rng, "GPC", latents=1, cats=cats, easy=True)
    b, _, _ = gen.build(rng, "NR", latents=1, cats=cats, easy=True)
    d, _, _ = gen.build(rng, "GRM", latents=1, cats=cats, easy=True)
    models = [a, b, d]
    x = gen.full_support(rng, gen.responses(rng, a, gen.theta(rng, 40, 1)), cats)
    if c.round % 3 == 0:
        x, _ = gen.with_missing(rng, x, 0.1)
    c.feed(x)
    alg = [MML, JML][c.round % 2]
    kw = {"max_epochs": 4, "learning_rate": 0.05}
    if alg is MML:
        kw.update(integration_method="gauss_hermite", quadrature_points=7)
    alone = copy.deepcopy(models)
    out = fit_multiple_models_cpu(models, gen.t(x), cores_to_use=2, algorithm=alg(), **kw)
    th = gen.t(np.linspace(-2, 2, 9)[:, None])
    for m, f in zip(alone, out):
        m.fit(gen.t(x), algorithm=alg(), **kw)
        c.close(gen.probs64(f, th), gen.probs64(m, th), f"{alg.__name__} {type(m).__name__}: the fit in parallel is the fit alone", rtol=1e-3, atol=1e-4)
        c.close(np.array(f.algorithm.training_history["train_loss"], dtype=float), np.array(m.algorithm.training_history["train_loss"], dtype=float), f"{alg.__name__}: with its own loss history", rtol=1e-4)
        c.ok(not f.training, "fitted models are in evaluation mode")
        c.close(f.latent_scores(gen.t(x[:4]), theta_estimation="EAP"), m.latent_scores(gen.t(x[:4]), theta_estimation="EAP"), "and can be used", rtol=1e-2, atol=1e-2)


@scenario(P, 2, 8)
def failures(c):
    rng = c.rng
    cats = [2, 3]
    ms = [gen.build(rng, "GPC", latents=1, cats=cats)[0], gen.build(rng, "GPC", latents=1, cats=cats + [2])[0]]
    x = gen.t(gen.uniform_responses(rng, cats, 8))
    threads = torch.get_num_threads()
    c.raises(RuntimeError, lambda: fit_multiple_models_cpu(ms, x, cores_to_use=2, algorithm=Marker(), fail=3), "a failing fit is reported")
    c.ok(torch.get_num_threads() == threads, "the number of threads is restored after failures")


@scenario(P, 3, 6)
def verbosity(c):
    log = logging.getLogger("irtorch")
    old = log.level
    try:
        levels = [logging.CRITICAL, logging.ERROR, logging.WARNING, logging.INFO, logging.DEBUG]
        for i in [int(k) for k in c.rng.permutation(5)]:
            set_verbosity(i + 1)
            for lv in levels:
                c.ok(log.isEnabledFor(lv) == (lv >= levels[i]), "the package reports what the level asks for", asked=i + 1, severity=lv)
        for bad in (0, 6, "loud", None):
            c.raises(ValueError, lambda: set_verbosity(bad), "unknown levels are refused")
    finally:
        log.setLevel(old)
