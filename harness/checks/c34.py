"""Cross-validation."""
import copy

import numpy as np
import torch

from harness import fits, gen, oracle
from harness.core import scenario
from irtorch.estimation_algorithms import AE, JML, MML
from irtorch.estimation_algorithms.base_irt_algorithm import BaseIRTAlgorithm
from irtorch.utils import cross_validation

P = "C34"


class Frozen(BaseIRTAlgorithm):
    """An algorithm that records what it is given and sets known parameters: the monitor of the folds."""

    seen = []

    def fit(self, model, train_data, shift=0.0, label="a", **kwargs):
        Frozen.seen.append((train_data.clone(), [p.detach().clone() for p in model.parameters()], shift, label, kwargs))
        super().fit(model, train_data)
        self.training_theta_scores = torch.linspace(-1.5, 1.5, len(train_data)).unsqueeze(1).repeat(1, model.latent_variables)
        with torch.no_grad():
            for p in model.parameters():
                p.add_(float(shift))


def expected(m, x, shift):
    f = copy.deepcopy(m)
    with torch.no_grad():
        for p in f.parameters():
            p.add_(float(shift))
    return f


@scenario(P, 40, 400)
def bookkeeping(c):
    """a known algorithm: which respondents train and validate, and what is reported"""
    rng = c.rng
    m, kind, x, _ = fits.problem(c, ["2PL", "GPC", "NRmc", "GRM"], latents=1, items=4, n=int(rng.integers(24, 50)), hi=3)
    if c.round % 2:
        x, _ = gen.with_missing(rng, x, 0.1)
    x[:, 0] = x[:, 0]  # respondents are recognised by their order of appearance below
    folds = gen.size(rng, 2, 6, 6, 8, 11)
    grid = {"shift": [0.0, 0.15, -0.2][: int(rng.integers(1, 4))], "label": ["a", "b"][: 1 + c.round % 2]}
    kw = {"extra": 3, "text": "free"} if c.round % 3 else {}
    c.note(folds=folds, grid=grid, kwargs=kw)
    before = [p.detach().clone() for p in m.parameters()]
    xt = gen.t(x)
    Frozen.seen.clear()
    est = ["EAP", "ML"][c.round % 2]
    df = cross_validation(m, xt, folds, grid, theta_estimation=est, device="cpu", multiprocessing=False, algorithm=Frozen(), **kw)
    seen = list(Frozen.seen)
    c.equal(xt, gen.t(x), "the data are left alone")
    c.ok(all(torch.equal(a, b) for a, b in zip(before, m.parameters())), "the model passed in stays untrained")
    combos = [(s, l) for s in grid["shift"] for l in grid["label"]]
    c.ok(sorted(df.columns) == sorted(["shift", "label", "log_likelihood"]), "one column per hyperparameter and the log-likelihood", columns=list(df.columns))
    c.ok([(round(float(s), 6), l) for s, l in zip(df["shift"], df["label"])] == [(round(s, 6), l) for s, l in combos], "one row per combination in grid order", got=df)
    nf = len(torch.chunk(torch.zeros(len(x)), folds))
    c.ok(len(seen) == nf * len(combos), "one fit per combination and fold", fits=len(seen))
    rows = sorted(map(tuple, np.nan_to_num(x, nan=-9)))
    total = 0
    for i, (s, l) in enumerate(combos):
        group = [f for f in seen if round(f[2], 6) == round(s, 6) and f[3] == l]
        c.ok(len(group) == nf, "every combination is fitted once per fold")
        held = []
        lls = []
        for tr, par, _, _, k in group:
            c.ok(all(torch.equal(a, b) for a, b in zip(before, par)), "every fold starts from the untrained model")
            c.ok({a: b for a, b in k.items() if a in kw} == kw, "additional arguments reach the fit", got=k)
            left = list(rows)
            for r in map(tuple, np.nan_to_num(tr.numpy(), nan=-9)):
                left.remove(r)
            held += left
            c.leq(abs(len(left) - len(x) / nf), len(x) / nf, "folds have similar sizes")
            f = expected(m, x, s)
            a = Frozen()
            a.train_data = tr
            a.training_theta_scores = torch.linspace(-1.5, 1.5, len(tr)).unsqueeze(1)
            f.algorithm = a
            val = np.array(left)
            val[val == -9] = np.nan
            lls.append(float(f.evaluate.log_likelihood(gen.t(val), theta_estimation=est)))
        c.ok(sorted(held) == rows, "every respondent validates exactly once and trains otherwise")
        c.close(float(df["log_likelihood"].iloc[i]), np.mean(lls), f"{kind}: the score is the log-likelihood of the held out respondents averaged over folds", rtol=5e-3, atol=5e-2)
        total += len(held)
    c.count("held out respondents", total)


@scenario(P, 10, 60)
def real_fits(c):
    """a hyperparameter that matters is recognised, and no state leaks between folds or combinations"""
    rng = c.rng
    alg = [MML, AE, JML][c.round % 3]
    kind = ["2PL", "GPC"][c.round % 2]
    m, kind, x, _ = fits.problem(c, [kind], latents=1, items=5, n=60, hi=3)
    a = alg()
    kw = dict(algorithm=a, max_epochs=12)
    if alg is MML:
        kw["integration_method"] = "gauss_hermite"
        kw["quadrature_points"] = 7
    if alg is AE:
        kw["hidden_layers_encoder"] = [5]
    before = [p.detach().clone() for p in m.parameters()]
    df = cross_validation(m, gen.t(x), 3, {"learning_rate": [1e-9, 0.1, 1e-9]}, theta_estimation="NN" if alg is AE else "ML", device="cpu", multiprocessing=False, **kw)
    c.ok(list(df.columns) == ["learning_rate", "log_likelihood"], "only the searched hyperparameters are reported", columns=list(df.columns))
    ll = df["log_likelihood"].to_numpy(dtype=float)
    c.ok(np.isfinite(ll).all(), "finite scores", got=ll)
    c.ok(all(torch.equal(p, q) for p, q in zip(before, m.parameters())), "the model passed in stays untrained")
    c.ok(getattr(m, "algorithm", None) is None, "the model passed in has no algorithm attached")
    if alg is not AE:
        c.close(ll[0], ll[2], f"{alg.__name__}: the same hyperparameters get the same score", rtol=2e-2)


@scenario(P, 2, 6)
def processes(c):
    """with several processes the result is that of one"""
    m, kind, x, _ = fits.problem(c, ["2PL"], latents=1, items=4, n=30)
    m.algorithm = None
    out = []
    data = gen.t(x)
    threads = torch.get_num_threads()
    for mp in (True, False):
        torch.manual_seed(5)
        torch.set_num_threads(5)
        out.append(cross_validation(m, data, 3, {"learning_rate": [0.05, 0.1]}, theta_estimation="EAP", device="cpu", multiprocessing=mp, cores_to_use=2, algorithm=MML(), max_epochs=3, integration_method="gauss_hermite", quadrature_points=7))
        now = torch.get_num_threads()
        torch.set_num_threads(threads)
        c.equal(now, 5, f"{'parallel' if mp else 'sequential'} cross-validation leaves the number of threads as it was")
        c.equal(data, gen.t(x), "cross-validation leaves the data as they were")
    c.close(out[0].to_numpy(dtype=float), out[1].to_numpy(dtype=float), "parallel and sequential cross-validation agree", rtol=1e-3, atol=1e-3)


class Stateful(Frozen):
    """Notices when it has been fitted before."""

    used = []

    def fit(self, model, train_data, **kwargs):
        Stateful.used.append(self.train_data is not None)
        super().fit(model, train_data, **kwargs)


@scenario(P, 6, 30)
def fresh_algorithms(c):
    """algorithms among the hyperparameters: every fold gets one that has not been fitted"""
    rng = c.rng
    m, kind, x, _ = fits.problem(c, ["2PL"], latents=1, items=4, n=24, hi=2)
    grid = {"algorithm": [Stateful() for _ in range(1 + c.round % 2)], "shift": [0.0, 0.1][: 1 + c.round % 3]}
    if c.round % 2:
        grid = dict(reversed(list(grid.items())))
    Stateful.used.clear()
    df = cross_validation(m, gen.t(x), 3, grid, theta_estimation="EAP", device="cpu", multiprocessing=False)
    c.ok(len(df) == len(grid["algorithm"]) * len(grid["shift"]), "one row per combination")
    c.ok(len(Stateful.used) == 3 * len(df), "one fit per combination and fold", got=len(Stateful.used))
    c.ok(not any(Stateful.used), "no fold starts from an algorithm fitted to another", got=Stateful.used)
    c.ok(all(a.train_data is None for a in grid["algorithm"]), "the algorithms passed in are left alone")
