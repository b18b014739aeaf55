"""Constrained layers and functions the flexible models are built from."""
import numpy as np
import torch
from scipy.interpolate import BSpline

from harness import gen
from harness.core import scenario
from irtorch.activation_functions import BoundedELU
from irtorch.irt_dataset import PytorchIRTDataset
from irtorch.torch_modules import MonotonePolynomialModule, NegationLayer, SoftplusLinear
from irtorch.torch_modules.b_spline import BSplineBasisFunction

P = "C41"


def elu(x, a):
    with np.errstate(over="ignore"):
        return np.where(x <= -1, a * (np.exp(np.minimum(x, 0) + 1) - 1) - 1, np.where(x >= 1, -a * (np.exp(-np.maximum(x, 0) + 1) - 1) + 1, x))


@scenario(P, 40, 400)
def bounded_activation(c):
    rng = c.rng
    a = float(rng.choice([1.0, 0.5, 2.0])) if c.round % 2 else 1.0
    x = np.concatenate([rng.normal(0, 1.5, 40), rng.uniform(-300, 300, 20), [-1, 1, 0, -0.999, 1.001, 1e4, -1e4]])
    c.feed(x)
    xt = gen.t(x).requires_grad_(True)
    y = BoundedELU.apply(xt, a)
    c.close(y, elu(gen.t(x).double().numpy(), a), "identity between -1 and 1 with exponential tails", rtol=1e-4, atol=1e-5)
    c.leq(np.abs(y.detach().numpy()), np.full(len(x), 1 + a), "bounded", 1e-5)
    w = torch.randn(len(x))
    (g,) = torch.autograd.grad((y * w).sum(), xt)
    z = gen.t(x).double().numpy()
    d = np.where(np.abs(z) >= 1, a * np.exp(1 - np.abs(z)), 1.0)
    edge = np.abs(np.abs(z) - 1) < 1e-3
    c.close(g.numpy()[~edge], (d * w.numpy())[~edge], "its gradient is its slope", rtol=1e-3, atol=1e-5)
    c.leq(0, d, "increasing")
    v = torch.func.vmap(lambda t: BoundedELU.apply(t, a))(gen.t(x).view(-1, 1))
    c.close(v.view(-1), y, "also when vectorised", atol=1e-6)
    J = torch.func.jacrev(lambda t: BoundedELU.apply(t, a))(gen.t(x[:8]))
    c.close(torch.diagonal(J).numpy()[~edge[:8]], d[:8][~edge[:8]], "and in Jacobians", rtol=1e-3, atol=1e-5)


@scenario(P, 60, 600)
def positive_layer(c):
    rng = c.rng
    groups = int(rng.integers(1, 5))
    sep = c.round % 3 != 0
    si = rng.integers(1, 4, groups)
    so = rng.integers(1, 4, groups)
    nin, nout = int(si.sum()), int(so.sum())
    zi = (rng.random(nin) < 0.2).astype(int) if c.round % 2 else np.zeros(nin, int)
    zo = (rng.random(nout) < 0.2).astype(int) if c.round % 2 else np.zeros(nout, int)
    plus = bool(rng.random() < 0.7)
    kw = {}
    if sep:
        kw["separate_inputs"] = torch.tensor(si)
        if c.round % 4:
            kw["separate_outputs"] = torch.tensor(so)
        else:
            q, r = divmod(nout, groups)
            so = np.array([q + 1] * r + [q] * (groups - r))
    m = SoftplusLinear(nin, nout, zero_inputs=torch.tensor(zi), zero_outputs=torch.tensor(zo), softplus=plus, **kw)
    with torch.no_grad():
        for n, p in m.named_parameters():
            v = rng.normal(0, 2, tuple(p.shape))
            if c.round % 5 == 3:  # steep and flat weights, found exactly when there is no bias
                v = np.clip(v * 2.5, -15, 15) * ("bias" not in n)
            p.copy_(gen.t(v))
    f = lambda x: m(gen.t(x)).detach().double().numpy()
    b = f(np.zeros((1, nin)))[0]
    W = np.stack([f(np.eye(nin)[[i]])[0] - b for i in range(nin)], 1)
    c.note(inputs=nin, outputs=nout, separate=si if sep else None, softplus=plus)
    c.feed(W, b)
    allowed = np.ones((nout, nin), bool)
    if sep:
        allowed[:] = False
        for g in range(groups):
            allowed[so[:g].sum() : so[: g + 1].sum(), si[:g].sum() : si[: g + 1].sum()] = True
    allowed[zo == 1] = False
    allowed[:, zi == 1] = False
    c.close(np.where(allowed, 0, W), np.zeros_like(W), "outputs depend on the inputs of their own group only, switched off inputs and outputs have no influence", atol=1e-6)
    if plus:
        c.leq(1e-12, W[allowed], "weights are positive") if allowed.any() else None
        raw = next(p for n, p in m.named_parameters() if "weight" in n).detach().double().numpy()
        if raw.size == allowed.sum():
            c.close(np.sort(W[allowed]), np.sort(np.logaddexp(0, raw.ravel())), "they are the softplus of the free parameters", rtol=1e-3, atol=1e-4)
    else:
        c.ok(not allowed.any() or (W[allowed] < 0).any() or allowed.sum() < 20, "weights may be negative when asked for")
    if allowed.any():
        c.leq(1e-9, np.abs(W[allowed]), "related inputs have an influence")
    c.close(b[zo == 1], np.zeros((zo == 1).sum()), "switched off outputs are zero")
    x = rng.normal(0, 1, (6, nin))
    c.close(f(x), x @ W.T + b, "the layer is linear", rtol=1e-3, atol=1e-4)
    if sep:
        c.raises(ValueError, lambda: SoftplusLinear(nin + 1, nout, separate_inputs=torch.tensor(si)), "groups must cover the inputs")
        c.raises(ValueError, lambda: SoftplusLinear(nin, nout + 1, separate_inputs=torch.tensor(si), separate_outputs=torch.tensor(so)), "groups must cover the outputs")
    c.raises(ValueError, lambda: SoftplusLinear(nin, nout, separate_outputs=torch.tensor(so)), "output groups need input groups")


@scenario(P, 40, 400)
def direction_layer(c):
    rng = c.rng
    items, per = int(rng.integers(2, 6)), int(rng.integers(1, 4))
    rel = (rng.random(items) < 0.6).astype(int)
    rel[0] = 1
    zo = np.zeros((items, per), bool)
    zo[rel == 0] = True
    if per > 1 and c.round % 2:
        zo[0, -1] = True
    m = NegationLayer(torch.tensor(rel), per, torch.tensor(zo.ravel()))
    w = rng.normal(0, 1, int(rel.sum()))
    with torch.no_grad():
        m.weight_param.copy_(gen.t(w))
    x = rng.normal(0, 1, (5, items * per))
    c.feed(rel, w, x)
    full = np.zeros(items)
    full[rel == 1] = w
    want = x * np.repeat(full, per) * ~zo.ravel()
    c.close(m(gen.t(x)), want, "outputs of an item are multiplied by the item's direction, switched off outputs are zero", atol=1e-5)
    c.close(m.all_item_weights(), full, "directions by item, zero for unrelated items", atol=1e-6)


@scenario(P, 60, 600)
def polynomial(c):
    rng = c.rng
    deg = int(rng.choice([1, 3, 5]))
    d, o = int(rng.integers(1, 4)), int(rng.integers(1, 4))
    share = int(rng.choice([1, 2]))
    neg = c.round % 2 == 0
    rel = gen.relationships(rng, d, o, 0.7)
    rel = np.repeat(rel, share, 1)
    o *= share
    icpt = bool(rng.random() < 0.5)
    m = MonotonePolynomialModule(deg, in_features=d, out_features=o, intercept=icpt, relationship_matrix=torch.tensor(rel), negative_relationships=neg, shared_directions=share)
    with torch.no_grad():
        for n, p in m.named_parameters():
            p.copy_(gen.t(rng.normal(0, 0.7, tuple(p.shape)) - (1.5 if n == "tau" else 0)))
    c.note(degree=deg, inputs=d, outputs=o, negative=neg, shared=share)
    c.feed(*[p for p in m.parameters()])
    f = lambda x: m(gen.t(x)).detach().double().numpy()
    base = f(np.zeros((1, d)))[0]
    if icpt:
        c.close(base, m.intercept, "the value at zero is the intercept", atol=1e-6)
    else:
        c.close(base, np.zeros(o), "without intercept the value at zero is zero", atol=1e-6)
    g = np.linspace(-3, 3, 61) * (4 if c.round % 5 == 2 else 1)
    for i in range(d):
        x = np.zeros((61, d))
        x[:, i] = g
        y = f(x)
        step = np.diff(y, axis=0)
        slack = 1e-5 * (1 + np.abs(y).max())
        for j in range(o):
            if not rel[i, j]:
                c.close(step[:, j], np.zeros(60), "unrelated inputs have no influence", atol=1e-6)
            else:
                s = 1 if not neg else np.sign(y[-1, j] - y[0, j])
                c.leq(-slack, s * step[:, j], "related inputs have a monotone influence")
                k = np.polynomial.polynomial.Polynomial.fit(g, y[:, j], deg)
                c.close(k(g), y[:, j], "a polynomial of the degree asked for", rtol=1e-3, atol=1e-3 * (1 + np.abs(y).max()))
        if neg and share > 1:
            for j in range(0, o, share):
                sg = np.sign(y[-1, j : j + share] - y[0, j : j + share])
                c.ok(len(set(sg)) == 1, "shared outputs have the same direction")
    z = rng.normal(0, 1, (4, d))
    parts = sum(f(np.where(np.arange(d) == i, z, 0)) - base for i in range(d)) + base
    c.close(f(z), parts, "inputs add up", rtol=1e-3, atol=1e-3)
    c.raises(ValueError, lambda: MonotonePolynomialModule(int(rng.choice([2, 4]))), "even degrees are refused")
    # reported coefficients (exact for degree one, a known defect above)
    if deg == 1:
        co, ic = m.get_polynomial_coefficients()
        x = rng.normal(0, 1, (5, d))
        c.close(f(x), x @ co[0].double().numpy() + (0 if ic is None else ic.detach().double().numpy()), "reported coefficients reproduce the polynomial", rtol=1e-3, atol=1e-4)


@scenario(P, 2, 4)
def known_polynomial_coefficients(c):
    def probe():
        m = MonotonePolynomialModule(3, in_features=1, out_features=1)
        with torch.no_grad():
            m.omega.fill_(0.3), m.alpha.fill_(0.2), m.tau.fill_(0.1)
        co, _ = m.get_polynomial_coefficients()
        x = np.array([0.5, 1.0, -1.5])
        y = sum(float(co[i, 0, 0]) * x ** (i + 1) for i in range(3))
        c.close(m(gen.t(x[:, None])).detach()[:, 0], y, "reported coefficients reproduce the polynomial", rtol=1e-3, atol=1e-4)

    c.finding("polynomial-coefficients", probe)


@scenario(P, 40, 400)
def spline_basis(c):
    rng = c.rng
    deg = int(rng.integers(2, 4))
    n = int(rng.integers(1, 5))
    inner = (np.arange(1, n + 1) + rng.uniform(-0.3, 0.3, n)) / (n + 1)
    knots = np.r_[[0.0] * (deg + 1), inner, [1.0] * (deg + 1)]
    x = rng.uniform(0.01, 0.99, 30)
    c.feed(knots, x)
    nb = len(knots) - deg - 1
    xt = gen.t(x, torch.float64).requires_grad_(True)
    B = BSplineBasisFunction.apply(xt, gen.t(knots, torch.float64), deg)
    ref = np.stack([BSpline(knots, np.eye(nb)[k], deg)(x) for k in range(nb)], 1)
    c.close(B, ref, "the basis functions", atol=1e-6)
    w = torch.randn(B.shape, dtype=torch.float64)
    (g,) = torch.autograd.grad((B * w).sum(), xt)
    dref = np.stack([BSpline(knots, np.eye(nb)[k], deg).derivative()(x) for k in range(nb)], 1)
    c.close(g, (dref * w.numpy()).sum(1), "gradients flow through the basis as its derivative", rtol=1e-4, atol=1e-5)


@scenario(P, 40, 400)
def training_rows(c):
    """the rows training sees: data, missing mask and encoder input belong together"""
    rng = c.rng
    from harness import fits, oracle

    cats = gen.categories(rng, int(rng.integers(1, 6)), 2, 5)
    x = gen.full_support(rng, gen.uniform_responses(rng, cats, int(rng.integers(2, 30))), cats)
    x, miss = gen.with_missing(rng, x, 0.2, keep_row=False)
    for j in range(x.shape[1]):
        if miss[:, j].all():
            x[0, j], miss[0, j] = 0, False
    oh = c.round % 2 == 0
    imp = [None, "zero", "mean"][c.round % 3] if not oh else [None, "zero"][c.round % 2]
    xt = gen.t(x)
    ds = PytorchIRTDataset(xt, one_hot_encoded=oh, item_categories=cats, imputation_method=imp)
    c.equal(xt, gen.t(x), "the data passed in are left alone")
    c.ok(len(ds) == len(x), "one row per respondent")
    y = x if imp is None else fits.impute(x, imp)
    want = fits.onehot(y, cats) if oh else y
    order = rng.permutation(len(x))
    for i in order:
        data, mask, inp, idx = ds[int(i)]
        c.equal(mask, miss[i], "the mask marks the missing responses")
        c.equal(data.numpy()[~miss[i]], x[i][~miss[i]], "observed responses are those of the respondent")
        c.close(inp, want[i], "the encoder input is the coded, imputed row of the respondent", atol=1e-5)
        c.ok(int(idx) == i, "rows know their position")


@scenario(P, 24, 200)
def encoders(c):
    """Encoders of any depth and width, with and without batch normalization."""
    from irtorch.estimation_algorithms.encoders import BoundedEncoder, StandardEncoder, VariationalEncoder

    rng = c.rng
    cls = [StandardEncoder, BoundedEncoder, VariationalEncoder][c.round % 3]
    hidden = [int(h) for h in rng.integers(2, 9, int(rng.integers(1, 7)))] if c.round // 3 % 2 else [int(rng.integers(2, 9))] * (2 + c.round // 6 % 4)
    d, n_in, bn = int(rng.integers(1, 4)), int(rng.integers(2, 12)), bool(c.round % 2)
    seen = []

    class Probe(torch.nn.Module):
        def forward(self, x):
            seen.append(x.shape[-1])
            return torch.tanh(x)

    e = cls(n_in, d, hidden, batch_normalization=bn, nonlinear=Probe())
    c.note(encoder=cls.__name__, hidden=hidden, batch_normalization=bn)
    with torch.no_grad():
        for p in e.parameters():
            p.add_(gen.t(rng.normal(0, 1.5, tuple(p.shape))))
    x = gen.t(rng.normal(0, 3, (20, n_in)))
    c.feed(x)
    e.train()
    out = e(x)
    outs = out if isinstance(out, tuple) else (out,)
    c.ok(seen == hidden, "the hidden layers have the sizes asked for, each followed by the activation", got=seen)
    c.ok(all(tuple(o.shape) == (20, d) for o in outs), "one output per respondent and latent variable")
    sum((o ** 2).sum() for o in outs).backward()
    c.ok(all(p.grad is not None for p in e.parameters()), "every parameter takes part")
    e.eval()
    with torch.no_grad():
        whole = e(x)
        parts = [e(x[i : i + 1]) for i in range(20)]
    for k, w in enumerate(whole if isinstance(whole, tuple) else (whole,)):
        c.close(torch.cat([q[k] if isinstance(q, tuple) else q for q in parts]), w, "in evaluation mode a respondent's encoding does not depend on the others", atol=1e-4)
    if cls is BoundedEncoder:
        c.leq(np.abs(whole.numpy()), 1.0, "bounded encodings stay within minus one and one")
