"""log_likelihood is the log of the probability of the observed responses, with missing responses left out."""
import numpy as np
import torch

from harness import gen, oracle
from harness.core import scenario

P = "C05"


def setup(c, kinds=gen.ALL, n=None):
    m, mask, kind = gen.any_model(c, kinds=kinds)
    n = n or int(c.rng.integers(1, 15))
    th = gen.theta(c.rng, n, m.latent_variables)
    x = gen.uniform_responses(c.rng, m.item_categories, n)
    for _ in range(6):  # stay where no probability underflows in single precision
        if oracle.picked(gen.probs64(m, th), x).min() > 1e-25:
            break
        th = th * 0.5
    p = gen.probs64(m, th)
    x = np.where(oracle.picked(p, x) > 1e-25, x, np.nan_to_num(p).argmax(-1)).astype(np.float32)
    c.feed(th, x)
    return m, kind, th, x


def matrix(m, x, ll):
    """'none' layout to respondents x items (a mixed model reports its parts one after the other)."""
    ll = ll.detach().numpy() if isinstance(ll, torch.Tensor) else ll
    if isinstance(m, gen.ModelMix):
        parts, start = [], 0
        for s in m.models:
            k = len(x) * s.items
            parts.append(matrix(s, x, ll[start : start + k]))
            start += k
        return np.concatenate(parts, 1)
    return ll.reshape(len(x), -1)


@scenario(P, 96, 1600)
def complete_data(c):
    m, kind, th, x = setup(c)
    want = oracle.loglik(gen.probs64(m, th), x)
    with torch.no_grad():
        ll = m.log_likelihood(gen.t(x), m(th), loss_reduction="none")
        c.ok(ll.numel() == x.size, "'none' has one value per response")
        c.close(matrix(m, x, ll), want, f"{kind}: log-likelihood of every response is the log of its probability", rtol=1e-4, atol=2e-4)
        c.close(m.log_likelihood(gen.t(x), m(th), loss_reduction="sum").reshape(()), want.sum(), f"{kind}: 'sum' adds up all responses", rtol=1e-4, atol=2e-3)
        c.close(m.log_likelihood(gen.t(x), m(th)).reshape(()), want.sum(), f"{kind}: the default reduction is the sum", rtol=1e-4, atol=2e-3)
        mask = torch.zeros(x.shape, dtype=torch.bool)
        c.close(matrix(m, x, m.log_likelihood(gen.t(x), m(th), missing_mask=mask, loss_reduction="none")), want, "an all-false missing mask changes nothing", rtol=1e-4, atol=2e-4)
    c.count("responses scored", x.size)


@scenario(P, 96, 1600)
def missing_responses(c):
    m, kind, th, x = setup(c, n=int(c.rng.integers(2, 15)))
    miss = c.rng.random(x.shape) < c.rng.choice([0.1, 0.4])
    if c.round % 5 == 0:
        miss[0] = True  # a respondent who answered nothing
    if c.round % 7 == 0:
        miss[:, 0] = True  # an item nobody answered
    if miss.all():
        miss[0, 0] = False
    want = oracle.loglik(gen.probs64(m, th), np.where(miss, np.nan, x))
    mask = torch.tensor(miss)
    for code in (-1.0, float(c.rng.integers(0, 2)), np.nan):
        xc = gen.t(np.where(miss, code, x))
        with torch.no_grad():
            ll = m.log_likelihood(xc, m(th), missing_mask=mask.clone(), loss_reduction="none")
            got = matrix(m, x, ll)
            c.equal(np.isnan(got), miss, f"{kind}: exactly the missing responses are NaN in the elementwise log-likelihood")
            c.close(got, want, f"{kind}: masked responses do not shift the others", rtol=1e-4, atol=2e-4)
            s = m.log_likelihood(xc, m(th), missing_mask=mask.clone(), loss_reduction="sum")
            c.close(s.reshape(()), np.nansum(want), f"{kind}: missing responses contribute nothing to the sum, whatever their code", rtol=1e-4, atol=2e-3)
    c.count("missing responses masked", miss.sum())


@scenario(P, 48, 800)
def additivity(c):
    """The sum over respondents is the sum of the respondents' own log-likelihoods."""
    m, kind, th, x = setup(c, n=int(c.rng.integers(3, 9)))
    x, miss = gen.with_missing(c.rng, x, 0.2, code="-1")
    mask = torch.tensor(miss)
    with torch.no_grad():
        total = float(m.log_likelihood(gen.t(x), m(th), missing_mask=mask))
        single = [float(m.log_likelihood(gen.t(x[i : i + 1]), m(th[i : i + 1]), missing_mask=mask[i : i + 1])) for i in range(len(x))]
    c.close(total, sum(single), f"{kind}: log-likelihood is additive over respondents", rtol=1e-4, atol=2e-3)
    perm = c.rng.permutation(len(x))
    with torch.no_grad():
        c.close(float(m.log_likelihood(gen.t(x[perm]), m(th[perm]), missing_mask=mask[perm])), total, f"{kind}: respondent order does not matter", rtol=1e-4, atol=2e-3)


@scenario(P, 48, 600)
def differentiable(c):
    """The gradient of the summed log-likelihood with respect to theta is its true derivative, missing responses included."""
    m, kind, th, x = setup(c, kinds=gen.ALL, n=4)
    x, miss = gen.with_missing(c.rng, x, 0.2, code="-1")
    mask = torch.tensor(miss)
    v = th.clone().requires_grad_(True)
    m.log_likelihood(gen.t(x), m(v), missing_mask=mask).backward()
    g = v.grad.numpy()
    c.ok(np.isfinite(g).all(), f"{kind}: gradients are finite with missing responses", g=g)
    ref, unsure = oracle.numgrad(lambda q: np.nansum(oracle.loglik(gen.probs64(m, gen.t(q)), x), 1), th.numpy(), h=0.03, uncertainty=True)
    c.close(g, ref, f"{kind}: the likelihood gradient matches finite differences", rtol=2e-2, atol=3e-2 + unsure)
    c.count("gradients compared", g.size)


@scenario(P, 48, 600)
def nearly_impossible_responses(c):
    """Responses far from what the model expects have a log-likelihood as low as their probability says."""
    rng = c.rng
    m, mask, kind = gen.any_model(c)
    th = gen.theta(rng, 12, m.latent_variables) * float(rng.uniform(2, 6))
    p = gen.probs64(m, th)
    # the least probable category that single precision still tells from zero
    low = np.where(p > 1e-30, p, np.inf)
    for j, k in enumerate(m.item_categories):
        low[:, j, k:] = np.inf
    x = low.argmin(-1).astype(np.float32)
    c.feed(th, x)
    q = oracle.picked(p, x)
    with torch.no_grad():
        ll = matrix(m, x, m.log_likelihood(gen.t(x), m(th), loss_reduction="none"))
    c.close(ll, np.log(q), f"{kind}: however improbable, the log-likelihood is the log of the probability", rtol=1e-3, atol=1e-3)
    c.count("responses with probability below one in a million", (q < 1e-6).sum())
    c.count("responses with probability below one in a thousand", (q < 1e-3).sum())


@scenario(P, 12, 120)
def many_categories(c):
    """Items with hundreds of response categories, in short and in long tests."""
    rng = c.rng
    kind = ["NR", "GPC", "GRM"][c.round % 3]
    k = int(rng.choice([130, 200, 260, 300]))
    n = int(rng.integers(2, 5))
    cats = [k] + [int(v) for v in rng.integers(2, 6, [3, 140][c.round // 3 % 2])]
    m = gen.build(rng, kind, latents=1, items=len(cats), cats=cats)[0]
    with torch.no_grad():
        for p in m.parameters():
            p.mul_(0.1)
    th = gen.theta(rng, n, 1) * 0.2
    x = gen.uniform_responses(rng, cats, n)
    x[0, 0], x[1, 0] = k - 1, k // 2
    p = gen.probs64(m, th)
    x = np.where(oracle.picked(p, x) > 1e-25, x, np.nan_to_num(p).argmax(-1)).astype(np.float32)
    x[:, 1:], _ = gen.with_missing(rng, x[:, 1:], 0.2 * (c.round % 2))
    c.feed(th, x)
    c.note(model=kind, categories=k, items=len(cats))
    miss = oracle.missing(x)
    want = np.where(miss, 0, np.log(oracle.picked(p, np.where(miss, 0, x)))).sum()
    full = np.where(miss, 0, x)
    with torch.no_grad():
        out = m(th)
        got = m.log_likelihood(gen.t(np.where(miss, -1, x)), out, missing_mask=torch.tensor(miss))
        c.close(float(got), want, f"{kind}: log-likelihood of responses among {k} categories", rtol=1e-4, atol=1e-3)
        if not miss.any():
            c.close(float(m.log_likelihood(gen.t(full), out)), want, f"{kind}: log-likelihood without a mask", rtol=1e-4, atol=1e-3)
        each = matrix(m, x, m.log_likelihood(gen.t(np.where(miss, -1, x)), out, missing_mask=torch.tensor(miss), loss_reduction="none"))
        c.close(np.nansum(each), want, f"{kind}: response by response", rtol=1e-4, atol=1e-3)
