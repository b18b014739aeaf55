"""Outlier detection by quartile fences."""
import numpy as np
import torch

from harness import gen
from harness.core import scenario
from irtorch.outlier_detector import OutlierDetector

P = "C37"


def sample(c):
    rng = c.rng
    n, d = int(rng.integers(5, 80)), int(rng.integers(1, 5))
    if c.round % 5 == 4:
        n = int(rng.integers(1, 6))  # a handful of observations
    x = rng.standard_t(2, (n, d)) * rng.uniform(0.3, 3, d) + rng.normal(0, 2, d)
    if c.round % 4 == 0:
        x = x.round()
    x = x.astype(np.float32)
    f = float(rng.choice([1, 1.5, 2.0, 3.0]))
    c.feed(x)
    c.note(factor=f, n=n, variables=d)
    q1, q3 = np.quantile(x.astype(np.float64), [0.25, 0.75], axis=0)
    lo, hi = q1 - f * (q3 - q1), q3 + f * (q3 - q1)
    return x, f, lo, hi, OutlierDetector(factor=f)


def near(v, lo, hi):
    s = 1e-4 * (1 + np.abs(v))
    return (np.abs(v - lo) < s) | (np.abs(v - hi) < s)


@scenario(P, 120, 1200)
def fences(c):
    x, f, lo, hi, det = sample(c)
    new = np.concatenate([x[:3], c.rng.normal(0, 8, (20, x.shape[1])).astype(np.float32)])
    for v, call in ((x, lambda t, **k: det.identify_outliers(t, **k)), (new, lambda t, **k: det.is_outlier(t, gen.t(x), **k))):
        sure = ~near(v, lo, hi)
        for up, down in ((True, True), (True, False), (False, True)):
            vt = gen.t(v)
            got = call(vt, upper=up, lower=down).numpy()
            c.equal(vt, gen.t(v), "the data are left alone")
            c.ok(got.dtype == bool and got.shape == v.shape, "one verdict per value")
            want = (down & (v < lo)) | (up & (v > hi))
            c.equal(got[sure], want[sure], "outliers lie beyond the quartiles by more than the factor times the quartile range, on the sides asked for")
            c.count("values judged", int(sure.sum()))
    c.equal(det.identify_outliers(gen.t(x)), det.identify_outliers(gen.t(x), upper=True, lower=True), "both sides by default")
    # the factor can be changed and then counts
    det.factor = f + 2
    q = (hi - lo) / (1 + 2 * f)
    sure = ~near(x, lo - 2 * q, hi + 2 * q)
    c.equal(det.identify_outliers(gen.t(x)).numpy()[sure], ((x < lo - 2 * q) | (x > hi + 2 * q))[sure], "a changed factor is used")


@scenario(P, 60, 600)
def extremes(c):
    x, f, lo, hi, det = sample(c)
    if near(x, lo, hi).any():
        x = x + 0  # values on a fence may go either way: leave them out of the oracle
        keep = ~near(x, lo, hi).any(0)
    else:
        keep = np.ones(x.shape[1], bool)
    inside = (x >= lo) & (x <= hi)
    small = det.smallest_largest_non_outlier(gen.t(x), smallest=True)
    large = det.smallest_largest_non_outlier(gen.t(x), smallest=False)
    c.ok(tuple(small.shape) == (1, x.shape[1]) == tuple(large.shape), "one value per variable")
    c.equal(small.numpy()[0][keep], np.where(inside, x, np.inf).min(0)[keep], "the smallest value that is not an outlier")
    c.equal(large.numpy()[0][keep], np.where(inside, x, -np.inf).max(0)[keep], "the largest value that is not an outlier")


@scenario(P, 6, 30)
def refusals(c):
    det = OutlierDetector()
    x = torch.randn(6, 2)
    c.raises(ValueError, lambda: OutlierDetector(factor=0.5), "factors below one")
    c.raises(ValueError, lambda: setattr(det, "factor", 0.2), "factors below one")
    c.raises(ValueError, lambda: det.identify_outliers(x[:, 0]), "data must be a matrix")
    c.raises(ValueError, lambda: det.identify_outliers(x, upper=False, lower=False), "one side at least")
    c.raises(ValueError, lambda: det.is_outlier(x, torch.randn(5, 3)), "the same variables")
    c.raises(ValueError, lambda: det.is_outlier(x, x, upper=False, lower=False), "one side at least")
    c.raises(ValueError, lambda: det.smallest_largest_non_outlier(x[:, 0]), "data must be a matrix")


@scenario(P, 40, 400)
def on_the_fence(c):
    """Values exactly at a fence are not beyond it: mostly equal values, and whole numbers with exact quartiles."""
    rng = c.rng
    d = int(rng.integers(1, 4))
    if c.round % 2:
        n = int(rng.integers(8, 60))
        x = np.repeat(rng.integers(-4, 5, (1, d)).astype(float) * 0.5, n, 0)
        few = rng.random((n, d)) < 0.15
        x = np.where(few & (np.arange(n)[:, None] < 0.2 * n), x + rng.normal(0, 3, (n, d)), x)
        f = float(rng.choice([1.0, 1.5, 3.0]))
    else:
        n = 4 * int(rng.integers(3, 15)) + 1  # quartiles are observations
        x = np.sort(rng.integers(-3, 4, (n, d)).astype(float), 0)
        f = float(rng.choice([1.0, 2.0]))
        q1, q3 = x[(n - 1) // 4], x[3 * (n - 1) // 4]
        x[0], x[-1] = np.minimum(x[0], q1 - f * (q3 - q1)), np.maximum(x[-1], q3 + f * (q3 - q1))
        if c.round % 4 == 0:
            x[0], x[-1] = q1 - f * (q3 - q1), q3 + f * (q3 - q1)
        x = x[rng.permutation(n)]
    x = x.astype(np.float32)
    c.feed(x)
    c.note(factor=f, n=n, variables=d)
    q1, q3 = np.quantile(x.astype(np.float64), [0.25, 0.75], axis=0)
    lo, hi = q1 - f * (q3 - q1), q3 + f * (q3 - q1)
    det = OutlierDetector(factor=f)
    c.equal(det.identify_outliers(gen.t(x)), (x < lo) | (x > hi), "values at a fence are not outliers")
    c.equal(det.is_outlier(gen.t(np.stack([lo, hi])), gen.t(x)), np.zeros((2, d), bool), "new values at a fence are not outliers")
    inside = (x >= lo) & (x <= hi)
    c.equal(det.smallest_largest_non_outlier(gen.t(x), smallest=True)[0], np.where(inside, x, np.inf).min(0), "the smallest value that is not an outlier")
    c.equal(det.smallest_largest_non_outlier(gen.t(x), smallest=False)[0], np.where(inside, x, -np.inf).max(0), "the largest value that is not an outlier")
    c.count("values judged", x.size)
