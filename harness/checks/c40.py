"""Bundled data sets and the preprocessing of the downloaded one."""
import io
import os
import shutil
import tempfile
import urllib.request
import zipfile

import numpy as np
import pandas as pd
import torch

from harness.core import scenario
from irtorch import load_dataset as L

P = "C40"


def valid(c, d, items, name):
    c.ok(d.dtype == torch.float32 and d.dim() == 2 and d.shape[1] == items, f"{name}: respondents by items", shape=tuple(d.shape))
    x = d.numpy().copy()
    v = x[~np.isnan(x)]
    c.ok(((v >= 0) & (v == v.round())).all(), f"{name}: responses are whole category numbers from zero or missing")
    # every item is a proper item: observed from zero on without gaps at the top
    for j in range(items):
        o = x[~np.isnan(x[:, j]), j]
        c.ok(o.min() == 0 and o.max() >= 1, f"{name}: categories start at zero", item=j)
    c.count("responses seen", v.size)
    return x


@scenario(P, 2, 2)
def mathematics(c):
    for f, n in ((L.swedish_national_mathematics_1, 1008), (L.swedish_national_mathematics_2, 1401)):
        d = f()
        x = valid(c, d, 28, f.__name__)
        c.ok(len(x) == n, "all students", n=len(x))
        d.zero_()
        c.equal(f().numpy(), x, "changing the returned data does not change the data set")
        tot = x.sum(1)
        r = [np.corrcoef(x[:, j], tot - x[:, j])[0, 1] for j in range(28)]
        c.leq(0.05, np.array(r), f"{f.__name__}: higher categories are better answers")


@scenario(P, 2, 2)
def scholastic_aptitude(c):
    q, kq = L.swedish_sat_quantitative()
    v, kv = L.swedish_sat_verbal()
    for d, k, name in ((q, kq, "quantitative"), (v, kv, "verbal")):
        x = valid(c, d, 80, name)
        c.ok(len(k) == 80 and all(isinstance(i, int) for i in k), f"{name}: one keyed answer per item")
        b = (x == np.array(k)).astype(float)
        for j in range(80):
            o = x[:, j]
            rest = b.sum(1) - b[:, j]
            cats = np.unique(o[~np.isnan(o)])
            cors = [np.corrcoef(o == a, rest)[0, 1] for a in cats]
            c.ok(cats[int(np.argmax(cors))] == k[j], f"{name}: the keyed answer is the one the better respondents choose", item=j, key=k[j])
        c.count("keyed answers", 80)
    d, k = L.swedish_sat()
    c.equal(d, torch.cat((q, v), 1), "the whole test is the quantitative followed by the verbal part")
    c.ok(list(k) == list(kq) + list(kv), "with the matching key")
    b = L.swedish_sat_binary()
    c.equal(b.numpy(), (torch.cat((q, v), 1).numpy() == np.array(kq + kv)).astype(np.float32), "the binary version has a one where the keyed answer was chosen, and zero otherwise")


NEG = {"EXT": [2, 4, 6, 8, 10], "EST": [2, 4], "AGR": [1, 3, 5, 7], "CSN": [2, 4, 6, 8], "OPN": [2, 4, 6]}


@scenario(P, 6, 40)
def big_five(c):
    """the documented preprocessing, on a stand-in for the download"""
    rng = c.rng
    names = [f"{g}{i}" for g in ("EXT", "EST", "AGR", "CSN", "OPN") for i in range(1, 11)]
    n = 60
    resp = rng.integers(0, 6, (n, 50)).astype(float)
    times = rng.integers(200, 60000, (n, 50)).astype(float)
    ipc = rng.choice([1, 1, 1, 2], n)
    resp[3] = 0
    resp[5, 7] = np.nan
    times[8, 20] = -5
    times[9, 49] = 300001
    times[10, 0] = 299999
    times[11, 12] = 0
    resp[[8, 9, 10, 11, 12]] = np.maximum(resp[[8, 9, 10, 11, 12]], 1)
    ipc[[3, 5, 8, 9, 10, 11, 12]] = 1
    df = pd.DataFrame(np.c_[resp, times], columns=names + [a + "_E" for a in names])
    for extra in ("dateload", "screenw", "screenh", "introelapse", "testelapse", "endelapse"):
        df[extra] = 1
    df["IPC"] = ipc
    for extra in ("country", "lat", "long"):
        df[extra] = "x"
    c.feed(resp, times)
    scratch = tempfile.mkdtemp()
    home, fetch = os.environ.get("HOME"), urllib.request.urlretrieve
    calls = []

    def stand_in(url, filename=None, *a, **k):
        calls.append(url)
        with zipfile.ZipFile(filename, "w") as z:
            z.writestr("IPIP-FFM-data-8Nov2018/data-final.csv", df.to_csv(sep="\t", index=False))
        return filename, None

    try:
        os.environ["HOME"] = scratch
        urllib.request.urlretrieve = stand_in
        data, original, items = L.big_five()
        again, original2, _ = L.big_five()
    finally:
        urllib.request.urlretrieve = fetch
        if home is not None:
            os.environ["HOME"] = home
        shutil.rmtree(scratch)
    keep = ~((times < 0).any(1) | (times > 300000).any(1)) & (ipc == 1) & ~np.isnan(resp).any(1)
    keep &= np.nansum(resp, 1) > 0
    want = np.where(resp == 0, np.nan, resp)
    for g, idx in NEG.items():
        for i in idx:
            j = names.index(f"{g}{i}")
            want[:, j] = 6 - want[:, j]
    want = (want - 1)[keep]
    c.ok(len(calls) == 1, "downloaded once, then taken from the cache", calls=len(calls))
    c.close(data, want, "slow, duplicate and incomplete submissions are dropped, negatively keyed items reversed, zero is missing, categories start at zero", atol=1e-5)
    c.equal(again, data, "the cache holds the same data")
    c.ok(original.shape == df.shape, "the original data come along", shape=original.shape)
    c.ok(len(items) == 50 and items[0].startswith("E.") and items[49].startswith("O."), "with the fifty item texts")
