"""C19: credible intervals and credible regions of MCMC samples."""
import math

import numpy as np
from hypothesis import strategies as st

from harness.core import Known, Result, Target, close, require
from harness.gen import SEED, arr, arr_desc, bandlimits, mwn, rng, wav_configs

PROPERTY = "C19"
RULE = (
    "Random chains (1..60 samples, ties, constant columns, heavy tails), confidence levels 0..1: interval range against an independent quantile, and "
    "invariance/equivariance under permutation of samples, shift, scale and choice of columns; wavelet maps against the per-coefficient ranges at random "
    "(L,B,J_min); credible regions against counting: the region holds the samples of highest log-posterior and a fraction 1-alpha of them. Non-trivial: "
    "at least three distinct samples."
)
CFGS = wav_configs(2, 9, Bs=(1.5, 2, 3, 4))
ALPHA = st.one_of(st.sampled_from([0.05, 0.0, 0.01, 0.1, 0.32, 0.5, 0.9, 1.0]), st.floats(0, 1))


def quantile(v, q):
    """Linear-interpolation quantile, element by element."""
    v = sorted(float(a) for a in v)
    h = (len(v) - 1) * q
    i = min(int(math.floor(h)), len(v) - 1)
    j = min(i + 1, len(v) - 1)
    return v[i] + (h - i) * (v[j] - v[i])


@st.composite
def intervals(draw):
    return {"n": draw(st.one_of(st.integers(1, 60), st.integers(1, 60), st.integers(1, 60), st.integers(1, 60), st.integers(61, 1500), st.integers(1500, 12000))), "d": draw(st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(7, 40))), "x": draw(arr_desc()), "alpha": draw(ALPHA), "beta": draw(ALPHA),
            "default": draw(st.booleans()), "dtype": draw(st.sampled_from([None, None, None, "int64", "int32", "int16", "float32"])), "seed": draw(SEED), "shift": draw(st.sampled_from([0.0, 3.25, -100.0])), "a": draw(st.sampled_from([1.0, -1.0, 2.5, 0.0]))}


def run_int(c):
    from pxmcmc.uncertainty import credible_interval_range as cir

    n, d = c["n"], c["d"]
    ch = arr(c["x"], n * d).reshape(n, d)
    al = 0.05 if c["default"] else c["alpha"]
    if c["dtype"]:  # chains of other number types mean the same numbers
        top = np.abs(ch).max(initial=0)
        ch = (np.rint(ch / top * 9) if c["dtype"] != "float32" and top > 0 else ch).astype(c["dtype"])
        other, ch = ch, ch.astype(float)
        close(cir(other, al), cir(ch, al), "the same numbers in another type have another range", rtol=1e-4 if c["dtype"] == "float32" else 1e-12,
              scale=float(np.abs(ch).max()), atol=1e-300, dtype=c["dtype"], alpha=al)
    before = ch.copy()
    got = np.asarray(cir(ch) if c["default"] else cir(ch, al))
    require(got.shape == (d,), "one range per parameter", got=got.shape, expected=(d,))
    require(np.array_equal(ch, before), "the chain is modified")
    sc = float(np.abs(ch).max())
    exp = [quantile(ch[:, k], 1 - al / 2) - quantile(ch[:, k], al / 2) for k in range(d)]
    close(got, exp, "credible interval range is not the distance between the alpha/2 and 1-alpha/2 quantiles", rtol=1e-9, scale=sc, atol=1e-300, alpha=al, n=n)
    require((got >= -1e-12 * sc).all(), "negative range", got=got)
    lo, hi = sorted([al, c["beta"]])
    require((np.asarray(cir(ch, hi)) <= np.asarray(cir(ch, lo)) + 1e-9 * sc).all(), "a larger alpha gives a wider interval", lo=lo, hi=hi)
    g = rng(c["seed"])
    close(cir(ch[g.permutation(n)], al), got, "order of the samples matters", rtol=1e-12, scale=sc, atol=1e-300)
    close(cir(c["a"] * ch + c["shift"], al), abs(c["a"]) * got, "range under shift and scale", rtol=1e-9, scale=3 * sc + abs(c["shift"]), atol=1e-300)
    p = g.permutation(d)
    close(cir(ch[:, p], al), got[p], "parameters are mixed", rtol=1e-12, scale=sc, atol=1e-300)
    return Result(len(set(ch[:, 0].tolist())) > 2, ["default" if c["default"] else "alpha"])


@st.composite
def wav(draw):
    return {"cfg": draw(st.sampled_from(CFGS)), "n": draw(st.integers(1, 12)), "x": draw(arr_desc()), "alpha": draw(ALPHA), "default": draw(st.booleans()),
            "empty": draw(st.integers(0, 30))}


def run_wav(c):
    from pxmcmc.uncertainty import wavelet_credible_interval_range as wcir

    al = 0.05 if c["default"] else c["alpha"]
    if c["empty"] == 0:
        try:
            out = wcir(np.ones((3, 6 + 28 + 45 + 45)), 5, 2, 1)
        except Exception as e:  # the finding is the input that is refused, whatever the error
            raise Known("empty-scale", f"(L,B,J_min)=(5,2,1): {e}") from None
        require(len(out) == 4, "one map per scale", got=len(out))
    L, B, J = c["cfg"]
    bls = bandlimits(L, B, J)
    n = sum(mwn(b) for b in bls)
    ch = arr(c["x"], c["n"] * n).reshape(c["n"], n)
    out = wcir(ch, L, B, J) if c["default"] else wcir(ch, L, B, J, al)
    require(len(out) == len(bls), "one map per scale (scaling function first)", got=len(out), expected=len(bls))
    k = 0
    sc = float(np.abs(ch).max())
    for m, b in zip(out, bls):
        require(np.shape(m) == (b, 2 * b - 1), "map shape", got=np.shape(m), expected=(b, 2 * b - 1))
        cols = ch[:, k:k + mwn(b)]
        e = np.quantile(cols, 1 - al / 2, axis=0) - np.quantile(cols, al / 2, axis=0)
        close(np.asarray(m).flatten(), e, "map does not hold the ranges of its own coefficients", rtol=1e-9, scale=sc, atol=1e-300, cfg=c["cfg"])
        k += mwn(b)
    return Result(c["n"] > 2 and len(bls) > 2)


@st.composite
def region(draw):
    return {"n": draw(st.one_of(st.integers(1, 200), st.integers(1, 200), st.integers(201, 5000), st.integers(5000, 30000))), "x": draw(arr_desc(kinds=["normal", "normal", "ints", "mixed", "ramp", "const"])), "alpha": draw(ALPHA),
            "beta": draw(ALPHA), "default": draw(st.booleans()), "seed": draw(SEED)}


def run_region(c):
    from pxmcmc.uncertainty import credible_region_threshold as crt
    from pxmcmc.uncertainty import in_credible_region as icr

    n = c["n"]
    lp = arr(c["x"], n) - 5.0
    al = 0.05 if c["default"] else c["alpha"]
    before = lp.copy()
    thr = crt(lp) if c["default"] else crt(lp, al)
    require(np.array_equal(lp, before), "log-posteriors are modified")
    require(np.ndim(thr) == 0, "threshold is not a number", got=thr)
    ins = np.array([icr(v, thr) for v in lp])
    require(all(isinstance(bool(i), bool) and i in (True, False) for i in ins), "membership is not a truth value")
    ins = ins.astype(bool)
    require(bool(icr(thr, thr)) and bool(icr(np.nextafter(thr, np.inf), thr)) and not bool(icr(np.nextafter(thr, -np.inf), thr)),
            "a sample is in the credible region exactly if its log-posterior reaches the threshold", threshold=thr)
    if ins.any() and not ins.all():
        require(lp[ins].min() >= lp[~ins].max(), "a sample outside the region has a higher log-posterior than one inside", alpha=al)
    require(ins[np.argmax(lp)], "the most probable sample is outside its credible region", alpha=al)
    k = int(ins.sum())
    distinct = len(set(lp.tolist())) == n
    tol = 1 + 1e-6
    require(k >= (1 - al) * n - tol, "the credible region holds too few samples", k=k, n=n, alpha=al)
    if distinct:
        require(k <= (1 - al) * n + tol, "the credible region holds too many samples", k=k, n=n, alpha=al)
    lo, hi = sorted([al, c["beta"]])
    require(crt(lp, lo) <= crt(lp, hi) + 1e-9 * np.abs(lp).max(), "a smaller alpha gives a smaller region", lo=lo, hi=hi)
    perm = rng(c["seed"]).permutation(n)
    close(crt(lp[perm], al), thr, "order of the samples matters", rtol=1e-12, scale=float(np.abs(lp).max()))
    return Result(len(set(lp.tolist())) > 2, ["distinct" if distinct else "ties"])


TARGETS = [
    Target("interval", intervals(), run_int, 1500, 25000, shards=3),
    Target("wavelet", wav(), run_wav, 400, 5000, shards=3),
    Target("region", region(), run_region, 1200, 20000, shards=2),
]
