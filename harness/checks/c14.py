"""C14: soft and hard thresholding."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Result, Target, require
from harness.gen import SEED, arr, arr_desc, ref_soft, rng, vsoft

PROPERTY = "C14"
RULE = (
    "Random real/complex vectors (zeros, repeats, values exactly at the threshold, mixed magnitudes, float/int/list inputs), scalar and per-element "
    "thresholds, kept fractions 0..1: element-by-element definition of soft thresholding; hard thresholding keeps exactly the largest-magnitude "
    "floor(T*n) entries (ties at the cut kept together). Non-trivial: something is removed and something is kept."
)


@st.composite
def soft_cases(draw):
    return {
        "n": draw(st.one_of(*[st.integers(0, 25)] * 30, st.integers(26, 400), st.integers(400, 20000))),
        "cplx": draw(st.booleans()),
        "container": draw(st.sampled_from(["array", "array", "list", "2d", "int"])),
        "x": draw(st.one_of(arr_desc(scales=(-6, 6)), arr_desc(scales=(-60, 60)))),
        "T": draw(st.sampled_from(["zero", "scalar", "scalar", "vector", "element", "median", "default"])),
        "t": draw(st.floats(0, 10, allow_nan=False)),
        "seed": draw(SEED),
    }


def run_soft(c):
    from pxmcmc.utils import soft

    g = rng(c["seed"])
    n = c["n"]
    x = arr(c["x"], n, c["cplx"])
    if c["container"] == "int":
        x = g.integers(-6, 7, n)
    mag = np.abs(x)
    k = c["T"]
    if k == "zero":
        T = 0
    elif k == "scalar":
        T = c["t"] * 10.0 ** c["x"]["log"] / 4
    elif k == "vector":
        T = np.abs(g.standard_normal(n)) * 10.0 ** c["x"]["log"] * (g.random(n) < 0.8)
        T[::3] = mag[::3]
    elif k == "element":
        T = float(mag[g.integers(n)]) if n else 1.0
    elif k == "median":
        T = float(np.median(mag)) if n else 1.0
    else:
        T = 0.1
    if c["container"] == "2d" and n % 2 == 0:
        x = x.reshape(2, -1)
        T = T.reshape(2, -1) if np.ndim(T) else T
    arg = x.tolist() if c["container"] == "list" else x.copy()
    before = x.copy()
    got = soft(arg) if k == "default" else soft(arg, T if np.ndim(T) == 0 else T.copy())
    e = (ref_soft if x.size < 400 else vsoft)(x, T) if x.size else x
    err = np.abs(np.asarray(got) - e)
    tol = 1e-12 * np.abs(x)
    require(np.shape(got) == x.shape, "soft() changes the shape", got=np.shape(got), expected=x.shape)
    bad = ~(err <= tol)
    require(not bad.any(), "soft() is not shrink-the-modulus-by-T", x=x[bad][:3], got=np.asarray(got)[bad][:3], expected=e[bad][:3], T=T)
    z = np.abs(x) <= T
    require(np.all(np.asarray(got)[z] == 0), "values not exceeding the threshold must become exactly 0")
    if np.isrealobj(x):
        require(np.isrealobj(got), "soft() of real values is complex")
    if c["container"] != "list":
        require(np.asarray(arg).tobytes() == before.tobytes(), "soft() modifies its input")
    return Result(z.any() and (~z).any(), [k, "complex" if c["cplx"] else "real", c["container"]])


@st.composite
def hard_cases(draw):
    return {
        "n": draw(st.one_of(*[st.integers(1, 8)] * 10, *[st.integers(1, 60)] * 10, st.integers(61, 1000), st.integers(1000, 30000))),
        "cplx": draw(st.booleans()),
        "x": draw(st.one_of(arr_desc(scales=(-3, 3)), arr_desc(scales=(-60, 60)))),
        "keep": draw(st.one_of(st.sampled_from([0.0, 0, 1.0, 1, 0.5, 0.1, 0.25, 1e-9, 0.999]), st.floats(0, 1))),
        "default": draw(st.booleans()),
    }


def run_hard(c):
    from pxmcmc.utils import hard

    n = c["n"]
    x = arr(c["x"], n, c["cplx"])
    T = 0.1 if c["default"] else c["keep"]
    arg = x.copy()
    got = np.asarray(hard(arg) if c["default"] else hard(arg, T))
    require(got.shape == x.shape, "hard() changes the shape", got=got.shape)
    k = int(T * n)
    mag = np.abs(x)
    cut = np.sort(mag)[n - k] if k else np.inf
    e = np.where(mag >= cut, x, 0)
    require(np.array_equal(got, e), "hard() does not keep exactly the largest magnitudes", n=n, T=T, got=got[:8], expected=e[:8])
    kept = int((got != 0).sum())
    distinct = len(set(mag.tolist())) == n
    if distinct:
        require(kept <= k, "hard() keeps more than the requested fraction", kept=kept, k=k)
    return Result(0 < kept < n, ["distinct" if distinct else "ties", "complex" if c["cplx"] else "real"])


TARGETS = [
    Target("soft", soft_cases(), run_soft, 4000, 100000, shards=4),
    Target("hard", hard_cases(), run_hard, 3000, 60000, shards=4),
]
