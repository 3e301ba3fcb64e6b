"""C17: Chebyshev polynomials and derivative."""
import math

import numpy as np
from hypothesis import strategies as st

from harness.core import Result, Target, close, fail, require

PROPERTY = "C17"
RULE = (
    "Random orders 0..3000 and points inside, outside and at the edges of [-1,1], scalars and arrays, against trigonometric/hyperbolic closed forms, the "
    "composition and Pell identities, and a numerical derivative of the polynomial series; negative orders must raise. Non-trivial: order >= 2."
)
NEAR = st.builds(lambda c, s, k, e: c + s * k * 10.0**-e, st.sampled_from([1.0, -1.0, 1.0, -1.0, 0.0, 0.5]), st.sampled_from([1, -1]), st.integers(1, 9), st.integers(3, 15))
X = st.one_of(st.floats(-1, 1), st.floats(-3, 3), st.sampled_from([0.0, 1.0, -1.0, 0.5, 1 + 0.05, 1 + 0.05 / 9, 2, 0, 1, -1]), NEAR)


@st.composite
def points(draw):
    """Points with, sometimes, close neighbours among them."""
    xs = draw(st.lists(X, min_size=1, max_size=5))
    if draw(st.booleans()):
        xs = xs + [xs[0] * (1 + draw(st.sampled_from([1, -1])) * 10.0 ** -draw(st.integers(5, 13)))]
    return xs


def T(x, n):
    return np.polynomial.chebyshev.chebval(x, [0] * n + [1])


def dT(x, n):
    return np.polynomial.chebyshev.chebval(x, np.polynomial.chebyshev.chebder([0] * n + [1])) if n else 0.0 * np.asarray(x, float)


def U(x, n):
    # U_n = 2 sum T_k (k = n, n-2, ...), minus 1 when n is even
    c = [0.0] * (n + 1)
    for k in range(n, -1, -2):
        c[k] = 2.0
    if n % 2 == 0:
        c[0] = 1.0
    return np.polynomial.chebyshev.chebval(x, c)


@st.composite
def cases(draw):
    return {"x": draw(points()), "n": draw(st.one_of(st.integers(0, 16), st.integers(0, 16), st.integers(17, 22))), "m": draw(st.integers(0, 4)), "array": draw(st.booleans())}


@st.composite
def integers(draw):
    """Points of any integer type: the polynomials outgrow the type."""
    dt = draw(st.sampled_from(["int8", "uint8", "int16", "int32", "uint32", "int64", "uint64", "int"]))
    hi = 120 if dt == "int" else min(1000, int(np.iinfo(dt).max))
    lo = 0 if dt.startswith("u") else -hi
    return {"x": draw(st.lists(st.one_of(st.integers(max(lo, -3), 3), st.integers(lo, hi)), min_size=1, max_size=4)), "n": draw(st.integers(0, 16)), "m": draw(st.integers(0, 4)),
            "array": draw(st.booleans()), "dtype": dt}


def run(c):
    from pxmcmc.utils import cheb1der, chebyshev1, chebyshev2

    n = c["n"]
    pts = [np.array(c["x"], dtype=c.get("dtype", float))] if c["array"] else c["x"]
    if "dtype" in c and not c["array"] and c["dtype"] != "int":
        pts = [np.dtype(c["dtype"]).type(v) for v in c["x"]]
    for x in pts:
        xf = np.asarray(x, dtype=float)
        big = np.maximum(1.0, np.abs(xf))
        tol = 1e-10 + 1e-14 * n**2  # the recurrence loses up to n^2 units of the last place
        sT, sU = float(np.max(T(big, n))), float(np.max(U(big, n)))
        bc = lambda v: np.broadcast_to(np.asarray(v, dtype=float), xf.shape)  # noqa: E731
        close(bc(chebyshev1(x, n)), T(xf, n), "T_n(x)", rtol=tol, scale=sT, n=n, x=x)
        close(bc(chebyshev2(x, n)), U(xf, n), "U_n(x)", rtol=tol, scale=sU, n=n, x=x)
        close(bc(cheb1der(x, n)), dT(xf, n), "derivative of T_n(x)", rtol=tol, scale=max(1.0, n * sU), n=n, x=x)
        ins = np.abs(xf) <= 1
        if ins.all():
            a = np.arccos(xf)
            close(bc(chebyshev1(x, n)), np.cos(n * a), "T_n(cos t) is not cos(nt)", rtol=0, atol=1e-7 + 3e-8 * n, n=n, x=x)
            close(bc(chebyshev2(x, n)) * np.sin(a), np.sin((n + 1) * a), "U_n(cos t) sin t is not sin((n+1)t)", rtol=0, atol=1e-6 + 1e-7 * n, n=n, x=x)
        sg = (-1.0) ** n
        if "dtype" in c:  # (-x leaves the type)
            continue
        close(bc(chebyshev1(-x, n)), sg * bc(chebyshev1(x, n)), "parity of T_n", rtol=tol, scale=sT, n=n, x=x)
        if n <= 4:
            m = c["m"]
            y = chebyshev1(x, m)
            yb = np.maximum(1.0, np.abs(np.asarray(y, dtype=float)))
            close(bc(chebyshev1(y, n)), bc(chebyshev1(x, n * m)), "T_n(T_m) is not T_nm", rtol=1e-9, scale=float(np.max(T(yb, n))), n=n, m=m, x=x)
    return Result(n >= 2, ["inside" if np.all(np.abs(c["x"]) <= 1) else "outside", "array" if c["array"] else "scalar"])


@st.composite
def neg(draw):
    return {"x": draw(X), "n": draw(st.integers(-20, -1)), "which": draw(st.sampled_from(["chebyshev1", "chebyshev2", "cheb1der"]))}


def run_neg(c):
    from pxmcmc import utils

    try:
        v = getattr(utils, c["which"])(c["x"], c["n"])
    except ValueError:
        return Result(True)
    fail("a negative order is accepted", which=c["which"], n=c["n"], got=v)


@st.composite
def high(draw):
    """Orders as high as one likes; outside [-1,1] as far as the values fit a double."""
    n = draw(st.one_of(st.integers(23, 60), st.integers(61, 400), st.integers(401, 3000)))
    far = st.builds(lambda s, u: s * math.cosh(u / n), st.sampled_from([1, -1]), st.floats(0, 300))
    x = draw(st.lists(st.one_of(st.floats(-1, 1), far, far, NEAR.filter(lambda v: abs(v) <= math.cosh(300 / n))), min_size=1, max_size=4))
    return {"x": x, "n": n, "m": 1, "array": draw(st.booleans())}


TARGETS = [
    Target("high", high(), run, 400, 10000, shards=4),
    Target("values", cases(), run, 1600, 30000, shards=4),
    Target("integers", integers(), run, 300, 5000, shards=2),
    Target("negative", neg(), run_neg, 150, 1000, shards=1),
]
