"""C09: every way of stating the data errors means the same Gaussian; unusable ones are refused."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Result, Target, close, fail
from harness.gen import SEED, arr, arr_desc, rng

PROPERTY = "C09"
RULE = (
    "equiv: the same errors stated as scalar, vector, diagonal and (rotated) full covariance, real or Hermitian, over 1..300 data and from 1e-30 to 1e40, real/complex data, both settings; "
    "gradient and misfit compared between spellings and with inv(C). invalid: wrong-length vectors, non-square or wrong-sized matrices, 3-d arrays, "
    "unknown settings. Non-trivial: at least two data and a non-zero residual (equiv) or a refused specification (invalid)."
)


@st.composite
def cases(draw):
    return {
        "n": draw(st.one_of(*[st.integers(1, 6)] * 10, *[st.integers(1, 40)] * 10, st.integers(100, 300))),
        "sigma": draw(st.sampled_from([1, 2, 7, 40, 300, 50000, 0.01, 0.25, 0.5, 1.0, 1.7, 30.0, 1e3, 1e-4, 1e-6, 1e-8, 1e-9, 1e-12, 1e6, 1e-30, 1e12, 1e20, 1e40])),
        "hetero": draw(st.booleans()),
        "spread": draw(st.sampled_from([10.0, 10.0, 1.0, 0.1, 0.02, 1e-3, 1e-5, "decades", "one"])),
        "corr": draw(st.sampled_from([0.5, 0.5, 0.5, 0.03, 1e-4, 1e-7, 10.0])),
        "cplx": draw(st.booleans()),
        "setting": draw(st.sampled_from(["analysis", "synthesis"])),
        "data": draw(arr_desc(scales=(-3, 3))),
        "pred": draw(arr_desc(scales=(-3, 3))),
        "units": draw(st.booleans()),
        "seed": draw(SEED),
    }


def spread(g, n, how):
    """Relative errors that differ from each other by a factor, a little, by decades or in one entry only."""
    if how == "decades":
        return 10.0 ** g.uniform(-3, 3, n)
    if how == "one":
        v = np.ones(n)
        v[g.integers(n)] = g.choice([0.5, 0.99, 1.01, 3.0])
        return v
    return 1 + how * g.random(n)


def make(data, sig, setting="analysis"):
    from pxmcmc.forward import ForwardOperator
    from pxmcmc.measurements import Identity
    from pxmcmc.transforms import IdentityTransform

    n = len(data)
    return ForwardOperator(data.copy(), sig.copy() if isinstance(sig, np.ndarray) else sig, setting, IdentityTransform(), Identity(n, n), nparams=n)


def misfit(op, pred, cplx):
    from pxmcmc.mcmc import MYULA, PxMCMCParams
    from pxmcmc.prior import L1

    m = MYULA(op, L1("synthesis", None, None, 1.0), PxMCMCParams(complex=cplx, verbosity=0, nsamples=1))
    return m.logpi(pred, pred)[1]


def run(c):
    n, s = c["n"], c["sigma"]
    g = rng(c["seed"])
    data, pred = arr(c["data"], n, c["cplx"]), arr(c["pred"], n, c["cplx"])
    if c["units"]:  # data in the units of their errors
        data, pred = data * s, pred * s
    specs = {}
    if not c["hetero"]:
        specs["scalar"] = s
        specs["numpy scalar"] = np.float64(s)
        if s == int(s) and s < 3e9:
            specs["integer vector"] = np.full(n, int(s))
            for dt in (np.int8, np.uint8, np.int16, np.int32):
                if s <= np.iinfo(dt).max:
                    specs[f"{dt.__name__} vector"] = np.full(n, int(s), dtype=dt)
            specs["integer matrix"] = np.diag(np.full(n, int(s) ** 2))
        v = np.full(n, float(s))
    else:
        v = spread(g, n, c["spread"]) * s
    specs["vector"] = v
    specs["strided vector"] = np.repeat(v, 2)[::2]
    specs["column-ordered matrix"] = np.asfortranarray(np.diag(v**2))
    specs["diagonal matrix"] = np.diag(v**2)
    r = pred - data
    e = r / v**2
    l2 = float(np.sum(np.abs(r) ** 2 / v**2))
    mag = np.abs(pred) + np.abs(data)
    sc, sc2 = float(np.max(mag / v**2)), float(np.sum(mag**2 / v**2))
    for k, sig in specs.items():
        op = make(data, sig, c["setting"])
        close(op.calc_gradg(pred.copy()), e, f"gradient with errors given as {k}", rtol=1e-12, scale=sc, atol=1e-300)
        close(misfit(op, pred, c["cplx"]), l2, f"misfit with errors given as {k}", rtol=1e-12, scale=sc2, atol=1e-300)
    # correlated errors
    R = g.standard_normal((n, n)) / np.sqrt(n)
    C = np.diag(v**2) + c["corr"] * v[:, None] * (R @ R.T) * v[None, :]
    Ci = np.linalg.inv(np.eye(n) + c["corr"] * (R @ R.T)) / v[:, None] / v[None, :]
    op = make(data, C, c["setting"])
    sc = float(np.max(np.abs(Ci) @ mag))
    close(op.calc_gradg(pred.copy()), Ci @ r, "gradient with a full covariance matrix is not C^-1 (pred - data)", rtol=1e-9, scale=sc, atol=1e-300)
    close(misfit(op, pred, c["cplx"]), float(np.real(np.conj(r) @ (Ci @ r))), "misfit with a full covariance matrix", rtol=1e-9,
          scale=float(mag @ np.abs(Ci) @ mag), atol=1e-300)
    if c["cplx"]:  # correlated complex errors: a Hermitian matrix
        R = R + 1j * g.standard_normal((n, n)) / np.sqrt(n)
        H = R @ R.conj().T
        C = np.diag(v**2) + c["corr"] * v[:, None] * H * v[None, :]
        Ci = np.linalg.inv(np.eye(n) + c["corr"] * H) / v[:, None] / v[None, :]
        op = make(data, C, c["setting"])
        sc = float(np.max(np.abs(Ci) @ mag))
        close(op.calc_gradg(pred.copy()), Ci @ r, "gradient with a Hermitian covariance matrix is not C^-1 (pred - data)", rtol=1e-9, scale=sc, atol=1e-300)
        close(misfit(op, pred, True), float(np.real(np.conj(r) @ (Ci @ r))), "misfit with a Hermitian covariance matrix", rtol=1e-9,
              scale=float(mag @ np.abs(Ci) @ mag), atol=1e-300)
    # relabelling the data relabels the gradient
    p = g.permutation(n)
    a = make(data[p], v[p]).calc_gradg(pred[p])
    close(a, e[p], "permuting data and errors does not permute the gradient", rtol=1e-12, scale=float(np.max(mag / v**2)), atol=1e-300)
    return Result(n > 1 and np.abs(r).max() > 0, ["hetero" if c["hetero"] else "homo", "complex" if c["cplx"] else "real"])


@st.composite
def invalid(draw):
    return {
        "n": draw(st.integers(1, 12)),
        "kind": draw(st.sampled_from(["short", "long", "nonsquare", "wrongsize", "3d", "setting"])),
        "k": draw(st.integers(1, 5)),
        "setting": draw(st.sampled_from(["Analysis", "synth", "", "SYNTHESIS", None, 0])),
        "cplx": draw(st.booleans()),
        "seed": draw(SEED),
    }


def run_invalid(c):
    n, k = c["n"], c["k"]
    g = rng(c["seed"])
    data = g.standard_normal(n) + (1j * g.standard_normal(n) if c["cplx"] else 0)
    try:
        if c["kind"] == "short":
            if n - k < 0:
                return Result(False)
            op = make(data, 0.5 + g.random(n - k))
        elif c["kind"] == "long":
            op = make(data, 0.5 + g.random(n + k))
        elif c["kind"] == "nonsquare":
            op = make(data, g.random((n, n + k)) if c["seed"] % 2 else g.random((n + k, n)))
        elif c["kind"] == "wrongsize":
            op = make(data, np.diag(0.5 + g.random(n + k)))
        elif c["kind"] == "3d":
            op = make(data, g.random((n, n, k)))
        else:
            make(data, 1.0, c["setting"])
            fail("an unknown setting is accepted", setting=c["setting"])
        if c["kind"] != "wrongsize":  # a square matrix is only seen not to fit when it is used
            fail("a data error that does not fit the data is accepted", kind=c["kind"], n=n, k=k)
        op.calc_gradg(data + 1)
    except (ValueError, TypeError) as e:
        if c["kind"] == "setting" and not isinstance(e, ValueError):
            fail("an unknown setting must raise ValueError", got=type(e).__name__)
        return Result(True, [c["kind"]])
    fail("a data error that does not fit the data is accepted", kind=c["kind"], n=n, k=k)


TARGETS = [
    Target("equiv", cases(), run, 1800, 40000, shards=4),
    Target("invalid", invalid(), run_invalid, 500, 5000, shards=2),
]
