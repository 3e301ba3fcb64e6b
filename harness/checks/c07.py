"""C07: start points."""
import numpy as np
from hypothesis import strategies as st

from harness.checks.c04 import SAMPLERS, make
from harness import forms
from harness.core import Result, Target, fail, require
from harness.gen import SEED, Spy, arr_desc, build, np_seed, problems, quiet, start_vec
from harness.stats import check_tails

PROPERTY = "C07"
RULE = (
    "start-forms: start points of other types and layouts against the same values as doubles, same seed. "
    "Random problems and samplers started from valid vectors (several dtypes, read-only, strided), invalid ones (lists, tuples, "
    "scalars, 2-D arrays, wrong sizes) and no start point. Non-trivial: invalid input, or a valid start that differs from zero; "
    "for the random start, 400+ pooled values."
)


def mk(c, nsamples=2):
    from pxmcmc.mcmc import PxMCMCParams

    ref, op, prior = build(c["p"], record=True, budget=2000)
    par = PxMCMCParams(lmda=0.5, delta=0.3 / ref.lipschitz(0.5), mu=c["p"]["mu"], s=2, nsamples=nsamples, nburn=c["nburn"], ngap=1,
                       complex=ref.cplx_params, verbosity=0)
    return ref, op, make(c["sampler"], op, prior, par)


@st.composite
def valid_cases(draw):
    return {"p": draw(problems(nmax=7)), "sampler": draw(st.sampled_from(SAMPLERS)), "start": draw(arr_desc(scales=(-1, 3))),
            "form": draw(st.sampled_from(["float", "int", "float32", "readonly", "strided", "subarray"])),
            "im": draw(st.sampled_from([0, 0, -9, -14, -15, -17])),
            "nburn": draw(st.integers(0, 3)), "seed": draw(SEED)}


def run_valid(c):
    ref, op, m = mk(c)
    x = start_vec(ref, c["start"])
    if c["im"] and ref.cplx_params:  # imaginary parts close to the rounding of the real ones
        x = x.real + 1j * x.imag * 10.0 ** c["im"]
    if c["form"] == "int" and not ref.cplx_params:
        x = np.round(x).astype(int)
    elif c["form"] == "float32":
        x = x.astype(np.complex64 if ref.cplx_params else np.float32)
    elif c["form"] == "readonly":
        x.flags.writeable = False
    elif c["form"] == "strided":
        y = np.zeros(2 * len(x), dtype=x.dtype)
        y[::2] = x
        x = y[::2]
    elif c["form"] == "subarray":
        y = np.zeros(len(x) + 2, dtype=x.dtype)
        y[1:-1] = x
        x = y[1:-1]
    keep = np.array(x, copy=True)
    with np_seed(c["seed"]), quiet():
        m.run(x)
    require(np.array_equal(x, keep) and x.dtype == keep.dtype, "the caller's start point was modified", before=keep, after=x)
    require(len(op.calls) > 0 and np.array_equal(op.calls[0], keep), "the chain does not start at the given point",
            first=op.calls[0] if op.calls else None, start=keep)
    require(not np.shares_memory(m.chain, x), "the recorded chain shares memory with the start point")
    return Result(np.any(keep != 0), [c["form"], c["sampler"]])


@st.composite
def invalid_cases(draw):
    return {"p": draw(problems(nmax=5)), "sampler": draw(st.sampled_from(SAMPLERS)), "nburn": 0, "seed": draw(SEED),
            "bad": draw(st.sampled_from(["list", "tuple", "float", "column", "row", "matrix", "short", "long", "empty", "0d", "str"])),
            "by": draw(st.integers(1, 5))}


def run_invalid(c):
    ref, op, m = mk(c)
    n, by = ref.n, c["by"]
    bad, exc = {
        "list": ([0.0] * n, TypeError),
        "tuple": ((0.0,) * n, TypeError),
        "float": (1.0, TypeError),
        "str": ("x" * n, TypeError),
        "column": (np.zeros((n, 1)), TypeError),
        "row": (np.zeros((1, n)), TypeError),
        "matrix": (np.zeros((n, by)), TypeError),
        "0d": (np.array(0.5), TypeError),
        "short": (np.zeros(max(0, n - by)), ValueError),
        "long": (np.zeros(n + by), ValueError),
        "empty": (np.zeros(0), ValueError),
    }[c["bad"]]
    try:
        with np_seed(c["seed"]), quiet():
            m.run(bad)
    except exc:
        pass
    except Exception as e:
        fail("invalid start point rejected with the wrong exception", kind=c["bad"], got=repr(e), expected=exc.__name__)
    else:
        fail("invalid start point accepted", kind=c["bad"], n=n)
    require(not np.any(m.chain), "an invalid start point left samples behind")
    return Result(True, [c["bad"]])


@st.composite
def random_cases(draw):
    return {"p": draw(problems(nmax=8)), "sampler": draw(st.sampled_from(SAMPLERS)), "nburn": 0, "seed": draw(SEED), "reps": 80}


def run_random(c):
    from scipy import stats

    vals = []
    with np_seed(c["seed"]), quiet():
        ref, op, m = mk(c, nsamples=1)
        for _ in range(c["reps"]):
            op.calls.clear()
            m.run()
            x = op.calls[0]
            require(np.shape(x) == (ref.n,), "random start has the wrong shape", shape=np.shape(x))
            require(np.iscomplexobj(x) == ref.cplx_params, "random start is not of the parameters' type (real/complex)", dtype=x.dtype)
            require(np.all(np.isfinite(x)), "random start is not finite")
            vals.append(np.concatenate([x.real, x.imag]) if ref.cplx_params else x)
    v = np.array(vals)
    for r in v:
        require(len(np.unique(np.abs(r))) == r.size, "values of a random start are not independent draws (repeated)", start=r)
    require(len({tuple(r) for r in v}) == len(v), "random starts repeat")
    if v.size >= 400:
        p = stats.kstest(v.ravel(), "laplace").pvalue
        if p < 1e-11:
            fail("random start is not standard Laplace", p=p, n=v.size)
    if ref.cplx_params:
        z = np.sum(v[:, : ref.n] * v[:, ref.n:]) / (2 * np.sqrt(v.size / 2))
        require(abs(z) < 25, "real and imaginary parts of the random start are correlated", z=float(z))
    return Result(v.size >= 400, [c["sampler"], "complex" if ref.cplx_params else "real"])


@st.composite
def tail_cases(draw):
    return {"n": draw(st.sampled_from([1000, 20000, 300000, 600000])), "cplx": draw(st.booleans()), "sampler": draw(st.sampled_from(SAMPLERS)),
            "setting": draw(st.sampled_from(["analysis", "synthesis"])), "seed": draw(SEED)}


def run_tail(c):
    """As many parameters as a real map: the tails of the random start."""
    from scipy import stats

    from pxmcmc.forward import ForwardOperator
    from pxmcmc.mcmc import PxMCMCParams
    from pxmcmc.measurements import Identity
    from pxmcmc.prior import L1
    from pxmcmc.transforms import IdentityTransform

    n = c["n"]
    pts = []
    t = IdentityTransform()
    op = Spy(ForwardOperator(np.zeros(n), 1.0, c["setting"], t, Identity(n, n), nparams=n), "forward", pts)
    par = PxMCMCParams(lmda=0.5, delta=0.1, s=1, nsamples=1, nburn=0, ngap=1, complex=c["cplx"], verbosity=0)
    with np_seed(c["seed"]), quiet():
        make(c["sampler"], op, L1(c["setting"], t.inverse, t.inverse_adjoint, 0.5), par).run()
    x = pts[0]
    require(np.shape(x) == (n,) and np.iscomplexobj(x) == c["cplx"], "random start has the wrong shape or type", shape=np.shape(x), dtype=x.dtype)
    for part in [x.real, x.imag] if c["cplx"] else [x]:
        p = stats.kstest(part, "laplace").pvalue
        require(p > 1e-11, "random start is not standard Laplace", p=p, n=n)
        check_tails(part, stats.laplace.sf, (1, 2, 4, 5, 6, 7, 8, 9), "random start is not standard Laplace")
        z = np.sum(part[1:] * part[:-1]) / (2 * np.sqrt(n))
        require(abs(z) < 12, "successive values of the random start are correlated", z=float(z))
    return Result(True, [c["sampler"], "complex" if c["cplx"] else "real"])


TARGETS = [
    Target("tails", tail_cases(), run_tail, 16, 300, shards=4),
    Target("valid", valid_cases(), run_valid, 600, 20000, shards=3),
    Target("invalid", invalid_cases(), run_invalid, 500, 10000, shards=2),
    Target("random", random_cases(), run_random, 90, 3000, shards=3),
    forms.target(["myula", "pxmala", "pxmala_tuned", "skrock"]),
]
