"""C11: weak-lensing operators implement the spherical lensing kernel on the observed pixels only."""
import warnings

import numpy as np
from hypothesis import strategies as st

from harness.core import Result, Target, close, fail, require
from harness.gen import SEED, arr, mwn, rng, wide_desc
from harness.sphere import el_index, make_mask, make_ngal, mask_desc, ngal_desc

PROPERTY = "C11"
RULE = (
    "harmonic: random coefficients at random bandlimits against the closed-form kernel, and the Kaiser-Squires inverse. pixel: random maps, masks "
    "(bool/int/float, empty rows, single pixel) and galaxy counts against pyssht spin-0/spin-2 transforms. errors: bandlimits < 1, masks and signals of "
    "wrong shape, NaNs. Non-trivial: a signal with power at l >= 2 (harmonic, pixel) or a refused input (errors)."
)
SIGMA_E = 0.37


def kernel(L):
    el = el_index(L).astype(float)
    k = np.zeros(L * L)
    m = el >= 2
    k[m] = -np.sqrt((el[m] + 2) * (el[m] - 1) / (el[m] * (el[m] + 1)))
    return k


@st.composite
def harm(draw):
    return {"L": draw(st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(1, 40), st.integers(1, 120))), "f": draw(wide_desc), "pix": draw(st.booleans())}


def run_harm(c):
    from pxmcmc.measurements import WeakLensing, WeakLensingHarmonic

    L = c["L"]
    op = WeakLensingHarmonic(L)
    f = arr(c["f"], L * L, True)
    k = kernel(L)
    sc = np.abs(f).max()
    got = op.forward(f.copy())
    close(got, k * f, "harmonic shear is not kernel * convergence", rtol=1e-13, scale=sc, atol=1e-300, L=L)
    close(op.adjoint(f.copy()), k * f, "harmonic adjoint is not kernel * shear", rtol=1e-13, scale=sc, atol=1e-300, L=L)
    kept = np.where(k != 0, f, 0)
    close(op.sks_estimate(got), kept, "Kaiser-Squires does not invert the forward model at l >= 2", rtol=1e-12, scale=sc, atol=1e-300, L=L)
    inv = np.where(k != 0, f / np.where(k != 0, k, 1), 0)
    close(op.sks_estimate(f.copy()), inv, "Kaiser-Squires of an arbitrary shear is not the inverse kernel at l >= 2 and zero below", rtol=1e-12, scale=2 * sc,
          atol=1e-300, L=L)
    if c["pix"]:
        close(WeakLensing(L).sks_estimate(got), kept, "Kaiser-Squires (pixel class) does not invert the forward model at l >= 2", rtol=1e-12,
              scale=sc, atol=1e-300, L=L)
    return Result(np.abs(kept).max(initial=0) > 0, ["L>=3" if L > 2 else "tiny"])


@st.composite
def pixel(draw):
    return {
        "L": draw(st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(1, 18), st.integers(1, 40))),
        "k": draw(wide_desc),
        "cplx": draw(st.booleans()),
        "grid": draw(st.booleans()),
        "y": draw(wide_desc),
        "mask": draw(mask_desc),
        "ngal": draw(ngal_desc),
    }


def run_pixel(c):
    import pyssht

    from pxmcmc.measurements import WeakLensing

    L = c["L"]
    sh = (L, 2 * L - 1)
    mask, ngal = make_mask(c["mask"], L), make_ngal(c["ngal"], L)
    m0, n0 = (None if a is None else a.copy() for a in (mask, ngal))
    op = WeakLensing(L, mask, ngal)
    obs = np.ones(sh, bool) if mask is None else mask.astype(bool)
    w = np.ones(obs.sum()) if ngal is None else np.sqrt(2.0 * ngal[obs].astype(float) / SIGMA_E**2)
    kap = arr(c["k"], mwn(L), c["cplx"])
    lm = pyssht.forward(kap.reshape(sh).astype(complex), L, Spin=0)
    shear = pyssht.inverse(kernel(L) * lm, L, Spin=2)
    e = shear[obs] * w
    sc = np.abs(kap).max() * L * (w.max(initial=1))
    got = op.forward(kap.reshape(sh).copy() if c["grid"] else kap.copy())
    close(got, e, "shear data are not the weighted shear at the observed pixels", rtol=1e-11, scale=sc, atol=1e-300, L=L)
    y = arr(c["y"], int(obs.sum()), True)
    f = op.mask_adjoint(y.copy())
    require(f.shape == sh, "mask_adjoint does not return a full map", got=f.shape, expected=sh)
    require(np.all(f[~obs] == 0), "mask_adjoint puts signal in unobserved pixels")
    require(np.array_equal(f[obs], y), "mask_adjoint changes the observed values")
    require(np.array_equal(op.mask_forward(f), y), "mask_forward does not invert mask_adjoint")
    full = kap.reshape(sh)
    require(np.array_equal(op.mask_forward(full.copy()), full[obs]), "mask_forward does not select the observed pixels")
    if mask is not None:
        require(np.array_equal(mask, m0), "the caller's mask is modified")
    if ngal is not None:
        require(np.array_equal(ngal, n0), "the caller's galaxy counts are modified")
    # what lies in unobserved pixels of the data never matters; galaxies only matter where observed
    if ngal is not None and (~obs).any():
        n2 = ngal.copy()
        n2[~obs] = n2[~obs] + 5
        close(WeakLensing(L, mask, n2).forward(kap.copy()), got, "galaxy counts in unobserved pixels change the data", rtol=1e-13, scale=sc, atol=1e-300)
    return Result(L > 2 and np.abs(shear).max() > 0, [c["mask"]["kind"], "ngal-" + c["ngal"]["kind"]])


@st.composite
def errors(draw):
    return {
        "kind": draw(st.sampled_from(["L", "Lpix", "mask", "maskflat", "nan", "nanadj", "shape", "ngalshape", "nanfwd", "large", "harmshape", "harmshape", "fwdshape", "adjshape", "adjshape"])),
        "L": draw(st.integers(1, 7)),
        "bad": draw(st.integers(-3, 0)),
        "dl": draw(st.sampled_from([-1, 1, 2])),
        "pos": draw(SEED),
        "part": draw(st.sampled_from(["real", "imag"])),
        "mask": draw(mask_desc),
        "how": draw(st.sampled_from(["one", "none", "scalar", "longer", "shorter", "row", "column", "stack"])),
        "call": draw(st.sampled_from(["forward", "adjoint", "sks_estimate"])),
        "cls": draw(st.booleans()),
        "big": draw(st.sampled_from([[1023, False], [1024, False], [1025, True], [1026, True]])),
    }


def misshapen(g, n, how):
    """A signal that is not a vector of n values."""
    sh = {"one": (1,), "none": (0,), "scalar": (), "longer": (n + 1,), "shorter": (max(n - 1, 0),), "row": (1, n), "column": (n, 1), "stack": (2, n)}[how]
    return None if sh == (n,) else g.standard_normal(sh) + 1j * g.standard_normal(sh) + 0 * np.zeros(sh)


def run_errors(c):
    from pxmcmc.measurements import WeakLensing, WeakLensingHarmonic

    L, k = c["L"], c["kind"]
    sh = (L, 2 * L - 1)
    g = rng(c["pos"])
    nan = complex(np.nan, 0) if c["part"] == "real" else complex(0, np.nan)
    if k == "large":
        if c["pos"] % 8:  # expensive: the kernel of bandlimit 1024 is a million entries
            return Result(False)
        with warnings.catch_warnings(record=True) as rec:
            warnings.simplefilter("always")
            WeakLensingHarmonic(c["big"][0])
        require(bool(rec) == c["big"][1], "very large bandlimits must be warned about, others not", L=c["big"][0], warned=bool(rec))
        return Result(True, ["large"])
    try:
        if k == "L":
            WeakLensingHarmonic(c["bad"])
        elif k == "Lpix":
            WeakLensing(c["bad"])
        elif k == "mask":
            L2 = L + c["dl"]
            WeakLensing(L, np.ones((max(L2, 1), 2 * max(L2, 1) - 1) if L2 != L and L2 > 0 else (L, L * 2)))
        elif k == "maskflat":
            if L == 1:
                return Result(False)
            WeakLensing(L, np.ones(mwn(L)))
        elif k == "ngalshape":
            WeakLensing(L, make_mask(c["mask"], L), np.ones((L + 1, 2 * L + 1)))
        elif k == "harmshape":
            op = WeakLensingHarmonic(L)
            f = misshapen(g, L * L, c["how"])
            if f is None:
                return Result(False)
            getattr(op, c["call"])(f)
        elif k == "fwdshape":
            f = misshapen(g, mwn(L), c["how"])
            if f is None or f.size == mwn(L):  # maps may come flattened or not
                return Result(False)
            WeakLensing(L, make_mask(c["mask"], L)).forward(f)
        elif k == "adjshape":
            mask = make_mask(c["mask"], L)
            op = WeakLensing(L, mask)
            f = misshapen(g, mwn(L) if mask is None else int(np.count_nonzero(mask)), c["how"])
            if f is None:
                return Result(False)
            (op.adjoint if c["cls"] else op.mask_adjoint)(f)
        else:
            op = WeakLensing(L, make_mask(c["mask"], L))
            f = g.standard_normal(sh) + 1j * g.standard_normal(sh)
            if k == "nan":
                f[g.integers(L), g.integers(2 * L - 1)] = nan
                op.mask_forward(f)
            elif k == "nanfwd":
                if L < 3:  # no multipole of such a map reaches the shear
                    return Result(False)
                f[g.integers(L), g.integers(2 * L - 1)] = nan
                op.forward(f)
            elif k == "nanadj":
                y = op.mask_forward(f)
                if y.size == 0:
                    return Result(False)
                y[g.integers(y.size)] = nan
                op.mask_adjoint(y)
            else:
                op.mask_forward(np.zeros((L + 1, 2 * L + 1)))
    except ValueError:
        return Result(True, [k])
    fail("an unusable input is accepted", kind=k, L=L, how=c["how"], call=c["call"])


TARGETS = [
    Target("harmonic", harm(), run_harm, 800, 20000, shards=2),
    Target("pixel", pixel(), run_pixel, 1500, 30000, shards=4),
    Target("errors", errors(), run_errors, 700, 4000, shards=2),
]
