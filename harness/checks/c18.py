"""C18: packing and unpacking of coefficients lose and reorder nothing."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Result, Target, fail, require
from harness.gen import SEED, arr, wide_desc

PROPERTY = "C18"
RULE = (
    "Random numbers of scales and coefficients (1 scale, 1 coefficient, no wavelets), real/complex, 1-d and 2-d wavelet arrays: round trips in both "
    "directions, the documented order (scaling first, then scale by scale), flattened and 2-d results, and refusal of ambiguous arguments. Non-trivial: "
    "at least two scales and two coefficients per scale."
)


@st.composite
def cases(draw):
    return {"v": draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(1, 12), st.integers(13, 400))),
            "k": draw(st.one_of(st.integers(1, 6), st.integers(1, 6), st.integers(7, 20), st.integers(21, 80))),
            "ns": draw(st.one_of(st.integers(0, 20), st.integers(1, 20), st.integers(0, 500))), "nw": draw(st.one_of(st.integers(0, 40), st.integers(0, 2000))),
            "cplx": draw(st.booleans()), "a": draw(wide_desc), "b": draw(wide_desc), "order": draw(st.sampled_from(["C", "F"])), "types": draw(st.sampled_from([None, None, "rc", "cr", "if", "fi", "4"])), "seed": draw(SEED), "rows": draw(st.integers(1, 4))}


def typed(c, a, which):
    """Wavelet (0) and scaling (1) coefficients of equal or different types; the values fit both."""
    t = c["types"]
    if t is None:
        return a
    if t == "4":
        return a.astype(np.complex64 if np.iscomplexobj(a) else np.float32) if which else a
    want = t[which]
    if want == "c":
        return a + 1j * a[..., ::-1]
    if want == "i":
        return np.rint(np.clip(np.real(a), -1e9, 1e9)).astype(int)
    return np.real(a).astype(float)


def run(c):
    from pxmcmc.utils import expand_mlm, flatten_mlm

    v, k = c["v"], c["k"]
    # equal-size scales, wavelets as a (coefficients, scales) array
    wav = np.array(arr(c["a"], v * k, c["cplx"]).reshape(k, v).T, order=c["order"])
    scal = arr(c["b"], v, c["cplx"])
    wav, scal = np.array(typed(c, wav, 0), order=c["order"]), typed(c, scal, 1)
    w0, s0 = wav.copy(), scal.copy()
    flat = flatten_mlm(wav, scal)
    exp = np.concatenate([scal] + [wav[:, j] for j in range(k)])
    require(np.shape(flat) == exp.shape and np.array_equal(flat, exp), "flattening is not [scaling, scale 1, scale 2, ...]", got=flat, expected=exp)
    require(np.array_equal(w0, wav) and np.array_equal(s0, scal), "flatten_mlm modifies its inputs")
    f0 = flat.copy()
    w, s = expand_mlm(flat, nscales=k)
    require(np.shape(w) == (v, k) and np.array_equal(w, wav) and np.array_equal(s, scal), "expand_mlm(nscales) does not invert flatten_mlm", v=v, k=k)
    require(np.array_equal(flatten_mlm(np.asarray(w), np.asarray(s)), flat), "flatten_mlm does not invert expand_mlm(nscales)", v=v, k=k)
    w, s = expand_mlm(flat, nscales=k, flatten_wavs=True)
    require(np.shape(w) == (v * k,) and np.array_equal(w, flat[v:]) and np.array_equal(s, scal), "expand_mlm(flatten_wavs) reorders", v=v, k=k)
    require(np.array_equal(flat, f0), "expand_mlm modifies its input")
    # maps with rows and columns per scale: the first axis runs fastest, the last one is the scale, as in the layout above
    r = c["rows"]
    cube = arr(c["a"], r * v * k, c["cplx"]).reshape(k, v, r)
    got = flatten_mlm(np.array(cube.transpose(2, 1, 0), order=c["order"]), scal)
    require(np.array_equal(got[v:], cube.ravel()) and np.array_equal(got[:v], scal), "flattening three-dimensional wavelets is not scale by scale", shape=(r, v, k))
    # no wavelet scale at all: the coefficients are the scaling ones
    w, s = expand_mlm(scal.copy(), nscales=0)
    require(np.size(w) == 0 and np.array_equal(s, scal), "expand_mlm(nscales=0) loses the scaling coefficients", v=v)
    # multiresolution: one-dimensional wavelets, any number of scaling coefficients
    ns, nw = c["ns"], c["nw"]
    wav1, scal1 = typed(c, arr(c["a"], nw, c["cplx"]), 0), typed(c, arr(c["b"], ns, c["cplx"]), 1)
    flat = flatten_mlm(wav1, scal1)
    require(np.array_equal(flat, np.concatenate([scal1, wav1])), "flattening 1-d wavelets is not [scaling, wavelets]")
    for fl in (False, True):
        w, s = expand_mlm(flat, nscalcoefs=ns, flatten_wavs=fl)
        require(np.array_equal(w, wav1) and np.array_equal(s, scal1), "expand_mlm(nscalcoefs) does not invert flatten_mlm", ns=ns, nw=nw)
        if np.isrealobj(flat):
            require(np.isrealobj(w) and np.isrealobj(s), "expand_mlm(nscalcoefs) changes real coefficients to complex")
    return Result(v > 1 and k > 1, ["complex" if c["cplx"] else "real"])


@st.composite
def bad(draw):
    return {"n": draw(st.integers(4, 30)), "both": draw(st.booleans()), "ns": draw(st.integers(1, 3)), "fl": draw(st.booleans())}


def run_bad(c):
    from pxmcmc.utils import expand_mlm

    kw = {"nscales": c["ns"], "nscalcoefs": c["ns"]} if c["both"] else {}
    try:
        expand_mlm(np.ones(c["n"]), flatten_wavs=c["fl"], **kw)
    except ValueError:
        return Result(True, ["both" if c["both"] else "neither"])
    fail("an ambiguous layout is accepted", **kw)


TARGETS = [
    Target("roundtrip", cases(), run, 2500, 40000, shards=4),
    Target("ambiguous", bad(), run_bad, 100, 500, shards=1),
]
