"""C12: the spherical wavelet transform reconstructs, is linear, and its adjoints are adjoints."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Result, Target, close, require
from harness.gen import LAYOUTS, arr, arr_desc, mwn, present, wide_desc
from harness.sphere import el_index, ref_inverse, ref_sizes, transform_configs, wav_par

PROPERTY = "C12"
RULE = (
    "Random (L, B, J_min, dirs, spin, pixel/harmonic) and random band-limited signals / coefficient vectors (real, integer and complex dtypes): exact "
    "reconstruction, both adjoint identities, linearity, coefficient counts and layout against pys2let called directly. Non-trivial: signal with "
    "power above l = 0 and at least two scales."
)
ASSUMPTIONS = ["pys2let is trusted for the values of the transform"]
CFGS = transform_configs(2, 14, Bs=(1.3, 1.5, 1.75, 2, 2.5, 3, 4, 6))
BIG = transform_configs(15, 24, Bs=(2, 3))
BIGGER = transform_configs(25, 40, Bs=(2, 3))
HUGE = [c for c in transform_configs(41, 110, Bs=(2, 3)) if c[0] in (41, 48, 49, 64, 65, 80, 100, 110)]


@st.composite
def cases(draw):
    return {
        "cfg": draw(st.one_of(*[st.sampled_from(CFGS)] * 6, *[st.sampled_from(BIG)] * 3, st.sampled_from(BIGGER))),
        "dirs": draw(st.sampled_from([1, 1, 1, 1, 2, 2, 3, 3, 4, 5])),
        "spin": draw(st.sampled_from([0, 0, 0, 0, 2, 2, 1, -1, -2, 3, -3])),
        "harmonic": draw(st.booleans()),
        "f": draw(wide_desc),
        "f2": draw(arr_desc(scales=(0, 0))),
        "w": draw(wide_desc),
        "w2": draw(arr_desc(scales=(0, 0))),
        "dtype": draw(st.sampled_from(["c", "c", "f", "i"])),
        "layout": draw(st.sampled_from(LAYOUTS)),
        "a": draw(st.sampled_from([[1.0, 0.0], [-2.5, 0.0], [0.0, 1.0], [0.3, -1.2]])),
    }


@st.composite
def big_cases(draw):
    c = draw(cases())
    c.update(cfg=draw(st.sampled_from(HUGE)), dirs=draw(st.sampled_from([1, 1, 1, 2])))
    return c


def run(c):
    import pys2let
    import pyssht

    from pxmcmc.transforms import SphericalWaveletTransform

    L, B, J = c["cfg"]
    spin = c["spin"] if L > abs(c["spin"]) else 0
    dirs = min(c["dirs"], L)
    har = c["harmonic"]
    kw = {"dirs": dirs, "spin": spin, "harmonic": har}
    if c["f"]["seed"] % 2:  # left to the defaults or spelled out
        kw = {k: v for k, v in kw.items() if v != {"dirs": 1, "spin": 0, "harmonic": False}[k]}
    t = SphericalWaveletTransform(L, B, J, **kw)
    require((t.L, t.B, t.J_min, t.dirs, t.spin) == (L, B, J, dirs, spin), "the transform reports other parameters than it was given")
    ns, nw = ref_sizes(c["cfg"], dirs, spin, har)
    require((t.nscal, t.nwav, t.ncoefs) == (ns, nw, ns + nw), "coefficient counts", got=(t.nscal, t.nwav, t.ncoefs), expected=(ns, nw, ns + nw))
    jm = pys2let.pys2let_j_max(B, L, J)
    require((t.J_max, t.nscales) == (jm, jm - J + 1), "number of wavelet scales", got=(t.J_max, t.nscales), expected=(jm, jm - J + 1))
    npx = L * L if har else mwn(L)
    lm = arr(c["f"], L * L, True)
    lm[el_index(L) < abs(spin)] = 0
    f = lm if har else pyssht.inverse(lm, L, Spin=spin).flatten()
    sf = max(float(np.abs(f).max()), 1e-300)
    note = dict(cfg=c["cfg"], dirs=dirs, spin=spin, harmonic=har)

    def apply(fn, v):
        arg = present(v, c["layout"])
        out = np.asarray(fn(arg))
        require(arg.tobytes() == v.tobytes(), "a transform modifies its argument", **note)
        return out

    F = lambda v: apply(t.forward, v)  # noqa: E731
    FA = lambda v: apply(t.forward_adjoint, v)  # noqa: E731
    I = lambda v: apply(t.inverse, v)  # noqa: E731, E741
    IA = lambda v: apply(t.inverse_adjoint, v)  # noqa: E731
    wf = F(f)
    require(wf.shape == (ns + nw,), "forward() returns the wrong number of coefficients", got=wf.shape, expected=ns + nw, **note)
    ana = pys2let.analysis_lm2lmn if har else pys2let.analysis_px2wav
    w_, s_ = ana(np.ascontiguousarray(f, dtype=complex).copy(), **wav_par(c["cfg"], dirs, spin))
    close(wf, np.concatenate([s_, w_]), "forward() is not [scaling, wavelets] of the analysis", rtol=1e-12, scale=float(np.abs(wf).max()), atol=1e-300,
          **note)
    close(I(wf), f, "inverse(forward(f)) does not reconstruct a band-limited signal", rtol=1e-10, scale=sf * L, atol=1e-300, **note)

    w = arr(c["w"], ns + nw, c["dtype"] == "c")
    if c["dtype"] == "i":
        w = np.rint(np.clip(w, -1e6, 1e6)).astype(int)
    img = I(w)
    require(img.shape == (npx,), "inverse() returns the wrong size", got=img.shape, expected=npx, **note)
    e = ref_inverse(c["cfg"], w, dirs, spin, har)
    nrm = float(np.linalg.norm(w)) * 10
    close(img, e, "inverse() is not the synthesis of [scaling, wavelets]", rtol=1e-12, scale=nrm, atol=1e-300, dtype=c["dtype"], **note)

    g = arr(c["f2"], npx, c["dtype"] == "c")
    if c["dtype"] == "i":
        g = np.rint(3 * g).astype(int)
    v = arr(c["w2"], ns + nw, c["dtype"] == "c")
    # adjoints
    fg, iv = F(g), I(v)
    fa, ia = FA(v), IA(g)
    require(fa.shape == (npx,) and ia.shape == (ns + nw,), "adjoint sizes", got=(fa.shape, ia.shape), **note)
    s1 = float(np.linalg.norm(v) * np.linalg.norm(fg) + np.linalg.norm(fa) * np.linalg.norm(g) + np.linalg.norm(g) * np.linalg.norm(v))
    close(np.vdot(v, fg), np.vdot(fa, g), "forward_adjoint is not the adjoint of forward", rtol=1e-10, scale=s1, atol=1e-300, **note)
    s2 = float(np.linalg.norm(g) * np.linalg.norm(iv) + np.linalg.norm(ia) * np.linalg.norm(v) + np.linalg.norm(g) * np.linalg.norm(v))
    close(np.vdot(g, iv), np.vdot(ia, v), "inverse_adjoint is not the adjoint of inverse", rtol=1e-10, scale=s2, atol=1e-300, **note)
    # linearity
    a = complex(*c["a"])
    for fn, p, q, nm in ((F, f, g, "forward"), (I, w, v, "inverse"), (FA, w, v, "forward_adjoint"), (IA, f, g, "inverse_adjoint")):
        fp, fq = fn(p), fn(q)
        close(fn(a * p + q), a * fp + fq, f"{nm}() is not linear", rtol=1e-10,
              scale=float(3 * np.linalg.norm(fp) + np.linalg.norm(fq) + 3 * np.linalg.norm(p) + np.linalg.norm(q)), atol=1e-300, **note)
    return Result(np.abs(lm[1:]).max(initial=0) > 0 and t.nscales > 1,
                  [f"dirs{dirs}", f"spin{spin}", "harmonic" if har else "pixel", c["dtype"]])


@st.composite
def ident(draw):
    return {"n": draw(st.integers(0, 30)), "x": draw(arr_desc()), "cplx": draw(st.booleans())}


def run_ident(c):
    from pxmcmc.transforms import IdentityTransform

    t = IdentityTransform()
    x = arr(c["x"], c["n"], c["cplx"])
    for m in ("forward", "inverse", "forward_adjoint", "inverse_adjoint"):
        y = getattr(t, m)(x.copy())
        require(np.array_equal(y, x), f"IdentityTransform.{m} changes its input", got=y, expected=x)
    return Result(c["n"] > 0)


TARGETS = [
    Target("wavelets", cases(), run, 1100, 25000, shards=7),
    Target("large", big_cases(), run, 24, 600, shards=6),
    Target("identity", ident(), run_ident, 150, 1000, shards=1),
]
