"""C10: measurement operators are linear and adjoint() is the adjoint of forward()."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Result, Target, close, require
from harness.gen import LAYOUTS, SEED, arr, arr_desc, mwn, present, rng, wide_desc
from harness.sphere import make_mask, make_ngal, mask_desc, ngal_desc

PROPERTY = "C10"
RULE = (
    "Identity (any ndata x npix), PathIntegral (random sparse matrices in csr/csc/coo, real/complex), harmonic and pixel weak lensing at random "
    "bandlimits, masks and galaxy counts; random x, y, complex scalars: linearity, <forward x, y> = <x, adjoint y>, explicit matrix where known. "
    "Non-trivial: the inner product is non-zero."
)


size = st.one_of(*[st.integers(1, 15)] * 8, *[st.integers(1, 150)] * 4, st.integers(151, 1500))


@st.composite
def cases(draw):
    kind = draw(st.sampled_from(["identity", "path", "path", "wlh", "wl", "wl", "wl"]))
    return {
        "kind": kind,
        "m": draw(size),
        "n": draw(size),
        "L": draw(st.one_of(st.integers(1, 9), st.integers(1, 9), st.integers(1, 20), st.integers(1, 20), st.integers(1, 40), st.integers(1, 70))),
        "fmt": draw(st.sampled_from(["csr", "csc", "coo", "array", "csr_array"])),
        "layout": draw(st.sampled_from(LAYOUTS)),
        "ints": draw(st.sampled_from([False, False, False, True])),
        "cmat": draw(st.booleans()),
        "cx": draw(st.booleans()),
        "mask": draw(mask_desc),
        "ngal": draw(ngal_desc),
        "x": draw(wide_desc),
        "y": draw(wide_desc),
        "x2": draw(arr_desc(scales=(0, 0))),
        "y2": draw(arr_desc(scales=(0, 0))),
        "a": draw(st.sampled_from([[1.0, 0.0], [-2.5, 0.0], [0.0, 1.0], [0.3, -1.2]])),
        "seed": draw(SEED),
    }


def run(c):
    from scipy import sparse

    from pxmcmc.measurements import Identity, PathIntegral, WeakLensing, WeakLensingHarmonic

    g = rng(c["seed"])
    k, L = c["kind"], c["L"]
    A, wmax = None, 1.0
    if k == "identity":
        m, n = c["m"], c["n"]
        op = Identity(m, n)
        A = np.eye(m, n)
    elif k == "path":
        m, n = c["m"], c["n"]
        A = g.standard_normal((m, n)) * (g.random((m, n)) < 0.5)
        if c["cmat"]:
            A = A * np.exp(1j * 6 * g.random((m, n)))
        op = PathIntegral({"array": np.array, "csr_array": sparse.csr_array}.get(c["fmt"], lambda a: sparse.csr_matrix(a).asformat(c["fmt"]))(A))
    elif k == "wlh":
        m = n = L * L
        op = WeakLensingHarmonic(L)
    else:
        mask = make_mask(c["mask"], L)
        n = mwn(L)
        m = n if mask is None else int(mask.astype(bool).sum())
        ngal = make_ngal(c["ngal"], L)
        wmax = 1.0 if ngal is None else max(1.0, float(np.sqrt(2.0 * float(ngal.max()))) / 0.37)
        op = WeakLensing(L, mask, ngal)
    if k in ("identity", "path"):
        require((op.ndata, op.npix) == (m, n), "operator reports the wrong sizes", got=(op.ndata, op.npix), expected=(m, n))
    else:
        require(int(np.prod(op.shape)) == n, "operator declares the wrong size", got=op.shape, expected=n)
    cx = c["cx"]
    x, x2 = arr(c["x"], n, cx), arr(c["x2"], n, cx)
    y, y2 = arr(c["y"], m, cx), arr(c["y2"], m, cx)
    if c["ints"] and not cx and k != "wl":  # convergence maps are documented as complex
        x, x2, y, y2 = (np.rint(np.clip(v, -1e6, 1e6)).astype(int) for v in (x, x2, y, y2))
    a = complex(*c["a"]) if cx else c["a"][0]

    def apply(fn, v):
        arg = present(v, c["layout"])
        out = np.asarray(fn(arg))
        require(arg.tobytes() == v.tobytes(), "a measurement modifies its argument", kind=k)
        return out

    f = lambda v: apply(op.forward, v)  # noqa: E731
    t = lambda v: apply(op.adjoint, v)  # noqa: E731
    fx, fx2, ty, ty2 = f(x), f(x2), t(y), t(y2)
    require(fx.shape == (m,), "forward() returns the wrong number of data", got=fx.shape, expected=(m,))
    require(ty.shape == (n,), "adjoint() returns the wrong number of pixels", got=ty.shape, expected=(n,))
    if A is not None:
        close(fx, A @ x, "forward() is not the matrix product", rtol=1e-12, scale=np.abs(A).sum() * np.abs(x).max(), atol=1e-300, kind=k)
        close(ty, A.conj().T @ y, "adjoint() is not the adjoint matrix product", rtol=1e-12, scale=np.abs(A).sum() * np.abs(y).max(), atol=1e-300,
              kind=k)
    big = lambda u, v: float(np.abs(u).max(initial=0) + np.abs(v).max(initial=0)) * max(1, abs(a)) * wmax  # noqa: E731
    nf = 100 * float(max(np.linalg.norm(fx), np.linalg.norm(fx2), 1e-300))
    close(f(a * x + x2), a * fx + fx2, "forward() is not linear", rtol=1e-11, scale=nf + big(x, x2), atol=1e-300, kind=k)
    nt = 100 * float(max(np.linalg.norm(ty), np.linalg.norm(ty2), 1e-300))
    close(t(a * y + y2), a * ty + ty2, "adjoint() is not linear", rtol=1e-11, scale=nt + big(y, y2), atol=1e-300, kind=k)
    lhs, rhs = np.vdot(y, fx), np.vdot(ty, x)
    sc = float(np.linalg.norm(y) * np.linalg.norm(fx) + np.linalg.norm(ty) * np.linalg.norm(x))
    close(lhs, rhs, "<y, forward x> differs from <adjoint y, x>", rtol=1e-9, scale=sc, atol=1e-300, kind=k)
    lhs, rhs = np.vdot(y2, fx2), np.vdot(ty2, x2)
    sc = float(np.linalg.norm(y2) * np.linalg.norm(fx2) + np.linalg.norm(ty2) * np.linalg.norm(x2))
    close(lhs, rhs, "<y, forward x> differs from <adjoint y, x>", rtol=1e-9, scale=sc, atol=1e-300, kind=k)
    return Result(abs(lhs) > 0, [k] + ([c["mask"]["kind"], "ngal-" + c["ngal"]["kind"]] if k == "wl" else []))


TARGETS = [Target("adjoint", cases(), run, 4000, 80000, shards=8)]
