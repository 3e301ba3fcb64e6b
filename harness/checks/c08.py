"""C08: the data-fidelity gradient is the gradient of half the misfit of the forward map."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Result, Target, close, require
from harness.gen import SEED, arr, arr_desc, build, mwn, problems, rng, start_vec
from harness.sphere import CFG, make_mask, make_ngal, mask_desc, ngal_desc, ref_inverse, ref_sizes

PROPERTY = "C08"
RULE = (
    "dense: random problems (every error specification, both settings, identity/sparse/dense measurements, real/complex data and "
    "parameters), forward map and gradient compared with explicit matrices. sphere: the library's spherical operators and "
    "weak-lensing operators at random (L,B,J_min,dirs,spin), masks and galaxy counts, forward map compared with pys2let directly and "
    "the gradient with the exact second-order expansion of the misfit along a random direction. Non-trivial: the gradient is non-zero."
)
ASSUMPTIONS = ["pys2let/pyssht transforms are trusted as the definition of the spherical wavelet transform"]


@st.composite
def dense_cases(draw):
    return {"p": draw(problems(nmax=draw(st.sampled_from([2, 2, 4, 4, 8, 8, 8, 15, 15, 15, 70, 300])))), "x": draw(arr_desc(scales=(-3, 4))),
            "near": draw(st.one_of(st.none(), st.none(), arr_desc(kinds=["normal", "normal", "spike", "sparse"], scales=(-13, 1)))),
            "unit": draw(st.sampled_from([0, 0, 0, -6, -12, 5, 9]))}


def run_dense(c):
    from pxmcmc.forward import ForwardOperator

    ref, op, prior = build(c["p"])
    x = start_vec(ref, c["x"])
    u = 10.0 ** c["unit"]
    if c["unit"]:  # the same experiment in other units of the data and the parameters: the gradient scales as 1/unit
        sig = ref.sig_d * (u**2 if np.ndim(ref.sig_d) == 2 else u)
        op = ForwardOperator(ref.data * u, sig, c["p"]["setting"], op.transform, op.measurement, nparams=ref.n)
        pred = np.asarray(op.forward(x * u)) / u
        g = np.asarray(op.calc_gradg(pred * u)) * u
    else:
        pred = np.asarray(op.forward(x.copy()))
        g = None
    sx = np.abs(x).max() * np.abs(ref.M).sum(axis=1).max()
    close(pred, ref.forward(x), "forward() is not measurement(transform.inverse(X)) / measurement(X)", rtol=1e-11, scale=sx, atol=1e-300,
          setting=c["p"]["setting"])
    if g is None:
        g = np.asarray(op.calc_gradg(pred.copy()))
    e = ref.M.conj().T @ (ref.Cinv @ (ref.forward(x) - ref.data))
    sc = np.abs(ref.M).sum(axis=0).max() * np.abs(ref.Cinv).sum(axis=1).max() * (sx + np.abs(ref.data).max(initial=0))
    close(g, e, "calc_gradg() is not the gradient of the Gaussian data fidelity", rtol=1e-9, scale=sc, atol=1e-300, sig=c["p"]["sig"],
          setting=c["p"]["setting"])
    if c["near"]:  # predictions close to the data: relative to the residual, which is what is left of it in floating point
        d = np.asarray(op.data)
        near = d + arr(c["near"], ref.m, np.iscomplexobj(d)) * u
        r = near - d
        e = ref.M.conj().T @ (ref.Cinv @ r)
        sc = np.abs(ref.M).sum(axis=0).max() * np.abs(ref.Cinv).sum(axis=1).max() * np.abs(r).max()
        close(np.asarray(op.calc_gradg(near.copy())) * u**2, e, "calc_gradg() is not the gradient of the Gaussian data fidelity (predictions near the data)",
              rtol=1e-9, scale=sc, atol=1e-300, sig=c["p"]["sig"], setting=c["p"]["setting"], unit=u)
    return Result(np.abs(e).max() > 0, [c["p"]["cmode"], c["p"]["sig"], c["p"]["setting"], c["p"]["meas"]])


@st.composite
def sphere_cases(draw):
    op = draw(st.sampled_from(["swt", "swt", "path", "path", "wl", "wlharm"]))
    cfg = draw(st.sampled_from(CFG))
    return {
        "op": op,
        "cfg": cfg,
        "dirs": draw(st.sampled_from([1, 1, 2, 3])) if op in ("swt", "path") else 1,
        "spin": draw(st.sampled_from([0, 0, 0, 2, 1, -1, -2, 3])) if op in ("swt", "path") else 0,
        "setting": draw(st.sampled_from(["analysis", "synthesis"])),
        "ndata": draw(st.integers(1, 12)),
        "full": draw(st.booleans()),
        "cdata": draw(st.booleans()),
        "sig": draw(st.sampled_from(["scalar", "vector", "matrix"])),
        "sigval": draw(st.sampled_from([0.05, 0.5, 1.0, 3.0])),
        "mask": draw(mask_desc),
        "ngal": draw(ngal_desc),
        "data": draw(arr_desc(scales=(-1, 2))),
        "x": draw(arr_desc(kinds=["normal", "normal", "sparse", "spike", "ints"], scales=(-2, 2))),
        "h": draw(arr_desc(kinds=["normal", "spike", "spike"], scales=(0, 0))),
        "seed": draw(SEED),
    }


def run_sphere(c):
    from scipy import sparse

    from pxmcmc.forward import ForwardOperator, PathIntegralOperator, SphericalWaveletTransformOperator
    from pxmcmc.measurements import WeakLensing, WeakLensingHarmonic
    from pxmcmc.transforms import SphericalWaveletTransform

    L, B, J = c["cfg"]
    g = rng(c["seed"])
    npx = mwn(L)
    dirs, spin = min(c["dirs"], L), max(-(L - 1), min(c["spin"], L - 1))
    if c["op"] == "wlharm":
        npx, nd = L * L, L * L
    elif c["op"] == "wl":
        mask = make_mask(c["mask"], L)
        if mask is not None and not mask.any():
            mask[0, 0] = 1
        nd = npx if mask is None else int(mask.astype(bool).sum())
    elif c["op"] == "swt":
        nd = npx if c["full"] else min(c["ndata"], npx)
    else:
        nd = c["ndata"]
    v = c["sigval"] * (0.4 + g.random(nd))
    if c["sig"] == "scalar":
        sig, Cinv = float(c["sigval"]), np.eye(nd) / c["sigval"] ** 2
    elif c["sig"] == "vector":
        sig, Cinv = v, np.diag(1 / v**2)
    else:
        R = g.standard_normal((nd, nd)) / np.sqrt(nd)
        sig = np.diag(v**2) + 0.3 * c["sigval"] ** 2 * (R @ R.T)
        Cinv = np.linalg.inv(sig)
    data = arr(c["data"], nd, c["cdata"] or c["op"] in ("wl", "wlharm"))
    kw = {} if (dirs, spin) == (1, 0) and c["seed"] % 2 else {"dirs": dirs, "spin": spin}  # left to the defaults or spelled out
    if c["op"] == "swt":
        op = SphericalWaveletTransformOperator(data, sig, c["setting"], L, B, J, **kw)
        A = None
    elif c["op"] == "path":
        A = g.random((nd, npx)) * (g.random((nd, npx)) < 0.4)
        op = PathIntegralOperator(sparse.csr_matrix(A), data, sig, c["setting"], L, B, J, **kw)
    elif c["op"] == "wl":
        tr = SphericalWaveletTransform(L, B, J)
        op = ForwardOperator(data, sig, c["setting"], tr, WeakLensing(L, mask, make_ngal(c["ngal"], L)), nparams=1)
    else:
        tr = SphericalWaveletTransform(L, B, J, harmonic=True)
        op = ForwardOperator(data, sig, c["setting"], tr, WeakLensingHarmonic(L), nparams=1)
    harm = c["op"] == "wlharm"
    ns, nw = ref_sizes(c["cfg"], dirs, spin, harm)
    n = npx if c["setting"] == "analysis" else ns + nw
    if c["op"] in ("swt", "path"):
        require(op.nparams == n, "operator's number of parameters is wrong", got=op.nparams, expected=n, setting=c["setting"])
    x, h = arr(c["x"], n, True), arr(c["h"], n, True)
    f = lambda z: np.asarray(op.forward(z.copy()))  # noqa: E731
    px = f(x)
    require(px.shape == (nd,), "predictions have the wrong shape", got=px.shape, expected=(nd,))
    if c["op"] in ("swt", "path"):
        img = x if c["setting"] == "analysis" else ref_inverse(c["cfg"], x, dirs, spin)
        e = img[:nd] if A is None else A @ img
        close(px, e, "spherical forward operator is not measurement(wavelet synthesis)", rtol=1e-9, scale=np.abs(img).max() * (1 if A is None else L),
              atol=1e-300, op=c["op"], setting=c["setting"])
    grad = np.asarray(op.calc_gradg(px.copy()))
    require(grad.shape == (n,), "gradient has the wrong shape", got=grad.shape, expected=(n,))
    ph = f(h)
    q = lambda r: float(np.real(np.conj(r) @ (Cinv @ r)))  # noqa: E731
    # 1/2 misfit(x+h) = 1/2 misfit(x) + Re<grad,h> + 1/2 q(A h), A linear; both real and imaginary directions
    r = px - data
    lhs = np.conj(ph) @ (Cinv @ r)  # <A h, C^-1 r> must be <h, grad>
    rhs = np.conj(h) @ grad
    sc = np.sum(np.abs(ph)[:, None] * np.abs(Cinv) * (np.abs(px) + np.abs(data))[None, :]) + np.sum(np.abs(h) * np.abs(grad))
    sc = sc + 1e-4 * float(np.linalg.norm(h) * np.linalg.norm(np.abs(Cinv) @ (np.abs(px) + np.abs(data))))  # h that the operator cancels leaves rounding only
    close(rhs, lhs, "directional derivative of the data fidelity does not match calc_gradg()", rtol=1e-8, scale=sc, atol=1e-300, op=c["op"],
          setting=c["setting"], sig=c["sig"])
    t = 0.5
    m1, m0 = 0.5 * q(f(x + t * h) - data), 0.5 * q(r)
    close(m1 - m0, t * float(np.real(rhs)) + 0.5 * t * t * q(ph), "misfit does not change as its gradient says", rtol=1e-7,
          scale=m0 + m1 + q(ph), atol=1e-300, op=c["op"])
    return Result(np.abs(grad).max() > 0, [c["op"], c["setting"], c["sig"], f"dirs{dirs}", f"spin{spin}"])


TARGETS = [
    Target("dense", dense_cases(), run_dense, 2500, 60000, shards=3),
    Target("sphere", sphere_cases(), run_sphere, 600, 12000, shards=5),
]
