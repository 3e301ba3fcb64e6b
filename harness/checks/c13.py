"""C13: proxf is the proximal map of T times the prior it belongs to."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Result, Target, close, require
from harness.gen import LAYOUTS, SEED, arr, arr_desc, bandlimits, mwn, present, random_orthonormal, rng, vsoft, wav_configs

PROPERTY = "C13"
RULE = (
    "Random priors (L1 synthesis; L1 analysis with real/complex row-orthonormal transforms incl. fewer rows than columns; weighted spherical wavelet "
    "priors at random L,B,J_min,eta), thresholds incl. 0 and units from 1e-12 to 1e8, points incl. exactly at the threshold: the strong-convexity inequality "
    "1/2|u-x|^2+T prior(u) >= value at proxf(x) + 1/2|u-proxf(x)|^2 for many u, plus non-expansiveness, odd symmetry and the closed form. "
    "Non-trivial: some coordinate is thresholded to zero and some is not."
)
CFGS = wav_configs(3, 8, maxJ=3)


@st.composite
def l1_cases(draw):
    return {
        "setting": draw(st.sampled_from(["synthesis", "analysis", "analysis"])),
        "n": draw(st.one_of(st.integers(1, 12), st.integers(1, 12), st.integers(1, 12), st.integers(13, 80), st.integers(13, 80), st.integers(81, 300))),
        "layout": draw(st.sampled_from(LAYOUTS)),
        "drop": draw(st.sampled_from([0, 0, 1, 3])),
        "cplx": draw(st.booleans()),
        "xreal": draw(st.sampled_from([False, False, True])),  # real points although the transform is complex
        "T": draw(st.sampled_from([0, 0.0, 0.1, 0.5, 1, 1.0, 3.0, 50.0])),
        "unit": draw(st.sampled_from([0, 0, 0, 0, -3, -6, -9, -12, 4, 8])),  # the same problem in other units
        "x": draw(arr_desc(scales=(-2, 2))),
        "snap": draw(st.booleans()),
        "y": draw(arr_desc(scales=(-1, 1))),
        "seed": draw(SEED),
    }


def candidates(p, x, g, cplx, k=10):
    n = len(p)
    z = lambda: g.standard_normal(n) + (1j * g.standard_normal(n) if cplx else 0)  # noqa: E731
    out = [np.zeros_like(p), x, (p + x) / 2]
    for i in range(k):
        s = 10.0 ** -g.integers(0, 5)
        out.append(p + s * z())
        q = p.copy()
        j = g.integers(n)
        q[j] = q[j] + s * (z()[j])
        out.append(q)
        q = p.copy()
        q[j] = 0
        out.append(q)
    return out


def check_prox(prior, T, x, y, g, cplx, note, closed=None, layout="plain"):
    arg = present(x, layout)
    p = np.asarray(prior.proxf(arg))
    require(arg.tobytes() == x.tobytes(), "proxf modifies its argument", **note)
    require(p.shape == x.shape, "proxf changes the shape", got=p.shape, expected=x.shape, **note)
    require(p.dtype.kind in "fc", "proxf does not return floating-point numbers", dtype=str(p.dtype), **note)
    P = lambda u: float(np.real(prior.prior(u.copy())))  # noqa: E731
    obj = lambda u: 0.5 * float(np.linalg.norm(u - x)) ** 2 + float(T) * P(u)  # noqa: E731
    op = obj(p)
    slack = 1e-11 * float(T) * abs(P(np.ones_like(p)))  # rounding of the weights
    for u in candidates(p, x, g, cplx) + ([closed] if closed is not None else []):
        ou = obj(u)
        d = 0.5 * float(np.linalg.norm(u - p)) ** 2
        tol = 1e-9 * (abs(ou) + abs(op) + d + float(np.linalg.norm(x)) ** 2) + slack * float(np.abs(u).max() + np.abs(p).max()) + 1e-300
        require(ou >= op + d - tol, "proxf(x) does not minimise 1/2|u-x|^2 + T prior(u)", at_u=ou, at_prox=op, half_dist=d, x=x[:6], p=p[:6], **note)
    if closed is not None:
        close(p, closed, "proxf is not the closed-form prox", rtol=1e-10, scale=float(np.abs(x).max()), atol=1e-300, **note)
    q = np.asarray(prior.proxf(y.copy()))
    require(np.linalg.norm(p - q) <= np.linalg.norm(x - y) * (1 + 1e-9) + 1e-12 * (np.linalg.norm(x) + np.linalg.norm(y)),
            "proxf is expansive", **note)
    close(prior.proxf(-x), -p, "proxf is not odd", rtol=1e-10, scale=float(np.abs(x).max()), atol=1e-300, **note)
    # a prior is a norm
    px, py = P(x), P(y)
    require(px >= 0, "prior is negative", got=px, **note)
    close(P(-2.5 * x), 2.5 * px, "prior is not homogeneous", rtol=1e-9, scale=px, atol=1e-300, **note)
    require(P(x + y) <= (px + py) * (1 + 1e-9) + 1e-300, "prior violates the triangle inequality", **note)
    return p


def run_l1(c):
    from pxmcmc.prior import L1

    n = c["n"]
    m = max(1, n - c["drop"])
    g = rng(c["seed"])
    cplx = c["cplx"]
    # x = adj^H-representable: adj has orthonormal rows, fwd is its adjoint
    A = np.eye(n) if c["setting"] == "synthesis" else random_orthonormal(c["seed"] % 2**31, n, cplx)[:m]
    xc = cplx and not c["xreal"]
    x, y = arr(c["x"], n, xc), arr(c["y"], n, cplx)
    T = c["T"]
    if c["unit"]:
        u = 10.0 ** c["unit"]
        x, y, T = x * u, y * u, T * u
    if c["snap"] and (xc or not cplx or c["setting"] == "synthesis") and T > 0:  # coefficients exactly on the threshold
        if c["setting"] == "synthesis":
            x[::2] = np.sign(x.real[::2] + 0.5) * T
        else:
            x = A.conj().T @ np.full(A.shape[0], float(T))
    pr = L1(c["setting"], lambda v: A.conj().T @ v, lambda v: A @ v, T)
    co = A @ x
    closed = x + A.conj().T @ (vsoft(co, T) - co)
    note = {"setting": c["setting"], "T": T}
    require(abs(float(np.real(pr.prior(x.copy()))) - np.abs(co).sum()) <= 1e-10 * (10.0 ** c["unit"] + np.abs(co).sum()), "prior is not the L1 norm of the coefficients",
            got=pr.prior(x.copy()), expected=np.abs(co).sum(), **note)
    p = check_prox(pr, T, x, y, g, cplx, note, closed, c["layout"])
    if c["seed"] % 4 == 0:  # points of other types: the same map
        z = np.rint(np.clip(np.real(x), -1e6, 1e6)).astype(int)
        close(pr.proxf(z.copy()), pr.proxf(z.astype(float)), "the prox of a point of integers is not that of the same real point", rtol=1e-12,
              scale=float(np.abs(z).max()), atol=1e-300, z=z[:6], **note)
        close(float(np.real(pr.prior(z.copy()))), float(np.real(pr.prior(z.astype(float)))), "the prior of a point of integers is not that of the same real point",
              rtol=1e-12, atol=1e-300, z=z[:6], **note)
    z = np.abs(A @ p)
    zero = 1e-12 * 10.0 ** c["unit"]
    return Result((z < zero).any() and (z > zero).any() and T > 0, [c["setting"], "complex" if cplx else "real"])


@st.composite
def s2_cases(draw):
    return {
        "cfg": draw(st.sampled_from(CFGS)),
        "power": draw(st.booleans()),
        "layout": draw(st.sampled_from(LAYOUTS)),
        "eta": draw(st.sampled_from([0, 0.5, 1, 1, 2, 3.5, -1, -0.5, -2.0])),
        "cplx": draw(st.booleans()),
        "T": draw(st.sampled_from([0, 1e-4, 0.1, 1, 1.0, 10.0, 1e3])),
        "unit": draw(st.sampled_from([0, 0, 0, 0, -3, -6, -9, -12, 4, 8])),
        "x": draw(arr_desc(scales=(-2, 2))),
        "y": draw(arr_desc(scales=(-1, 1))),
        "seed": draw(SEED),
    }


def run_s2(c):
    from pxmcmc.prior import S2_Wavelets_L1, S2_Wavelets_L1_Power_Weights

    L, B, J = c["cfg"]
    n = sum(mwn(b) for b in bandlimits(L, B, J))
    g = rng(c["seed"])
    u = 10.0 ** c["unit"]
    T = c["T"] * u if c["unit"] else c["T"]
    ident = lambda v: v  # noqa: E731
    if c["power"]:
        pr = S2_Wavelets_L1_Power_Weights("synthesis", ident, ident, T, L, B, J, eta=c["eta"])
    else:
        pr = S2_Wavelets_L1("synthesis", ident, ident, T, L, B, J)
    x, y = arr(c["x"], n, c["cplx"]) * u, arr(c["y"], n, c["cplx"]) * u
    note = {"cfg": c["cfg"], "T": T, "power": c["power"], "eta": c["eta"]}
    p = check_prox(pr, T, x, y, g, c["cplx"], note, layout=c["layout"])
    # per coordinate: shrunk by T times what the prior charges for it
    total = float(np.real(pr.prior(np.ones(n))))  # weights at the poles are sin(pi): zero up to rounding, either sign
    for i in g.integers(0, n, 12):
        e = np.zeros(n)
        e[i] = 1.0
        w = float(np.real(pr.prior(e)))
        close(p[i], vsoft(x[i:i + 1], T * w)[0], "coefficient is not shrunk by T times its weight in the prior", rtol=1e-9, scale=abs(x[i]),
              atol=1e-300 + 1e-11 * T * total, coefficient=int(i), weight=w, **note)
    z = np.abs(p)
    return Result((z == 0).any() and (z > 0).any(), ["power" if c["power"] else "quadrature", "complex" if c["cplx"] else "real"])


TARGETS = [
    Target("l1", l1_cases(), run_l1, 2500, 60000, shards=4),
    Target("spherical", s2_cases(), run_s2, 500, 10000, shards=4),
]
