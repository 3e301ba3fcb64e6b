"""C16: quadrature is exact and pixel areas tile the sphere."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Result, Target, close, require
from harness.gen import arr, arr_desc, mwn, quad_weights, wide_desc
from harness.sphere import el_index  # noqa: F401

PROPERTY = "C16"
RULE = (
    "Random bandlimits 1..400 and random band-limited functions (complex and real, single harmonics and products of lower-band functions): integral "
    "against the monopole coefficient, weights against pyssht; pixel areas at random bandlimits and radii against ring areas and 4 pi r^2; spherical "
    "rectangles and caps at random angles against additivity and each other. Non-trivial: L > 1 and a function that is not constant; otherwise distinct angles."
)
TH = st.floats(0, np.pi)
PH = st.floats(-7, 7)


@st.composite
def quad(draw):
    return {
        "L": draw(st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(1, 8), *[st.integers(1, 40)] * 6, st.integers(41, 100), st.integers(41, 300))),
        "f": draw(wide_desc),
        "mode": draw(st.sampled_from(["lm", "lm", "single", "product", "real"])),
        "idx": draw(st.integers(0, 10**6)),
        "g": draw(arr_desc(scales=(0, 0))),
        "dtype": draw(st.sampled_from(["int64", "int32", "int16", "uint8", "bool", "float32"])),
    }


def run_quad(c):
    import pyssht

    from pxmcmc.utils import mw_map_weights, s2_integrate

    L = c["L"]
    w = np.asarray(mw_map_weights(L))
    require(w.shape == (mwn(L),), "quadrature weights have the wrong length", got=w.shape, expected=mwn(L))
    close(w.sum(), 4 * np.pi, "quadrature weights do not add up to the area of the sphere", rtol=1e-11, L=L)
    if L <= 20:
        close(w, quad_weights(L), "quadrature weights", rtol=1e-10, L=L)
    require(np.ptp(w.reshape(L, 2 * L - 1), axis=1).max() <= 1e-14, "weights vary along a ring", L=L)
    lm = arr(c["f"], L * L, True)
    if c["mode"] == "single":
        i = c["idx"] % (L * L)
        z = lm[i] if lm[i] != 0 else 1.0
        lm = np.zeros(L * L, dtype=complex)
        lm[i] = z
    if c["mode"] == "product":
        # the product of two band-limited functions of bandlimit K has bandlimit 2K-1 <= L: Parseval
        K = (L + 1) // 2
        a = arr(c["f"], K * K, True)
        b = arr(c["g"], K * K, True)
        up = lambda q: np.concatenate([q, np.zeros(L * L - K * K)])  # noqa: E731
        fa, fb = pyssht.inverse(up(a), L).flatten(), pyssht.inverse(up(b), L).flatten()
        got = s2_integrate(np.conj(fa) * fb, L)
        close(got, np.vdot(a, b), "integral of conj(f) g is not the inner product of the coefficients", rtol=1e-10,
              scale=float(np.linalg.norm(a) * np.linalg.norm(b)) * L, atol=1e-300, L=L)
        return Result(L > 2, ["product"])
    f = pyssht.inverse(lm, L).flatten()
    if c["mode"] == "real":
        f = f.real.copy()
        exp = float(np.sqrt(4 * np.pi) * lm[0].real)
    else:
        exp = np.sqrt(4 * np.pi) * lm[0]
    sc = float(np.abs(f).max()) * 4 * np.pi
    close(s2_integrate(f.copy(), L), exp, "integral of a band-limited function", rtol=1e-10, scale=sc, atol=1e-300, L=L, mode=c["mode"])
    top = float(np.abs(f).max())
    if 0 < top < 1e100:  # counts, masks and single-precision images
        h = (np.abs(f.real) / top * (1 if c["dtype"] == "bool" else 100)).round(0 if c["dtype"] != "float32" else 3).astype(c["dtype"])
        close(s2_integrate(h.copy(), L), float(np.sum(w * h.astype(float))), "integral of an image of another number type", rtol=1e-5 if c["dtype"] == "float32" else 1e-10,
              scale=float(np.sum(np.abs(w) * np.abs(h.astype(float)))), atol=1e-300, L=L, dtype=c["dtype"])
    k = c["idx"] % (2 * L - 1)
    rot = np.roll(f.reshape(L, 2 * L - 1), k, axis=1).flatten()
    close(s2_integrate(rot, L), exp, "integral changes under a rotation about the pole", rtol=1e-10, scale=sc, atol=1e-300, L=L)
    return Result(L > 1 and np.abs(lm[1:]).max(initial=0) > 0, [c["mode"]])


@st.composite
def theta_w(draw):
    return {"L": draw(st.one_of(st.integers(1, 40), st.integers(1, 40), st.integers(1, 40), st.integers(41, 120), st.integers(121, 400))), "m": draw(st.one_of(st.integers(-60, 60), st.integers(-60, 60), st.integers(-400, 400)))}


def run_theta(c):
    from pxmcmc.utils import mw_weights, weights_theta

    L, m = c["L"], c["m"]
    k = m % L * (1 if m >= 0 else -1)
    # Gauss-Legendre for int_0^pi sin(t) exp(i m t) dt
    x, gw = np.polynomial.legendre.leggauss(120 if max(abs(m), abs(k)) <= 60 else 500)
    t = (x + 1) * np.pi / 2
    e = np.sum(gw * np.pi / 2 * np.sin(t) * np.exp(1j * m * t))
    close(complex(mw_weights(m)), e, "mw_weights(m) is not the integral of sin(t) exp(imt)", rtol=0, atol=1e-11, m=m)
    wr = np.asarray(weights_theta(L))
    require(wr.shape == (2 * L - 1,), "weights_theta length", got=wr.shape)
    th = (2 * np.arange(2 * L - 1) + 1) * np.pi / (2 * L - 1)
    if abs(k) < L:
        x = np.sum(gw * np.pi / 2 * np.sin(t) * np.exp(1j * k * t))
        close(np.sum(wr * np.exp(1j * k * th)) * (2 * L - 1), 2 * np.pi * x, "theta quadrature is not exact for exp(imt)", rtol=0, atol=1e-10, L=L, m=k)
    return Result(L > 1 and k != 0)


@st.composite
def areas(draw):
    return {"L": draw(st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(1, 8), *[st.integers(1, 40)] * 6, st.integers(41, 100), st.integers(101, 200))), "r": draw(st.sampled_from([1, 1.0, 0.5, 2, 6371.0])),
            "default": draw(st.booleans())}


def run_areas(c):
    import pyssht

    from pxmcmc.utils import calc_pixel_areas

    L = c["L"]
    r = 1 if c["default"] else c["r"]
    a = np.asarray(calc_pixel_areas(L) if c["default"] else calc_pixel_areas(L, r))
    require(a.shape == (L, 2 * L - 1), "pixel areas have the wrong shape", got=a.shape)
    require((a > 0).all(), "a pixel has no area", L=L)
    close(a.sum(), 4 * np.pi * r**2, "pixel areas do not add up to the sphere", rtol=1e-11, L=L, r=r)
    th, ph = pyssht.sample_positions(L)
    edges = np.concatenate([[0.0], th])
    ring = 2 * np.pi * r**2 * (np.cos(edges[:-1]) - np.cos(edges[1:]))
    close(a, np.repeat(ring / (2 * L - 1), 2 * L - 1).reshape(L, -1), "pixel area is not its share of the ring", rtol=1e-9,
          scale=float(ring.min() / (2 * L - 1)) + 1e-5 * float(ring.max()), L=L, r=r)
    return Result(L > 1)


@st.composite
def rects(draw):
    return {"r": draw(st.floats(0.01, 1e4)), "t": draw(st.lists(TH, min_size=3, max_size=3)), "p": draw(st.lists(PH, min_size=3, max_size=3)),
            "thin": draw(st.sampled_from([1e-1, 1e-2, 1e-3, 9e-4, 1e-4, 1e-6]))}


def run_rects(c):
    from pxmcmc.utils import pixel_area, polar_cap_area

    r = c["r"]
    t, p = sorted(c["t"]), sorted(c["p"])
    sc = 4 * np.pi * r * r * 3
    A = lambda a, b, x, y: pixel_area(r, a, b, x, y)  # noqa: E731
    whole = A(t[0], t[2], p[0], p[2])
    close(whole, r * r * (np.cos(t[0]) - np.cos(t[2])) * (p[2] - p[0]), "area of a spherical rectangle", rtol=1e-12, scale=sc)
    close(A(t[0], t[1], p[0], p[2]) + A(t[1], t[2], p[0], p[2]), whole, "area is not additive in colatitude", rtol=1e-12, scale=sc)
    close(A(t[0], t[2], p[0], p[1]) + A(t[0], t[2], p[1], p[2]), whole, "area is not additive in longitude", rtol=1e-12, scale=sc)
    close(polar_cap_area(r, t[1]), A(0.0, t[1], 0.0, 2 * np.pi), "polar cap is not the rectangle from the pole", rtol=1e-12, scale=sc)
    close(polar_cap_area(r, t[1]) + A(t[1], np.pi, 0, 2 * np.pi), 4 * np.pi * r * r, "cap and complement do not cover the sphere", rtol=1e-12, scale=sc)
    # thin rectangles, to the rounding of the cosines
    for a, w in ((t[1], c["thin"]), (c["thin"], c["thin"] / 3), (np.pi - 2 * c["thin"], c["thin"])):
        b = min(a + w, np.pi)
        e = 2 * r * r * np.sin((a + b) / 2) * np.sin((b - a) / 2) * (p[2] - p[0])
        close(A(a, b, p[0], p[2]), e, "area of a thin rectangle", rtol=0, atol=4e-15 * r * r * (p[2] - p[0]), width=w, r=r)
    v = polar_cap_area(r, np.array(t))
    close(v, [polar_cap_area(r, q) for q in t], "polar cap area of an array", rtol=1e-13, scale=sc)
    return Result(t[0] < t[1] < t[2] and p[0] < p[1] < p[2])


TARGETS = [
    Target("integrate", quad(), run_quad, 1500, 20000, shards=4),
    Target("theta", theta_w(), run_theta, 500, 6000, shards=1),
    Target("areas", areas(), run_areas, 300, 2000, shards=2),
    Target("rectangles", rects(), run_rects, 800, 10000, shards=1),
]
