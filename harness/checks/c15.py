"""C15: the spherical wavelet priors charge each coefficient its documented weight."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Known, Result, Target, close, fail, require
from harness.gen import SEED, arr, arr_desc, bandlimits, mwn, quad_weights, rng, scale_nonempty, vsoft, wav_configs
from harness.sphere import ref_sizes, transform_configs

PROPERTY = "C15"
RULE = (
    "All (L,B,J_min) with L<=12 and several B, thresholds and decay exponents drawn at random; weights observed through prior() of unit vectors and "
    "proxf() of large vectors, against quadrature weights taken from pyssht (S2_Wavelets_L1) and the Wallis et al. 2017 formula evaluated from the "
    "wavelet tiling (Power_Weights), in the coefficient order of the wavelet transform. known: the configurations listed in KNOWN_FINDINGS.txt. "
    "Non-trivial: at least two wavelet scales."
)
CFGS = wav_configs(2, 12, Bs=(1.5, 1.7, 2, 2.5, 3, 4, 5), maxJ=5)
BIG = wav_configs(13, 33, Bs=(1.5, 2, 3), maxJ=5)
BIG += wav_configs(13, 40, Bs=(4, 5), maxJ=3)
BIG += [c for c in wav_configs(34, 70, Bs=(2, 3), maxJ=6) if c[0] in (34, 48, 49, 63, 64, 65, 70)]


def power_weights(L, B, J, eta, spin=0):
    """Eqs 33-34 of Wallis et al. 2017 (see the class documentation) from the tiling."""
    import pys2let
    import pyssht

    phi, psi = pys2let.wavelet_tiling(B, L, 1, J, spin)
    bls = bandlimits(L, B, J)
    gam = [(float(np.sum(np.abs(phi) ** 2)), 1.0)]
    for j in range(psi.shape[1]):
        col = psi[:, j]
        prof = np.array([abs(col[el * el + el]) for el in range(L)])
        gam.append((float(np.sum(np.abs(col) ** 2)), float(np.argmax(prof)) ** eta))
    out = []
    for b, (power, pk) in zip(bls, gam):
        th, _ = pyssht.sample_positions(b)
        w = 2 * np.pi**2 * pk * np.sin(th) / (power * mwn(b))
        out.append(np.repeat(w, 2 * b - 1))
    return np.concatenate(out)


@st.composite
def cases(draw):
    return {
        "cfg": draw(st.one_of(*[st.sampled_from(CFGS)] * 8, st.sampled_from(BIG))),
        "power": draw(st.booleans()),
        "spin": draw(st.sampled_from([0, 0, 0, 0, 1, 2, -1, -2, 3])),
        "eta": draw(st.sampled_from([0, 0.5, 1, 1, 1.5, 2, 3, -1, -2, -0.5, -1.5, 6])),
        "default_eta": draw(st.booleans()),
        "T": draw(st.sampled_from([0.01, 1, 1.0, 2.5, 40])),
        "Tkind": draw(st.sampled_from(["scalar"] * 4 + ["numpy", "vector", "int vector"])),
        "x": draw(arr_desc()),
        "cplx": draw(st.booleans()),
        "seed": draw(SEED),
    }


def make(power, T, L, B, J, eta=None, setting="synthesis", **kw):
    from pxmcmc.prior import S2_Wavelets_L1, S2_Wavelets_L1_Power_Weights

    ident = lambda v: v  # noqa: E731
    if power:
        if eta is not None:
            kw["eta"] = eta
        return S2_Wavelets_L1_Power_Weights(setting, ident, ident, T, L, B, J, **kw)
    return S2_Wavelets_L1(setting, ident, ident, T, L, B, J, **kw)


def spin_of(c):
    """The drawn spin where every scale holds a multipole l >= |spin|, else 0."""
    import pys2let

    L, B, J = c["cfg"]
    if not c["spin"] or abs(c["spin"]) >= L:
        return 0
    phi, psi = pys2let.wavelet_tiling(B, L, 1, J, c["spin"])
    return c["spin"] if np.any(phi) and np.all(np.any(psi, axis=0)) else 0


def run(c):
    L, B, J = c["cfg"]
    eta = None if c["default_eta"] else c["eta"]
    spin = spin_of(c)
    ns, nw = ref_sizes(c["cfg"], 1, spin)
    n = ns + nw
    T = c["T"]
    if c["Tkind"] == "numpy":
        T = np.array(T)
    elif c["Tkind"] != "scalar":  # a threshold per coefficient
        T = T * (1 + rng(c["seed"]).integers(0, 3, n))
        T = np.ceil(T).astype(int) if c["Tkind"] == "int vector" else T
    T0 = np.array(T)
    pr = make(c["power"], T, L, B, J, eta, **({"spin": spin} if spin or c["seed"] % 2 else {}))
    require(np.array_equal(T, T0), "building a prior modifies the caller's thresholds", cfg=c["cfg"], power=c["power"])
    T = T0
    w = power_weights(L, B, J, 1 if eta is None else eta, spin) if c["power"] else np.concatenate([quad_weights(b) for b in bandlimits(L, B, J)])
    if len(w) != n:
        fail("reference layout", got=len(w), expected=n)
    note = {"cfg": c["cfg"], "power": c["power"], "eta": eta, "T": c["T"], "spin": spin}
    g = rng(c["seed"])
    x = arr(c["x"], n, c["cplx"])
    # sin(theta) of the pole ring may round to either side of 0
    close(float(np.real(pr.prior(x.copy()))), float(np.sum(w * np.abs(x))), "prior is not the weighted L1 norm", rtol=1e-9,
          scale=float(np.sum(np.abs(w * x))), atol=1e-14 * float(np.abs(w).max() * np.abs(x).max()) + 1e-300, **note)
    for i in list(g.integers(0, n, 6)) + [0, n - 1, ns - 1, min(ns, n - 1)]:
        e = np.zeros(n)
        e[i] = 1.0
        close(float(np.real(pr.prior(e))), w[i], "weight of a coefficient in the prior", rtol=1e-10, scale=float(w.max()), atol=1e-300, index=int(i), **note)
    close(pr.proxf(x.copy()), vsoft(x, T * w), "prox does not threshold each coefficient by T times its weight", rtol=1e-10,
          scale=float(np.abs(x).max()), atol=1e-300, **note)
    big = 2 * T * w + 1
    close(big - pr.proxf(big.copy()), T * w, "threshold of a coefficient", rtol=1e-10, scale=float(big.max()), atol=1e-300, **note)
    return Result(len(bandlimits(L, B, J)) > 2, ["power" if c["power"] else "quadrature", f"spin{spin}"])


@st.composite
def analysis(draw):
    return {"cfg": draw(st.sampled_from(CFGS)), "power": draw(st.booleans())}


def run_analysis(c):
    try:
        make(c["power"], 1.0, *c["cfg"], setting="analysis")
    except NotImplementedError:
        return Result(True)
    fail("the analysis setting, which is not implemented, is accepted silently", **c)


EMPTY = [cfg for cfg in transform_configs(2, 12) if cfg not in set(wav_configs(2, 12))]


@st.composite
def known(draw):
    return {
        "kind": draw(st.sampled_from(["dirs", "empty"])),
        "power": draw(st.booleans()),
        "cfg": draw(st.sampled_from([c for c in CFGS if c[0] >= 4])),
        "empty": draw(st.sampled_from([c for c in EMPTY if not all(scale_nonempty(c[0], c[1], j) for j in range(c[2], c[2] + 20) if c[1] ** (j - 1) < c[0])])),
        "dirs": draw(st.sampled_from([2, 3])),
    }


def run_known(c):
    """Configurations whose weights the library cannot build (KNOWN_FINDINGS.txt); anything but the recorded failure is judged normally."""
    if c["kind"] == "dirs":
        L, B, J = c["cfg"]
        dirs, key = c["dirs"], "directional-weights"
    else:
        L, B, J = c["empty"]
        dirs, key = 1, "empty-scale"
    ns, nw = ref_sizes((L, B, J), dirs)
    x = np.ones(ns + nw)
    try:
        pr = make(c["power"], 1.0, L, B, J, dirs=dirs)
        v, p = pr.prior(x), pr.proxf(x)
    except Exception as e:  # the finding is the input that is refused, whatever the error
        raise Known(key, f"(L,B,J_min)={(L, B, J)} dirs={dirs}: {e}") from None
    require(np.isfinite(v) and v > 0 and np.all(np.isfinite(p)) and np.all(p <= x) and p.shape == x.shape, "prior or prox of a valid configuration",
            L=L, B=B, J=J, dirs=dirs)
    return Result(True, [key])


TARGETS = [
    Target("weights", cases(), run, 900, 20000, shards=5),
    Target("analysis", analysis(), run_analysis, 60, 300, shards=1),
    Target("known", known(), run_known, 80, 500, shards=1),
]
