"""Spherical configurations and operators shared by several checks."""
import math

import numpy as np
from hypothesis import strategies as st

from harness.gen import SEED, arr, arr_desc, mwn, rng


def transform_configs(Lmin=2, Lmax=10, Bs=(1.5, 2, 2.5, 3, 4)):
    """(L, B, J_min) usable by the wavelet transform itself (scales may be empty)."""
    import pys2let

    out = []
    for L in range(Lmin, Lmax + 1):
        for B in Bs:
            for J in range(0, 4):
                if B**J < L and pys2let.pys2let_j_max(B, L, J) >= J:
                    out.append((L, B, J))
    return out


CFG = transform_configs()


def wav_par(cfg, dirs=1, spin=0):
    L, B, J = cfg
    return dict(B=B, L=L, J_min=J, N=dirs, spin=spin, upsample=0)


def ref_inverse(cfg, x, dirs=1, spin=0, harmonic=False):
    """wavelet coefficients (scaling first) -> image, straight from pys2let."""
    import pys2let

    par = wav_par(cfg, dirs, spin)
    n = cfg[0] ** 2 if harmonic else mwn(cfg[0])
    ana = pys2let.analysis_lm2lmn if harmonic else pys2let.analysis_px2wav
    syn = pys2let.synthesis_lmn2lm if harmonic else pys2let.synthesis_wav2px
    w, s = ana(np.zeros(n, dtype=complex), **par)
    x = np.ascontiguousarray(x, dtype=complex)
    return syn(x[s.size:].copy(), x[: s.size].copy(), **par)


def ref_sizes(cfg, dirs=1, spin=0, harmonic=False):
    import pys2let

    par = wav_par(cfg, dirs, spin)
    n = cfg[0] ** 2 if harmonic else mwn(cfg[0])
    ana = pys2let.analysis_lm2lmn if harmonic else pys2let.analysis_px2wav
    w, s = ana(np.zeros(n, dtype=complex), **par)
    return s.size, w.size


def make_mask(d, L):
    """d: {'kind','seed','dtype'}"""
    g = rng(d["seed"])
    sh = (L, 2 * L - 1)
    k = d["kind"]
    if k == "none":
        return None
    if k == "full":
        m = np.ones(sh)
    elif k == "empty":
        m = np.zeros(sh)
    elif k == "band":
        m = np.ones(sh)
        a = g.integers(0, L)
        m[a:a + 1 + g.integers(0, L)] = 0
    elif k == "single":
        m = np.zeros(sh)
        m[g.integers(L), g.integers(2 * L - 1)] = 1
    else:
        m = (g.random(sh) < g.choice([0.2, 0.5, 0.8])).astype(float)
    if d.get("values") and d["dtype"] != "bool":  # observed means non-zero
        m = m * g.choice([2.0, 3.0, -1.0, 255.0] if d["dtype"] == "int" else [0.5, 1.0, 2.0, -1.0, 1e-3, 1e6], sh)
    return m.astype({"bool": bool, "int": int, "float": float}[d["dtype"]])


mask_desc = st.fixed_dictionaries({
    "kind": st.sampled_from(["none", "none", "random", "random", "random", "random", "random", "random", "band", "band", "single", "single", "full", "full", "empty"]),
    "seed": SEED,
    "dtype": st.sampled_from(["bool", "int", "float"]),
    "values": st.booleans(),
})

ngal_desc = st.fixed_dictionaries({"kind": st.sampled_from(["none", "ints", "real", "zeros", "const", "wide"]), "seed": SEED})


def make_ngal(d, L):
    g = rng(d["seed"])
    sh = (L, 2 * L - 1)
    k = d["kind"]
    if k == "none":
        return None
    if k == "ints":
        return g.integers(0, 60, sh).astype(g.choice(["int64", "int64", "int64", "int32", "int16", "uint8", "int8"]))
    if k == "zeros":
        return g.integers(0, 3, sh) * g.integers(0, 30, sh)
    if k == "const":
        return np.full(sh, float(g.integers(1, 40)))
    if k == "wide":
        return np.rint(10.0 ** g.uniform(0, 9, sh))
    return g.random(sh) * 10.0 ** g.integers(-4, 6)


def kappa_arr(d, L, cplx=True):
    return arr(d, mwn(L), cplx)


def el_index(L):
    return np.array([math.isqrt(i) for i in range(L * L)])


map_desc = arr_desc(scales=(-3, 3))
