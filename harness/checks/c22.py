"""C22: sky masks, signal-to-noise ratio, quiet healpix wrappers."""
import io
import sys

import numpy as np
from hypothesis import strategies as st

from harness.core import Result, Target, close, fail, require
from harness.gen import arr, arr_desc

PROPERTY = "C22"
RULE = (
    "masks: random bandlimits and band widths against galactic latitudes computed from the pole of the Galaxy (pixels within 0.02 deg of a band edge are not "
    "judged), nesting in the width. snr: random real/complex arrays against the definition, antisymmetry and scaling. quiet: random printing/raising bodies and "
    "healpix transforms: nothing reaches stdout, stdout is restored, results equal healpy's. Non-trivial: the mask has both values / non-zero arrays / something printed."
)


@st.composite
def masks(draw):
    return {"L": draw(st.one_of(st.integers(1, 10), st.integers(1, 10), st.integers(1, 32), st.integers(1, 32), st.sampled_from([33, 48, 64, 65, 96, 128]))), "size": draw(st.one_of(st.sampled_from([0, 5, 20, 45, 90, 91]), st.floats(0, 95))),
            "extra": draw(st.floats(0, 30)), "default": draw(st.booleans())}


def galactic_b(L):
    import pyssht

    th, ph = pyssht.sample_positions(L, Grid=True)
    dec, ra = np.pi / 2 - th, ph
    a0, d0 = np.radians(192.85948), np.radians(27.12825)
    sb = np.sin(d0) * np.sin(dec) + np.cos(d0) * np.cos(dec) * np.cos(ra - a0)
    return np.degrees(np.arcsin(np.clip(sb, -1, 1))), np.degrees(dec)


def run_mask(c):
    from pxmcmc.utils import build_mask

    L = c["L"]
    size = 20 if c["default"] else c["size"]
    m = np.asarray(build_mask(L) if c["default"] else build_mask(L, size))
    require(m.shape == (L, 2 * L - 1), "mask is not an MW map", got=m.shape, L=L)
    require(np.isin(m, (0, 1)).all(), "mask holds values other than 0 and 1", got=np.unique(m))
    b, dec = galactic_b(L)
    masked = (np.abs(b) < size) | (np.abs(dec) < size)
    edge = (np.abs(np.abs(b) - size) < 0.02) | (np.abs(np.abs(dec) - size) < 1e-9)
    wrong = ((m == 0) != masked) & ~edge
    require(not wrong.any(), "pixels near the Galactic plane or the equator are not exactly the masked ones", L=L, size=size, nwrong=int(wrong.sum()),
            where=np.argwhere(wrong)[:3].tolist())
    m2 = np.asarray(build_mask(L, size + c["extra"]))
    require((m2 <= m).all(), "a wider mask uncovers pixels", L=L, size=size, wider=size + c["extra"])
    return Result(0 < m.sum() < m.size)


@st.composite
def snrs(draw):
    return {"n": draw(st.one_of(st.integers(1, 40), st.integers(1, 5000))), "m": draw(st.one_of(st.integers(1, 40), st.integers(1, 5000))), "s": draw(st.one_of(arr_desc(scales=(-6, 6)), arr_desc(scales=(-100, 100)))), "t": draw(st.one_of(arr_desc(scales=(-6, 6)), arr_desc(scales=(-100, 100)))),
            "cs": draw(st.booleans()), "ct": draw(st.booleans()), "k": draw(st.sampled_from([10.0, 2.0, 0.01])), "rows": draw(st.integers(1, 9)), "int": draw(st.sampled_from([None, None, None, "int64"])), "dims": draw(st.sampled_from([1, 2, 2, 3]))}


def run_snr(c):
    from pxmcmc.utils import norm, snr

    s, t = arr(c["s"], c["n"], c["cs"]), arr(c["t"], c["m"], c["ct"])
    if c["int"]:  # counts and masks
        top = float(np.abs(s).max()) or 1.0
        s = np.round(np.abs(np.real(s)) / top * 1000).astype(c["int"])
    if c["dims"] > 1:  # maps have rows
        shape = (c["rows"], -1) if c["dims"] == 2 else (1, c["rows"], -1)
        s, t = (np.resize(v, v.size + -v.size % c["rows"]).reshape(shape) for v in (s, t))
    if c["int"]:
        counts, s = s, s.astype(float)
        close(norm(counts), norm(s), "norm of an array of whole numbers", rtol=1e-12, atol=1e-300, dtype=c["int"])
        if s.any() and np.any(t):
            close(snr(counts, t), snr(s, t), "SNR of an array of whole numbers", rtol=0, atol=1e-8, dtype=c["int"])
            close(snr(t, counts), snr(t, s), "SNR of an array of whole numbers", rtol=0, atol=1e-8, dtype=c["int"])
    ns, nt = float(np.sqrt(np.sum(np.abs(s) ** 2))), float(np.sqrt(np.sum(np.abs(t) ** 2)))
    close(norm(s), ns, "norm is not the 2-norm", rtol=1e-12, scale=ns, atol=1e-300)
    if ns == 0 or nt == 0:
        return Result(False)
    v = snr(s, t)
    e = 20 * np.log10(ns / nt)
    close(v, e, "SNR in decibels", rtol=0, atol=1e-8)
    close(snr(t, s), -v, "SNR of noise over signal", rtol=0, atol=1e-8)
    close(snr(c["k"] * s, t), v + 20 * np.log10(c["k"]), "scaling the signal", rtol=0, atol=1e-8)
    return Result(True, ["complex" if c["cs"] or c["ct"] else "real"])


@st.composite
def quiets(draw):
    return {"text": draw(st.text(st.characters(codec="ascii"), max_size=20)), "raises": draw(st.booleans()), "nested": draw(st.booleans()), "twice": draw(st.booleans()),
            "steals": draw(st.booleans())}


class Boom(Exception):
    pass


def run_quiet(c):
    from pxmcmc.utils import suppress_stdout

    old = sys.stdout
    buf = io.StringIO()
    sys.stdout = buf
    try:
        for _ in range(2 if c["twice"] else 1):
            try:
                with suppress_stdout():
                    print(c["text"])
                    if c["nested"]:
                        with suppress_stdout():
                            print(c["text"])
                        print("between", c["text"])
                    if c["steals"]:  # the wrapped code redirects stdout for good
                        sys.stdout = io.StringIO()
                    if c["raises"]:
                        raise Boom
            except Boom:
                require(c["raises"], "harness")
            else:
                require(not c["raises"], "suppress_stdout swallows exceptions")
            require(sys.stdout is buf, "stdout is not restored", raises=c["raises"], nested=c["nested"])
        require(buf.getvalue() == "", "output leaks", got=buf.getvalue())
        print("after")
        require(buf.getvalue() == "after\n", "output after the block is lost", got=buf.getvalue())
    finally:
        sys.stdout = old
    return Result(len(c["text"]) > 0, ["raises" if c["raises"] else "returns"])


@st.composite
def hpx(draw):
    return {"nside": draw(st.sampled_from([1, 2, 4, 8])), "lmax": draw(st.integers(1, 12)), "x": draw(arr_desc()), "iter": draw(st.sampled_from([None, 0, 3])),
            "bad": draw(st.booleans()), "fwhm": draw(st.sampled_from([None, 0.0, 0.3])), "low": draw(st.booleans()),
            "pol": draw(st.sampled_from([None, None, True, False])), "dtype": draw(st.sampled_from(["f8", "f8", "f4", "i8"]))}


def run_hpx(c):
    import healpy as hp

    from pxmcmc.utils import alm2map, map2alm

    n = 12 * c["nside"] ** 2
    x = arr(c["x"], n)
    if c["dtype"] == "i8":
        x = np.round(np.clip(x, -1e6, 1e6))
    x = x.astype(c["dtype"])
    if c["pol"] is not None:  # T, Q and U maps
        x = np.array([x, np.roll(x, 1), -np.roll(x, 2)])
    lmax = min(c["lmax"], 3 * c["nside"] - 1)
    kw = {} if c["iter"] is None else {"iter": c["iter"]}
    kw2 = {} if c["fwhm"] is None else {"fwhm": c["fwhm"]}
    if c["pol"] is not None:
        kw["pol"] = kw2["pol"] = c["pol"]
        lmax = max(lmax, 2)  # (spin-2 transforms need it)
    elif c["low"]:
        kw2.pop("fwhm", None)  # (healpy's smoothing does not take a mmax)
        kw["mmax"] = kw2["mmax"] = max(lmax - 1, 1)  # (healpy itself takes mmax=0 for "not given")
        kw2["lmax"] = lmax
    old = sys.stdout
    sys.stdout = buf = io.StringIO()
    try:
        a = map2alm(x.copy(), lmax, **kw)
        m = alm2map(np.array(a), c["nside"], **kw2)
        if c["bad"]:
            try:
                map2alm(np.ones(n + 1), lmax)
                fail("a map of impossible size is accepted")
            except (TypeError, ValueError):
                pass
        require(sys.stdout is buf, "stdout is not restored")
        require(buf.getvalue() == "", "output leaks", got=buf.getvalue())
        ea = hp.map2alm(x.copy(), lmax, **kw)
        em = hp.alm2map(np.array(ea), c["nside"], **kw2)
    finally:
        sys.stdout = old
    close(a, ea, "map2alm is not healpy's", rtol=1e-10, scale=float(np.abs(ea).max()), atol=1e-300, kw=kw)
    close(m, em, "alm2map is not healpy's", rtol=1e-10, scale=float(np.abs(em).max()), atol=1e-300, kw=kw2)
    return Result(np.abs(x).max() > 0, [c["dtype"], f"pol {c['pol']}"])


TARGETS = [
    Target("masks", masks(), run_mask, 400, 5000, shards=3),
    Target("snr", snrs(), run_snr, 800, 10000, shards=1),
    Target("quiet", quiets(), run_quiet, 300, 2000, shards=1),
    Target("healpix", hpx(), run_hpx, 200, 2000, shards=2),
]
