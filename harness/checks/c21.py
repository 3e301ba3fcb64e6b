"""C21: figures show the data they were given, and leave the data alone."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Known, Result, Target, Violation, close, require
from harness.gen import SEED, arr, arr_desc, bandlimits, mwn, rng, wav_configs

PROPERTY = "C21"
RULE = (
    "maps: random MW maps x oversampling, masks, colour limits, centring, colour bar, titles; the image drawn (read back from the matplotlib figure) is "
    "compared with the Mollweide projection of the independently oversampled and masked map, colour limits with the documented rules, inputs with copies. "
    "wavelets: one figure per scale with the right coefficients and shared limits. evolution: curves, and the marker at a sample of highest "
    "log-posterior incl. ties. healpix: successive mollview calls between open figures vs healpy's own projection. Non-trivial: a map that is not constant / at least three samples."
)
ASSUMPTIONS = [
    "the Mollweide projection is pyssht's; most map cases replace it by a fast resampling stand-in used for the expected image as well, the rest use the real one",
]
CFGS = wav_configs(3, 8, Bs=(2, 3), maxJ=2)
BIG = wav_configs(9, 40, Bs=(1.5, 2, 3, 4), maxJ=3)
_real = None


def fast_projection(f, L, *a, **k):
    """Stand-in for pyssht.mollweide_projection: keeps the samples, drops the resampling."""
    if a or k:
        return _real(f, L, *a, **k)
    fast_projection.calls += 1
    f = np.asarray(f)
    st_ = max(1, f.shape[0] // 32)
    return f[::st_, ::st_].copy(), np.zeros((0,))


class projection:
    def __init__(self, fast):
        self.fast = fast

    def __enter__(self):
        global _real
        import pyssht

        self.mod = pyssht
        _real = self.real = pyssht.mollweide_projection
        fast_projection.calls = 0
        if self.fast:
            pyssht.mollweide_projection = fast_projection
        return self

    def __exit__(self, *a):
        self.mod.mollweide_projection = self.real

    def expected(self, f, L):
        if self.fast and fast_projection.calls:
            st_ = max(1, f.shape[0] // 32)
            return f[::st_, ::st_]
        return self.real(f.copy(), L)[0]


def oversampled(f, L):
    """Zero-padding in harmonic space, independent of pxmcmc."""
    import pyssht

    L0 = f.shape[0]
    lm = pyssht.forward(f.astype(complex), L0)
    z = np.zeros(L * L, dtype=complex)
    z[: L0 * L0] = lm
    return pyssht.inverse(z, L).real


def image_of(fig):
    ims = [(ax, im) for ax in fig.axes for im in ax.images]
    require(len(ims) >= 1, "the figure shows no image")
    return ims[0]


def check_image(im, exp, note):
    got = im.get_array()
    gm = np.ma.getmaskarray(np.ma.masked_invalid(got))
    em = ~np.isfinite(exp)
    require(got.shape == exp.shape, "image size", got=got.shape, expected=exp.shape, **note)
    require(np.array_equal(gm, em), "the wrong pixels are blanked", got=int(gm.sum()), expected=int(em.sum()), **note)
    g = np.ma.filled(np.ma.masked_invalid(got), 0.0)
    close(np.where(gm, 0, g), np.where(em, 0, exp), "the figure does not show the map", rtol=1e-7, scale=float(np.abs(exp[~em]).max(initial=1e-300)), atol=1e-300,
          **note)


@st.composite
def maps(draw):
    return {
        "L": draw(st.one_of(st.integers(2, 9), st.integers(2, 40), st.integers(2, 9), st.integers(2, 40), st.sampled_from([128, 255, 256, 257, 300]))),
        "f": draw(st.one_of(arr_desc(scales=(-2, 3)), arr_desc(scales=(-12, 9)))),
        "oversample": draw(st.sampled_from([None, False, False, True])),
        "mask": draw(st.sampled_from(["none", "none", "none", "bool", "int", "values"])),
        "mseed": draw(SEED),
        "vmin": draw(st.sampled_from([None, None, -1.5, 0.0])),
        "vmax": draw(st.sampled_from([None, None, 2.5, 40.0])),
        "centre0": draw(st.sampled_from([False, False, True])),
        "cbar": draw(st.booleans()),
        "title": draw(st.sampled_from([None, "a map", "x"])),
        "label": draw(st.sampled_from(["", "km/s"])),
        "cmap": draw(st.sampled_from([None, "viridis", "seismic_r"])),
        "fast": draw(st.booleans()),
    }


def run_map(c, fast=True):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    from pxmcmc.plotting import plot_map

    L = c["L"]
    f = arr(c["f"], mwn(L)).reshape(L, 2 * L - 1)
    over = c["oversample"] in (None, True) and L < 256
    Lp = 256 if over else L
    mask = None
    if c["mask"] != "none":
        mask = rng(c["mseed"]).random((Lp, 2 * Lp - 1)) < 0.3
        if c["mask"] == "int":
            mask = mask.astype(int)
        if c["mask"] == "values":
            mask = mask * [2, 0.5, 255][c["mseed"] % 3]
    f0 = f.copy()
    m0 = None if mask is None else mask.copy()
    kw = {"cbar": c["cbar"], "centre0": c["centre0"], "mask": mask, "vmin": c["vmin"], "vmax": c["vmax"], "title": c["title"]}
    if c["oversample"] is not None:
        kw["oversample"] = c["oversample"]
    if c["cmap"]:
        kw["cmap"] = c["cmap"]
    if c["cbar"]:
        kw["cbar_label"] = c["label"]
    note = {k: v for k, v in kw.items() if k != "mask"}
    note["L"] = L
    name = c["cmap"] or "turbo"
    bad0 = tuple(plt.get_cmap(name).get_bad())
    st0 = np.random.get_state()
    with projection(fast) as pj:
        fig = plot_map(f, **kw)
        st1 = np.random.get_state()
        require(st0[2:] == st1[2:] and np.array_equal(st0[1], st1[1]), "drawing a map consumes random numbers", **note)
        full = oversampled(f0, 256) if over else f0
        shown = full.copy()
        if mask is not None:
            shown[m0.astype(bool)] = np.nan
        exp = pj.expected(shown, Lp)
    try:
        require(isinstance(fig, matplotlib.figure.Figure), "plot_map does not return a figure")
        require(np.array_equal(f, f0), "plot_map modifies the caller's map", **note)
        require(mask is None or np.array_equal(mask, m0), "plot_map modifies the caller's mask", **note)
        ax, im = image_of(fig)
        check_image(im, exp, note)
        lo, hi = im.get_clim()
        fin = exp[np.isfinite(exp)]
        sc = float(np.abs(full).max()) + 1e-300
        elo = c["vmin"] if c["vmin"] is not None else float(fin.min()) if fin.size else 0.0
        ehi = c["vmax"] if c["vmax"] is not None else float(fin.max()) if fin.size else 0.0
        if (c["centre0"] and np.abs(full).max() < 1e-15) or (not c["centre0"] and ehi - elo <= 1e-6 * (abs(ehi) + abs(elo))):
            pass  # matplotlib itself widens empty or reversed colour scales
        elif c["centre0"]:
            e = float(np.abs(full).max())
            close([lo, hi], [-e, e], "colour scale is not centred on 0 and as wide as the map", rtol=1e-7, scale=sc, **note)
        else:
            if c["vmin"] is not None:
                require(lo == c["vmin"], "vmin is not used", got=lo, **note)
            elif fin.size:
                close(lo, float(fin.min()), "colour scale does not start at the lowest value", rtol=1e-7, scale=sc, **note)
            if c["vmax"] is not None:
                require(hi == c["vmax"], "vmax is not used", got=hi, **note)
            elif fin.size:
                close(hi, float(fin.max()), "colour scale does not end at the highest value", rtol=1e-7, scale=sc, **note)
        require(im.get_cmap().name == name, "colour map is not the one asked for", got=im.get_cmap().name, **note)
        require(im.get_cmap()(np.ma.masked_all(1))[0][3] == 0, "blanked pixels are not transparent", **note)
        require(tuple(plt.get_cmap(name).get_bad()) == bad0, "plot_map changes matplotlib's own colour map", **note)
        require(ax.get_title() == (c["title"] or ""), "title", got=ax.get_title(), **note)
        require(len(fig.axes) == (2 if c["cbar"] else 1), "colour bar", axes=len(fig.axes), **note)
        if c["cbar"]:
            lab = [a for a in fig.axes if a is not ax][0]
            require(c["label"] in (lab.get_ylabel(), lab.get_xlabel()), "colour bar label", got=(lab.get_ylabel(), lab.get_xlabel()), **note)
    finally:
        plt.close("all")
    return Result(np.ptp(f0) > 0, ["oversampled" if over else "raw", "masked" if mask is not None else "unmasked", "centre0" if c["centre0"] else "limits"])


def run_map_real(c):
    return run_map(c, fast=False)


@st.composite
def wavs(draw):
    return {
        "cfg": draw(st.one_of(st.sampled_from(CFGS), st.sampled_from(CFGS), st.sampled_from(BIG))),
        "f": draw(st.one_of(arr_desc(scales=(-1, 2)), arr_desc(scales=(-9, 9)))),
        "oversample": draw(st.sampled_from([False, False, True])),
        "same": draw(st.sampled_from([None, True, False])),
        "vmin": draw(st.sampled_from([None, None, -0.75])),
        "title": draw(st.sampled_from([None, "T"])),
        "known": draw(st.sampled_from(["no", "no", "no", "no", "empty", "dirs"])),
        "dirs": draw(st.sampled_from([2, 3])),
    }


def run_wav(c):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt
    import pys2let

    from pxmcmc.plotting import plot_wavelet_maps

    L, B, J = c["cfg"]
    dirs = 1
    if c["known"] == "empty":
        L, B, J = 5, 2, 1
    elif c["known"] == "dirs":
        L, B, J, dirs = 8, 2, 0, c["dirs"]
    f = arr(c["f"], mwn(L)).reshape(L, 2 * L - 1)
    f0 = f.copy()
    kw = {"oversample": c["oversample"]}
    if c["same"] is not None:
        kw["same_scale"] = c["same"]
    if c["vmin"] is not None:
        kw["vmin"] = c["vmin"]
    if c["title"]:
        kw["title"] = c["title"]
    if dirs > 1:
        kw["dirs"] = dirs
    note = dict(cfg=(L, B, J), **kw)
    kw0 = dict(kw)
    try:
        with projection(True) as pj:
            try:
                figs = plot_wavelet_maps(f, L, B, J, **kw)
            except Exception as e:
                if c["known"] != "no":
                    raise Known("empty-scale" if c["known"] == "empty" else "directional-maps", f"(L,B,J_min)={(L, B, J)} dirs={dirs}: {e}") from None
                raise
            require(kw == kw0 and np.array_equal(f, f0), "plot_wavelet_maps modifies its arguments", **note)
            w, s = pys2let.analysis_px2wav(f0.flatten().astype(complex), B, L, J, dirs, 0, upsample=0)
            bls = bandlimits(L, B, J)
            require(len(figs) == len(bls), "one figure per scale", got=len(figs), expected=len(bls), **note)
            pos = 0
            lims = []
            for k, (fig, b) in enumerate(zip(figs, bls)):
                if k == 0:
                    co = s.real.reshape(b, 2 * b - 1)
                else:
                    co = w.real[pos:pos + mwn(b)].reshape(b, 2 * b - 1)
                    pos += mwn(b) * (2 * dirs - 1)
                ax, im = image_of(fig)
                full = oversampled(co, 256) if c["oversample"] else co
                try:
                    check_image(im, pj.expected(full, full.shape[0]), dict(wav=k, **note))
                except Violation as e:
                    if dirs > 1:
                        raise Known("directional-maps", f"(L,B,J_min)={(L, B, J)} dirs={dirs}: figure {k} does not show scale {k}") from None
                    raise e
                t = ax.get_title()
                require((c["title"] or "") in t and ("Scaling" in t if k == 0 else str(k) in t), "title does not name the scale", got=t, scale=k)
                lims.append(im.get_clim())
            if c["same"] is not False and len(lims) > 2:
                require(len({(float(f"{a:.10e}"), float(f"{b:.10e}")) for a, b in lims[1:]}) == 1, "wavelet maps are not on the same colour scale", limits=lims[1:], **note)
    finally:
        plt.close("all")
    return Result(np.ptp(f0) > 0 and len(bls) > 2, ["same" if c["same"] is not False else "own", "oversampled" if c["oversample"] else "raw"])


@st.composite
def evo(draw):
    return {"n": draw(st.one_of(st.integers(1, 40), st.integers(1, 40), *[st.one_of(st.integers(1, 40), st.integers(41, 5000))] * 3, st.integers(5001, 60000))), "lp": draw(arr_desc(kinds=["normal", "ints", "const", "ramp", "mixed"])), "l2": draw(arr_desc()), "l1": draw(arr_desc()),
            "x": draw(arr_desc()), "cplx": draw(st.booleans()), "shift": draw(st.sampled_from([None, 0, 1, 10, -5]))}


def run_evo(c):
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    from pxmcmc.plotting import plot_chain_sample, plot_evolution

    n = c["n"]
    lp = -np.abs(arr(c["lp"], n)) - 1
    if c["shift"] is not None:  # a log-density is only defined up to a constant, and may be positive
        lp = arr(c["lp"], n) + c["shift"]
    l2, l1 = np.abs(arr(c["l2"], n)) + 0.1, np.abs(arr(c["l1"], n)) + 0.1
    copies = [a.copy() for a in (lp, l2, l1)]
    try:
        fig = plot_evolution(lp, l2, l1)
        require(len(fig.axes) == 3, "three panels", got=len(fig.axes))
        for ax, exp in zip(fig.axes, (-lp, l2, l1)):
            curves = [ln for ln in ax.lines if len(ln.get_xdata()) == n and np.array_equal(np.asarray(ln.get_ydata(), float), exp)]
            require(curves, "a panel does not show its curve", got=[np.asarray(ln.get_ydata())[:4] for ln in ax.lines], expected=exp[:4])
            marks = [ln for ln in ax.lines if ln is not curves[0]]
            require(len(marks) == 1, "one marker per panel", got=len(marks))
            xs = np.unique(np.asarray(marks[0].get_xdata(), dtype=float))
            require(xs.size == 1 and xs[0] == int(xs[0]) and 0 <= xs[0] < n and lp[int(xs[0])] == lp.max(), "the marker is not at a sample of highest log-posterior",
                    got=xs, lp=lp[:8])
            require(ax.get_yscale() == "log", "panel is not logarithmic")
        require(all(np.array_equal(a, b) for a, b in zip((lp, l2, l1), copies)), "plot_evolution modifies its input")
        x = arr(c["x"], n, c["cplx"])
        fig = plot_chain_sample(x)
        require(len(fig.axes) == 2, "two panels", got=len(fig.axes))
        for ax, exp in zip(fig.axes, (x.real, x.imag)):
            require(np.array_equal(np.asarray(ax.lines[0].get_ydata(), float), exp), "a panel does not show its part of the sample")
    finally:
        plt.close("all")
    return Result(n > 2, ["ties" if (lp == lp.max()).sum() > 1 else "unique"])


@st.composite
def moll(draw):
    return {"nside": draw(st.sampled_from([1, 2, 4, 8])), "f": draw(arr_desc(scales=(-2, 3))), "open": draw(st.integers(0, 3)), "seed": draw(SEED),
            "title": draw(st.sampled_from([None, "a map"])), "lim": draw(st.sampled_from([None, [-1.0, 2.0]])), "size": draw(st.sampled_from([None, (5, 4), (12, 3)])),
            "calls": draw(st.integers(1, 3)), "reseed": draw(st.booleans())}


def run_moll(c):
    import contextlib
    import io

    import matplotlib

    matplotlib.use("Agg")
    import healpy as hp
    import matplotlib.pyplot as plt

    from pxmcmc.plotting import mollview

    n = 12 * c["nside"] ** 2
    kw = {}
    if c["title"]:
        kw["title"] = c["title"]
    if c["lim"]:
        kw["min"], kw["max"] = c["lim"]
    if c["size"]:
        kw["figsize"] = c["size"]
    note = {k: v for k, v in c.items() if k != "f"}
    try:
        others = []
        for k in range(c["open"]):
            o = plt.figure()
            o.add_subplot().plot([k, 1, 2])
            others.append((o, o.number, len(o.axes)))
        figs, shown = [], []
        np.random.seed(c["seed"])
        for k in range(c["calls"]):
            if c["reseed"]:
                np.random.seed(c["seed"])
            m = np.roll(arr(c["f"], n), k)
            m0 = m.copy()
            st0 = np.random.get_state()
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                fig = mollview(m, **kw)
            st1 = np.random.get_state()
            require(isinstance(fig, matplotlib.figure.Figure), "mollview does not return a figure", **note)
            require(out.getvalue() == "", "mollview prints", got=out.getvalue()[:80], **note)
            require(np.array_equal(st0[1], st1[1]) and st0[2:] == st1[2:], "drawing a map consumes random numbers", **note)
            require(np.array_equal(m, m0), "mollview modifies the caller's map", **note)
            require(all(fig is not f for f in figs) and all(fig is not o for o, _, _ in others), "mollview draws over an earlier figure", **note)
            figs.append(fig)
            shown.append(m0)
        require(all(plt.fignum_exists(num) and plt.figure(num) is o and len(o.axes) == na for o, num, na in others), "an open figure was drawn over", **note)
        for fig, m in zip(figs, shown):
            ims = [(ax, im) for ax in fig.axes for im in ax.images]
            require(len(ims) == 1, "a map figure shows one map", got=len(ims), **note)
            ax, im = ims[0]
            ref = hp.mollview(m, return_projected_map=True)
            got = im.get_array()
            gm, em = np.ma.getmaskarray(np.ma.masked_invalid(got)), ~np.isfinite(np.ma.filled(np.ma.masked_invalid(ref), np.nan))
            require(got.shape == ref.shape and np.array_equal(gm, em), "the figure does not show the map's shape", **note)
            close(np.asarray(np.ma.filled(got, 0.0))[~gm], np.asarray(np.ma.filled(ref, 0.0))[~em], "the figure does not show the map", rtol=1e-9, **note)
            if c["lim"]:
                require(tuple(im.get_clim()) == tuple(c["lim"]), "colour limits", got=im.get_clim(), **note)
            if c["title"]:
                require(ax.get_title() == c["title"], "title", got=ax.get_title(), **note)
            close(fig.get_size_inches(), c["size"] or (10, 8), "figure size", rtol=1e-9, **note)
    finally:
        plt.close("all")
    return Result(np.ptp(shown[0]) > 0, [f"calls{c['calls']}"])


TARGETS = [
    Target("maps", maps(), run_map, 260, 4000, shards=4),
    Target("projection", maps(), run_map_real, 10, 120, shards=2),
    Target("wavelets", wavs(), run_wav, 90, 1000, shards=4),
    Target("healpix", moll(), run_moll, 40, 600, shards=3),
    Target("evolution", evo(), run_evo, 100, 1500, shards=3),
]
