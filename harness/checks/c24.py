"""C24: the shipped experiments solve the problem their command line describes."""
import contextlib
import functools
import glob
import logging
import os
import re
import shutil
import sys
import tempfile
import types

import numpy as np
from hypothesis import strategies as st

from harness.core import REPO, Result, Target, close, fail, require
from harness.checks.c15 import power_weights
from harness.checks.c21 import oversampled
from harness.checks.c22 import galactic_b
from harness.gen import SEED, bandlimits, mwn, quad_weights, quiet, rng, wav_configs
from harness.sphere import ref_inverse, ref_sizes

PROPERTY = "C24"
RULE = (
    "The three main scripts and their plotting scripts, run as a user runs them (command line, working directory, files), with random options and generated "
    "input files; chain lengths are cut to a few samples. The saved file is judged against data built independently from the same inputs with healpy, pyssht and "
    "pys2let: misfit, prior and log-posterior of every saved sample, noise, options recorded as attributes; the plotting scripts against figures and arrays "
    "recomputed from the saved file. Non-trivial: a run with two or more saved samples."
)
logging.getLogger("healpy").setLevel(logging.ERROR)
EXP = os.path.join(REPO, "experiments")
TOPO = os.path.join(EXP, "earthtopography", "ETOPO1_Ice_hpx_256.fits")
ALGOS = ["myula", "pxmala", "skrock"]
NS = 5


@contextlib.contextmanager
def workdir():
    old = os.getcwd()
    tmp = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
    os.chdir(tmp)
    try:
        yield tmp
    finally:
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)


@functools.lru_cache(maxsize=None)
def lookup(L):
    """Which sample each point of the Mollweide projection shows (-1: outside)."""
    import pyssht

    p, rest = pyssht.mollweide_projection(np.arange(mwn(L), dtype=float).reshape(L, 2 * L - 1), L)
    return np.where(np.isfinite(p), p, -1).astype(int), rest


def projected(f):
    at, _ = lookup(f.shape[0])
    return np.where(at >= 0, np.asarray(f).ravel()[at], np.nan)


FIGURES = {}  # what the figures saved by the last script show


def shown(fig):
    return {"images": [(np.ma.filled(np.ma.masked_invalid(im.get_array()), np.nan), im.get_clim()) for ax in fig.axes for im in ax.images],
            "lines": [[np.asarray(ln.get_ydata()) for ln in ax.lines] for ax in fig.axes], "title": " ".join(ax.get_title() for ax in fig.axes)}


def script(folder, name, args, seed=0):
    """Runs a script as __main__ with short chains, seeded, quiet; returns what it printed."""
    import runpy

    import matplotlib.pyplot as plt
    import pyssht

    import pxmcmc.mcmc as mc

    lookup(256)
    FIGURES.clear()
    project = pyssht.mollweide_projection

    def gather(f, L, *a, **k):  # the same projection, looked up
        if a or k or L != 256 or np.shape(f) != (256, 511) or np.iscomplexobj(f):
            return project(f, L, *a, **k)
        return projected(f), lookup(256)[1]

    path = os.path.join(EXP, folder, name)
    init, reseed, save = mc.PxMCMCParams.__init__, np.random.seed, plt.Figure.savefig
    argv, state = sys.argv, np.random.get_state()

    @functools.wraps(init)
    def short(self, *a, **k):
        init(self, *a, **k)
        self.nsamples, self.ngap, self.nburn = min(self.nsamples, NS), min(self.ngap, 2), min(self.nburn, 3)

    def seeded(s=None):
        reseed(seed if s is None else s)

    def small(self, *a, **k):
        k["dpi"] = 10
        FIGURES[os.path.basename(str(a[0] if a else k["fname"]))] = shown(self)
        return save(self, *a, **k)

    try:
        mc.PxMCMCParams.__init__, np.random.seed, plt.Figure.savefig = short, seeded, small
        pyssht.mollweide_projection = gather
        sys.argv = [path] + [str(a) for a in args]
        reseed(seed)
        with quiet() as out:
            try:
                runpy.run_path(path, run_name="__main__")
            except SystemExit as e:
                if e.code not in (None, 0):
                    fail("the script refuses its documented command line", script=f"{folder}/{name}", args=args)
        return out.getvalue()
    finally:
        pyssht.mollweide_projection = project
        mc.PxMCMCParams.__init__, np.random.seed, plt.Figure.savefig = init, reseed, save
        sys.argv = argv
        np.random.set_state(state)
        plt.close("all")


def mw_of_hpx(m, L):
    """MW samples of a real healpix map band-limited at L."""
    import healpy as hp
    import pyssht

    a = hp.map2alm(m, lmax=L - 1)
    flm = np.zeros(L * L, dtype=complex)
    for el in range(L):
        for k in range(el + 1):
            v = a[hp.Alm.getidx(L - 1, el, k)]
            flm[el * el + el + k] = v
            flm[el * el + el - k] = (-1) ** k * np.conj(v)
    return pyssht.inverse(flm, L).real.ravel()


@functools.lru_cache(maxsize=None)
def topography(L):
    import healpy as hp

    with quiet():
        return mw_of_hpx(hp.read_map(TOPO, dtype=float), L)


@functools.lru_cache(maxsize=None)
def quad(L, B, J):
    return np.concatenate([quad_weights(b) for b in bandlimits(L, B, J)])


def saved(tmp, algo, jobid, cfg, want):
    """The one file a run leaves, read back: datasets, attributes; its name and the options it records."""
    import h5py

    got = glob.glob(os.path.join(glob.escape(tmp), "*.hdf5"))
    require(len(got) == 1, "a run saves exactly one file", got=got)
    require(re.fullmatch(re.escape(f"{algo}_synthesis_") + r"\d{6}_\d{6}" + re.escape(f"_{jobid}.hdf5"), os.path.basename(got[0])),
            "name of the saved file", got=os.path.basename(got[0]), algo=algo, jobid=jobid)
    with h5py.File(got[0], "r") as f:
        d = {k: f[k][()] for k in f}
        a = {k: f.attrs[k] for k in f.attrs}
    require(("acceptances" in d) == (algo == "pxmala"), "the saved run is not of the algorithm asked for", algo=algo, datasets=sorted(d))
    L, B, J = cfg
    want = dict(want, L=L, B=B, J_min=J, nparams=sum(ref_sizes(cfg)), setting="synthesis")
    for k, v in want.items():
        require(k in a and (a[k] == v if isinstance(v, str) else np.isclose(a[k], v, rtol=1e-12, atol=0)), "an option is not recorded as given", option=k, got=a.get(k), expected=v)
    n = a["nsamples"]
    require(d["chain"].shape == (n, want["nparams"]) and np.isrealobj(d["chain"]), "shape of the saved chain", got=d["chain"].shape)
    require(len(np.unique(d["chain"][:, 0])) > 1 or algo == "pxmala", "the chain does not move")
    return got[0], d, a


def judge(d, a, forward, data, weight, prior_w, **ctx):
    """weight: what multiplies |residual|^2 in the misfit."""
    for i in range(len(d["chain"])):
        x = d["chain"][i]
        r = data - forward(x)
        L2 = float(np.sum(weight * np.abs(r) ** 2))
        sc = float(np.sum(weight * (np.abs(data) ** 2 + np.abs(data - r) ** 2)))
        close(d["L2s"][i], L2, "the saved misfit is not that of the documented data and errors", rtol=1e-8, scale=sc, atol=0, sample=i, **ctx)
        pr = float(np.sum(prior_w * np.abs(x)))
        close(d["priors"][i], pr, "the saved prior is not the documented one", rtol=1e-9, scale=pr, atol=0, sample=i, **ctx)
        close(d["logposterior"][i], -a["mu"] * pr - L2 / 2, "the saved log-posterior", rtol=1e-8, scale=a["mu"] * pr + sc, atol=0, sample=i, **ctx)


def options(draw):
    o = {"algo": draw(st.sampled_from(ALGOS)), "seed": draw(SEED) % 2**31}
    for k, s in (("delta", st.sampled_from([1e-6, 1e-7, 3e-8])), ("mu", st.sampled_from([1.0, 0.1, 20.0])), ("jobid", st.sampled_from(["0", "run7", "a.b"]))):
        if draw(st.booleans()):
            o[k] = draw(s)
    o["outdir"] = draw(st.booleans())
    o["explicit"] = draw(st.booleans())
    return o


def command(o, L):
    args = ["--L", L]
    if o["explicit"] or o["algo"] != "myula":
        args += ["--algo", o["algo"]]
    if o["explicit"]:
        args += ["--setting", "synthesis"]
    for k in ("delta", "mu", "jobid"):
        if k in o:
            args += ["--" + k, o[k]]
    if o["outdir"]:
        os.mkdir("results")
        args += ["--outdir", "results"]
    want = {"delta": o.get("delta", 1e-6), "mu": o.get("mu", 1.0)}
    return args, want, os.path.join(os.getcwd(), "results") if o["outdir"] else os.getcwd()


# ------------------------------------------------------------------ Earth topography
def good(B, J, lo, hi):
    return [c[0] for c in wav_configs(lo, hi, Bs=(B,), maxJ=J) if c[2] == J]


L_TOPO, L_2 = good(1.5, 2, 4, 20), good(2, 2, 5, 20)


@st.composite
def topos(draw):
    c = {"o": options(draw), "L": draw(st.sampled_from(L_TOPO)), "noise": draw(st.booleans()), "africa": draw(st.sampled_from([None, 0, 1, 10])),
         "file": draw(st.sampled_from(["fits", "fits", "1d", "2d"])), "again": draw(st.booleans()), "plot": False, "save": False}
    if draw(st.booleans()):
        c["sigma"] = draw(st.sampled_from([0.5, 1.0, 30.0]))
    return c


@st.composite
def topo_plots(draw):
    c = draw(topos())
    c.update(plot=True, save=draw(st.sampled_from([True, True, False])), burn=draw(st.sampled_from([1, 2, 0])))
    return c


def pixel_areas(L):
    import pyssht

    th, _ = pyssht.sample_positions(L)
    edges = np.concatenate([[0.0], th])
    ring = (np.cos(edges[:-1]) - np.cos(edges[1:])) * 2 * np.pi
    return np.repeat(ring / (2 * L - 1), 2 * L - 1)


@functools.lru_cache(maxsize=None)
def africa(L):
    """Pixels nearest to the block 60..120 degrees colatitude, -30..30 longitude (None where a rounding decides)."""
    import pyssht

    m = np.zeros((L, 2 * L - 1), dtype=bool)
    for t in np.deg2rad(np.linspace(60, 120, 100)):
        for p in np.deg2rad(np.linspace(-30, 30, 100)):
            m[pyssht.theta_to_index(t, L), pyssht.phi_to_index(p, L)] = True
    return m.ravel()


def run_topo(c):
    L, B, J = c["L"], 1.5, 2
    cfg = (L, B, J)
    o = c["o"]
    g = rng(o["seed"])
    with workdir() as tmp:
        args, want, out = command(o, L)
        if c["file"] == "fits":
            args += ["--infile", TOPO]
            topo = topography(L)
        else:
            topo = 1000 * g.standard_normal(mwn(L))
            np.save("t_mw_.npy", topo if c["file"] == "1d" else topo.reshape(L, 2 * L - 1))
            args += ["--infile", "t_mw_.npy"]
        if c["noise"]:
            args += ["--makenoise"]
        if c["africa"] is not None:
            args += ["--scaleafrica", c["africa"]]
        sigma = c.get("sigma", 1.0)
        if "sigma" in c:
            args += ["--sigma", sigma]
        text = script("earthtopography", "main.py", args, o["seed"])
        want.update(sigma=sigma, scaleafrica=c["africa"] or 0)
        path, d, a = saved(out, o["algo"], o.get("jobid", "0"), cfg, want)
        require(f"Number of model parameters: {sum(ref_sizes(cfg))}" in text, "the number of model parameters is not announced", L=L)
        noise, err = 0.0, np.full(mwn(L), float(sigma))
        if c["noise"]:
            err = sigma / np.sqrt(pixel_areas(L))
            if c["africa"]:
                err = np.where(africa(L), err * c["africa"], err)
            noise = np.asarray(a["noise"])
            require(noise.shape == (mwn(L),), "the added noise is not saved", got=noise.shape)
            z = noise / err
            n = len(z)
            # the noise is the same in every run; the bounds hold for standard normals with probability > 1 - 1e-9
            require(np.abs(z).max() < 7 and abs(np.sum(z**2) - n) < 6.5 * np.sqrt(2 * n) + 22 and abs(z.mean()) < 6.2 / np.sqrt(n),
                    "the noise added is not of the level documented", chi2=float(np.sum(z**2)), n=n, L=L)
            if c["again"]:
                os.mkdir("again")
                script("earthtopography", "main.py", args + ["--outdir", "again"], o["seed"] + 1)
                _, d2, a2 = saved(os.path.join(tmp, "again"), o["algo"], o.get("jobid", "0"), cfg, want)
                require(np.array_equal(a2["noise"], noise), "two runs on the same data add different noise", L=L)
                require(not np.array_equal(d2["chain"][-1], d["chain"][-1]), "runs with other random numbers visit the same samples", L=L)
        else:
            require(np.ndim(a["noise"]) == 0 and a["noise"] == 0, "noise is reported though none was asked for", got=a["noise"])
        data = (topo + noise) / 1000
        fw = lambda x: ref_inverse(cfg, x)  # noqa: E731
        judge(d, a, fw, data, 1 / err**2, quad(*cfg), L=L, algo=o["algo"], noise=c["noise"])
        if c["plot"]:
            os.symlink(TOPO, "ETOPO1_Ice_hpx_256.fits")
            figs = ["evolution", "truth", "MAP", "diff", "MAP_wvlt", "ci_map", "mean", "diff_mean"] + (["noise"] if c["noise"] else [])
            plots("earthtopography", c, path, d, a, cfg, topography(L) / 1000, figs, 0.05, ["mean", "MAP", "CI", "diff", "diff_mean"])
    return Result(True, [o["algo"], c["file"], "noise" if c["noise"] else "no noise"])


def plots(folder, c, path, d, a, cfg, truth, figs, alpha, arrays, flags=(), blank=False):
    """Runs plot.py on the saved file: its figures and what they show, and the summary arrays it saves."""
    import pys2let

    L = cfg[0]
    os.mkdir("figures")
    args = [path, "figures", "--burn", c["burn"], "--suffix", "_s"] + list(flags)
    if c["save"]:
        args.append("--save_npy")
    before = open(path, "rb").read()
    text = script(folder, "plot.py", args)
    require(open(path, "rb").read() == before, "plotting changes the saved run")
    got = set(os.listdir("figures"))
    want = {f"{f}_s.png" for f in figs}
    require(want <= got, "a figure is missing", missing=sorted(want - got))
    img = np.array([ref_inverse(cfg, x).real for x in d["chain"]])
    kept = img[c["burn"]:]
    best = img[int(np.argmax(d["logposterior"]))]
    exp = {"mean": kept.mean(axis=0), "MAP": best, "CI": np.diff(np.quantile(kept, (alpha / 2, 1 - alpha / 2), axis=0), axis=0)[0],
           "diff": truth - best, "diff_mean": truth - kept.mean(axis=0)}
    pics = {"MAP": exp["MAP"], "mean": exp["mean"], "ci_map": exp["CI"], "diff": exp["diff"], "diff_mean" if "diff_mean" in figs else "diffmean": exp["diff_mean"]}
    if folder != "earthtopography":
        pics.update({k: np.abs(v) for k, v in pics.items() if k.startswith("diff")})
    else:
        pics["truth"] = truth
        if "noise" in figs:
            pics["noise"] = a["noise"] / 1000
    if folder == "phasevel":  # and scale by scale
        sizes = bandlimits(*cfg)
        chain = d["chain"][c["burn"]:]
        wav = np.diff(np.quantile(chain, (0.025, 0.975), axis=0), axis=0)[0]
        w, sc = pys2let.analysis_px2wav(exp["mean"].astype(complex), cfg[1], L, cfg[2], 1, 0, upsample=0)
        mw = np.concatenate([sc, w]).real
        k0 = 0
        for i, b in enumerate(sizes):
            pics[f"ci_map_scale{i}"], pics[f"mean_scale{i}"] = wav[k0:k0 + mwn(b)], mw[k0:k0 + mwn(b)]
            k0 += mwn(b)
        lims = {FIGURES[f"ci_map_scale{i}_s.png"]["images"][0][1] for i in range(len(sizes))}
        require(len(lims) == 1, "the uncertainties of the scales are not shown on one colour scale", limits=sorted(lims))
    top = float(np.abs(img).max() + np.abs(truth).max())
    for k, v in pics.items():
        if f"{k}_s.png" not in FIGURES:
            continue
        f = FIGURES[f"{k}_s.png"]
        require(f["images"], "a map figure shows no map", name=k)
        b = next(b for b in range(1, 999) if mwn(b) == np.size(v))
        v = np.reshape(v, (b, 2 * b - 1))
        want_pic = projected(v if k == "noise" else np.where(blank, np.nan, oversampled(v, 256)))
        got_pic = f["images"][0][0]
        require(got_pic.shape == want_pic.shape and np.array_equal(np.isnan(got_pic), np.isnan(want_pic)), "a figure blanks the wrong part of the map", name=k, L=L)
        close(np.nan_to_num(got_pic), np.nan_to_num(want_pic), "a figure does not show what it is named after", rtol=1e-6, scale=top, atol=0, name=k, L=L, burn=c["burn"])
        level = re.search(r"(\d+(?:\.\d+)?)\s*%", f["title"])
        if level and k.startswith("ci"):
            require(abs(float(level[1]) / 100 - (1 - (alpha if k == "ci_map" else 0.05))) < 1e-9, "a figure is labelled with another level than it shows", name=k, title=f["title"])
    ev = FIGURES["evolution_s.png"]["lines"]
    for want_line, at in ((-d["logposterior"], "log-posterior"), (d["L2s"], "misfit"), (d["priors"], "prior")):
        require(any(len(ln) == len(want_line) and np.allclose(ln, want_line, rtol=1e-12, atol=0) for ax in ev for ln in ax), "the evolution is not that of the saved run", curve=at)
    best_x = d["chain"][int(np.argmax(d["logposterior"]))]
    require(any(len(ln) == len(best_x) and np.allclose(ln, best_x, rtol=1e-12, atol=0) for ax in FIGURES["MAP_wvlt_s.png"]["lines"] for ln in ax),
            "the coefficients shown are not those of the best sample")
    if c["save"]:
        for k in arrays:
            require(f"{k}_s.npy" in got, "a summary array is not saved", name=k, got=sorted(got))
            v = np.load(os.path.join("figures", f"{k}_s.npy")).ravel()
            close(v, exp[k], "a saved summary is not that of the samples", rtol=1e-7, scale=float(np.abs(img).max() + np.abs(truth).max()), atol=0, name=k, L=L)
    return text, exp, kept


def printed(text, label):
    m = re.search(re.escape(label) + r": (\S+)", text)
    require(m, "a quality figure is not printed", label=label, text=text[:300])
    return float(m.group(1))


# ------------------------------------------------------------------ phase velocity
@st.composite
def phases(draw):
    c = {"o": options(draw), "L": draw(st.sampled_from(L_2)), "n": draw(st.integers(1, 12)), "eta": draw(st.sampled_from([None, 0.5, 1.0, 2.0, 0.0])), "nsim": draw(st.booleans()),
         "signs": draw(st.booleans()), "matrix": draw(st.sampled_from(["given", "given", "built"])), "plot": False, "save": False}
    return c


@st.composite
def phase_plots(draw):
    c = draw(phases())
    c.update(plot=True, L=28, save=draw(st.sampled_from([True, True, False])), burn=draw(st.sampled_from([1, 2, 0])), matrix="given", n=draw(st.integers(2, 12)))
    return c


def paths_of(rows, L):
    from greatcirclepaths import GreatCirclePath

    out = []
    for r in rows:
        p = GreatCirclePath(r[:2], r[2:4], "MW", L=L, weighting="average", latlon=True)
        p.get_points(points_per_rad=160)
        p.fill()
        out.append(np.asarray(p.map).ravel())
    return np.array(out)


def run_phase(c):
    from scipy import sparse

    L = c["L"]
    cfg = (L, 2, 2)
    o = c["o"]
    g = rng(o["seed"])
    n = c["n"]
    tab = np.c_[g.uniform(-80, 80, n), g.uniform(-180, 180, n), g.uniform(-80, 80, n), g.uniform(-180, 180, n), g.standard_normal(n), g.uniform(0.05, 0.5, n), g.integers(0, 2, n),
                g.integers(1, 9, n)]
    if c["signs"]:
        tab[:, 5] *= g.choice([-1, 1], n)
    with workdir():
        np.savetxt("data.txt", tab, fmt="%.17g")
        args, want, out = command(o, L)
        if c["matrix"] == "given":
            M = g.random((n, mwn(L))) * (g.random((n, mwn(L))) < 0.1)
            sparse.save_npz("paths.npz", sparse.csr_matrix(M))
        else:
            M = paths_of(tab, L)
        if c["eta"] is not None:
            args += ["--eta", c["eta"]]
        if c["nsim"]:
            args += ["--nsim"]
        text = script("phasevel", "main.py", ["data.txt", "paths.npz"] + args, o["seed"])
        eta = 1.0 if c["eta"] is None else c["eta"]
        want.update(eta=eta, nsim=c["nsim"], lmda=want["delta"] / 2)
        path, d, a = saved(out, o["algo"], o.get("jobid", "0"), cfg, want)
        require(f"Number of data points: {n}" in text and f"Number of model parameters: {sum(ref_sizes(cfg))}" in text, "the size of the problem is not announced", text=text[:200])
        P = sparse.load_npz("paths.npz").toarray()
        close(P, M, "the path matrix is not that of the paths", rtol=1e-12, matrix=c["matrix"], L=L)
        err = np.abs(tab[:, 5]) * (np.sqrt(tab[:, 7]) if c["nsim"] else 1)
        fw = lambda x: M @ ref_inverse(cfg, x)  # noqa: E731
        judge(d, a, fw, tab[:, 4], 1 / err**2, power_weights(*cfg, eta), L=L, algo=o["algo"], nsim=c["nsim"], eta=eta)
        if c["plot"]:
            shutil.copy(os.path.join(EXP, "phasevel", "GDM40_L28.npy"), "GDM40_L28.npy")
            shutil.copy("paths.npz", "0S254L28.npz")
            shutil.copy("data.txt", "synthetic_GDM40_0S254_L28.txt")
            k = len(bandlimits(*cfg))
            figs = ["evolution", "MAP", "diff", "MAP_wvlt", "ci_map", "mean"] + [f"ci_map_scale{i}" for i in range(k)] + [f"mean_scale{i}" for i in range(k)]
            truth = np.load("GDM40_L28.npy").ravel().real
            text, exp, _ = plots("phasevel", c, path, d, a, cfg, truth, figs, 0.01, ["mean", "MAP", "CI", "diff", "diff_mean"])
            db = lambda v: 20 * np.log10(np.linalg.norm(truth) / np.linalg.norm(v))  # noqa: E731
            require(abs(printed(text, "MAP SNR") - db(exp["diff"])) < 0.02 and abs(printed(text, "Mean SNR") - db(exp["diff_mean"])) < 0.02, "printed signal-to-noise ratio", text=text[-400:])
            for k, lab in (("MAP", "MAP R2E"), ("mean", "Mean R2E")):
                e = float(np.sum((M @ exp[k] - tab[:, 4]) ** 2) / np.sum(tab[:, 4] ** 2))
                require(abs(printed(text, lab) - e) <= 0.01 * e, "printed prediction error", label=lab, expected=e, text=text[-400:])
    return Result(True, [o["algo"], c["matrix"], "nsim" if c["nsim"] else "plain"])


# ------------------------------------------------------------------ weak lensing
@functools.lru_cache(maxsize=None)
def hidden():
    from pxmcmc.utils import build_mask

    return build_mask(256, size=20) == 0


@st.composite
def lenses(draw):
    return {"o": options(draw), "L": draw(st.sampled_from(L_2)), "nside": draw(st.sampled_from([4, 8, 16])), "plot": False, "save": False}


@st.composite
def lens_plots(draw):
    c = draw(lenses())
    c.update(plot=True, save=draw(st.sampled_from([True, True, False])), burn=draw(st.sampled_from([1, 2, 0])), reveal=draw(st.booleans()))
    return c


def run_lens(c):
    import healpy as hp
    import pyssht
    from pxmcmc.utils import build_mask

    L = c["L"]
    cfg = (L, 2, 2)
    o = c["o"]
    g = rng(o["seed"])
    hpx = g.standard_normal(12 * c["nside"] ** 2)
    with workdir():
        with quiet():
            hp.write_map("kappa.fits", hpx, dtype=np.float64)
            bl = hp.alm2map(hp.map2alm(hpx, lmax=L - 1), nside=3 * (L - 1) - 1)
            kappa = mw_of_hpx(hp.smoothing(bl, sigma=np.radians(50 / 60)), L)
        args, want, out = command(o, L)
        text = script("weaklensing", "main.py", ["kappa.fits"] + args, o["seed"])
        want.update(lmda=want["delta"] / 2)
        path, d, a = saved(out, o["algo"], o.get("jobid", "0"), cfg, want)
        b, dec = galactic_b(L)

        def seen(size):
            on = (np.abs(b) >= size) & (np.abs(dec) >= size)
            edge = (np.abs(np.abs(b) - size) < 0.02) | (np.abs(np.abs(dec) - size) < 1e-9)
            # pixels on the very edge of the mask (C22 has the mask itself) are taken as the library takes them
            return np.where(edge, build_mask(L, size=size) != 0, on) if edge.any() else on

        on = seen(10)
        el = np.array([int(np.sqrt(i)) for i in range(L * L)], dtype=float)
        ker = np.where(el >= 2, -np.sqrt((el + 2) * (el - 1) / np.where(el >= 2, (el + 1) * el, 1)), 0)

        def shear(k):
            klm = pyssht.forward(np.ascontiguousarray(np.reshape(k, (L, 2 * L - 1)).astype(complex)), L, Spin=0)
            return pyssht.inverse(klm * ker, L, Spin=2)

        w = np.sqrt(2 * 30) / 0.37
        require(f"Number of data points: {int(on.sum())}" in text, "the number of observed pixels", expected=int(on.sum()), text=text[:200])
        data = w * shear(kappa)[on]
        # the errors the script passes on are 1/w
        judge(d, a, lambda x: w * shear(ref_inverse(cfg, x))[on], data, w**2, quad(*cfg), L=L, algo=o["algo"])
        if c["plot"]:
            shutil.copy("kappa.fits", "takahasi_4096_000_zs16_kappa.fits")
            figs = ["evolution", "MAP", "diff", "MAP_wvlt", "ci_map", "mean", "diffmean"]
            text, exp, _ = plots("weaklensing", c, path, d, a, cfg, kappa, figs, 0.05, ["mean", "MAP", "CI", "diff", "diff_mean"], ["--no-mask"] if c["reveal"] else [],
                                 blank=False if c["reveal"] else hidden())
            on = (np.ones_like(on) if c["reveal"] else seen(20)).ravel()
            if on.any():
                db = lambda v: 20 * np.log10(np.linalg.norm(kappa[on]) / np.linalg.norm(v[on]))  # noqa: E731
                require(abs(printed(text, "MAP SNR") - db(exp["diff"])) < 0.02 and abs(printed(text, "Mean SNR") - db(exp["diff_mean"])) < 0.02, "printed signal-to-noise ratio",
                        text=text[-400:], reveal=c["reveal"])
                for k, lab in (("MAP", "MAP R2E"), ("mean", "Mean R2E")):
                    s0 = shear(kappa).ravel()[on]
                    e = float(np.sum(np.abs(shear(exp[k]).ravel()[on] - s0) ** 2) / np.sum(np.abs(s0) ** 2))
                    require(abs(printed(text, lab) - e) <= 0.01 * e, "printed prediction error", label=lab, expected=e, text=text[-400:])
    return Result(True, [o["algo"], f"nside {c['nside']}"])


# ------------------------------------------------------------------ bandlimits nearer to those of the publications
@st.composite
def fine(draw):
    which = draw(st.sampled_from(["topography", "phasevel", "weaklensing"]))
    c = draw({"topography": topos, "phasevel": phases, "weaklensing": lenses}[which]())
    c.update(which=which, L=draw(st.sampled_from([28, 32, 35, 48, 64, 67, 70])))
    if "matrix" in c:
        c["n"] = max(c["n"], 3)
    return c


def run_fine(c):
    return {"topography": run_topo, "phasevel": run_phase, "weaklensing": run_lens}[c["which"]](c)


# ------------------------------------------------------------------ helpers the scripts offer for import
@st.composite
def helpers(draw):
    return {"seed": draw(SEED), "n": draw(st.integers(1, 20)), "nside": draw(st.sampled_from([1, 2, 4, 8])), "negative": draw(st.booleans())}


def load(folder, name):
    import importlib.util

    spec = importlib.util.spec_from_file_location(f"exp_{folder}_{name}", os.path.join(EXP, folder, name + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    return m


def run_helpers(c):
    import healpy as hp

    g = rng(c["seed"])
    with workdir(), quiet():
        m = load("phasevel", "main")
        n = max(c["n"], 2)
        tab = np.round(g.uniform(-1, 1, (n, 8)) * 10.0 ** g.integers(-3, 3), 9)
        if not c["negative"]:
            tab[:, 5] = np.abs(tab[:, 5])
        np.savetxt("d.txt", tab, fmt="%.17g")
        start, stop, data, sig, mima, nsim = m.read_datafile("d.txt")
        for got, exp, what in ((start, tab[:, :2], "start"), (stop, tab[:, 2:4], "stop"), (data, tab[:, 4], "data"), (sig, np.abs(tab[:, 5]), "errors"), (mima, tab[:, 6], "orbit"),
                               (nsim, tab[:, 7], "similar paths")):
            require(np.array_equal(got, exp), "a column of the data file is read wrongly", column=what, got=got, expected=exp)
        # the simulation's binary format
        stubs = {k: types.ModuleType(k) for k in ("requests", "tqdm") if k not in sys.modules}
        stubs.get("tqdm", types.SimpleNamespace()).tqdm = None
        sys.modules.update(stubs)
        try:
            t = load("weaklensing", "download_takahasi")
        finally:
            for k in stubs:
                sys.modules.pop(k, None)
        npix = 12 * c["nside"] ** 2
        maps = g.standard_normal((4, npix)).astype("float32")
        with open("x.dat", "wb") as f:
            np.array([12], "uint32").tofile(f)
            np.array([c["nside"]], "int32").tofile(f)
            np.array([npix], "int64").tofile(f)
            np.array([12], "uint32").tofile(f)
            for k in maps:
                np.array([4 * npix], "uint32").tofile(f)
                k.tofile(f)
                np.array([4 * npix], "uint32").tofile(f)
        t.binary_to_fits("x.dat")
        require(np.array_equal(hp.read_map("output.fits"), maps[0]), "the convergence map read from the simulation's file", nside=c["nside"])
        w = load("weaklensing", "main")  # can be imported for its functions
        require(callable(w.load_gammas), "load_gammas is missing")
    return Result(c["n"] > 1, ["negative" if c["negative"] else "positive"])


TARGETS = [
    Target("topography", topos(), run_topo, 48, 600, shards=8),
    Target("topography-plots", topo_plots(), run_topo, 16, 120, shards=4),
    Target("phasevel", phases(), run_phase, 40, 500, shards=8),
    Target("phasevel-plots", phase_plots(), run_phase, 12, 90, shards=4),
    Target("weaklensing", lenses(), run_lens, 40, 500, shards=8),
    Target("weaklensing-plots", lens_plots(), run_lens, 16, 120, shards=4),
    Target("fine", fine(), run_fine, 16, 100, shards=8),
    Target("helpers", helpers(), run_helpers, 40, 400, shards=2),
]
