"""C20: a saved run reads back as the run that was saved."""
import os
import shutil
import tempfile

import numpy as np
from hypothesis import strategies as st

from harness.checks.c04 import ATTR, SAMPLERS, TRACKABLE, make
from harness.core import Result, Target, require
from harness.gen import SEED, arr, arr_desc, build, np_seed, problems, quiet, start_vec

PROPERTY = "C20"
RULE = (
    "Random problems x sampler x tracked statistics, run for real, saved with random extra attributes (numbers, strings incl. non-ASCII, booleans, "
    "lists, real/complex/large arrays), file names and pre-existing files, and re-read with h5py: every tracked array bit-identical, nothing else in the "
    "file, all parameters and extras present as attributes. Non-trivial: at least one dataset with two or more samples."
)
DATASET = {"logposterior": "logposterior", "L2": "L2s", "prior": "priors", "chain": "chain", "predictions": "predictions"}

extra = st.one_of(
    st.tuples(st.just("int"), st.integers(-2**40, 2**40)),
    st.tuples(st.just("float"), st.floats(allow_nan=False)),
    st.tuples(st.just("bool"), st.booleans()),
    st.tuples(st.just("str"), st.text(st.characters(codec="utf-8", exclude_characters="\x00"), max_size=40)),
    st.tuples(st.just("floats"), st.lists(st.floats(-1e6, 1e6), min_size=1, max_size=5)),
    st.tuples(st.just("strs"), st.lists(st.text(st.characters(codec="ascii", exclude_characters="\x00"), max_size=8), min_size=1, max_size=4)),
    st.tuples(st.just("array"), st.integers(0, 40)),
    st.tuples(st.just("big"), st.integers(8000, 30000)),
    st.tuples(st.just("2d"), st.integers(1, 12)),
)


@st.composite
def cases(draw):
    return {
        "p": draw(problems(nmax=draw(st.sampled_from([5, 5, 5, 5, 5, 5, 5, 40, 40, 300])))),
        "sampler": draw(st.sampled_from(SAMPLERS)),
        "frac": draw(st.sampled_from([0.1, 0.9, 2.5])),
        "lmda": draw(st.sampled_from([0.05, 0.5])),
        "s": draw(st.integers(1, 3)),
        "track": draw(st.lists(st.sampled_from(TRACKABLE), unique=True, max_size=5)),
        "default_track": draw(st.booleans()),
        "nsamples": draw(st.one_of(st.integers(1, 8), st.integers(1, 8), st.integers(1, 8), st.sampled_from([60, 300, 1100]))),
        "nburn": draw(st.integers(0, 4)),
        "ngap": draw(st.integers(0, 3)),
        "start": draw(arr_desc(scales=(-1, 1))),
        "seed": draw(SEED),
        "filename": draw(st.sampled_from([None, "outputs", "run.1", "with space", "a-b_c", "x.hdf5", "ünïcode"])),
        "existing": draw(st.sampled_from(["none", "none", "same", "other", "junk"])),
        "extras": draw(st.lists(extra, max_size=4)),
        "eseed": draw(arr_desc()),
    }


def value(e, d):
    k, v = e
    if k == "array":
        return arr(d, v, v % 2 == 1)
    if k == "big":
        return arr(d, v, v % 2 == 1)
    if k == "2d":
        return arr(d, 2 * v, v % 2 == 0).reshape(2, v)
    return v


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.dtype.kind in "USO" or b.dtype.kind in "USO":
        f = lambda x: x.decode() if isinstance(x, bytes) else x  # noqa: E731
        return a.shape == b.shape and [f(x) for x in a.ravel().tolist()] == [f(x) for x in b.ravel().tolist()]
    return a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind in "fc") and (a.dtype.kind == "c") == (b.dtype.kind == "c")


def run(c):
    import h5py

    from pxmcmc.mcmc import PxMCMCParams
    from pxmcmc.saving import save_mcmc

    ref, op, prior = build(c["p"], record=True, budget=30000)
    kw = {} if c["default_track"] else {"track": list(c["track"])}
    par = PxMCMCParams(lmda=c["lmda"], delta=c["frac"] / ref.lipschitz(c["lmda"]), mu=c["p"]["mu"], s=c["s"], nsamples=c["nsamples"], nburn=c["nburn"],
                       ngap=c["ngap"], complex=ref.cplx_params, verbosity=0, **kw)
    with np_seed(c["seed"]), quiet():
        m = make(c["sampler"], op, prior, par)
        m.run(start_vec(ref, c["start"]))
    track = ["logposterior", "L2", "prior", "chain"] if c["default_track"] else c["track"]
    extras = {f"extra{i}": value(e, c["eseed"]) for i, e in enumerate(c["extras"])}
    before = {t: np.array(getattr(m, ATTR[t]), copy=True) for t in track}
    tmp = tempfile.mkdtemp(dir=os.environ.get("VERIF_SCRATCH"))
    try:
        name = c["filename"] or "outputs"
        path = os.path.join(tmp, name + ".hdf5")
        other = os.path.join(tmp, "neighbour.hdf5")
        if c["existing"] == "same":
            with h5py.File(path, "w") as f:
                f.create_dataset("chain", data=np.ones(3))
                f.create_dataset("stale", data=np.ones(3))
                f.attrs["stale"] = 1
        elif c["existing"] == "junk":
            open(path, "wb").write(b"not an hdf5 file")
        elif c["existing"] == "other":
            with h5py.File(other, "w") as f:
                f["x"] = 1
        args = {} if c["filename"] is None else {"filename": name}
        save_mcmc(m, par, tmp, **args, **extras)
        require(os.path.exists(path), "the file is not where it was asked for", listing=os.listdir(tmp), expected=name + ".hdf5")
        want = {name + ".hdf5"} | ({"neighbour.hdf5"} if c["existing"] == "other" else set())
        require(set(os.listdir(tmp)) == want, "saving leaves other files behind", got=os.listdir(tmp))
        with h5py.File(path, "r") as f:
            exp = {DATASET[t]: before[t] for t in track}
            if c["sampler"].startswith("pxmala"):
                exp["acceptances"] = np.asarray(m.acceptance_trace)
                exp["deltas"] = np.asarray(m.deltas_trace)
            require(set(f.keys()) == set(exp), "the file does not hold exactly the tracked statistics", got=sorted(f.keys()), expected=sorted(exp))
            for k, v in exp.items():
                require(same(f[k][()], v), "a dataset reads back differently", dataset=k, got=f[k][()], expected=v)
            for k, v in vars(par).items():
                require(k in f.attrs, "a run parameter is not saved", name=k)
                require(same(f.attrs[k], v), "a run parameter reads back differently", name=k, got=f.attrs[k], expected=v)
            for k, v in extras.items():
                require(k in f.attrs and same(f.attrs[k], v), "an extra reads back differently", name=k, got=f.attrs.get(k), expected=v)
            left = set(f.attrs) - set(vars(par)) - set(extras)
            require(not left, "the file holds attributes nobody saved", got=left)
        for t in track:
            require(np.array_equal(getattr(m, ATTR[t]), before[t], equal_nan=True), "saving changes the run", what=t)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return Result(bool(track) and c["nsamples"] > 1, [c["sampler"], c["existing"], c["p"]["cmode"]] + [e[0] for e in c["extras"]])


TARGETS = [Target("roundtrip", cases(), run, 900, 20000, shards=8)]
