"""The first steps of a chain do not depend on how the start point is represented (type, layout), only on its values."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Result, Target, close, require
from harness.gen import SEED, arr_desc, build, np_seed, present, problems, quiet, start_vec

FORMS = ["int", "int", "int", "int32", "float32", "realpart", "bigendian", "strided", "reversed", "readonly", "subarray"]


def shaped(x, form):
    """(start point as given, the same values as a plain array of doubles)"""
    cplx = np.iscomplexobj(x)
    if form in ("int", "int32"):
        y = np.rint(np.clip(np.real(x), -1e6, 1e6)).astype(np.int64 if form == "int" else np.int32)
    elif form == "float32":
        y = x.astype(np.complex64 if cplx else np.float32)
    elif form == "realpart":
        y = np.real(x).copy()
    elif form == "bigendian":
        y = x.astype(">c16" if cplx else ">f8")
    else:
        y = present(x, form)
    return y, np.array(y, dtype=complex if cplx else float)


@st.composite
def cases(draw, samplers):
    return {"p": draw(problems(nmax=draw(st.sampled_from([2, 6, 6, 30])))), "sampler": draw(st.sampled_from(samplers)), "start": draw(arr_desc(scales=(-1, 3))),
            "form": draw(st.sampled_from(FORMS)), "lmda": draw(st.sampled_from([0.1, 1.0])), "s": draw(st.integers(1, 4)), "nburn": draw(st.integers(0, 2)),
            "seed": draw(SEED)}


def run(c):
    from harness.checks.c04 import make
    from pxmcmc.mcmc import PxMCMCParams

    form = c["form"]
    if form == "float32" and c["sampler"].startswith("pxmala"):
        form = "int"  # rounding may turn an acceptance
    chains = []
    for plain in (False, True):
        ref, op, prior = build(c["p"])
        par = PxMCMCParams(lmda=c["lmda"], delta=0.4 / ref.lipschitz(c["lmda"]), mu=c["p"]["mu"], s=c["s"], nsamples=3, nburn=c["nburn"], ngap=1,
                           complex=ref.cplx_params, verbosity=0)
        given, values = shaped(start_vec(ref, c["start"]), form)
        m = make(c["sampler"], op, prior, par)
        with np_seed(c["seed"]), quiet():
            m.run(values if plain else given)
        chains.append(np.array(m.chain))
    a, b = chains
    require(np.all(np.isfinite(b)), "the chain is not finite")
    size = float(np.abs(values).max()) + float(np.abs(b).max())
    close(a, b, "the first steps depend on the type or layout of the start point", rtol=1e-4 if form == "float32" else 1e-10, scale=size, atol=1e-300, form=form,
          sampler=c["sampler"], start=given)
    return Result(np.any(values != 0), [form, c["sampler"]])


def target(samplers, quick=200, thorough=6000, shards=1):
    return Target("start-forms", cases(samplers), run, quick, thorough, shards=shards)
