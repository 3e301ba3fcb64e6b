"""C06: PxMALA step-size adaptation."""
import numpy as np
from hypothesis import strategies as st

from harness.core import Result, Target, fail, require
from harness.gen import SEED, arr_desc, build, np_seed, problems, quiet, start_vec

PROPERTY = "C06"
RULE = (
    "Random problems run through PxMALA with tuning on/off, starting steps below, inside and above the allowed range and "
    "posteriors sharp enough to force rejections; the step-size trace is replayed from the accept/reject trace. Non-trivial: "
    "tuning on and (a rejection and an acceptance, or a bound is hit)."
)


@st.composite
def cases(draw):
    p = draw(problems(nmax=4))
    sharp = draw(st.booleans())
    if sharp:
        p["sig"] = "scalar"
        p["sigval"] = draw(st.sampled_from([1e-3, 1e-6]))
    ns = draw(st.one_of(*[st.integers(1, 60)] * 24, st.sampled_from([400, 1500])))
    return {
        "p": p,
        "lmda": draw(st.sampled_from([1e-3, 0.1, 1.0, 5.0])),
        # starting step relative to lmda: the allowed range is [1e-8, 0.5]
        "rel": draw(st.sampled_from([1e-9, 1e-8, 1.5e-8, 1e-6, 1e-3, 0.1, 0.45, 0.5, 0.7, 2.0, 50.0])),
        "start": draw(arr_desc(scales=(-1, 2))),
        "warm": draw(st.booleans()),
        "tune": draw(st.sampled_from([True, True, True, False])),
        "default_tune": draw(st.booleans()),
        "nsamples": ns,
        "nburn": draw(st.integers(0, 40)),
        "ngap": draw(st.integers(0, 3)) if ns < 100 else draw(st.integers(0, 1)),
        "runs": draw(st.sampled_from([1, 1, 2])),
        "seed": draw(SEED),
    }


@st.composite
def long_cases(draw):
    c = draw(cases())
    c["p"].update(n=1, m=1)
    c.update(nsamples=draw(st.sampled_from([1500, 2500, 4000, 6000, 10500])), nburn=draw(st.sampled_from([0, 1000, 2100])), ngap=1, runs=1, tune=True)
    return c


def run(c):
    from pxmcmc.mcmc import PxMALA, PxMCMCParams

    ref, op, prior = build(c["p"], record=True, budget=100000)
    lmda = c["lmda"]
    d0 = c["rel"] * lmda
    par = PxMCMCParams(lmda=lmda, delta=d0, mu=c["p"]["mu"], nsamples=c["nsamples"], nburn=c["nburn"], ngap=c["ngap"],
                       complex=ref.cplx_params, verbosity=0)
    before = dict(par.__dict__)
    X0 = start_vec(ref, c["start"])
    if c["warm"]:
        X0 = np.linalg.pinv(ref.M) @ ref.data
        X0 = X0 if ref.cplx_params else X0.real
    iters = c["nburn"] + (c["nsamples"] - 1) * max(1, c["ngap"]) + 1
    lo, hi = lmda * 1e-8, lmda / 2
    hit, outcomes = False, set()
    with np_seed(c["seed"]), quiet():
        kw = {} if (c["tune"] and c["default_tune"]) else {"tune_delta": c["tune"]}
        m = PxMALA(op, prior, par, **kw)
        for r in range(c["runs"]):
            first = m.delta
            m.run(X0.copy())
            acc, tr = list(m.acceptance_trace), [float(v) for v in m.deltas_trace]
            require(len(acc) == iters, "one accept/reject record per iteration", got=len(acc), expected=iters)
            require(np.isclose(tr[0], first, rtol=1e-14), "the step-size trace does not start at the step size in force", got=tr[0], expected=first)
            outcomes |= set(acc)
            if not c["tune"]:
                require(m.delta == d0, "step size changed although tuning is off", got=m.delta, expected=d0)
                require(all(v == d0 for v in tr), "step-size trace varies although tuning is off")
                continue
            require(len(tr) == iters + 1, "one step size per iteration", got=len(tr), expected=iters + 1)
            for i in range(iters):
                exp = tr[i] * (1 + (acc[i] - 0.5) / (i + 1) ** 0.75)
                exp = min(max(exp, lo), hi)
                if exp in (lo, hi):
                    hit = True
                if not np.isclose(tr[i + 1], exp, rtol=1e-12, atol=0):
                    fail("step size does not move towards acceptance 1/2 within its bounds", iteration=i, accepted=acc[i], before=tr[i],
                         after=tr[i + 1], expected=exp, lo=lo, hi=hi)
                require(lo * (1 - 1e-12) <= tr[i + 1] <= hi * (1 + 1e-12), "tuned step size out of bounds", value=tr[i + 1])
            require(m.delta == m.deltas_trace[-1], "the step size in force is not the last of the trace")
    require(par.__dict__ == before, "running the sampler changed the caller's parameters", before=before, after=par.__dict__)
    return Result(c["tune"] and (len(outcomes) == 2 or hit), ["tuned" if c["tune"] else "fixed", "bound" if hit else "inside", f"outcomes{sorted(outcomes)}"])


TARGETS = [
    Target("trace", cases(), run, 900, 30000, shards=6),
    Target("long", long_cases(), run, 16, 300, shards=4),
]
