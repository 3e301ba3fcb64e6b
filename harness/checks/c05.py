"""C05: every recorded statistic belongs to the recorded sample."""
import numpy as np
from hypothesis import strategies as st

from harness.checks.c01 import CONFIGS, sphere_cases, sphere_problem
from harness.checks.c04 import SAMPLERS, make
from harness.core import Result, Target, close, fail, require
from harness.gen import SEED, arr, arr_desc, bandlimits, build, maybe_warm, np_seed, problems, quad_weights, quiet, start_vec

PROPERTY = "C05"
RULE = (
    "Random problems (real/complex parameters and data, all error specifications, both settings; small spherical problems) x "
    "sampler x burn-in/thinning, first and second runs of a sampler; for every recorded sample the log-posterior, misfit, prior and predictions are recomputed by a "
    "dense reference from the recorded sample alone. Non-trivial: at least two recorded samples with different log-posterior, "
    "or (logpi target) a non-zero misfit and prior."
)


@st.composite
def cases(draw):
    c = {
        "p": draw(problems(nmax=draw(st.sampled_from([2, 5, 5, 5, 9, 9, 9, 50, 300])))),
        "sampler": draw(st.sampled_from(SAMPLERS)),
        "s": draw(st.sampled_from([1, 2, 3])),
        "lmda": draw(st.sampled_from([0.05, 0.5, 2.0])),
        "frac": draw(st.sampled_from([0.05, 0.4, 0.9, 2.5])),
        "start": draw(arr_desc(scales=(-1, 3))),
        "none_start": draw(st.booleans()),
        "nsamples": draw(st.integers(1, 14)),
        "nburn": draw(st.integers(0, 6)),
        "ngap": draw(st.integers(0, 5)),
        "tracks": draw(st.sampled_from(["all", "all", "nolp", "nochainpreds"])),
        "seed": draw(SEED),
        "again": draw(st.sampled_from([None, None, None, "on", "elsewhere"])),
    }
    return maybe_warm(draw, c)


@st.composite
def long_cases(draw):
    c = draw(cases())
    c["p"].update(n=draw(st.integers(1, 4)), m=2)
    c.update(again=None, frac=min(c["frac"], 0.9), nsamples=draw(st.sampled_from([1200, 2500])), nburn=draw(st.sampled_from([0, 1001])), ngap=draw(st.sampled_from([1, 1, 2])), s=draw(st.sampled_from([1, 2])))
    return c


@st.composite
def large_cases(draw):
    """Chains of more than 2^17 numbers."""
    c = draw(cases())
    n = draw(st.sampled_from([180, 260]))
    c["p"].update(n=n, m=draw(st.sampled_from([3, 40])))
    c.update(again=None, frac=min(c["frac"], 0.9), nsamples=draw(st.sampled_from([760, 1050])), nburn=draw(st.sampled_from([0, 3])), ngap=draw(st.sampled_from([0, 1, 2])), s=1)
    return c


def check_stats(ref, m, j, x, scale_note, lp=True):
    pr, l2, lpv = ref.prior(x), ref.L2(x), ref.logpost(x)
    # error scale: cancellation inside the misfit
    r = np.abs(ref.data).max() + np.abs(ref.M).sum(axis=1).max() * np.abs(x).max()
    e2 = 1e-9 * r**2 * np.abs(ref.Cinv).sum() + 1e-300
    # and inside the prior (coefficients of the sample in the basis, which may cancel)
    ep = 1e-10 * (pr + np.abs(ref.W).sum() * np.abs(x).max(initial=0)) + 1e-300
    close(m.L2s[j], l2, "recorded misfit is not that of the recorded sample", rtol=0, atol=e2, sample=j, **scale_note)
    close(m.priors[j], pr, "recorded prior is not that of the recorded sample", rtol=0, atol=ep, sample=j, **scale_note)
    if lp:
        close(m.logPi[j], lpv, "recorded log-posterior is not -mu*prior - misfit/2 of the recorded sample", rtol=0,
              atol=e2 + ref.mu * ep, sample=j, **scale_note)


def run(c):
    from pxmcmc.mcmc import PxMCMCParams

    ref, op, prior = build(c["p"], record=True, budget=40000)
    lmda = c["lmda"]
    par = PxMCMCParams(lmda=lmda, delta=c["frac"] / ref.lipschitz(lmda), mu=c["p"]["mu"], s=c["s"], nsamples=c["nsamples"],
                       nburn=c["nburn"], ngap=c["ngap"], complex=ref.cplx_params, verbosity=0,
                       track=["logposterior", "L2", "prior", "chain", "predictions"])
    with np_seed(c["seed"]), quiet():
        m = make(c["sampler"], op, prior, par)
        m.run(None if c["none_start"] and not c["start"].get("warm") else start_vec(ref, c["start"]))
        if c.get("again"):  # the same sampler run on from where it is, or from elsewhere
            m.run(m.chain[-1].copy() if c["again"] == "on" else None)
    note = {"sampler": c["sampler"]}
    ns = c["nsamples"]
    for at, shape in (("logPi", (ns,)), ("L2s", (ns,)), ("priors", (ns,)), ("chain", (ns, ref.n)), ("preds", (ns, ref.m))):
        require(np.shape(getattr(m, at)) == shape, "recorded array has the wrong shape", what=at, got=np.shape(getattr(m, at)), expected=shape)
    for j in range(ns):
        x = m.chain[j]
        close(m.preds[j], ref.forward(x), "recorded predictions are not those of the recorded sample", rtol=0,
              atol=1e-11 * (1 + np.abs(ref.M).sum() * np.abs(x).max()), sample=j, **note)
        check_stats(ref, m, j, x, note)
    return Result(len(set(m.logPi.tolist())) > 1, [c["sampler"], c["p"]["cmode"], c["p"]["sig"], c["p"]["setting"]])


@st.composite
def lp_cases(draw):
    return {"p": draw(problems(nmax=draw(st.sampled_from([2, 2, 6, 6, 6, 12, 12, 70, 300])))), "x": draw(arr_desc(scales=(-3, 4))),
            "near": draw(st.one_of(st.none(), arr_desc(kinds=["normal", "normal", "spike", "sparse"], scales=(-15, 2)))),
            "sampler": draw(st.sampled_from(SAMPLERS))}


def run_lp(c):
    """The documented logpi(X, preds) itself."""
    from pxmcmc.mcmc import PxMCMCParams

    ref, op, prior = build(c["p"])
    par = PxMCMCParams(mu=c["p"]["mu"], nsamples=1, complex=ref.cplx_params, verbosity=0)
    m = make(c["sampler"], op, prior, par)
    x = start_vec(ref, c["x"])
    lp, l2, pr = m.logpi(x, op.forward(x))

    class R:
        logPi, L2s, priors = [lp], [l2], [pr]

    for v, nm in ((lp, "log-posterior"), (l2, "misfit"), (pr, "prior")):
        require(np.ndim(v) == 0 and np.isrealobj(v), f"{nm} is not a real scalar", got=v)
    require(l2 >= 0, "the misfit of a covariance is negative", got=l2)
    check_stats(ref, R, 0, x, {})
    if c["near"]:  # predictions close to the data: relative to the residual that floating point leaves
        d = np.asarray(op.data)
        near = d + arr(c["near"], ref.m, np.iscomplexobj(d))
        r = near - d
        e = np.vdot(r, ref.Cinv @ r).real
        lp, l2, pr = m.logpi(x, near.copy())
        close(l2, e, "misfit of predictions near the data", rtol=0, atol=1e-9 * np.abs(ref.Cinv).sum() * np.abs(r).max() ** 2 + 1e-300)
        close(lp, -ref.mu * pr - e / 2, "log-posterior is not -mu*prior - misfit/2 for predictions near the data", rtol=1e-12,
              scale=ref.mu * pr, atol=1e-9 * np.abs(ref.Cinv).sum() * np.abs(r).max() ** 2 + 1e-300)
    return Result(l2 > 0 and pr > 0, [c["p"]["cmode"], c["p"]["sig"]])


@st.composite
def sph(draw):
    c = draw(sphere_cases())
    c["sampler"] = draw(st.sampled_from(["myula", "pxmala", "skrock"]))
    c["mu"] = draw(st.sampled_from([0.5, 1.0, 4.0]))
    return c


def run_sphere(c):
    from pxmcmc.mcmc import PxMCMCParams

    op, prior, prox, gradg, lip, n = sphere_problem(c)
    lmda = 1.0 / max(lip, 1e-6)
    par = PxMCMCParams(lmda=lmda, delta=c["frac"] / (1 / lmda + lip), mu=c["mu"], s=2, nsamples=c["steps"] + 1, nburn=1, ngap=2,
                       verbosity=0, track=["logposterior", "L2", "prior", "chain", "predictions"])
    with np_seed(c["seed"]), quiet():
        m = make(c["sampler"], op, prior, par)
        m.run(arr(c["start"], n))
    L, B, J = c["cfg"]
    if c["setting"] == "synthesis" and c["prior"] == "S2":
        wts = np.concatenate([quad_weights(b) for b in bandlimits(L, B, J)])
    else:
        wts = np.ones(n)
    sig = op  # error spec is checked in C09; here use the operator's own data and a reference covariance
    g = np.random.Generator(np.random.PCG64(c["seed"]))
    if c["op"] == "path":
        npx = L * (2 * L - 1)
        _ = g.random((c["npaths"], npx)) * (g.random((c["npaths"], npx)) < 0.4)
    md = len(op.data)
    s = c["sig"] * (0.5 + g.random(md)) if c["vec"] else np.full(md, c["sig"])
    for j in range(c["steps"] + 1):
        x = m.chain[j]
        pred = np.asarray(op.forward(x))
        sc = np.abs(pred).max() + np.abs(op.data).max()
        close(m.preds[j], pred if np.iscomplexobj(m.preds) else pred.real, "recorded predictions are not those of the recorded sample",
              rtol=0, atol=1e-9 * sc + 1e-12, sample=j)
        l2 = float(np.sum(np.abs(op.data - pred) ** 2 / s**2))
        pr = float(np.sum(wts * np.abs(x)))
        close(m.L2s[j], l2, "recorded misfit is not that of the recorded sample", rtol=1e-7, atol=1e-9 * (sc**2) / s.min() ** 2, sample=j)
        close(m.priors[j], pr, "recorded prior is not that of the recorded sample", rtol=1e-9, sample=j)
        close(m.logPi[j], -c["mu"] * pr - l2 / 2, "recorded log-posterior is not -mu*prior - misfit/2", rtol=1e-7,
              atol=1e-9 * (sc**2) / s.min() ** 2, sample=j)
    return Result(True, [c["op"], c["sampler"]])


TARGETS = [
    Target("chain", cases(), run, 1100, 40000, shards=4),
    Target("long", long_cases(), run, 12, 300, shards=4),
    Target("large", large_cases(), run, 6, 100, shards=4),
    Target("logpi", lp_cases(), run_lp, 1500, 50000, shards=2),
    Target("sphere", sph(), run_sphere, 70, 2000, shards=3),
]
