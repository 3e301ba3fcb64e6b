"""C04: burn-in, thinning, tracking, verbosity and restarts only select from one seeded trajectory."""
import re

import numpy as np
from hypothesis import strategies as st

from harness.core import Result, Target, fail, require
from harness.gen import SEED, arr_desc, build, np_seed, problems, quiet, start_vec

PROPERTY = "C04"
RULE = (
    "Random problems x sampler (MYULA, PxMALA tuned/untuned, SKROCK) x nburn, ngap, nsamples, verbosity, track; the recorded "
    "chain is compared exactly with the un-thinned, un-burned run under the same NumPy seed, with a rerun (also of the same object), and with a run split "
    "into two at a random iteration. long: the same selection law on runs of up to 5500 iterations. Non-trivial: nburn > 0 or ngap > 1 (select), track/verbosity differ (report), both "
    "halves non-empty (split)."
)
TRACKABLE = ["logposterior", "L2", "prior", "chain", "predictions"]
ATTR = {"logposterior": "logPi", "L2": "L2s", "prior": "priors", "chain": "chain", "predictions": "preds"}
SAMPLERS = ["myula", "pxmala", "pxmala_tuned", "skrock"]


def make(name, op, prior, par):
    from pxmcmc.mcmc import MYULA, SKROCK, PxMALA

    if name == "myula":
        return MYULA(op, prior, par)
    if name == "skrock":
        return SKROCK(op, prior, par)
    return PxMALA(op, prior, par, tune_delta=name.endswith("tuned"))


def params(c, ref, nsamples, nburn, ngap, verbosity=0, track=tuple(TRACKABLE)):
    from pxmcmc.mcmc import PxMCMCParams

    lmda = c["lmda"]
    kw = {} if not ref.cplx_params and c["seed"] % 2 else {"complex": ref.cplx_params}  # real unless said otherwise
    return PxMCMCParams(lmda=lmda, delta=c["frac"] / ref.lipschitz(lmda), mu=c["p"]["mu"], s=c["s"], nsamples=nsamples,
                        nburn=nburn, ngap=ngap, verbosity=verbosity, track=list(track), **kw)


def evals_per_iter(c):
    if c["sampler"] != "skrock":
        return 4
    a, b = 0, 1
    for _ in range(c["s"]):
        a, b = b, 2 * b + a + 1
    return b + 4


def run_once(c, nsamples, nburn, ngap, verbosity=0, track=tuple(TRACKABLE), start=True, m=None, seed=True):
    iters = int(nburn) + max(0, nsamples) * max(1, ngap) + 1
    ref, op, prior = build(c["p"], record=True, budget=20 * evals_per_iter(c) * (iters + 3))
    X0 = start_vec(ref, c["start"]) if start is True else start
    m = m or make(c["sampler"], op, prior, params(c, ref, nsamples, nburn, ngap, verbosity, track))
    with quiet() as buf:
        if seed:
            with np_seed(c["seed"]):
                m.run(None if X0 is None else X0.copy())
        else:
            m.run(None if X0 is None else X0.copy())
    return m, op, buf.getvalue()


base = {
    "lmda": st.sampled_from([0.05, 0.5, 2.0]),
    "frac": st.sampled_from([0.05, 0.4, 0.9]),
    "start": arr_desc(scales=(-1, 2)),
    "sampler": st.sampled_from(SAMPLERS),
    "s": st.sampled_from([1, 2, 3]),
    "seed": SEED,
}
prob = problems(nmax=4)


@st.composite
def select_cases(draw):
    c = {k: draw(v) for k, v in base.items()}
    c["p"] = draw(prob)
    c["nsamples"] = draw(st.integers(0, 9))
    c["nburn"] = draw(st.integers(0, 14))
    c["ngap"] = draw(st.integers(0, 8))
    c["floaty"] = draw(st.booleans())
    c["none_start"] = draw(st.booleans())
    c["rerun"] = draw(st.sampled_from([False, False, True]))
    return c


def run_select(c):
    ns, nb, ng = c["nsamples"], c["nburn"], c["ngap"]
    step = max(1, ng)
    total = nb + (ns - 1) * step + 1 if ns else 0
    start = None if c["none_start"] else True
    full, op_f, _ = run_once(c, total, 0, 1, start=start)
    thin, op_t, _ = run_once(c, ns, float(nb) if c["floaty"] else nb, ng, start=start)
    spent = len(op_t.calls)
    idx = [nb + j * step for j in range(ns)]
    for name, at in ATTR.items():
        a, b = np.asarray(getattr(thin, at)), np.asarray(getattr(full, at))
        require(a.shape[0] == ns, "wrong number of recorded samples", what=name, got=a.shape[0], expected=ns)
        if ns and not np.array_equal(a, b[idx], equal_nan=True):
            bad = [j for j in range(ns) if not np.array_equal(a[j], b[idx[j]], equal_nan=True)]
            fail("recorded samples are not the states at iterations nburn + j*ngap of the same seeded trajectory", what=name,
                 first_bad_sample=bad[0], nburn=nb, ngap=ng, nsamples=ns, sampler=c["sampler"])
    if c["rerun"] and c["sampler"] != "pxmala_tuned":  # (a tuned step is kept)
        was = {at: np.array(getattr(thin, at)) for at in ATTR.values()}
        again, _, _ = run_once(c, ns, float(nb) if c["floaty"] else nb, ng, start=start, m=thin)
        for name, at in ATTR.items():
            require(np.array_equal(getattr(again, at), was[at], equal_nan=True),
                    "a second run of the same sampler from the same seed and start differs from its first", what=name, nburn=nb,
                    ngap=ng, sampler=c["sampler"])
    if c["sampler"].startswith("pxmala"):
        require(len(thin.acceptance_trace) == total, "number of iterations differs from nburn + (nsamples-1)*ngap + 1",
                got=len(thin.acceptance_trace), expected=total)
        require(list(thin.acceptance_trace) == list(full.acceptance_trace), "thinning changed the acceptance history")
    if ns:
        # no iterations beyond the last recorded sample
        require(spent <= len(op_f.calls) + 2, "run() goes on after the last sample was recorded",
                evaluations=spent, reference=len(op_f.calls))
    return Result(ns > 0 and (nb > 0 or ng > 1), [c["sampler"], "ngap0" if ng == 0 else "ngap", f"ns{min(ns, 2)}"])


@st.composite
def long_cases(draw):
    """Runs as long as real ones (defaults: nburn 1000, ngap 100) on tiny problems."""
    c = {k: draw(v) for k, v in base.items()}
    c["p"] = draw(problems(nmax=2))
    c["s"] = draw(st.sampled_from([1, 2]))
    c["nburn"] = draw(st.sampled_from([0, 37, 100, 101, 256, 500, 1000, 1001, 1500]))
    c["ngap"] = draw(st.sampled_from([1, 2, 10, 16, 64, 99, 100, 101, 128, 130, 200, 250, 256, 500, 600, 1000]))
    c["nsamples"] = draw(st.sampled_from([2, 3, 11, 64, 100, 129, 300, 1025])) if c["ngap"] < 3 else draw(st.integers(2, max(3, min(60, 3000 // c["ngap"]))))
    c["floaty"] = draw(st.booleans())
    c["none_start"] = draw(st.booleans())
    c["rerun"] = draw(st.booleans())
    return c


@st.composite
def report_cases(draw):
    c = {k: draw(v) for k, v in base.items()}
    c["p"] = draw(prob)
    c["nsamples"] = draw(st.integers(1, 6))
    c["nburn"] = draw(st.integers(0, 9))
    c["ngap"] = draw(st.integers(0, 4))
    c["verbosity"] = draw(st.sampled_from([0, 1, 2, 3, 5, 100, 2.0]))
    c["track"] = draw(st.lists(st.sampled_from(TRACKABLE), unique=True))
    return c


NUM = r"[-+]?(?:\d+\.\d+e[-+]\d+|inf|nan)"


def run_report(c):
    ns, nb, ng = c["nsamples"], c["nburn"], c["ngap"]
    a, _, _ = run_once(c, ns, nb, ng)
    b, _, out = run_once(c, ns, nb, ng, verbosity=c["verbosity"], track=tuple(c["track"]))
    for name, at in ATTR.items():
        if name in c["track"]:
            require(np.array_equal(getattr(a, at), getattr(b, at), equal_nan=True), "verbosity or track changed the recorded values", what=name,
                    verbosity=c["verbosity"], track=c["track"], sampler=c["sampler"])
        else:
            require(not hasattr(b, at), "a statistic that was not asked for is recorded", what=name)
    # what is printed, and when, is not part of the property: but numbers reported as statistics are those of the trajectory
    lines = [mt for mt in (re.search(rf"logposterior: ({NUM}) - L2: ({NUM}) - prior: ({NUM})", ln) for ln in out.splitlines()) if mt]
    if lines:
        full, _, _ = run_once(c, nb + (ns - 1) * max(1, ng) + 1, 0, 1)
        for mt in lines:
            for val, at in zip(mt.groups(), ("logPi", "L2s", "priors")):
                require(np.isclose(float(val), getattr(full, at), rtol=1e-7, atol=1e-300, equal_nan=True).any(),
                        "progress reports a value that belongs to no state of the trajectory", line=mt.group(0), what=at)
    return Result(len(c["track"]) < 5 or c["verbosity"] > 0, [c["sampler"], f"v{c['verbosity']}", f"tracked{len(c['track'])}"])


@st.composite
def split_cases(draw):
    c = {k: draw(v) for k, v in base.items()}
    c["sampler"] = draw(st.sampled_from(["myula", "pxmala", "skrock"]))
    c["p"] = draw(prob)
    c["n1"] = draw(st.integers(1, 12))
    c["n2"] = draw(st.integers(1, 12))
    c["same_object"] = draw(st.booleans())
    return c


def run_split(c):
    """Markov: n1+n2 iterations == n1 iterations, then n2 more from the last state with the RNG left alone."""
    n1, n2 = c["n1"], c["n2"]
    whole, _, _ = run_once(c, n1 + n2, 0, 1)
    again, _, _ = run_once(c, n1 + n2, 0, 1)
    require(np.array_equal(whole.chain, again.chain, equal_nan=True), "the same seed does not reproduce the same chain", sampler=c["sampler"])
    with np_seed(c["seed"]):
        if c["same_object"]:
            n1 = n2 = min(n1, n2)
            first, _, _ = run_once(c, n1, 0, 1, seed=False)
            ch1 = np.array(first.chain)
            second, _, _ = run_once(c, n2, 0, 1, seed=False, start=ch1[-1], m=first)
        else:
            first, _, _ = run_once(c, n1, 0, 1, seed=False)
            ch1 = np.array(first.chain)
            second, _, _ = run_once(c, n2, 0, 1, seed=False, start=ch1[-1])
    got = np.concatenate([ch1, second.chain])
    require(np.array_equal(got, whole.chain[: n1 + n2], equal_nan=True), "restarting from the last state does not continue the chain",
            sampler=c["sampler"], n1=n1, n2=n2, same_object=c["same_object"],
            first_diff=int(np.argmax(np.any(got != whole.chain[: n1 + n2], axis=1))))
    lp = np.concatenate([np.array(second.logPi)])
    require(np.array_equal(lp, whole.logPi[n1: n1 + n2], equal_nan=True), "restarted run records different log-posteriors")
    return Result(True, [c["sampler"], "same" if c["same_object"] else "fresh"])


TARGETS = [
    Target("select", select_cases(), run_select, 1000, 40000, shards=4),
    Target("long", long_cases(), run_select, 120, 2500, shards=4),
    Target("report", report_cases(), run_report, 800, 25000, shards=3),
    Target("split", split_cases(), run_split, 500, 20000, shards=3),
]
