"""C02: PxMALA is a Metropolis-Hastings sampler of the stated posterior."""
import numpy as np
from hypothesis import strategies as st

from harness import forms
from harness.core import Result, Target, fail, require
from harness.gen import SEED, arr, arr_desc, build, np_seed, problems, quiet, start_vec
from harness.stats import check_standard_normal

PROPERTY = "C02"
RULE = (
    "start-forms: start points of other types and layouts against the same values as doubles, same seed. "
    "Random inverse problems and step sizes run through PxMALA with a recording forward operator, so that every proposal "
    "(accepted or rejected) is seen; a dense reference computes log pi and log q and hence the acceptance probability of "
    "each proposal. Non-trivial: the case has at least one rejected and one accepted proposal (chain targets) or a "
    "finite non-zero log-density difference (density target)."
)
ASSUMPTIONS = ["a proposal with log acceptance ratio < -60 is never accepted (probability < 1e-26)"]


@st.composite
def chain_cases(draw, long=False):
    c = {
        "p": draw(problems(nmax=draw(st.sampled_from([1, 3, 3, 6, 6, 10, 10, 40])))),
        "lmda": draw(st.sampled_from([0.01, 0.05, 0.2, 1.0, 3.0])),
        "frac": draw(st.sampled_from([0.1, 0.4, 1.0, 1.6, 3.0] if not long else [0.5, 1.0, 1.5, 2.0])),
        "ratio": draw(st.sampled_from([0, 0, 0.5, 2])) if not long else 0,
        "start": draw(arr_desc(scales=(-1, 4) if not long else (-1, 1))),
        "warm": draw(st.booleans()) if not long else True,
        "steps": draw(st.sampled_from([1, 3, 10, 30, 80])) if not long else 600,
        "ngap": draw(st.sampled_from([0, 1, 1, 2, 3])),
        "nburn": draw(st.sampled_from([0, 0, 1, 2, 8])),
        "tune": draw(st.booleans()),
        "seed": draw(SEED),
    }
    if c["warm"] and draw(st.sampled_from([False] * 5 + [True])):  # steps are small compared with the state
        c["p"]["data"] = {"kind": draw(st.sampled_from(["const", "normal"])), "seed": c["p"]["data"]["seed"], "log": draw(st.sampled_from([4, 6, 6, 7]))}
        c["p"]["dform"] = "f8"
    return c


@st.composite
def wide_cases(draw):
    """As many parameters as an image has pixels."""
    c = draw(chain_cases(long=True))
    c["p"].update(n=draw(st.sampled_from([65, 100, 129, 257, 300])), meas=draw(st.sampled_from(["identity", "path", "dense"])))
    c["p"]["m"] = draw(st.sampled_from([c["p"]["n"], 70]))
    c.update(frac=draw(st.sampled_from([0.005, 0.02, 0.1, 0.5])), steps=draw(st.sampled_from([5, 40])), ngap=1, nburn=0, ratio=0)
    return c


@st.composite
def noise_cases(draw):
    c = draw(wide_cases())
    c["p"].update(n=100, m=100, meas="identity", trans="id", sig="scalar")
    c.update(frac=draw(st.sampled_from([0.02, 0.1])), steps=1500)
    return c


@st.composite
def marathon(draw):
    """Runs as long as real ones."""
    c = draw(chain_cases(long=True))
    c["p"].update(n=draw(st.integers(1, 3)), m=2)
    c.update(steps=draw(st.sampled_from([2500, 4500])), nburn=draw(st.sampled_from([0, 1001])), ngap=draw(st.sampled_from([1, 1, 3])))
    return c


def ref_logq(ref, x1, x2, delta, lmda):
    r = x2 - x1 - delta * ref.gradlogpi(x1, lmda)
    return -np.sum(np.abs(r) ** 2) / (4 * delta)


def mode_of(ref):
    """Minimiser of the misfit, to start chains where both outcomes are likely."""
    x = np.linalg.pinv(ref.M) @ ref.data
    return x if ref.cplx_params else np.real(x)


def run_chain(c, long=False):
    from pxmcmc.mcmc import PxMALA, PxMCMCParams

    steps = c["steps"]
    gap, nburn = max(1, c["ngap"]), c["nburn"]
    total = nburn + (steps - 1) * gap + 1
    ref, op, prior = build(c["p"], record=True, budget=20 * total + 50)
    lmda = c["lmda"]
    delta0 = c["ratio"] * lmda if c["ratio"] else c["frac"] / ref.lipschitz(lmda)
    par = PxMCMCParams(lmda=lmda, delta=delta0, mu=c["p"]["mu"], nsamples=steps, nburn=nburn, ngap=c["ngap"],
                       complex=ref.cplx_params, verbosity=0)
    X0 = start_vec(ref, c["start"])
    if c["warm"]:
        X0 = mode_of(ref) + 0.01 * X0
    with np_seed(c["seed"]), quiet():
        m = PxMALA(op, prior, par, tune_delta=c["tune"])
        m.run(X0.copy())
    acc = list(m.acceptance_trace)
    require(len(acc) == total, "one accept/reject decision per iteration", got=len(acc), expected=total)
    deltas = list(m.deltas_trace)
    if c["tune"]:
        require(len(deltas) >= total, "step-size trace is shorter than the chain", got=len(deltas))
    else:
        deltas = [delta0] * (total + 1)
    # proposals: recorded evaluation points that are not the current state
    calls = op.calls
    prev = X0
    k = 0
    S, V = 0.0, 0.0
    ws = []
    outcomes = set()
    ambiguous = False
    for i in range(total):
        j, rem = divmod(i - nburn, gap)
        new = m.chain[j] if i >= nburn and rem == 0 else None  # None: not recorded
        if acc[i] not in (0, 1):
            fail("acceptance trace holds something other than 0/1", value=acc[i])
        while k < len(calls) and np.array_equal(calls[k], prev):
            k += 1
        prop = calls[k] if k < len(calls) else None
        moved = new is not None and not np.array_equal(new, prev)
        if new is None:
            new = prop if acc[i] else prev
        if acc[i]:
            if prop is None or not np.array_equal(new, prop):
                fail("an accepted step is not recorded as the proposed state", step=i, state=new, proposal=prop)
        else:
            if moved:
                fail("a rejected step does not repeat the current state", step=i, state=new, current=prev)
        if prop is None:
            ambiguous = True
            break
        d = deltas[i]
        w = (prop - prev - d * ref.gradlogpi(prev, lmda)) / np.sqrt(2 * d)
        parts = np.concatenate([w.real, w.imag]) if ref.cplx_params else np.real(w)
        mag = max(np.abs(prev).max(), np.abs(prop).max(), d * np.abs(ref.gradlogpi(prev, lmda)).max())
        tol = 1e-10 * mag / np.sqrt(2 * d)
        if not np.all(np.abs(parts) <= 8.5 + tol):
            fail("PxMALA proposal is not the proximal Langevin proposal", step=i, implied_noise=parts, delta=d)
        if tol < 1e-3:
            ws.append(parts)
        lp1, lp2 = ref.logpost(prev), ref.logpost(prop)
        q12, q21 = ref_logq(ref, prev, prop, d, lmda), ref_logq(ref, prop, prev, d, lmda)
        la = q21 + lp2 - q12 - lp1
        # rounding of the four terms, in code and reference
        e = 1e-9 * (abs(lp1) + abs(lp2) + abs(q12) + abs(q21)) + 1e-9 * mag**2 / d * 1e-3 + 1e-9
        if la > e and not acc[i]:
            fail("a proposal with acceptance probability 1 was rejected", step=i, log_alpha=la, delta=d)
        if la < -60 - e and acc[i]:
            fail("a proposal with vanishing acceptance probability was accepted", step=i, log_alpha=la, delta=d)
        if e < 1e-3:
            a = float(np.exp(min(0.0, la)))
            S += acc[i] - a
            V += a * (1 - a)
        outcomes.add(int(acc[i]))
        k += 1
        prev = new
    # bounded increments: a Bernstein bound, valid for any V
    if abs(S) > 7.5 * np.sqrt(V) + 18:
        fail("acceptance rate disagrees with the Metropolis-Hastings probabilities", excess=S, variance=V, steps=steps)
    if ws:
        check_standard_normal(np.array(ws), "PxMALA proposal")
    labs = [c["p"]["cmode"], "tuned" if c["tune"] else "fixed", f"outcomes{sorted(outcomes)}"]
    if ambiguous:
        labs.append("ambiguous")
    return Result(len(outcomes) == 2, labs)


@st.composite
def dens_cases(draw):
    return {
        "p": draw(problems(nmax=draw(st.sampled_from([1, 3, 3, 6, 6, 10, 10, 40])))),
        "lmda": draw(st.sampled_from([0.01, 0.2, 1.0, 3.0])),
        "delta": draw(st.sampled_from([1e-6, 1e-3, 0.1, 0.7, 1.0, 4.0])),
        "x1": draw(arr_desc(scales=(-2, 2))),
        "x2": draw(arr_desc(scales=(-2, 2))),
        "x3": draw(arr_desc(scales=(-2, 2))),
    }


def run_dens(c):
    """log q(x2|x1) - log q(x3|x1) through the documented calc_logtransition (constants cancel)."""
    from pxmcmc.mcmc import PxMALA, PxMCMCParams

    ref, op, prior = build(c["p"])
    lmda, delta = c["lmda"], c["delta"]
    m = PxMALA(op, prior, PxMCMCParams(lmda=lmda, delta=delta, mu=c["p"]["mu"], nsamples=1, nburn=0, ngap=1,
                                       complex=ref.cplx_params, verbosity=0), tune_delta=False)
    x1, x2, x3 = (start_vec(ref, c[k]) for k in ("x1", "x2", "x3"))
    prox, gradg = prior.proxf(x1), op.calc_gradg(op.forward(x1))
    a = m.calc_logtransition(x1, x2, prox, gradg)
    b = m.calc_logtransition(x1, x3, prox, gradg)
    ra, rb = ref_logq(ref, x1, x2, delta, lmda), ref_logq(ref, x1, x3, delta, lmda)
    if not np.isclose(a - b, ra - rb, rtol=1e-8, atol=1e-9 * (1 + abs(ra) + abs(rb))):
        fail("log transition density differs from that of the proposal", got=a - b, expected=ra - rb, delta=delta, lmda=lmda)
    return Result(ra != rb, [c["p"]["cmode"]])


@st.composite
def support_cases(draw):
    return {
        "n": draw(st.integers(1, 4)),
        "outside": draw(st.sampled_from(["inf", "inf", "nan", "misfit"])),
        "half": draw(st.sampled_from([0.5, 1.0, 3.0])),
        "sig": draw(st.sampled_from([0.5, 2.0, 20.0])),
        "frac": draw(st.sampled_from([0.2, 0.5, 1.0])),
        "mu": draw(st.sampled_from([0.3, 1.0, 2.0])),
        "tune": draw(st.booleans()),
        "steps": draw(st.sampled_from([40, 150])),
        "lost": draw(st.sampled_from([0, 0, 1])),  # start outside the box
        "seed": draw(SEED),
    }


def run_support(c):
    """A posterior that is zero (or not defined) outside a box: the chain never leaves it."""
    from pxmcmc.forward import ForwardOperator
    from pxmcmc.mcmc import PxMALA, PxMCMCParams
    from pxmcmc.measurements import Identity
    from pxmcmc.prior import L1
    from pxmcmc.transforms import IdentityTransform

    n, h = c["n"], c["half"]
    seen = []

    def out(X):
        seen.append(bool(np.any(np.abs(X) > h)))
        return seen[-1]

    class Box(L1):
        def prior(self, X):
            return {"inf": np.inf, "nan": np.nan}[c["outside"]] if out(X) else super().prior(X)

    class Walls(Identity):
        def forward(self, X):
            return np.where(out(X), 1e200, 1.0) * super().forward(X)

    lmda = 0.5
    par = PxMCMCParams(lmda=lmda, delta=c["frac"] / (1 / lmda + 1 / c["sig"] ** 2), mu=c["mu"], nsamples=c["steps"], nburn=0, ngap=1, verbosity=0)
    wall = c["outside"] == "misfit"
    op = ForwardOperator(np.zeros(n), c["sig"], "synthesis", IdentityTransform(), (Walls if wall else Identity)(n, n), nparams=n)
    pr = (L1 if wall else Box)("synthesis", None, None, 0.05)
    lost = bool(c["lost"]) and c["outside"] == "inf"
    start = np.zeros(n)
    start[0] = 1.5 * h if lost else 0
    with np_seed(c["seed"]), quiet(), np.errstate(all="ignore"):
        m = PxMALA(op, pr, par, tune_delta=c["tune"])
        m.run(start)
    if lost:  # the first proposal inside is certain to be accepted
        require(seen[0], "the posterior at the start point was not evaluated")
        inside = np.all(np.abs(m.chain) <= h, axis=1)
        first = int(np.argmax(inside)) if inside.any() else len(inside)
        require(not inside.any() or inside[first:].all(), "a proposal with no posterior probability was accepted", outside=c["outside"], chain=m.chain)
        if not all(seen):
            require(inside.any(), "from a start of no posterior probability, proposals that have some are rejected", inside=seen.count(False), start=start)
        return Result(inside.any(), ["lost"])
    require(np.all(np.abs(m.chain) <= h), "a proposal with no posterior probability was accepted", outside=c["outside"], chain=m.chain)
    require(np.all(np.isfinite(m.logPi)), "a state without a log-posterior was recorded", outside=c["outside"])
    return Result(any(seen) and not all(m.acceptance_trace), [c["outside"]])


@st.composite
def wide_dens(draw):
    c = draw(dens_cases())
    c["p"]["n"] = c["p"]["m"] = draw(st.sampled_from([64, 65, 128, 300]))
    return c


@st.composite
def stat_cases(draw):
    return {
        "d": draw(st.sampled_from([-1.0, 0.0, 0.4, 1.5])),
        "sigma": draw(st.sampled_from([0.5, 1.0, 2.0])),
        "mu": draw(st.sampled_from([0.0, 1.0, 3.0])),
        "a": draw(st.sampled_from([0.7, 1.0])),
        "setting": draw(st.sampled_from(["analysis", "synthesis"])),
        "seed": draw(SEED),
    }


def run_stat(c):
    """1-D: the chain's empirical distribution converges to exp(logposterior) (numerical integration)."""
    from pxmcmc.forward import ForwardOperator
    from pxmcmc.measurements import PathIntegral
    from pxmcmc.mcmc import PxMALA, PxMCMCParams
    from pxmcmc.prior import L1
    from pxmcmc.transforms import IdentityTransform
    from scipy import sparse

    t = IdentityTransform()
    op = ForwardOperator(np.array([c["d"]]), c["sigma"], c["setting"], t, PathIntegral(sparse.csr_matrix([[c["a"]]])), nparams=1)
    lmda = 0.5 * c["sigma"] ** 2
    pr = L1(c["setting"], t.inverse, t.inverse_adjoint, lmda * c["mu"])
    N = 6000
    delta = 0.4 * lmda
    par = PxMCMCParams(lmda=lmda, delta=delta, mu=c["mu"], nsamples=N, nburn=50, ngap=1, verbosity=0)
    with np_seed(c["seed"]), quiet():
        m = PxMALA(op, pr, par, tune_delta=False)
        m.run(np.zeros(1))
    x = m.chain[:, 0]
    grid = np.linspace(-30, 30, 60001)
    lp = -c["mu"] * np.abs(grid) - 0.5 * ((c["d"] - c["a"] * grid) / c["sigma"]) ** 2
    w = np.exp(lp - lp.max())
    w /= w.sum()
    cdf = np.cumsum(w)
    for q in (0.1, 0.3, 0.5, 0.7, 0.9):
        thr = grid[np.searchsorted(cdf, q)]
        ind = (x <= thr).astype(float) - q
        nb = 30
        bm = ind[: N // nb * nb].reshape(nb, -1).mean(axis=1)
        se = max(bm.std(ddof=1) / np.sqrt(nb), np.sqrt(q * (1 - q) / N))
        z = ind.mean() / se
        if abs(z) > 10:
            fail("PxMALA samples do not follow the posterior", quantile=q, z=z, case=c)
    return Result(True, [f"mu{c['mu']}"])


TARGETS = [
    Target("chain", chain_cases(), run_chain, 1200, 40000, shards=5),
    Target("chain_long", chain_cases(long=True), lambda c: run_chain(c, True), 60, 1500, shards=4),
    Target("wide", wide_cases(), run_chain, 40, 1500, shards=2),
    Target("marathon", marathon(), run_chain, 8, 200, shards=4),
    Target("noise", noise_cases(), run_chain, 6, 200, shards=3),
    Target("density_wide", wide_dens(), run_dens, 60, 2000, shards=1),
    Target("density", dens_cases(), run_dens, 1500, 60000, shards=2),
    Target("support", support_cases(), run_support, 200, 4000, shards=1),
    Target("posterior", stat_cases(), run_stat, 16, 250, shards=4),
    forms.target(["pxmala", "pxmala_tuned"]),
]
