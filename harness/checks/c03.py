"""C03: every SKROCK transition is the s-stage stabilised Chebyshev step."""
import numpy as np
from hypothesis import strategies as st
from numpy.polynomial import chebyshev as cheb

from harness import forms
from harness.core import Result, Target, fail, require
from harness.gen import SEED, Spy, arr_desc, build, maybe_warm, np_seed, problems, quiet, start_vec
from harness.stats import check_standard_normal

PROPERTY = "C03"
RULE = (
    "start-forms: start points of other types and layouts against the same values as doubles, same seed. "
    "Random inverse problems, s in 1..60, step sizes and starts; the noise of every recorded transition is recovered from the "
    "points at which the sampler evaluated prox and forward map (the first stage is X + nu_1 sqrt(2 delta) Z), the whole step "
    "must equal an independent implementation of the SK-ROCK recursion with that noise (coefficients from "
    "numpy.polynomial.chebyshev), and the noise must be N(0,1). Non-trivial: s >= 2 and the drift is non-zero."
)
ASSUMPTIONS = ["the sampler evaluates the gradient through the prior's proxf() and the operator's forward()"]


def coefs(s, eta=0.05):
    w0 = 1 + eta / s**2
    T = lambda k: cheb.chebval(w0, [0] * k + [1])
    dT = cheb.chebval(w0, cheb.chebder([0] * s + [1]))
    w1 = T(s) / dT
    mu, nu, ka = {1: w1 / w0}, {1: s * w1 / 2}, {1: s * w1 / w0}
    for j in range(2, s + 1):
        mu[j] = 2 * w1 * T(j - 1) / T(j)
        nu[j] = 2 * w0 * T(j - 1) / T(j)
        ka[j] = -T(j - 2) / T(j)
    return mu, nu, ka


def skrock(ref, X, Z, s, delta, lmda, co):
    mu, nu, ka = co
    r = np.sqrt(2 * delta)
    G = lambda x: ref.gradlogpi(x, lmda)
    k0 = X
    k1 = X + mu[1] * delta * G(X + nu[1] * r * Z) + ka[1] * r * Z
    mag = max(np.abs(k0).max(), np.abs(k1).max())
    for j in range(2, s + 1):
        g = mu[j] * delta * G(k1)
        k2 = g + nu[j] * k1 + ka[j] * k0
        mag = max(mag, np.abs(g).max(), np.abs(k2).max())
        k0, k1 = k1, k2
    return k1, mag


def explain(ref, X, X1, pts, at, s, delta, lmda, co):
    """The step's first gradient is evaluated at P = X + nu_1 sqrt(2 delta) Z: recover Z from each point evaluated after
    position `at` and check the whole step. Without a recorded X1 (burn-in, thinning) the step must end in an evaluated
    point. Returns (position, next state, Z, smallest relative deviation seen)."""
    r = np.sqrt(2 * delta)
    best = (None, None, None, np.inf)
    window = pts[at:at + 12 * s + 20]
    for i, P in enumerate(window):
        Z = (P - X) / (co[1][1] * r)
        if not np.abs(Z).max() < 1e6:
            continue
        k, mag = skrock(ref, X, Z, s, delta, lmda, co)
        for Q in [X1] if X1 is not None else window[i + 1:]:
            err = np.abs(k - Q).max() / max(mag, np.abs(Q).max(), np.abs(X).max(), 1e-300)
            if err < best[3]:
                best = (at + i, Q, Z, err)
        if best[3] < (1e-14 if X1 is None else 1e-11):
            break
    return best if best[3] <= 1e-9 else (None, None, None, best[3])


@st.composite
def cases(draw):
    s = draw(st.sampled_from([1, 1, 2, 2, 2, 3, 3, 3, 4, 4, 5, 5, 6, 6, 7, 8, 9, 10]))
    steps = {1: [1, 5, 250], 2: [1, 5, 100], 3: [1, 5, 40]}.get(s, [1, 4, 20])
    nmax = draw(st.sampled_from([1, 3, 3, 4, 4, 3, 4, 25]))
    if nmax > 4:
        steps = steps[:2]
    c = {
        "p": draw(problems(nmax=nmax)),
        "s": s,
        "lmda": draw(st.sampled_from([0.01, 0.1, 0.5, 1.0, 3.0])),
        "frac": draw(st.sampled_from([0.01, 0.1, 0.5, 0.9])),
        "big": draw(st.booleans()),  # use the longer step SK-ROCK is stable for
        "start": draw(arr_desc(scales=(-1, 5))),
        "steps": draw(st.sampled_from(steps)),
        "ngap": draw(st.sampled_from([0, 1, 1, 1, 2, 3])),
        "nburn": draw(st.sampled_from([0, 0, 0, 1, 3])),
        "seed": draw(SEED),
    }
    return maybe_warm(draw, c)


@st.composite
def high_cases(draw):
    """More stages than commonly used."""
    c = draw(cases())
    c.update(s=draw(st.one_of(st.integers(11, 20), st.integers(21, 60))), steps=draw(st.sampled_from([1, 3])), nburn=0, ngap=1)
    return c


@st.composite
def noise_cases(draw):
    c = draw(cases())
    c["p"].update(n=200, m=200, meas=draw(st.sampled_from(["identity", "path"])), trans="id", sig=draw(st.sampled_from(["scalar", "vector"])))
    if draw(st.booleans()):
        c["p"]["cmode"] = draw(st.sampled_from(["cparam", "call"]))
    c.update(s=draw(st.sampled_from([2, 1, 2, 3, 5, 9, 12, 20])), steps=100, nburn=0, ngap=1, big=draw(st.sampled_from([True, True, False])), frac=draw(st.sampled_from([0.9, 0.5, 0.1])),
             start={"kind": "normal", "seed": c["start"]["seed"], "log": 0})
    return c


@st.composite
def marathon(draw):
    """Runs as long as real ones."""
    c = draw(cases())
    c["p"].update(n=draw(st.integers(1, 3)), m=2)
    c.update(s=draw(st.sampled_from([1, 2])), steps=draw(st.sampled_from([1500, 3000])), nburn=draw(st.sampled_from([0, 0, 1001])), ngap=1)
    return c


def run(c):
    from pxmcmc.mcmc import SKROCK, PxMCMCParams

    ref, op, prior = build(c["p"])
    pts, evals = [], []
    op, prior = Spy(op, "forward", pts), Spy(Spy(prior, "proxf", evals), "proxf", pts)
    s, lmda = c["s"], c["lmda"]
    delta = c["frac"] / ref.lipschitz(lmda) * (max(1.0, 1.2 * (s - 0.5) ** 2) if c["big"] else 1.0)
    par = PxMCMCParams(lmda=lmda, delta=delta, mu=c["p"]["mu"], s=s, nsamples=c["steps"], nburn=c["nburn"], ngap=c["ngap"],
                       complex=ref.cplx_params, verbosity=0)
    X0 = start_vec(ref, c["start"])
    with np_seed(c["seed"]), quiet():
        m = SKROCK(op, prior, par)
        m.run(X0.copy())
    gap = max(1, c["ngap"])
    total = c["nburn"] + (c["steps"] - 1) * gap + 1
    if s > 1:  # the point of the method: s gradients buy a step about s^2 times longer
        require(len(evals) <= total * (4 * s + 4), "the cost of a step is not proportional to s", s=s, steps=total, gradients=len(evals))
    chain = np.asarray(m.chain)
    require(chain.shape == (c["steps"], ref.n), "chain has the wrong shape", shape=chain.shape)
    seen, uniq = set(), []
    for P in pts:
        if P.shape == X0.shape and P.tobytes() not in seen:
            seen.add(P.tobytes())
            uniq.append(P)
    co = coefs(s)
    prev = X0
    ws, labs, nt, at = [], [c["p"]["cmode"], f"s{s}"], False, 0
    for k in range(total):
        j, rem = divmod(k - c["nburn"], gap)
        X1 = chain[j] if k >= c["nburn"] and rem == 0 else None
        at, new, z, err = explain(ref, prev, X1, uniq, at, s, delta, lmda, co)
        if at is None:
            fail("SKROCK step is not an SK-ROCK step from any of the points where it evaluated the gradient", step=k, s=s,
                 deviation=err, delta=delta, lmda=lmda, x=prev, got=X1)
        nt = nt or (s >= 2 and np.abs(ref.gradlogpi(prev, lmda)).max() > 0)
        z = np.concatenate([np.real(z), np.imag(z)]) if ref.cplx_params else np.real(z)
        tol = 1e-9 * max(np.abs(new).max(), np.abs(prev).max()) / np.sqrt(2 * delta)
        if not np.all(np.abs(z) <= 8.5 + tol):
            fail("SKROCK noise out of range for standard normal noise", step=k, noise=z, s=s, delta=delta, x=prev, got=new)
        if tol < 1e-2:
            ws.append(z)
        prev = new
    if ws:
        check_standard_normal(np.array(ws), "SKROCK")
    return Result(nt, labs)


TARGETS = [
    Target("step", cases(), run, 1000, 60000, shards=8),
    Target("stages", high_cases(), run, 120, 3000, shards=4),
    Target("marathon", marathon(), run, 8, 200, shards=4),
    Target("noise", noise_cases(), run, 40, 600, shards=5),
    forms.target(["skrock"]),
]
