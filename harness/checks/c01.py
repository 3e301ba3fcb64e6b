"""C01: every MYULA transition is the proximal Langevin step with iid standard normal noise."""
import numpy as np
from hypothesis import strategies as st

from harness import forms
from harness.core import Result, Target, fail, require
from harness.gen import (SEED, Spy, arr, arr_desc, build, bandlimits, dedup, maybe_warm, mwn, np_seed, problems, px_synthesis_matrix, quad_weights,
                         quiet, start_vec, vsoft, wav_configs)
from harness.stats import check_standard_normal

PROPERTY = "C01"
RULE = (
    "start-forms: start points of other types and layouts against the same values as doubles, same seed. "
    "Hypothesis draws inverse problems (measurement identity/sparse/dense, real or complex; identity/orthonormal/diagonal "
    "transform; scalar/int/vector/matrix errors; analysis and synthesis; L1 threshold) plus small spherical wavelet problems, "
    "step sizes and start points; every recorded transition is compared with a dense reference drift and the implied noise "
    "tested for N(0,1). Non-trivial: the prox term and the data gradient are both non-zero at some visited state."
)
ASSUMPTIONS = ["numpy global RNG yields standard normals; statistical limits have false-alarm probability < 1e-9 per case"]


def check_chain(X0, chain, drift_terms, delta, cplx, ctx):
    """drift_terms(x) -> (prox displacement, gradient term): x' = x + sum + sqrt(2 delta) w."""
    ws = []
    nontriv = False
    prev = X0
    for k in range(len(chain)):
        a, b = drift_terms(prev)
        mean = prev + a + b
        S = max(np.abs(prev).max(), np.abs(a).max(), np.abs(b).max(), np.abs(chain[k]).max())
        if np.abs(a).max() > 0 and np.abs(b).max() > 0:
            nontriv = True
        dev = chain[k] - mean
        tol = 1e-10 * S
        w = dev / np.sqrt(2 * delta)
        parts = np.concatenate([w.real, w.imag]) if cplx else np.real(w)
        lim = 8.5 + tol / np.sqrt(2 * delta)
        if not np.all(np.abs(parts) <= lim):
            i = int(np.argmax(np.abs(parts)))
            fail("MYULA step is not the proximal Langevin step (implied noise out of range)", step=k, component=i,
                 implied_noise=float(parts[i]), limit=lim, x=prev, got=chain[k], drift=mean, **ctx)
        if tol / np.sqrt(2 * delta) < 1e-3:
            ws.append(parts)
        prev = chain[k]
    if ws:
        check_standard_normal(np.array(ws), "MYULA", **ctx)
    return nontriv


@st.composite
def step_cases(draw):
    p = draw(problems(nmax=draw(st.sampled_from([3, 3, 6, 6, 6, 14, 14, 60]))))
    c = {
        "p": p,
        "lmda": draw(st.sampled_from([1e-3, 0.02, 0.1, 0.5, 1.0, 3.0])),
        "frac": draw(st.sampled_from([1e-4, 0.01, 0.1, 0.3, 0.6, 1.0])),
        "start": draw(arr_desc(scales=(-1, 6))),
        "ratio": draw(st.sampled_from([0, 0, 0, 0.5, 1, 2, 5])),  # >0: delta = ratio*lmda, a few steps only
        "steps": draw(st.sampled_from([1, 2, 5, 12, 40, 120, 120, 400])),
        "ngap": draw(st.sampled_from([0, 1, 1, 2, 3])),
        "nburn": draw(st.sampled_from([0, 0, 1, 4, 30])),
        "rerun": draw(st.booleans()),
        "seed": draw(SEED),
    }
    return maybe_warm(draw, c)


def run_step(c):
    from pxmcmc.mcmc import MYULA, PxMCMCParams

    ref, op, prior = build(c["p"])
    lmda = c["lmda"]
    delta = c["frac"] / ref.lipschitz(lmda)
    steps = c["steps"]
    if c["ratio"]:
        delta = c["ratio"] * lmda
        steps = min(steps, 5)
    nburn = min(c["nburn"], steps) if c["ratio"] else c["nburn"]
    gap = max(1, c["ngap"])
    par = PxMCMCParams(lmda=lmda, delta=delta, mu=c["p"]["mu"], nsamples=steps, nburn=nburn, ngap=c["ngap"],
                       complex=ref.cplx_params, verbosity=0)
    X0 = start_vec(ref, c["start"])
    pts = []
    with np_seed(c["seed"]), quiet():
        m = MYULA(Spy(op, "forward", pts), prior, par)
        m.run(X0.copy())
        first = np.array(m.chain, copy=True)
        if c["rerun"]:
            m2 = MYULA(op, prior, par)
            m2.run(X0.copy())
            require(not np.array_equal(m2.chain, first), "two runs without reseeding use the same noise")
    chain = first
    require(chain.shape == (steps, ref.n), "chain has the wrong shape", shape=chain.shape)
    require(np.iscomplexobj(chain) == ref.cplx_params, "chain dtype does not follow the complex option")
    if nburn or gap > 1:
        # the sampler evaluates the forward map at every state it visits, recorded or not
        traj = dedup(pts, X0.shape)
        if traj and np.array_equal(traj[0], X0):
            traj = traj[1:]
        want = nburn + (steps - 1) * gap + 1
        require(len(traj) >= want, "fewer states visited than burn-in and thinning ask for", got=len(traj), expected=want)
        for j in range(steps):
            require(np.array_equal(chain[j], traj[nburn + j * gap]), "a recorded sample is not the state visited at its iteration", sample=j)
        chain = np.array(traj[:want])

    def terms(x):
        return -(delta / lmda) * (x - ref.prox(x)), -delta * ref.gradg(x)

    nt = check_chain(X0, chain, terms, delta, ref.cplx_params, {"delta": delta, "lmda": lmda})
    return Result(nt, [c["p"]["cmode"], c["p"]["setting"], c["p"]["sig"], f"steps{c['steps']}"])


@st.composite
def noise_cases(draw, nmax=400):
    """Many parameters and steps, for the tails of the noise."""
    n = draw(st.sampled_from([65, 100, 257, nmax]))
    p = draw(problems(nmax=2))
    p.update(n=n, m=n, meas=draw(st.sampled_from(["identity", "path"])), sig=draw(st.sampled_from(["scalar", "vector"])), trans="id")
    return {"p": p, "lmda": draw(st.sampled_from([0.1, 1.0])), "frac": draw(st.sampled_from([0.1, 0.5])), "start": draw(arr_desc(scales=(-1, 2))),
            "ratio": 0, "steps": draw(st.sampled_from([300, 1000, 1500])), "ngap": 1, "nburn": 0, "rerun": False, "seed": draw(SEED)}


@st.composite
def marathon(draw):
    """Runs as long as real ones."""
    c = draw(step_cases())
    c["p"].update(n=draw(st.integers(1, 3)), m=2)
    c.update(steps=draw(st.sampled_from([2500, 6000])), nburn=draw(st.sampled_from([0, 1001, 3000])), ngap=draw(st.sampled_from([1, 1, 3])), ratio=0, rerun=False)
    return c


CONFIGS = wav_configs(3, 6)


@st.composite
def sphere_cases(draw):
    return {
        "cfg": list(draw(st.sampled_from(CONFIGS))),
        "op": draw(st.sampled_from(["swt", "path", "wl"])),
        "setting": draw(st.sampled_from(["synthesis", "analysis"])),
        "prior": draw(st.sampled_from(["L1", "S2", "S2"])),
        "sig": draw(st.sampled_from([0.1, 1.0])),
        "vec": draw(st.booleans()),
        "T": draw(st.sampled_from([0.0, 0.05, 0.5])),
        "data": draw(arr_desc(kinds=["normal", "sparse"], scales=(0, 2))),
        "start": draw(arr_desc(kinds=["normal", "sparse", "ints"], scales=(0, 4))),
        "npaths": draw(st.integers(1, 9)),
        "frac": draw(st.sampled_from([0.01, 0.2, 0.8])),
        "steps": draw(st.integers(1, 6)),
        "seed": draw(SEED),
    }


def sphere_problem(c):
    """Build a spherical problem via pxmcmc and its dense reference straight from pys2let/pyssht."""
    import pyssht
    from scipy import sparse

    from pxmcmc.forward import ForwardOperator, PathIntegralOperator, SphericalWaveletTransformOperator
    from pxmcmc.measurements import WeakLensing
    from pxmcmc.prior import L1, S2_Wavelets_L1
    from pxmcmc.transforms import SphericalWaveletTransform

    L, B, J = c["cfg"]
    npx = mwn(L)
    Psi = px_synthesis_matrix(L, B, J)
    g = np.random.Generator(np.random.PCG64(c["seed"]))
    cdata = c["op"] == "wl"
    if c["op"] == "swt":
        A = np.eye(npx)
    elif c["op"] == "path":
        A = g.random((c["npaths"], npx)) * (g.random((c["npaths"], npx)) < 0.4)
    else:
        ker = np.zeros(L * L)
        for el in range(2, L):
            ker[el * el: (el + 1) ** 2] = -np.sqrt((el + 2) * (el - 1) / (el * (el + 1)))
        A = np.zeros((npx, npx), dtype=complex)
        for i in range(npx):
            e = np.zeros(npx, dtype=complex)
            e[i] = 1
            A[:, i] = pyssht.inverse(ker * pyssht.forward(e.reshape(L, 2 * L - 1), L, Spin=0), L, Spin=2).ravel()
    m = A.shape[0]
    data = arr(c["data"], m, cdata)
    sig = c["sig"] * (0.5 + g.random(m)) if c["vec"] else c["sig"]
    Cinv = np.eye(m) / np.broadcast_to(sig, (m,)) ** 2
    if c["op"] == "swt":
        op = SphericalWaveletTransformOperator(data, sig, c["setting"], L, B, J)
    elif c["op"] == "path":
        op = PathIntegralOperator(sparse.csr_matrix(A), data, sig, c["setting"], L, B, J)
    else:
        tr = SphericalWaveletTransform(L, B, J)
        op = ForwardOperator(data, sig, c["setting"], tr, WeakLensing(L), nparams=tr.ncoefs if c["setting"] == "synthesis" else npx)
    M = A @ Psi if c["setting"] == "synthesis" else A
    n = M.shape[1]
    require(op.nparams == n, "number of sampled parameters does not match the setting", got=op.nparams, expected=n)
    T = c["T"]
    if c["setting"] == "synthesis" and c["prior"] == "S2":
        wts = np.concatenate([quad_weights(b) for b in bandlimits(L, B, J)])
        prior = S2_Wavelets_L1("synthesis", op.transform.inverse, op.transform.inverse_adjoint, T, L, B, J)
        prox = lambda x: vsoft(x, T * wts)
    elif c["setting"] == "synthesis":
        prior = L1("synthesis", op.transform.inverse, op.transform.inverse_adjoint, T)
        prox = lambda x: vsoft(x, T)
    else:
        # orthonormal pair for the analysis prior (identity), independent of the wavelets
        prior = L1("analysis", lambda x: x, lambda x: x, T)
        prox = lambda x: vsoft(x, T)
    H = M.conj().T @ Cinv
    return op, prior, prox, (lambda x: np.real(H @ (M @ x - data))), float(np.linalg.norm(H @ M, 2)), n


def run_sphere(c):
    from pxmcmc.mcmc import MYULA, PxMCMCParams

    op, prior, prox, gradg, lip, n = sphere_problem(c)
    lmda = 1.0 / max(lip, 1e-6)
    delta = c["frac"] / (1 / lmda + lip)
    X0 = arr(c["start"], n)
    par = PxMCMCParams(lmda=lmda, delta=delta, nsamples=c["steps"], nburn=0, ngap=1, verbosity=0)
    with np_seed(c["seed"]), quiet():
        m = MYULA(op, prior, par)
        m.run(X0.copy())
    nt = check_chain(X0, m.chain, lambda x: (-(delta / lmda) * (x - prox(x)), -delta * gradg(x)), delta, False,
                     {"cfg": c["cfg"], "op": c["op"]})
    return Result(nt, [c["op"], c["setting"]])


TARGETS = [
    Target("step", step_cases(), run_step, 1600, 60000, shards=6),
    Target("noise", noise_cases(), run_step, 12, 300, shards=4),
    Target("marathon", marathon(), run_step, 8, 200, shards=4),
    Target("sphere", sphere_cases(), run_sphere, 80, 2500, shards=2),
    forms.target(["myula"]),
]
